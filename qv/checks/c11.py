"""C11: compiling a session."""
import itertools
import math
import random

from ..prog import sym_input, inbit, Spec, verify_circuit, Violation, ReplayMismatch
from ..equiv import RawCircuit, RawInstr, RawOp, dagger_op
from ..interp import SYM_PREFIX
from ..smt import z3, check
from ..sparse import simulate

LEVEL = "translation_validation"
TECH = "symbolic execution of the compiled circuit followed by the inverse of the recorded program, decided by an SMT solver over all inputs"
FUNCTIONS = ["qrisp.core.compilation.{qompiler, gen_hybrid_mcx_data, qft_cancellation, update_depth_dic}", "qrisp.permeability.qc_transformations.{optimize_allocations, parallelize_qc, lightcone_reduction, topological_sort}",
             "qrisp.core.quantum_session.QuantumSession.compile", "qrisp.circuit.pass_management.passes.{decompose, fuse_adjacents}", "recompile methods of GidneyLogicalAND and JonesToffoli"]
BOUNDS = ("quick: 40 hand written programs (temporaries, nested and overlapping life times, automatic multi controlled gates, adders, comparisons, environments, logic synthesis, Fourier arithmetic, arrays) and 480 generated programs of "
          "6..12 steps over 30 step kinds on two input registers (5 qubits) and up to 4 temporaries, each with up to 8 option sets (workspace 0..5, measurement based uncomputation, cancellation of Fourier transforms, gate speed); "
          "all input basis states symbolic, superpositions by linearity.  Reduction to intended measurements: outcome distributions for all input density matrices.  thorough: 1200 generated programs of up to 18 steps.")
OUTSIDE = "programs outside the family; disable_uncomputation=False (variables are chosen by Python reference counts); sessions with user measurements together with intended measurements; depth and qubit count of the result"
HOW = ("the program is recorded by the real session and compiled by the real compiler.  Inputs are separate qubits copied in by marked gates, so the compiler can not assume anything about them.  The compiled circuit "
       "followed by the harness' inverse of the recorded program is executed symbolically; z3 decides that all qubits return to |0>, that no measurement outcome depends on the inputs and that no phase is left.")

PI = math.pi


def wire_inputs(qc, out):
    """instructions of qc with input markers replaced by copies from input qubits"""
    for ins in qc.data:
        n = ins.op.name
        if n.startswith(SYM_PREFIX):
            out.data.append(RawInstr(RawOp("cx", (), 2), [("in", n[len(SYM_PREFIX):]), ins.qubits[0]]))
        elif n == "qb_alloc":
            continue
        else:
            out.data.append(RawInstr(ins.op, ins.qubits, ins.clbits))


def compare(A, B, live, tag, phase="exact", mcm=False):
    """A: compiled, B: recorded; live: qubits of the live variables"""
    both = RawCircuit(A.qubits, A.clbits)
    have = set(A.qubits)
    both.qubits += [q for q in live if q not in have]
    have |= set(live)
    wire_inputs(A, both)
    wb = RawCircuit(B.qubits, B.clbits)
    wire_inputs(B, wb)
    names = []
    for ins in wb.data:
        for q in ins.qubits:
            if isinstance(q, tuple) and q[0] == "in" and q[1] not in names:
                names.append(q[1])
    names = [("in", n) for n in names]
    ls = set(live)
    ren = {q: (q if q in ls else ("ref", q)) for q in B.qubits}
    for q in names:
        ren[q] = q
    out = []
    for ins in reversed(wb.data):
        dagger_op(ins.op, [ren[q] for q in ins.qubits], out)
    both.data += out
    both.qubits += [q for q in ren.values() if isinstance(q, tuple) or q not in have]
    sp = Spec()
    sp.phase = phase
    init = {}
    for q in names:
        init[q] = q[1]
        sp.expect[q] = inbit(q[1])
        sp.label[q] = q[1]
    return verify_circuit(both, sp, init=init, tag=tag)


OPTS = {
    "plain": dict(),
    "ws1": dict(workspace=1),
    "ws3": dict(workspace=3),
    "mcm": dict(compile_mcm=True),
    "mcmws": dict(compile_mcm=True, workspace=4),
    "noqft": dict(cancel_qfts=False),
    "speed": dict(gate_speed="t"),
    "speedws": dict(gate_speed="t", workspace=5, compile_mcm=True),
}


def options(name):
    kw = dict(OPTS[name])
    if kw.get("gate_speed"):
        from qrisp import t_depth_indicator
        kw["gate_speed"] = lambda op: 0 if op.name.startswith(SYM_PREFIX) or op.name == "cy" else t_depth_indicator(op, 2 ** -4)
    return kw


# ------------------------------------------------------------------ generated programs
class World:
    def __init__(self):
        from qrisp import QuantumFloat, merge
        self.a = QuantumFloat(3, name="a")
        self.o = QuantumFloat(2, name="o")
        sym_input(self.a.reg, "a")
        sym_input(self.o.reg, "o")
        merge(self.a, self.o)
        self.temps = []          # (variable, undo function)
        self.n = 0

    @property
    def qs(self):
        return self.a.qs


def steps():
    """name -> (function(world), modifies a?)"""
    import qrisp as Q
    from qrisp.circuit import XGate, ZGate, SwapGate, PGate, YGate

    def temp(make):
        def f(w):
            undo_var = make(w)
            w.temps.append(undo_var)
        return f

    def t_and(method):
        inv = {"gidney": "gidney_inv"}.get(method, method)

        def make(w):
            t = Q.QuantumBool(name="t%d" % w.n, qs=w.qs)
            w.n += 1
            Q.mcx([w.a[0], w.a[1]], t[0], method=method)

            def undo():
                Q.mcx([w.a[0], w.a[1]], t[0], method=inv)
                t.delete()
            return t, undo
        return make

    def t_many(w):
        t = Q.QuantumBool(name="t%d" % w.n, qs=w.qs)
        w.n += 1
        ctl = list(w.a) + [x[0][0] for x in w.temps[-1:]]
        Q.mcx(ctl, t[0], ctrl_state="1" * len(ctl))

        def undo():
            Q.mcx(ctl, t[0], ctrl_state="1" * len(ctl))
            t.delete()
        return t, undo

    def t_cmp(w):
        c = Q.QuantumBool(name="c%d" % w.n, qs=w.qs)
        w.n += 1

        def go():
            Q.x(w.a[2])
            Q.mcx([w.a[2], w.a[1]], c[0])
            Q.x(w.a[2])
        go()

        def undo():
            with Q.invert():
                go()
            c.delete()
        return c, undo

    def t_copy(w):
        t = Q.QuantumVariable(2, name="d%d" % w.n, qs=w.qs)
        w.n += 1
        Q.cx(w.a[0], t[0])
        Q.cx(w.a[2], t[1])

        def undo():
            Q.cx(w.a[2], t[1])
            Q.cx(w.a[0], t[0])
            t.delete()
        return t, undo

    def close(i):
        def f(w):
            if w.temps:
                t, undo = w.temps.pop(i if abs(i) <= len(w.temps) and i < len(w.temps) else -1)
                # a temporary may be a control of a later one: close in reverse order then
                undo()
        return f

    def use(w):
        for t, _ in w.temps[-1:]:
            Q.cx(t[0], w.o[0])

    def use2(w):
        for t, _ in w.temps[:1]:
            Q.cp(PI / 4, t[0], w.o[1])

    def use3(w):
        c = [t[0] for t, _ in w.temps]
        if c:
            Q.mcx(c + [w.a[0]], w.o[1])

    def env(w):
        for t, _ in w.temps[-1:]:
            with Q.control(t[0]):
                Q.cx(w.a[0], w.o[1])
                Q.x(w.o[0])

    def scratch(w):
        s = Q.QuantumVariable(1, name="s%d" % w.n, qs=w.qs)
        w.n += 1
        Q.h(s[0])
        Q.cz(s[0], w.a[1])
        Q.h(s[0])
        Q.cx(s[0], w.o[0])
        Q.h(s[0])
        Q.cz(s[0], w.a[1])
        Q.h(s[0])
        s.delete()

    def gw(w):
        @Q.gate_wrap
        def inner(a, o):
            t = Q.QuantumBool()
            Q.mcx([a[0], a[1]], t[0])
            Q.cx(t[0], o[0])
            Q.mcx([a[0], a[1]], t[0])
            t.delete()
        inner(w.a, w.o)

    V = {
        "and": (temp(t_and("gray")), 0), "andg": (temp(t_and("gidney")), 0), "many": (temp(t_many), 0), "cmp": (temp(t_cmp), 0), "copy": (temp(t_copy), 0),
        "close": (close(-1), 0), "use": (use, 0), "use2": (use2, 0), "use3": (use3, 0), "env": (env, 0), "scratch": (scratch, 0), "gw": (gw, 0),
        "mcx_o": (lambda w: Q.mcx(list(w.a) + [w.o[0]], w.o[1]), 0),
        "mcx_oo": (lambda w: Q.mcx(list(w.a) + [w.o[1]], w.o[0], ctrl_state="0110"), 0),
        "ccx": (lambda w: Q.mcx([w.a[0], w.o[1]], w.o[0]), 0),
        "cx_ao": (lambda w: Q.cx(w.a[1], w.o[0]), 0),
        "cx_oo": (lambda w: Q.cx(w.o[0], w.o[1]), 0),
        "swap": (lambda w: Q.swap(w.o[0], w.o[1]), 0),
        "h_o": (lambda w: Q.h(w.o[0]), 0),
        "h_o1": (lambda w: Q.h(w.o[1]), 0),
        "t_a": (lambda w: Q.t(w.a[0]), 0),
        "t_o": (lambda w: Q.t(w.o[0]), 0),
        "sx_o": (lambda w: Q.sx(w.o[1]), 0),
        "p_o": (lambda w: Q.p(0.37, w.o[1]), 0),
        "cp_ao": (lambda w: Q.cp(PI / 8, w.a[2], w.o[0]), 0),
        "rzz": (lambda w: Q.rzz(PI / 4, w.a[0], w.o[1]), 0),
        "mcz": (lambda w: Q.mcz([w.a[0], w.a[2], w.o[0]]), 0),
        "gph": (lambda w: Q.gphase(0.3, w.o[0]), 0),
        "cy": (lambda w: Q.cy(w.a[0], w.o[1]), 0),
        "x_o": (lambda w: Q.x(w.o[0]), 0),
        "bar": (lambda w: Q.barrier([w.a[0], w.o[0]]), 0),
        "fred": (lambda w: w.qs.append(SwapGate().control(1), [w.a[1], w.o[0], w.o[1]]), 0),
        "x_a": (lambda w: Q.x(w.a[0]), 1),
        "cx_oa": (lambda w: Q.cx(w.o[0], w.a[0]), 1),
        "h_a": (lambda w: Q.h(w.a[1]), 1),
        "swap_ao": (lambda w: Q.swap(w.a[0], w.o[1]), 1),
        "cxaa": (lambda w: Q.cx(w.a[2], w.a[0]), 1),
    }
    return V


def run_program(toks, opt, tag):
    V = steps()
    w = World()
    for t in toks:
        f, mod = V[t]
        if mod:
            while w.temps:
                V["close"][0](w)
        f(w)
    while w.temps:
        V["close"][0](w)
    live = list(w.a.reg) + list(w.o.reg)
    B = w.qs.copy()
    A = w.qs.compile(**options(opt))
    return compare(A, B, live, tag, phase="exact" if "mcm" not in opt and opt != "speedws" else "relative")


def generated(n, lo, hi, seed):
    V = list(steps())
    rnd = random.Random(seed)
    openers = ["and", "andg", "many", "cmp", "copy"]
    out = []
    for k in range(n):
        L = rnd.randint(lo, hi)
        toks = []
        for _ in range(L):
            r = rnd.random()
            if r < 0.22:
                toks.append(rnd.choice(openers))
            elif r < 0.4:
                toks.append(rnd.choice(["use", "use2", "use3", "env", "close", "mcx_o", "mcx_oo"]))
            else:
                toks.append(rnd.choice(V))
        out.append(toks)
    return out


# ------------------------------------------------------------------ library programs
def library():
    """name -> function returning the list of live qubits and the session"""
    import qrisp as Q
    from qrisp import QuantumFloat, QuantumBool, QuantumVariable, QuantumArray, QuantumModulus, control, invert, conjugate, mcx, x, cx, h
    L = {}

    def F(n, name, e=0, s=False):
        q = QuantumFloat(n, e, signed=s, name=name)
        sym_input(q.reg, name)
        return q

    def prog(f):
        L[f.__name__] = f
        return f

    @prog
    def fourier_twice():
        a, b = F(3, "a"), F(3, "b")
        Q.fourier_adder(a, b)
        Q.fourier_adder(a, b)
        return [a, b]

    @prog
    def fourier_add_sub():
        a, b, c = F(2, "a"), F(3, "b"), F(2, "c")
        b += a
        b -= c
        b += 3
        return [a, b, c]

    @prog
    def gidney_pair():
        a, b, c = F(3, "a"), F(3, "b"), F(3, "c")
        Q.gidney_adder(a, b)
        Q.gidney_adder(b, c)
        return [a, b, c]

    @prog
    def gidney_ctrl():
        a, b, c = F(2, "a"), F(2, "b"), F(1, "c")
        with control(c[0]):
            Q.gidney_adder(a, b)
        with invert():
            Q.gidney_adder(3, a)
        return [a, b, c]

    @prog
    def qcla_add():
        a, b = F(4, "a"), F(4, "b")
        Q.qcla(a, b)
        return [a, b]

    @prog
    def cuccaro_add():
        a, b = F(3, "a"), F(3, "b")
        Q.cuccaro_adder(a, b)
        return [a, b]

    @prog
    def product():
        a, b = F(2, "a"), F(2, "b")
        c = a * b
        return [a, b, c]

    @prog
    def product_delete():
        a, b, o = F(2, "a"), F(2, "b"), F(1, "o")
        c = a * b
        cx(c[1], o[0])
        c.uncompute()
        return [a, b, o]

    @prog
    def hybrid():
        a, b = F(2, "a"), F(2, "b")
        c = Q.hybrid_mult(a, b)
        return [a, b, c]

    @prog
    def compare_if():
        a, b, o = F(2, "a"), F(2, "b"), F(2, "o")
        with a < b:
            x(o[0])
            cx(o[0], o[1])
        return [a, b, o]

    @prog
    def equal_if():
        a, b, o = F(2, "a"), F(2, "b"), F(1, "o")
        with a == b:
            h(o[0])
        with a != 3:
            x(o[0])
        return [a, b, o]

    @prog
    def nested_if():
        a, b, o = F(2, "a"), F(2, "b"), F(1, "o")
        with a > b:
            with b == 1:
                x(o[0])
        return [a, b, o]

    @prog
    def bools():
        a, b, c, o = (F(1, n) for n in "abco")
        p, q, r = QuantumBool(), QuantumBool(), QuantumBool()
        mcx([a[0], b[0]], p[0])
        mcx([b[0], c[0]], q[0])
        mcx([p[0], q[0]], r[0])
        cx(r[0], o[0])
        r.uncompute()
        q.uncompute()
        p.uncompute()
        return [a, b, c, o]

    @prog
    def truth_table():
        a, o = F(3, "a"), F(2, "o")
        from qrisp.alg_primitives.logic_synthesis import TruthTable
        b = QuantumVariable(2)
        TruthTable(["00010111", "10010110"]).q_synth(a, b)
        cx(b[0], o[0])
        TruthTable(["00010111", "10010110"]).q_synth(a, b)
        b.delete()
        return [a, o]

    @prog
    def truth_table_pt():
        a, o = F(3, "a"), F(2, "o")
        from qrisp.alg_primitives.logic_synthesis import TruthTable
        b = QuantumVariable(2)
        with conjugate(lambda: TruthTable(["00010111", "10010110"]).q_synth(a, b, method="gray_pt"))():
            cx(b[1], o[0])
        b.delete()
        return [a, o]

    for k in (3, 4, 5, 6):
        def f(k=k):
            a, o, d = F(k, "a"), F(1, "o"), F(2, "d")
            h(d[0])
            mcx(list(a), o[0], ctrl_state="10" * (k // 2) + "1" * (k % 2))
            cx(d[0], o[0])
            mcx(list(a)[:-1] + [d[1]], o[0])
            return [a, o, d]
        L["mcx_auto_%d" % k] = f

    for m in ("jones", "gidney", "balauca", "yong", "amy", "khattar", "maslov"):
        def f(m=m):
            a, o = F(2 if m in ("jones", "gidney", "amy") else 4, "a"), F(1, "o")
            if m == "gidney":
                t = QuantumBool()
                mcx(list(a), t[0], method="gidney")
                cx(t[0], o[0])
                mcx(list(a), t[0], method="gidney_inv")
                t.delete()
            else:
                mcx(list(a), o[0], method=m)
                h(a[0])
                mcx(list(a), o[0], method=m)
            return [a, o]
        L["mcx_" + m] = f

    @prog
    def mcp_auto():
        a = F(4, "a")
        Q.mcp(PI / 4, list(a))
        h(a[1])
        Q.mcp(-PI / 2, list(a)[1:], ctrl_state="010")
        return [a]

    @prog
    def qft_cancel():
        a, o = F(3, "a"), F(1, "o")
        Q.QFT(a)
        Q.cp(PI / 2, o[0], a[0])
        Q.QFT(a, inv=True)
        Q.QFT(a)
        Q.p(PI / 4, a[1])
        Q.QFT(a, inv=True)
        return [a, o]

    @prog
    def qft_different():
        a = F(3, "a")
        Q.QFT(a)
        Q.QFT(a, inv=True, exec_swap=False)
        Q.QFT(a, exec_swap=False)
        Q.QFT(a, inv=True)
        return [a]

    @prog
    def qft_subset():
        a, b = F(3, "a"), F(3, "b")
        Q.QFT(list(a)[:2] + [b[0]])
        Q.QFT([a[1], a[0], b[0]], inv=True)
        return [a, b]

    @prog
    def qft_entangled():
        a, o = F(2, "a"), F(1, "o")
        Q.QFT(a)
        cx(o[0], a[0])
        Q.QFT(a, inv=True)
        return [a, o]

    @prog
    def reuse():
        a, o = F(2, "a"), F(1, "o")
        for i in range(4):
            t = QuantumVariable(2)
            cx(a[0], t[i % 2])
            mcx([t[i % 2], a[1]], t[1 - i % 2])
            cx(t[1 - i % 2], o[0])
            mcx([t[i % 2], a[1]], t[1 - i % 2])
            cx(a[0], t[i % 2])
            t.delete()
            h(o[0])
        return [a, o]

    @prog
    def late_input():
        a = F(1, "a")
        t = QuantumVariable(2)
        cx(a[0], t[0])
        cx(t[0], t[1])
        cx(t[0], t[1])
        cx(a[0], t[0])
        t.delete()
        b = F(2, "b")
        cx(a[0], b[1])
        return [a, b]

    @prog
    def modular():
        a = QuantumModulus(5, inpl_adder=Q.gidney_adder)
        b = F(2, "b")
        for i in range(2):
            cx(b[i], a[i])
        a += 4
        return [a, b]

    @prog
    def array_index():
        arr = QuantumArray(QuantumFloat(1), (4,))
        vs = []
        for i, q in enumerate(arr):
            sym_input(q.reg, "e%d" % i)
            vs.append(q)
        i = F(2, "i")
        o = F(1, "o")
        with arr[i] as e:
            cx(e[0], o[0])
        return vs + [i, o]

    @prog
    def conj_env():
        a, o = F(2, "a"), F(2, "o")
        t = QuantumBool()

        def v(a, t):
            mcx([a[0], a[1]], t[0])
        with conjugate(v)(a, t):
            with control(t[0]):
                h(o[0])
                cx(o[0], o[1])
        t.delete()
        return [a, o]

    @prog
    def q_switch():
        i, o = F(2, "i"), F(2, "o")
        Q.q_switch(i, [lambda t: x(t[0]), lambda t: h(t[0]), lambda t: cx(t[0], t[1]), lambda t: Q.p(0.3, t[0])], o)
        return [i, o]

    @prog
    def temp_logical():
        a, o = F(3, "a"), F(1, "o")
        t, u = QuantumBool(), QuantumBool()
        mcx([a[0], a[1]], t[0], method="gidney")
        mcx([t[0], a[2]], u[0], method="gidney")
        Q.cz(u[0], o[0])
        mcx([t[0], a[2]], u[0], method="gidney_inv")
        mcx([a[0], a[1]], t[0], method="gidney_inv")
        u.delete()
        t.delete()
        return [a, o]

    @prog
    def grover_step():
        from qrisp.grover import diffuser
        a = F(3, "a")
        Q.mcz(list(a), ctrl_state="101")
        diffuser(a)
        return [a]
    return L


def lib_run(fn, opt, tag):
    vs = fn()
    qs = vs[0].qs
    live = [q for v in vs for q in v.reg]
    # every session qubit of a live variable
    have = set(live)
    for v in qs.qv_list:
        for q in v.reg:
            if q not in have:
                live.append(q)
                have.add(q)
    B = qs.copy()
    A = qs.compile(**options(opt))
    return compare(A, B, live, tag, phase="exact" if "mcm" not in opt and opt != "speedws" else "relative")


# ------------------------------------------------------------------ intended measurements
def distributions(qc, names, meas):
    """{outcome: {(j, k): <psi_k|P|psi_j>}} for all pairs of basis inputs"""
    cols = []
    for j in range(1 << len(names)):
        inp = {n: j >> i & 1 for i, n in enumerate(names)}
        sim = simulate(qc, inp, {}, None)
        if len(sim.branches) != 1:
            raise ReplayMismatch("unexpected measurement")
        br = sim.branches[0]
        pos = [sim.idx.get(q) for q in meas]
        col = {}
        for key, a in br.amps.items():
            if abs(a) < 1e-12:
                continue
            out = sum((key >> p & 1) << i for i, p in enumerate(pos) if p is not None)
            col.setdefault(out, {})[key] = a
        cols.append(col)
    res = {}
    # inputs that the circuit does not read stay in the environment
    read = {ins.op.name[len(SYM_PREFIX):] for ins in qc.data if ins.op.name.startswith(SYM_PREFIX)}
    unread = sum(1 << i for i, n in enumerate(names) if n not in read)
    for j, k in itertools.product(range(len(cols)), repeat=2):
        if (j ^ k) & unread:
            continue
        for out in set(cols[j]) & set(cols[k]):
            A, B = cols[j][out], cols[k][out]
            v = sum(a * B[key].conjugate() for key, a in A.items() if key in B)
            if abs(v) > 1e-12:
                res.setdefault(out, {})[j, k] = v
    return res


def intended(toks, pick, tag):
    V = steps()
    w = World()
    for t in toks:
        f, mod = V[t]
        if mod:
            while w.temps:
                V["close"][0](w)
        f(w)
    while w.temps:
        V["close"][0](w)
    allq = list(w.a.reg) + list(w.o.reg)
    meas = [allq[i] for i in pick]
    B = w.qs.copy()
    A = w.qs.compile(intended_measurements=list(meas))
    names = ["a[%d]" % i for i in range(3)] + ["o[%d]" % i for i in range(2)]
    pa, pb = distributions(A, names, meas), distributions(B, names, meas)
    re, im = {}, {}
    cons = []
    diffs = []

    def var(j, k):
        if (j, k) not in re:
            re[j, k] = re[k, j] = z3.Real("r_%d_%d" % (min(j, k), max(j, k)))
            iv = z3.Real("i_%d_%d" % (min(j, k), max(j, k))) if j != k else z3.RealVal(0)
            im[j, k], im[k, j] = (iv, -iv) if j < k else (-iv, iv)
            cons.append(z3.And(re[j, k] <= 1, re[j, k] >= -1))
            if j != k:
                cons.append(z3.And(iv <= 1, iv >= -1))
        return re[j, k], im[j, k]
    bad = []
    for out in set(pa) | set(pb):
        tot = []
        for jk in set(pa.get(out, {})) | set(pb.get(out, {})):
            d = pa.get(out, {}).get(jk, 0) - pb.get(out, {}).get(jk, 0)
            if abs(d) < 1e-9:
                continue
            r, i = var(*jk)
            tot.append(z3.RealVal("%.12f" % d.real) * r - z3.RealVal("%.12f" % d.imag) * i)
            bad.append((abs(d), out, jk))
        if tot:
            s = z3.Sum(tot)
            diffs.append(z3.Or(s > z3.RealVal("0.00001"), s < z3.RealVal("-0.00001")))
    s, m = check(*cons, z3.Or(*diffs) if diffs else z3.BoolVal(False))
    if s == "sat":
        d, out, (j, k) = max(bad)
        raise Violation("%s: measuring %s: outcome %d has another probability after compilation (input entries %d,%d, difference %.3g)" % (
            tag, [allq[i].identifier for i in pick], out, j, k, d), {"program": toks, "measured": list(pick)})
    return {"outcomes": len(pb)}


def cases(tier):
    T = tier == "thorough"
    out = []

    def mk(toks, opts, tag):
        def f():
            n = 0
            for o in opts:
                n += run_program(toks, o, "%s [%s]" % (tag, o)).get("gates", 0)
            return {"gates": n, "compilations": len(opts)}
        return f
    names = list(OPTS)
    for k, toks in enumerate(generated(1200 if T else 480, 6, 18 if T else 12, 5)):
        opts = names if T else [names[0]] + [names[1 + (k + i) % (len(names) - 1)] for i in range(4)]
        out.append(("gen-%03d" % k, mk(toks, opts, "program " + ",".join(toks))))

    def lm(name, fn, o):
        return lambda: lib_run(fn, o, "%s [%s]" % (name, o))
    for name, fn in library().items():
        for o in names:
            out.append(("lib-%s-%s" % (name, o), lm(name, fn, o)))

    def im(toks, picks):
        def f():
            n = 0
            for p in picks:
                n += intended(toks, p, "program " + ",".join(toks))["outcomes"]
            return {"outcomes": n}
        return f
    for k, toks in enumerate(generated(300 if T else 120, 3, 9, 11)):
        out.append(("meas-%03d" % k, im(toks, [(0,), (3,), (4,), (0, 4), (3, 4), (2, 1)])))
    return out
