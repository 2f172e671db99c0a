"""C13: claims about qfree-ness and permeability are true of the circuits they are made for."""
import itertools
import math

from ..prog import Violation, ReplayMismatch, sym_input
from ..matsym import Mat, evaluate
from ..pathsum import PathState, Undecided, Unsupported
from ..interp import Runner
from ..smt import z3, Encoder, check
from ..sparse import simulate
from . import c12

LEVEL = "bounded"
TECH = "symbolic execution of gates and library circuits with symbolic angles and inputs, decided by an SMT solver"
FUNCTIONS = ["qrisp.permeability.type_checker.{is_qfree, is_permeable}", "qrisp.circuit.operation.Operation.{control, inverse, copy, bind_parameters, c_if, is_permeable}",
             "qrisp.misc.utility.{gate_wrap, lifted}", "permeability / is_qfree annotations of the gates in qrisp.alg_primitives",
             "qrisp.environments.{GateWrapEnvironment, custom_control}"]
BOUNDS = ("every ordered pair of 58 instructions on 3 qubits as one gate (symbolic angles, and special angles), its inverse, controlled versions (1 control, both control states), bound and copied versions; "
          "every subset of qubits; the gates that 60 library calls (arithmetic, comparisons, logic synthesis, multi controlled gates, adders, arrays) put into the session, at every nesting level, registers up to 4 qubits.  "
          "thorough: triples of a reduced vocabulary, two controls, registers up to 6.")
OUTSIDE = "angles within 1e-5 of a special value (the classification rounds on purpose); whether a true property is recognised (only wrong claims are violations); traced programs"
HOW = ("gates: the matrix is computed with symbolic angles; if the code claims permeability on a set of qubits z3 decides that all entries between different basis states of this set vanish for all angles; "
       "if it claims qfree, that all but one entry of each column vanish.  Library gates: executed on symbolic basis states; z3 decides that no path changes a permeable qubit and that no input reaches two outputs.")

SPECIAL = {"a0": math.pi, "b0": math.pi / 2, "c0": -math.pi, "a1": math.pi / 2, "b1": math.pi, "c1": math.pi / 4, "a2": 2 * math.pi, "b2": 0.0, "c2": -math.pi / 2}


class Sp:
    symbolic = False

    def __call__(self, n):
        return SPECIAL[n]


def nonzero(cols, pairs):
    """z3 verdict: do all the listed entries (col, row) vanish for all angles"""
    lin = {}
    diffs, where = [], []
    for j, k in pairs:
        coords = {}
        for (r, e), c in cols[j].get(k, {}).items():
            coords.setdefault(r, []).append((e, c))
        for r, lst in coords.items():
            tot = z3.Sum([z3.RealVal(str(c)) * lin.setdefault(e, z3.Real("m%d" % len(lin))) for e, c in lst])
            diffs.append(tot != 0)
            where.append((j, k))
    s, m = check(z3.Or(*diffs) if diffs else z3.BoolVal(False))
    if s == "unsat":
        return None
    for d, w in zip(diffs, where):
        if z3.is_true(m.eval(d, model_completion=True)):
            return w
    raise ReplayMismatch("model without witness")


def claims(op):
    """(qfree?, [claimed permeable index sets]) as the code under test answers"""
    from qrisp.permeability import is_qfree, is_permeable
    n = op.num_qubits
    q = bool(is_qfree(op)) if op.num_clbits == 0 else False
    sets = []
    for r in range(1, n + 1):
        for s in itertools.combinations(range(n), r):
            if is_permeable(op, list(s)):
                sets.append(s)
    return q, sets


def check_op(op, cols, tag):
    """cols: matrix of op, little endian in its qubits"""
    q, sets = claims(op)
    # claims recorded in the gate
    rec = tuple(i for i in range(op.num_qubits) if op.permeability.get(i) is True)
    if rec and rec not in sets:
        sets.append(rec)
    n = 0
    for s in sets:
        m = sum(1 << i for i in s)
        w = nonzero(cols, [(j, k) for j in cols for k in cols[j] if (j ^ k) & m])
        n += 1
        if w:
            confirm(cols, [w], tag, "claimed permeable on qubits %s but maps basis state %d to %d" % (list(s), w[0], w[1]))
    if q or op.is_qfree is True:
        pairs = []
        for j in cols:
            ks = sorted(cols[j])
            pairs += [(j, k) for k in ks[1:]]
        w = nonzero(cols, pairs)
        n += 1
        if w:
            first = sorted(cols[w[0]])[0]
            confirm(cols, [w, (w[0], first)], tag, "claimed qfree but basis state %d is mapped to a superposition of %d and %d" % (w[0], first, w[1]))
    return n


def confirm(cols, entries, tag, msg):
    for t in range(8):
        subs = Subs(t)
        if all(abs(evaluate(cols[j][k], subs)) > 1e-3 for j, k in entries):
            raise Violation("%s: %s" % (tag, msg), {"angles": {k: v for k, v in subs.seen.items()}, "entries": entries})
    raise ReplayMismatch("%s: %s, but the entries are numerically small" % (tag, msg))


class Subs(dict):
    def __init__(self, t):
        self.t = t
        self.seen = {}

    def __getitem__(self, s):
        v = c12.VAL.get(s, 0.5) + 0.61 * self.t
        self.seen[s] = v
        return v


def cols_of(op):
    from qrisp.circuit import QuantumCircuit
    qc = QuantumCircuit(op.num_qubits)
    qc.append(op, qc.qubits)
    return Mat(qc.qubits).run(qc).cols


def ctrl_cols(cols, n, state):
    """matrix of the controlled gate: control is the first (least significant) qubit"""
    r = {}
    for j in range(1 << (n + 1)):
        c, t = j & 1, j >> 1
        r[j] = {k << 1 | c: a for k, a in cols[t].items()} if c == state else {j: {(0, ()): 1}}
    return r


def gate_cases(tier):
    V = c12.unitary_vocab()
    names = [v for v in V if v != "barrier1"]
    out = []

    def go(first, A, label):
        def f():
            n = cnt = 0
            for second in [None] + names:
                toks = [first] + ([second] if second else [])
                tag = "%s gate of %s" % (label, "+".join(toks))
                n += group(toks, A, tag, tier)
                cnt += 1
            return {"gates": cnt, "claims": n}
        return f

    def group(toks, A, tag, tier):
        qc = c12.build(V, toks, A, 3)
        op = qc.to_gate("g")
        cols = Mat(qc.qubits).run(qc).cols
        n = check_op(op, cols, tag)
        n += check_op(op.copy(), cols, tag + " copy")
        if len(toks) == 1:
            # the instruction itself
            ins = qc.data[-1]
            if ins.op.name != "barrier":
                n += check_op(ins.op, cols_of(ins.op), tag + " instruction")
                for d in derived(ins.op):
                    n += check_op(d, cols_of(d), tag + " instruction derived " + d.name)
        if "barrier" in toks:
            return n
        for fresh in (True, False):
            base = c12.build(V, toks, A, 3).to_gate("g") if fresh else op
            inv = base.inverse()
            n += check_op(inv, dag(cols), tag + " inverse")
            if tier == "quick" and len(toks) > 1 and not fresh:
                break
            if not any(t in ("ccx_pt", "ccx_pti") for t in toks):
                for st in (0, 1):
                    c = base.control(1, ctrl_state=str(st))
                    n += check_op(c, ctrl_cols(cols, 3, st), tag + " controlled %d" % st)
        if A.symbolic and len(toks) == 1:
            n += bound(qc, toks, tag)
        return n

    def bound(qc, toks, tag):
        n = 0
        syms = sorted(qc.abstract_params, key=str)
        if not syms:
            return 0
        for v in (0.0, math.pi, 2 * math.pi):
            for wrap in ("to_gate", "control", "plain"):
                ins = [i for i in c12.build(V, toks, c12.Ang(True), 3).data if i.op.abstract_params]
                base = c12.build(V, toks, c12.Ang(True), 3).to_gate("g") if wrap == "to_gate" else ins[-1].op
                if wrap == "control":
                    base = base.control(1)
                b = base.bind_parameters({s: v for s in syms})
                n += check_op(b, cols_of(b), "%s %s bound to %.2f" % (tag, wrap, v))
                n += check_op(base, cols_of(base), "%s %s after a copy was bound to %.2f" % (tag, wrap, v))
                b = base.bind_parameters({s: 0.5 for s in syms})
                n += claims_only(b, base, "%s %s bound again" % (tag, wrap))
        return n

    def claims_only(b, base, tag):
        # generic angle: the claims for the bound gate must hold for the matrix with symbolic angles, too
        return check_op(b, cols_of(base), tag)

    for t in names:
        out.append(("sym:" + t, go(t, c12.Ang(True), "symbolic")))
        if True:
            out.append(("special:" + t, go(t, Sp(), "special")))
    if tier == "thorough":
        red = ["x0", "h0", "p0", "rx0", "cx01", "cx10", "cz01", "swap01", "ocx01", "ccx", "xxyy01", "cry01", "cp01"]

        def go3(t):
            def f():
                n = 0
                for rest in itertools.product(red, repeat=2):
                    n += group([t] + list(rest), c12.Ang(True), "symbolic gate of %s" % "+".join([t] + list(rest)), tier)
                return {"claims": n}
            return f
        for t in red:
            out.append(("triple:" + t, go3(t)))
    return out


def dag(cols):
    from ..matsym import conj
    r = {j: {} for j in cols}
    for j in cols:
        for k, a in cols[j].items():
            r[k][j] = conj(a)
    return r


def derived(op):
    d = []
    if op.name != "barrier":
        d.append(op.inverse())
        d.append(op.inverse().inverse())
        if not op.name.startswith("pt"):
            d.append(op.control(1))
            d.append(op.control(1).inverse())
            d.append(op.inverse().control(1, ctrl_state="0"))
            if op.num_qubits < 3:
                d.append(op.control(2, ctrl_state="01"))
    return d


# ------------------------------------------------------------------ library gates
def lib_op(op, clean, after, tag):
    """clean: indices of qubits known to be |0> before the gate, after: known to be |0> after it"""
    from qrisp.circuit import QuantumCircuit
    perm = [i for i in range(op.num_qubits) if op.permeability.get(i) is True]
    qfree = op.is_qfree is True
    if not perm and not qfree:
        return 0
    zero = set(clean)
    if op.name.endswith("_dg") and after - zero and op.num_clbits == 0:
        # an uncomputation acts on the image of the computation: the same claim about its inverse
        op = op.inverse()
        zero = set(after)
    qc = QuantumCircuit(op.num_qubits, op.num_clbits)
    qc.append(op, qc.qubits, qc.clbits)
    init = {q: "q[%d]" % i for i, q in enumerate(qc.qubits) if i not in zero}
    last = None
    for kw in (dict(), dict(entry=3), dict(compact=96, expand_limit=6000)):
        r = Runner(PathState(**kw))
        for q, name in init.items():
            r.st.val[q] = r.sym_input(name)
        r.run(qc)
        st = r.st
        st.try_eliminate()
        enc = Encoder(st)
        outs = {q: enc.anf(f) for q, f in st.val.items() if not isinstance(q, tuple)}
        ins = {i: enc.anf(r.sym_input(init[qc.qubits[i]])) if i not in zero else z3.BoolVal(False) for i in range(op.num_qubits)}
        n = 0
        if perm:
            viol = [(i, z3.Xor(outs[qc.qubits[i]], ins[i])) for i in perm if qc.qubits[i] in outs]
            s, m = check(z3.Or(*[v for _, v in viol]) if viol else z3.BoolVal(False), timeout=60000)
            n += 1
            if s == "sat":
                if replay(qc, r, enc, m, init, perm, None, tag):
                    last = "path sum not reduced"
                    continue
        if qfree:
            pv = [v for v in range(st.nvars) if st.kind[v] == "path"]
            alt = [(enc.var(v), z3.Bool("alt!%d" % v)) for v in pv]
            viol = [z3.Xor(t, z3.substitute(t, *alt)) for t in outs.values()] if alt else []
            s, m = check(z3.Or(*viol) if viol else z3.BoolVal(False), timeout=60000)
            n += 1
            if s == "sat":
                if replay(qc, r, enc, m, init, None, True, tag):
                    last = "path sum not reduced"
                    continue
        return n
    raise Undecided("%s: %s" % (tag, last))


def replay(qc, r, enc, m, init, perm, qfree, tag):
    inp = {n: bool(z3.is_true(m.eval(enc.anf(r.sym_input(n)), model_completion=True))) for n in init.values()}
    sim = simulate(qc, inp, {}, {q: inp[v] for q, v in init.items()})
    for branch in sim.branches:
        seen = set()
        for key, a in branch.amps.items():
            if abs(a) < 1e-7:
                continue
            bits = {q: key >> i & 1 for q, i in sim.idx.items()}
            if perm is not None:
                for i in perm:
                    q = qc.qubits[i]
                    want = inp.get(init.get(q), False)
                    if bool(bits.get(q, 0)) != want:
                        raise Violation("%s: claimed permeable on qubit %d but input %s reaches an output with this qubit changed" % (
                            tag, i, "".join(str(int(inp.get(init.get(q), 0))) for q in qc.qubits)), {"inputs": {k: int(v) for k, v in inp.items()}})
            seen.add(tuple(sorted((qc.qubits.index(q), b) for q, b in bits.items() if q in qc.qubits)))
        if qfree and len(seen) > 1:
            raise Violation("%s: claimed qfree but input %s reaches several outputs" % (tag, "".join(str(int(inp.get(init.get(q), 0))) for q in qc.qubits)),
                            {"inputs": {k: int(v) for k, v in inp.items()}})
    return True


def lib_calls(n):
    """name -> function that runs a library call in a fresh session and returns the session"""
    from qrisp import (QuantumVariable, QuantumFloat, QuantumBool, QuantumArray, QuantumModulus, QuantumChar, QuantumSession, mcx, mcp, mcz, cx, h, x, cp, rzz,
                       control, invert, conjugate, custom_control, gate_wrap, lifted, auto_uncompute, inpl_add, gidney_adder, cuccaro_adder, fourier_adder, qcla,
                       sbp_add, sbp_mult, hybrid_mult, q_divmod, q_div, q_mult)
    from qrisp.environments import IterationEnvironment
    L = {}

    def F(k=n, e=0, s=False):
        return QuantumFloat(k, e, signed=s)

    for m in ("gray", "gray_pt", "gray_pt_inv", "balauca", "maslov", "yong", "amy", "jones", "gidney", "hybrid", "khattar", "auto"):
        for k in {"amy": (2,), "jones": (2,), "gidney": (2,), "maslov": (2, 3, 4)}.get(m, (2, 3, 4, 5)):
            def f(m=m, k=k):
                a, b = QuantumVariable(k), QuantumVariable(1)
                mcx(list(a), b[0], method=m)
                return a
            L["mcx %s %d" % (m, k)] = f

            def f(m=m, k=k):
                a, b = QuantumVariable(k), QuantumVariable(1)
                mcx(list(a), b[0], method=m, ctrl_state="0" * (k - 1) + "1")
                return a
            L["mcx %s %d open" % (m, k)] = f
    for m in ("gray", "balauca", "khattar", "auto"):
        for k in (2, 3, 4):
            def f(m=m, k=k):
                a = QuantumVariable(k)
                mcp(0.5, list(a), method=m)
                return a
            L["mcp %s %d" % (m, k)] = f
            if m != "khattar":
                def f(m=m, k=k):
                    a = QuantumVariable(k)
                    mcz(list(a), method=m)
                    return a
                L["mcz %s %d" % (m, k)] = f
    for nm, ad in (("gidney", gidney_adder), ("fourier", fourier_adder), ("qcla", qcla), ("cuccaro", cuccaro_adder)):
        def f(ad=ad):
            a, b = F(), F()
            ad(a, b)
            return a
        L["add " + nm] = f
        if nm != "cuccaro":
            def f(ad=ad):
                b = F()
                ad(3, b)
                return b
            L["cadd " + nm] = f

        def f(ad=ad):
            a, b = F(), F()
            c = QuantumBool()
            with control(c):
                ad(a, b)
            return a
        if nm in ("gidney", "fourier", "cuccaro"):
            L["ctrl add " + nm] = f

        def f(ad=ad):
            a, b = F(), F()
            with invert():
                ad(a, b)
            return a
        L["inv add " + nm] = f

    def expr(g, *regs):
        def f():
            rs = [F(*r) if isinstance(r, tuple) else r() for r in regs]
            keep.append(g(*rs))
            return rs[0]
        return f
    keep = []
    L["sbp a*b"] = expr(lambda a, b: a * b, (2,), (2,))
    L["sbp a*b s"] = expr(lambda a, b: a * b, (2, -1, True), (2,))
    L["a+b"] = expr(lambda a, b: a + b, (2,), (3,))
    L["a-b"] = expr(lambda a, b: a - b, (2,), (3,))
    L["a+3"] = expr(lambda a: a + 3, (3,))
    L["a*a"] = expr(lambda a: a * a, (3,))
    L["2a+b*c"] = expr(lambda a, b: 2 * a + b * a, (2,), (2,))
    L["a//b"] = expr(lambda a, b: a // b, (2,), (2,))
    L["a**2"] = expr(lambda a: a ** 2, (2,))
    L["round"] = expr(lambda a: a.__floor__() if hasattr(a, "__floor__") else a, (3, -1))
    for s in (False, True):
        for nm, g in (("<", lambda a, b: a < b), (">=", lambda a, b: a >= b), ("==", lambda a, b: a == b), ("!=", lambda a, b: a != b), (">", lambda a, b: a > b)):
            L["a%sb %s" % (nm, s)] = expr(g, (2, 0, s), (3, -1, s))
            L["a%s2 %s" % (nm, s)] = expr(lambda a, g=g: g(a, 2), (3, 0, s))
    L["bool and"] = expr(lambda a, b: a & b, QuantumBool, QuantumBool)
    L["bool or"] = expr(lambda a, b: a | b, QuantumBool, QuantumBool)
    L["bool xor"] = expr(lambda a, b: a ^ b, QuantumBool, QuantumBool)
    L["bool not"] = expr(lambda a: ~a, QuantumBool)
    L["copy duplicate"] = expr(lambda a: a.duplicate(init=True), (3,))
    L["char =="] = expr(lambda a: a == "c", QuantumChar)

    def f():
        a, b = F(), F()
        keep.append(hybrid_mult(a, b))
        return a
    L["hybrid_mult"] = f

    def f():
        a, b = F(2), F(2)
        keep.append(q_divmod(a, b))
        return a
    L["q_divmod"] = f

    def inpl(g, k=3, e=0, s=False):
        def f():
            a, b = F(k, e, s), F(2, e, s)
            g(a, b)
            return a
        return f

    def iadd(a, b):
        a += b

    def isub(a, b):
        a -= b

    def iaddc(a, b):
        a += 5

    def imul(a, b):
        a *= 3

    def ish(a, b):
        a <<= 2

    def ixor(a, b):
        a ^= b
    for nm, g in (("+=", iadd), ("-=", isub), ("+=5", iaddc), ("*=3", imul), ("<<=2", ish), ("^=", ixor)):
        L["inpl " + nm] = inpl(g)
        L["inpl s " + nm] = inpl(g, 3, -1, True)

    def mod(g):
        def f():
            a, b = QuantumModulus(5), QuantumModulus(5)
            keep.append(g(a, b))
            return a
        return f

    def mi(a, b):
        a *= 2

    def ma(a, b):
        a += b

    def mc(a, b):
        a += 3
    L["mod +"] = mod(ma)
    L["mod +3"] = mod(mc)
    L["mod *=2"] = mod(mi)

    # logic synthesis
    from qrisp.alg_primitives.logic_synthesis import TruthTable
    for m in ("gray", "pprm", "best", "gray_pt", "pprm_pt"):
        for bits in (["10010110"], ["00010111", "01101001"]):
            def f(m=m, bits=bits):
                a, b = QuantumVariable(3), QuantumVariable(len(bits))
                TruthTable(bits).q_synth(a, b, method=m)
                return a
            L["tt %s %d" % (m, len(bits))] = f

    # quantum indexing, arrays
    def f():
        arr = QuantumArray(QuantumFloat(1), (4,))
        i = QuantumFloat(2)
        keep.append(arr)
        with arr[i] as e:
            x(e[0])
        return i
    L["array index"] = f

    def f():
        a, b = QuantumArray(QuantumFloat(1), (2,)), QuantumArray(QuantumFloat(1), (2,))
        keep.append(a == b)
        keep.append(b)
        return a[0]
    L["array =="] = f

    # user gates
    def user(body, **kw):
        def f():
            a, b = QuantumVariable(2), QuantumVariable(1)
            gate_wrap(**kw)(body)(a, b) if kw else gate_wrap(body)(a, b)
            return a
        return f

    def body(a, b):
        t = QuantumBool()
        mcx([a[0], a[1]], t[0])
        cx(t[0], b[0])
        mcx([a[0], a[1]], t[0])
        t.delete()

    def body2(a, b):
        h(b[0])
        cp(0.3, a[0], b[0])
        h(b[0])
        rzz(0.4, a[1], b[0])
    L["wrap anc"] = user(body)
    L["wrap anc args"] = user(body, permeability=[0], is_qfree=True)
    L["wrap rot"] = user(body2)

    @lifted
    def lift(a):
        r = QuantumBool()
        mcx([a[0], a[1]], r[0])
        return r

    def f():
        a = QuantumVariable(2)
        keep.append(lift(a))
        return a
    L["lifted"] = f

    def f():
        a, c = QuantumVariable(2), QuantumBool()
        with control(c):
            keep.append(lift(a))
        return a
    L["ctrl lifted"] = f

    @custom_control
    def cc(a, b, ctrl=None):
        if ctrl is None:
            cx(a[0], b[0])
        else:
            mcx([ctrl, a[0]], b[0])

    def f():
        a, b, c = QuantumVariable(1), QuantumVariable(1), QuantumBool()
        cc(a, b)
        with control(c):
            cc(a, b)
        with invert():
            cc(a, b)
        return a
    L["custom control"] = f

    @auto_uncompute
    def au(a, b):
        t = QuantumBool()
        mcx([a[0], a[1]], t[0])
        r = QuantumBool()
        mcx([t[0], b[0]], r[0])
        return r

    def f():
        a, b = QuantumVariable(2), QuantumVariable(1)
        keep.append(au(a, b))
        return a
    L["auto uncompute"] = f

    def f():
        from qrisp import QFT
        a, c = QuantumVariable(3), QuantumBool()
        QFT(a)
        with control(c):
            QFT(a, inv=True)
        return a
    L["qft"] = f

    def f():
        from qrisp.grover import diffuser
        a = QuantumVariable(3)
        diffuser(a)
        return a
    L["diffuser"] = f

    def f():
        from qrisp import q_switch
        i, a = QuantumFloat(2), QuantumVariable(2)
        q_switch(i, [lambda t: x(t[0]), lambda t: h(t[0]), lambda t: cx(t[0], t[1]), lambda t: None], a)
        return a
    L["q_switch"] = f
    L["_keep"] = keep
    return L


def collect(data, clean, after, acc):
    """every gate with the qubits known to be |0> before / after it; clean, after: sets of qubits at the start / end"""
    clean = set(clean)
    states = []
    for ins in data:
        states.append(set(clean))
        if ins.op.name == "qb_alloc":
            clean.add(ins.qubits[0])
        else:
            clean -= set(ins.qubits)
    after = set(after)
    ends = []
    for ins in reversed(data):
        ends.append(set(after))
        if ins.op.name == "qb_dealloc":
            after.add(ins.qubits[0])
        else:
            after -= set(ins.qubits)
    ends.reverse()
    for ins, c, e in zip(data, states, ends):
        op = ins.op
        if op.definition is None:
            continue
        ci = frozenset(i for i, q in enumerate(ins.qubits) if q in c)
        ei = frozenset(i for i, q in enumerate(ins.qubits) if q in e)
        key = (id(op), ci, ei)
        if key in acc:
            continue
        acc[key] = (op, ci, ei)
        d = op.definition
        collect(d.data, {d.qubits[i] for i in ci}, {d.qubits[i] for i in ei}, acc)


def lib_cases(tier):
    out = []
    for n in ((3,) if tier == "quick" else (3, 5)):
        L = lib_calls(n)
        keep = L.pop("_keep")

        def go(name, fn, n):
            def f():
                var = fn()
                qs = (var[0].qs() if not hasattr(var, "qs") else var.qs)
                acc = {}
                collect(qs.data, (), (), acc)
                cnt = ops = 0
                from qrisp.permeability import is_qfree, is_permeable
                for op, clean, after in acc.values():
                    # queries as made by uncomputation and compilation
                    if op.num_qubits <= 6 and not op.abstract_params and op.num_clbits == 0:
                        try:
                            is_qfree(op)
                        except Exception as e:
                            if "measure" not in repr(e):
                                raise
                        for i in range(op.num_qubits):
                            is_permeable(op, [i])
                    k = lib_op(op, clean, after, "%s: gate %s" % (name, op.name))
                    if hasattr(op, "recompile"):
                        k += lib_op(op.recompile(), clean, after, "%s: recompiled gate %s" % (name, op.name))
                    ops += 1
                    cnt += k
                return {"gates": ops, "claims": cnt}
            return f
        for name, fn in L.items():
            out.append(("lib%d:%s" % (n, name), go(name, fn, n)))
    return out


def verify_cases(tier):
    """gate_wrap(verify=True) rejects wrong annotations"""
    from qrisp import QuantumVariable, gate_wrap, cx, h, x
    out = []
    V = c12.unitary_vocab()

    def go(t):
        def f():
            n = 0
            for A in (Sp(),):
                qc = c12.build(V, [t], A, 3)
                cols = Mat(qc.qubits).run(qc).cols
                op = qc.to_gate("g")
                for kw in (dict(is_qfree=True), dict(permeability=[0]), dict(permeability=[1]), dict(permeability="full", is_qfree=True)):
                    def body(a, b):
                        a.qs.append(op.copy(), [a[0], a[1], b[0]])
                    a, b = QuantumVariable(2), QuantumVariable(1)
                    try:
                        gate_wrap(verify=True, **kw)(body)(a, b)
                    except Exception as e:
                        if "Verification" in str(e):
                            continue
                        raise
                    ins = a.qs.data[-1]
                    order = [list(a) + list(b)][0]
                    perm = [order.index(q) for i, q in enumerate(ins.qubits) if ins.op.permeability[i] is True]
                    m = sum(1 << i for i in perm)
                    w = nonzero(cols, [(j, k) for j in cols for k in cols[j] if (j ^ k) & m])
                    n += 1
                    if w:
                        confirm(cols, [w], t, "verified annotation %s although basis state %d is mapped to %d" % (kw, w[0], w[1]))
                    if kw.get("is_qfree"):
                        pairs = [(j, k) for j in cols for k in sorted(cols[j])[1:]]
                        w = nonzero(cols, pairs)
                        n += 1
                        if w:
                            confirm(cols, [w], t, "verified qfree annotation although basis state %d is mapped to a superposition" % w[0])
            return {"claims": n}
        return f
    for t in V:
        if not t.startswith("barrier"):
            out.append(("verify:" + t, go(t)))
    return out


def cases(tier):
    return gate_cases(tier) + lib_cases(tier) + verify_cases(tier)
