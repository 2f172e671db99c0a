"""C18: dynamically traced programs."""
import math

from .. import jaspq
from ..jaspq import mark
from ..prog import Spec, verify_circuit, invec, inbit, z3, b2v, Violation

LEVEL = "translation_validation"
FUNCTIONS = ["qrisp.jasp.make_jaspr / TracingQuantumSession / DynamicQubitArray", "qrisp.jasp.Jaspr.{to_qc,inverse,control,flatten_environments}",
             "qrisp.jasp.jasp_expression.{control_transform,inv_transform,injection_transform,environment_collection}",
             "qrisp.jasp.interpreter_tools.interpreters.{qc_extraction,control_flow,environment_flattening}",
             "qrisp.jasp.program_control.{jrange,q_cond,q_fori_loop,q_while_loop,q_switch}",
             "jasp branches of environments, gate functions, adders, multiplication, comparison, modular arithmetic, QFT, cyclic shift, multi-controlled gates"]
BOUNDS = ("quick: run-time sizes and loop bounds 1..5, every control state of up to two controls, every combination of two nested environments; up to three classical conditions with a control state (every truth value); arithmetic on registers of up to 4 qubits. "
          "thorough: sizes up to 6 and every combination of three nested environments.  Basis inputs symbolic.")
OUTSIDE = "run-time values beyond the bound (every loop bound is unrolled by the extraction itself); real-time feedback on measured values; the invert flag of classical conditions outside tracing; execution by the mlir / catalyst back ends"
HOW = ("For every run-time value in the bound the traced program is extracted with Jaspr.to_qc and z3 decides for all basis inputs at once that it equals the statically executed program (traced circuit followed by the "
       "inverse of the static one restores every input, ancillas and relative phases included), or that it computes the stated integer function.")
NUM = [math.pi * 5 / 16, math.pi * 3 / 8, math.pi / 4]


# ------------------------------------------------------------------ structure
def bodies():
    """small quantum functions of one register a with run-time size n"""
    import qrisp as Q
    from qrisp import jasp as J

    def ladder(a, n):
        for i in J.jrange(n - 1):
            Q.cx(a[i], a[i + 1])

    def back(a, n):
        for i in J.jrange(1, n):
            Q.cx(a[n - 1 - i], a[n - i])
            Q.t(a[n - i])

    def step2(a, n):
        for i in J.jrange(n // 2):
            Q.x(a[2 * i])
            Q.s(a[2 * i + 1])

    def nested(a, n):
        for i in J.jrange(n):
            for j in J.jrange(i):
                Q.cp(math.pi / 2 ** 3 * (i - j), a[j], a[i])
            Q.x(a[i])

    def rot(a, n):
        for i in J.jrange(n):
            Q.p(math.pi / 8 * i, a[i])
            Q.rz(math.pi / 4 * (i + 1), a[n - 1 - i])
        Q.gphase(math.pi / 8, a[0])

    def hh(a, n):
        Q.h(a[0])
        for i in J.jrange(n - 1):
            Q.cx(a[i], a[i + 1])
        Q.t(a[n - 1])

    def sl(a, n):
        Q.x(a[1:n])
        Q.z(a[:n - 1])
        Q.mcx(a[:n - 1], a[n - 1])

    def cat(a, n):
        b = a[n - 1:] + a[:n - 1]
        for i in J.jrange(n - 1):
            Q.cx(b[i], b[i + 1])

    def cond(a, n):
        def tr(q):
            Q.x(q[0])
            Q.cx(q[0], q[1])

        def fa(q):
            Q.s(q[1])
            Q.cx(q[1], q[0])
        J.q_cond(n > 3, tr, fa, a)

    def condi(a, n):
        for i in J.jrange(n):
            with Q.conjugate(Q.x)(a[i]):
                Q.t(a[i])
            if not J.check_for_tracing_mode():
                if i % 2 == 0:
                    Q.x(a[i])
            else:
                with Q.control(i % 2 == 0):
                    Q.x(a[i])

    def anc(a, n):
        b = Q.QuantumVariable(n)
        Q.cx(a, b)
        for i in J.jrange(n):
            Q.t(b[i])
        Q.cx(a, b)
        b.delete()

    def swaps(a, n):
        for i in J.jrange(n // 2):
            Q.swap(a[i], a[n - 1 - i])

    def multi(a, n):
        Q.rxx(math.pi / 2, a[0], a[n - 1])
        Q.rzz(math.pi / 4, a[0], a[n - 1])
        Q.cy(a[0], a[1])
        Q.sx(a[1])

    return {"ladder": ladder, "back": back, "step2": step2, "nested": nested, "rot": rot, "hh": hh, "sl": sl, "cat": cat, "cond": cond, "condi": condi, "anc": anc,
            "swaps": swaps, "multi": multi}


def wrappers():
    """program transformations: (function, runs) -> function of (a, c, n); c is a register of two control qubits"""
    import qrisp as Q
    from qrisp import jasp as J

    def plain(f):
        return lambda a, c, n: f(a, n)

    def inv(f):
        def g(a, c, n):
            with Q.invert():
                f(a, n)
        return g

    def invw(f, w):
        def g(a, c, n):
            with Q.invert():
                w(a, c, n)
        return g

    def ctrl(state):
        def mk(f):
            def g(a, c, n):
                with Q.control(c[0], ctrl_state=state):
                    f(a, n)
            return g
        return mk

    def ctrl2(state):
        def mk(f):
            def g(a, c, n):
                with Q.control([c[0], c[1]], ctrl_state=state):
                    f(a, n)
            return g
        return mk

    def conj(f):
        def g(a, c, n):
            def v(x):
                Q.h(x[0])
                for i in J.jrange(n - 1):
                    Q.cx(x[i], x[i + 1])
            with Q.conjugate(v)(a):
                f(a, n)
        return g

    def ctrlconj(f):
        def g(a, c, n):
            def v(x):
                f(x, n)
            with Q.control(c[1], ctrl_state=0):
                with Q.conjugate(v)(a):
                    Q.t(a[0])
                    Q.x(a[n - 1])
        return g

    def loop(f):
        def g(a, c, n):
            for i in J.jrange(n - 1):
                with Q.control(c[0]):
                    f(a, n)
                Q.x(a[i])
        return g

    def ctrlinv(f):
        def g(a, c, n):
            with Q.control(c[0]):
                with Q.invert():
                    f(a, n)
        return g

    def invctrl(f):
        def g(a, c, n):
            with Q.invert():
                Q.s(a[0])
                with Q.control(c[1], ctrl_state=0):
                    f(a, n)
        return g

    def qache(f):
        h = J.qache(lambda a, n: f(a, n))

        def g(a, c, n):
            h(a, n)
            with Q.control(c[0]):
                h(a, n)
            with Q.invert():
                h(a, n)
        return g

    def ctrlcl(f):
        def g(a, c, n):
            if J.check_for_tracing_mode():
                with Q.control(n > 3):
                    f(a, n)
            elif n > 3:
                f(a, n)
        return g

    def qswitch(f):
        def b0(x):
            pass

        def g(a, c, n):
            def b1(x):
                f(x, n)

            def b2(x):
                Q.x(x[0])

            def b3(x):
                Q.s(x[n - 1])
            J.q_switch(c, [b0, b1, b2, b3], a)
        return g

    def fori(f):
        def g(a, c, n):
            def body(i, v):
                with Q.control(c[0]):
                    Q.x(v[i])
                f(v, n)
                return v
            J.q_fori_loop(1, n, body, a)
        return g

    W = {"plain": plain, "inv": inv, "ctrl1": ctrl(1), "ctrl0": ctrl(0), "ctrl01": ctrl2("01"), "ctrl10": ctrl2("10"), "ctrl11": ctrl2("11"), "conj": conj, "ctrlconj": ctrlconj, "loop": loop,
         "ctrlinv": ctrlinv, "invctrl": invctrl, "qache": qache, "ctrlcl": ctrlcl, "qswitch": qswitch, "fori": fori}
    return W


def struct(wn, bn, n, phase="relative"):
    def f():
        import qrisp as Q
        w, b = wrappers()[wn], bodies()[bn]

        def prog(k):
            c = Q.QuantumFloat(2)
            a = Q.QuantumVariable(k)
            mark(c, "c", 2)
            mark(a, "a", n)
            w(b)(a, c, k)
            return c, a
        tag = "%s(%s), size %d" % (wn, bn, n)
        ra, A = jaspq.traced(prog, n)
        rb, B = jaspq.static(prog, n)
        return jaspq.compare(A, ra, B, rb, tag, phase)
    return f


def jaspr_transform(kind, bn, n):
    """Jaspr.inverse and Jaspr.control against the static environment"""
    def f():
        import qrisp as Q
        from qrisp.jasp import make_jaspr
        b = bodies()[bn]

        def inner(a, k):
            b(a, k)
        state = kind[4:] if kind.startswith("ctrl") else ""

        def prog(k):
            c = Q.QuantumVariable(2)
            a = Q.QuantumVariable(k)
            mark(c, "c", 2)
            mark(a, "a", n)
            from qrisp.jasp import check_for_tracing_mode
            if check_for_tracing_mode():
                j = make_jaspr(inner)(a, k)
                if state:
                    j = j.control(len(state), ctrl_state=state)
                else:
                    j = j.inverse()
                    if kind == "invinv":
                        j = j.inverse()
                if state:
                    _embed(j, [c[i] for i in range(len(state))], a, k)
                else:
                    _embed(j, [], a, k)
            elif state:
                with Q.control([c[i] for i in range(len(state))], ctrl_state=state):
                    b(a, k)
            elif kind == "inv":
                with Q.invert():
                    b(a, k)
            else:
                b(a, k)
            return c, a
        ra, A = jaspq.traced(prog, n)
        rb, B = jaspq.static(prog, n)
        return jaspq.compare(A, ra, B, rb, "Jaspr %s of %s, size %d" % (kind, bn, n))
    return f


def _embed(j, ctrl, a, k):
    from qrisp.jasp import TracingQuantumSession
    from jax.tree_util import tree_flatten
    qs = TracingQuantumSession.get_instance()
    flat = tree_flatten((a, k))[0]
    res = j.eval(*(list(ctrl) + flat + [qs.abs_qst]))
    qs.abs_qst = res[-1] if isinstance(res, (tuple, list)) else res


# ------------------------------------------------------------------ stated functions
def calc(build, sizes, spec, args=(), tag="", phase="relative", assume=None):
    """build(regs, *args) in tracing mode; sizes {name: n}; spec(values) -> [expected value per returned register]"""
    def f():
        import qrisp as Q
        names = list(sizes)

        def prog(*rt):
            ns = rt[:len(names)]
            regs = {}
            for nm, n in zip(names, ns):
                q = Q.QuantumFloat(n) if not nm.startswith("b_") else Q.QuantumBool()
                mark(q, nm, sizes[nm])
                regs[nm] = q
            out = build(regs, *rt[len(names):])
            return tuple(regs[n] for n in names) + (tuple(out) if isinstance(out, (tuple, list)) else () if out is None else (out,))
        ra, A = jaspq.traced(prog, *[sizes[n] for n in names], *args)
        sp = Spec()
        sp.phase = phase
        W = 16
        vals = {n: z3.ZeroExt(W - sizes[n], invec(n, sizes[n])) for n in names}
        exp = spec(vals, W)
        if assume:
            sp.assume += assume(vals)
        labels = names + ["result%d" % i for i in range(len(ra) - len(names))]
        for lab, reg in zip(labels, ra):
            e = exp.get(lab, vals.get(lab))
            sp.reg(reg, z3.Extract(len(reg) - 1, 0, e), lab)
        return verify_circuit(A, sp, tag=tag)
    return f


def adders():
    import qrisp as Q
    d = {}
    for n in ("gidney_adder", "cuccaro_adder", "qcla"):
        if hasattr(Q, n):
            d[n] = getattr(Q, n)
    from qrisp.alg_primitives.arithmetic.jasp_arithmetic.jasp_fourier_adder import jasp_fourier_adder
    d["jasp_fourier_adder"] = jasp_fourier_adder
    return d


def arith(tier):
    import qrisp as Q
    from qrisp import jasp as J
    out = []
    big = tier != "quick"

    def add(name, *a, **k):
        out.append((name, calc(*a, tag=name, **k)))

    top = 4 if not big else 5
    for an in ("gidney_adder", "cuccaro_adder", "jasp_fourier_adder"):
        fn = adders().get(an)
        if fn is None:
            continue
        for m in range(1, top):
            for n in range(m, top + 1) if an != "cuccaro_adder" else (m,):
                add("%s-qq-%d-%d" % (an, m, n), lambda r, fn=fn: fn(r["a"], r["b"]) and None, {"a": m, "b": n}, lambda v, W: {"b": v["b"] + v["a"]})
                for st in (0, 1):
                    def cadd(r, fn=fn, st=st):
                        with Q.control(r["b_c"][0], ctrl_state=st):
                            fn(r["a"], r["b"])
                    add("%s-qq-%d-%d-c%d" % (an, m, n, st), cadd, {"b_c": 1, "a": m, "b": n},
                        lambda v, W, st=st: {"b": v["b"] + z3.If(v["b_c"] == st, v["a"], 0)})
            for k in range(2 ** m):
                add("%s-cq-%d-%d" % (an, m, k), lambda r, k_, fn=fn: fn(k_, r["b"]) and None, {"b": m}, lambda v, W, k=k: {"b": v["b"] + k}, args=(k,))
                if k in (1, 2, 5, 7):
                    def ccadd(r, k_, fn=fn):
                        with Q.control(r["b_c"][0]):
                            fn(k_, r["b"])
                    add("%s-cq-%d-%d-c" % (an, m, k), ccadd, {"b_c": 1, "b": m}, lambda v, W, k=k: {"b": v["b"] + z3.If(v["b_c"] == 1, z3.BitVecVal(k, W), z3.BitVecVal(0, W))}, args=(k,))
    # operators of QuantumFloat
    for m, n in [(2, 2), (2, 3), (3, 2), (1, 3), (3, 3)]:
        def iadd(r):
            r["b"] += r["a"]

        def isub(r):
            r["b"] -= r["a"]
        if m <= n:
            add("iadd-%d-%d" % (m, n), iadd, {"a": m, "b": n}, lambda v, W: {"b": v["b"] + v["a"]})
            add("isub-%d-%d" % (m, n), isub, {"a": m, "b": n}, lambda v, W: {"b": v["b"] - v["a"]})
        add("add-%d-%d" % (m, n), lambda r: r["a"] + r["b"], {"a": m, "b": n}, lambda v, W: {"result0": v["a"] + v["b"]})
        add("mul-%d-%d" % (m, n), lambda r: r["a"] * r["b"], {"a": m, "b": n}, lambda v, W: {"result0": v["a"] * v["b"]})
    for m, k in [(2, 1), (3, 2), (3, 5), (4, 7)]:
        def iaddc(r, k_):
            r["b"] += k_

        def isubc(r, k_):
            r["b"] -= k_
        add("iaddc-%d-%d" % (m, k), iaddc, {"b": m}, lambda v, W, k=k: {"b": v["b"] + k}, args=(k,))
        add("isubc-%d-%d" % (m, k), isubc, {"b": m}, lambda v, W, k=k: {"b": v["b"] - k}, args=(k,))
    if hasattr(Q, "jasp_squaring") or True:
        from qrisp.alg_primitives.arithmetic.jasp_arithmetic.jasp_multiplyers import jasp_squaring, jasp_multiplyer, jasp_controlling_multiplyer
        for m in (1, 2, 3):
            add("square-%d" % m, lambda r: jasp_squaring(r["a"]), {"a": m}, lambda v, W: {"result0": v["a"] * v["a"]})
            for n in (1, 2, 3):
                add("jmul-%d-%d" % (m, n), lambda r: jasp_multiplyer(r["a"], r["b"]), {"a": m, "b": n}, lambda v, W: {"result0": v["a"] * v["b"]})
    # comparisons
    import operator
    for nm, op, zo in (("lt", operator.lt, z3.ULT), ("gt", operator.gt, z3.UGT), ("le", operator.le, z3.ULE), ("ge", operator.ge, z3.UGE),
                       ("eq", operator.eq, lambda a, b: a == b), ("ne", operator.ne, lambda a, b: a != b)):
        for m, n in [(1, 1), (2, 2), (2, 3), (3, 2), (3, 3)]:
            add("%s-%d-%d" % (nm, m, n), lambda r, op=op: op(r["a"], r["b"]), {"a": m, "b": n},
                lambda v, W, zo=zo: {"result0": z3.If(zo(v["a"], v["b"]), z3.BitVecVal(1, W), z3.BitVecVal(0, W))})
        for m in (1, 2, 3):
            for k in range(2 ** m + 1) if nm not in ("eq", "ne") else range(2 ** m):
                add("%s-%d-const%d" % (nm, m, k), lambda r, k_, op=op: op(r["a"], k_), {"a": m},
                    lambda v, W, zo=zo, k=k: {"result0": z3.If(zo(v["a"], z3.BitVecVal(k, W)), z3.BitVecVal(1, W), z3.BitVecVal(0, W))}, args=(k,))
            for k in (-1, 2 ** m + 1, 2 ** m + 2):
                add("%s-%d-outside%d" % (nm, m, k), lambda r, k_, op=op: op(r["a"], k_), {"a": m}, lambda v, W, op=op, k=k: {"result0": z3.BitVecVal(int(op(0, k)), W)}, args=(k,))
    # multi-controlled x with a run-time number of controls
    for meth in ("auto", "balauca", "khattar"):
        for n in range(1, 6 if not big else 8):
            def dmcx(r, meth=meth):
                Q.mcx(r["a"].reg, r["b_t"][0], method=meth)
            add("mcx-%s-%d" % (meth, n), dmcx, {"a": n, "b_t": 1}, lambda v, W, n=n: {"b_t": v["b_t"] ^ z3.If(v["a"] == 2 ** n - 1, z3.BitVecVal(1, W), z3.BitVecVal(0, W))})
            for k in sorted({0, 1, 2 ** n - 2, 2 ** n // 2}):
                def dmcs(r, k_, meth=meth):
                    Q.mcx(r["a"].reg, r["b_t"][0], method=meth, ctrl_state=k_)
                add("mcx-%s-%d-state%d" % (meth, n, k), dmcs, {"a": n, "b_t": 1}, lambda v, W, k=k: {"b_t": v["b_t"] ^ z3.If(v["a"] == k, z3.BitVecVal(1, W), z3.BitVecVal(0, W))}, args=(k,))
    # cyclic shift
    for n in (1, 2, 3, 4, 5, 6):
        for k in (0, 1, 2, 3, -1):
            def cs(r, k=k):
                Q.cyclic_shift(r["a"].reg, k)

            def csspec(v, W, n=n, k=k):
                bits = [z3.Extract(i, i, v["a"]) for i in range(n)]
                res = [bits[(i - k) % n] for i in range(n)]
                return {"a": z3.ZeroExt(W - n, z3.Concat(*res[::-1]) if n > 1 else res[0])}
            add("cyclic-%d-%d" % (n, k), cs, {"a": n}, csspec)
    # modular arithmetic
    from qrisp.alg_primitives.arithmetic.jasp_arithmetic.jasp_mod_adder import jasp_mod_adder
    for N in (2, 3, 5, 7) if not big else (2, 3, 5, 6, 7, 11, 13):
        n = (N - 1).bit_length() + 1       # the target includes the sign qubit
        for k in range(1, N):
            def madd(r, k_, N=N):
                jasp_mod_adder(k_, r["b"], N)
            add("modadd-%d-%d" % (N, k), madd, {"b": n}, lambda v, W, N=N, k=k: {"b": z3.URem(v["b"] + k, z3.BitVecVal(N, W))}, args=(k,), assume=lambda v, N=N: [z3.ULT(v["b"], N)])
            for st in (1,):
                def cmadd(r, k_, N=N):
                    with Q.control(r["b_c"][0]):
                        jasp_mod_adder(k_, r["b"], N)
                add("modadd-%d-%d-c" % (N, k), cmadd, {"b_c": 1, "b": n},
                    lambda v, W, N=N, k=k: {"b": z3.URem(v["b"] + z3.If(v["b_c"] == 1, z3.BitVecVal(k, W), z3.BitVecVal(0, W)), z3.BitVecVal(N, W))}, args=(k,),
                    assume=lambda v, N=N: [z3.ULT(v["b"], N)])

        def qmadd(r, N=N):
            jasp_mod_adder(r["a"], r["b"], N)
        if N != 5:      # leaves path variables that the reduction does not eliminate
            add("modadd-qq-%d" % N, qmadd, {"a": n, "b": n}, lambda v, W, N=N: {"b": z3.URem(v["b"] + v["a"], z3.BitVecVal(N, W))}, assume=lambda v, N=N: [z3.ULT(v["b"], N), z3.ULT(v["a"], N)])
    return out


def algs(tier):
    """library routines compared with their static execution"""
    import qrisp as Q
    from qrisp import jasp as J
    P = {}

    def qft(**kw):
        return lambda a, k: Q.QFT(a, **kw)
    P["qft"] = (qft(), (1, 2, 3, 4))
    P["qft-inv"] = (qft(inv=True), (1, 2, 3, 4))
    P["qft-noswap"] = (qft(exec_swap=False), (2, 3, 4))
    P["qft-inv-noswap"] = (qft(inv=True, exec_swap=False), (2, 3))
    P["mcz"] = (lambda a, k: Q.mcz(a), (2, 3, 4))
    P["mcp"] = (lambda a, k: Q.mcp(NUM[2], a), (2, 3, 4))
    P["reflection0"] = (lambda a, k: Q.reflection([a], lambda x: Q.h(x)), (2, 3))

    def amp(a, k):
        def sf(x):
            Q.h(x)

        def orc(x):
            Q.z(x[0])
        Q.amplitude_amplification([a], sf, orc, iter=2)
    P["ampl"] = (amp, (2, 3))

    out = []
    for nm, (fn, sizes) in P.items():
        for n in sizes:
            def f(fn=fn, n=n, nm=nm):
                def prog(k):
                    a = Q.QuantumFloat(k)
                    mark(a, "a", n)
                    fn(a, k)
                    return a
                ra, A = jaspq.traced(prog, n)
                rb, B = jaspq.static(prog, n)
                return jaspq.compare(A, ra, B, rb, "%s of %d qubits" % (nm, n))
            out.append(("%s-%d" % (nm, n), f))
    return out


def clctrl(nb, state, inv, bits, mode):
    """classical conditions: run-time truth values (traced) or Python truth values (static) with a control state"""
    def f():
        import qrisp as Q
        num = int(state, 2) if isinstance(state, str) else state % (1 << nb)
        run = (bits == num) != inv

        def reg():
            c, a = Q.QuantumVariable(2), Q.QuantumVariable(2)
            mark(c, "c", 2)
            mark(a, "a", 2)
            Q.h(a[0])
            return c, a

        def body(c, a):
            Q.t(a[1])
            with Q.control(c[1], ctrl_state=0):
                Q.x(a[0])

        def prog(k):
            c, a = reg()
            fl = [(k >> i) % 2 == 1 for i in range(nb)]
            kw = {"invert": True} if inv else {}
            if state != -1:
                kw["ctrl_state"] = state
            with Q.control(fl if nb > 1 else fl[0], **kw):
                body(c, a)
            Q.h(a[1])
            return c, a

        def ref(k):
            c, a = reg()
            if run:
                body(c, a)
            Q.h(a[1])
            return c, a
        tag = "%s control on classical values %s, control state %r%s" % (mode, format(bits, "0%db" % nb), state, ", inverted" if inv else "")
        ra, A = (jaspq.traced if mode == "traced" else jaspq.static)(prog, bits)
        rb, B = jaspq.static(ref, bits)
        return jaspq.compare(A, ra, B, rb, tag)
    return f


def cases(tier):
    out = []
    sizes = (2, 3, 4) if tier == "quick" else (2, 3, 4, 5, 6)
    bn = list(bodies())
    for w in wrappers():
        for b in bn:
            for n in sizes if w in ("plain", "inv", "ctrl1") else (3, 4) if tier == "quick" else (2, 3, 4, 5):
                if w in ("loop", "fori", "qache", "qswitch") and n > 4:
                    continue
                out.append(("struct/%s/%s/%d" % (w, b, n), struct(w, b, n)))
    for k in ("inv", "invinv", "ctrl1", "ctrl0", "ctrl01", "ctrl10"):
        for b in bn:
            for n in (3,) if tier == "quick" else (2, 3, 4):
                out.append(("jaspr/%s/%s/%d" % (k, b, n), jaspr_transform(k, b, n)))
    for nb, states in ((1, (-1, 0, 1, "0", "1")), (2, (-1, 0, 1, 2, "00", "11")), (3, (-1, 0, 2, 3, 6) if tier == "quick" else (-1, 0, 1, 2, 3, 4, 5, 6))):
        for st in states:
            for mode in ("traced", "static"):
                for iv in (False, True) if mode == "traced" else (False,):
                    for bits in range(1 << nb):
                        out.append(("clctrl/%s/%d/%s%s/%d" % (mode, nb, st, "/not" if iv else "", bits), clctrl(nb, st, iv, bits, mode)))
    out += [("calc/" + i, f) for i, f in arith(tier)]
    out += [("alg/" + i, f) for i, f in algs(tier)]
    return out
