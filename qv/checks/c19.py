"""C19: resource estimates equal the resources of the executed circuit."""
from ..smt import z3, check
from ..pathsum import Undecided
from ..prog import Violation

LEVEL = "translation_validation"
TECH = "symbolic execution of the derived classical program (jaxpr) of the estimators over symbolic run-time parameters, compared by an SMT solver with the resources of the extracted circuits"
FUNCTIONS = ["interpreters.profiling_interpreter (all handlers, cond, while, scan, jit)", "interpreters.count_ops_metric", "interpreters.depth_metric", "interpreters.num_qubits_metric",
             "evaluation_tools.profiler: count_ops, depth, num_qubits", "Jaspr.to_qc (source of the executed circuit)"]
BOUNDS = ("Programs listed in qv/checks/c19.py (loops, conditionals, nested and cached calls, inversion, control, slicing, fusion, allocation and deletion, measurement feedback, adders, QFT, mcx); "
          "all integer parameters 0..5 (thorough 0..8), both fixed measurement behaviours; at most 24 qubits and 40 allocations.")
OUTSIDE = "callback_threshold (pure_callback wrapping), simulated measurement behaviour, user supplied random generators, floating point parameters."
HOW = ("The estimator's jaxpr for a program is generated from the current source and executed symbolically for all parameter values at once (loops fork); on every path the solver decides that every gate "
       "count, the depth, and the allocation totals equal those of the circuit the program produces for that value (Jaspr.to_qc, transpiled). The public decorators are run for one value per program as well.")
TRUSTED = "z3; jax tracing; the jaxpr interpreter qv/jaxbv.py; the counting of gates, depth and allocations of a flat circuit in this file"


def programs():
    """name: (function of the parameters and a flag standing for measurement results, ranges of the parameters)"""
    import jax.numpy as jnp
    import qrisp as Q
    from qrisp import jasp as J
    from qrisp import h, x, cx, t, s, p, rz, mcx, cz, y, control, invert, conjugate, measure, QuantumVariable, QuantumFloat, QuantumBool
    P = {}

    def prog(name, *ranges):
        def deco(f):
            P[name] = (f, ranges)
            return f
        return deco
    R = (0, 5)

    @prog("loop", R)
    def _(i, m):
        a = QuantumVariable(6)
        for k in J.jrange(i):
            h(a[k])
            cx(a[k], a[5])

    @prog("loop-size", R)
    def _(i, m):
        a = QuantumVariable(i)
        h(a)
        x(a)

    @prog("loop2", R, (0, 3))
    def _(i, n, m):
        a = QuantumVariable(6)
        for k in J.jrange(i):
            for l in J.jrange(n):
                cx(a[l], a[l + 1])
            t(a[k])

    @prog("triangle", R)
    def _(i, m):
        a = QuantumVariable(i + 1)
        for k in J.jrange(i):
            for l in J.jrange(k):
                cz(a[l], a[k])
            y(a[k + 1])

    @prog("cond", (0, 7))
    def _(i, m):
        a = QuantumVariable(3)
        with control(i > 3):
            x(a[0])
            h(a[1])
        with control(i == 2):
            y(a[0])

    @prog("qcond", R)
    def _(i, m):
        a = QuantumVariable(3)

        def yes(q):
            x(q[0])
            cx(q[0], q[1])

        def no(q):
            h(q)
        J.q_cond(i % 2 == 0, yes, no, a)
        s(a[2])

    @prog("while", R)
    def _(i, m):
        a = QuantumVariable(4)

        def body(st):
            q, k = st
            x(q[0])
            cx(q[0], q[1])
            return q, k + 2

        def go(st):
            return st[1] < i
        J.q_while_loop(go, body, (a, jnp.int64(0)))

    @prog("fori", R, R)
    def _(i, n, m):
        a = QuantumVariable(3)

        def body(k, q):
            p(0.25, q[1])
            cx(q[0], q[1])
            return q
        J.q_fori_loop(i, n, body, a)

    @prog("qache", R)
    def _(i, m):
        @J.qache
        def sub(q, k):
            for l in J.jrange(k):
                h(q[l])
                cx(q[l], q[l + 1])
        a = QuantumVariable(7)
        sub(a, i)
        sub(a, i // 2)
        b = QuantumVariable(7)
        sub(b, 2)

    @prog("invert", R)
    def _(i, m):
        a = QuantumVariable(6)
        with invert():
            for k in J.jrange(i):
                t(a[k])
                cx(a[k], a[k + 1])
            s(a[0])

    @prog("control", R)
    def _(i, m):
        a = QuantumVariable(6)
        with control(a[5]):
            for k in J.jrange(i):
                x(a[k])
                t(a[k])

    @prog("conjugate", R)
    def _(i, m):
        a = QuantumVariable(6)

        def conj(q):
            for k in J.jrange(i):
                h(q[k])
        with conjugate(conj)(a):
            cx(a[0], a[1])

    @prog("slice", R)
    def _(i, m):
        a = QuantumVariable(6)
        b = a[1:i]
        h(b)
        c = a[i:]
        x(c)
        for k in J.jrange(J_size(c)):
            cx(a[0], c[k]) if False else t(c[k])

    @prog("slice-neg", (1, 5))
    def _(i, m):
        a = QuantumVariable(6)
        h(a[:-1])
        x(a[-2:])
        y(a[i - 1:i])
        s(a[-1])

    @prog("index-neg", (2, 5))
    def _(i, m):
        a = QuantumVariable(i)
        h(a[-1])
        x(a[i - 2])
        cx(a[-2], a[-1])
        t(a[-2:])
        c = a[:-1]
        y(c[-1])
        s(c[i:] + a[0])
        z = a[i - 1:i - 2]
        h(z + c[-1])

    @prog("fuse", R)
    def _(i, m):
        a = QuantumVariable(i)
        b = QuantumVariable(3)
        c = a.reg + b.reg
        h(c)
        d = c[1:]
        x(d)
        y(c[i])

    @prog("fuse-qubit", R)
    def _(i, m):
        a = QuantumVariable(i)
        b = QuantumVariable(2)
        c = a.reg + b[1]
        h(c)
        e = b[0] + a.reg
        x(e)
        y(e[0])

    @prog("delete", R)
    def _(i, m):
        a = QuantumVariable(i)
        h(a)
        b = QuantumVariable(2)
        b.delete()
        for k in J.jrange(i):
            c = QuantumVariable(k + 1)
            x(c)
            c.delete()
        d = QuantumFloat(2)
        x(d)

    @prog("delete2", (0, 3), (0, 3))
    def _(i, n, m):
        for k in J.jrange(n):
            c = QuantumVariable(i)
            h(c)
            e = QuantumBool()
            e.delete()
            c.delete()
        a = QuantumVariable(i + n)
        x(a)

    @prog("cond-alloc", R)
    def _(i, m):
        def yes():
            c = QuantumVariable(3)
            h(c)
            c.delete()

        def no():
            c = QuantumVariable(i)
            x(c)
            c.delete()
        J.q_cond(i > 2, yes, no)

    @prog("measure", R)
    def _(i, m):
        a = QuantumVariable(i)
        h(a)
        measure(a)
        b = QuantumVariable(2)
        measure(b[0])
        x(b[1])

    @prog("feedback", R)
    def _(i, m):
        a = QuantumVariable(4)
        for k in J.jrange(i):
            h(a[0])
            r = m(measure(a[0]))
            with control(r):
                x(a[1])
                cx(a[1], a[2])
        r = m(measure(a[3]))
        with control(r):
            t(a[3])

    @prog("measure-int", (0, 7))
    def _(i, m):
        a = QuantumFloat(3)
        h(a)
        r = m(measure(a), 3)
        with control(i < 4):
            x(a)
        for k in J.jrange(i):
            t(a[k % 3])

    @prog("parity", R)
    def _(i, m):
        a = QuantumVariable(3)
        h(a)
        r = J.parity(measure(a[0]), measure(a[1]))
        with control(m(r, 0)):
            x(a[2])
        for k in J.jrange(i):
            t(a[2])

    @prog("reset", R)
    def _(i, m):
        a = QuantumVariable(3)
        for k in J.jrange(i):
            h(a[0])
            Q.reset(a[0])
            cx(a[0], a[1])

    @prog("gates", R)
    def _(i, m):
        a = QuantumVariable(5)
        Q.swap(a[0], a[1])
        Q.rx(0.3, a[2])
        Q.rxx(0.4, a[0], a[1])
        Q.cp(0.5, a[i - 0 * i - i], a[3])
        Q.gphase(0.2, a[0])
        Q.u3(0.1, 0.2, 0.3, a[4])
        Q.crz(0.2, a[3], a[2])
        Q.sx(a[1])
        Q.rz(0.1, a[i % 5])
        Q.xxyy(0.3, 0.2, a[0], a[1])

    @prog("mcx", R)
    def _(i, m):
        a = QuantumVariable(4)
        mcx([a[0], a[1], a[2]], a[3], method="balauca")
        for k in J.jrange(i):
            mcx([a[0], a[1]], a[2], method="gidney") if False else mcx([a[0], a[1]], a[2])

    @prog("qft", (1, 5))
    def _(i, m):
        a = QuantumFloat(i)
        Q.QFT(a)

    @prog("adder", (1, 3), (0, 3))
    def _(i, n, m):
        a = QuantumFloat(i)
        a += n

    @prog("addq", (1, 4))
    def _(i, m):
        a = QuantumFloat(i)
        b = QuantumFloat(i)
        a += b

    @prog("less", (1, 2))
    def _(i, m):
        a = QuantumFloat(i)
        b = QuantumFloat(3)
        c = a < b
        x(c)

    @prog("encode", (0, 7))
    def _(i, m):
        a = QuantumFloat(3)
        a[:] = i
        b = QuantumFloat(2, -1, signed=True)
        h(b)

    @prog("uncompute", (1, 4))
    def _(i, m):
        a = QuantumFloat(i)
        b = QuantumFloat(i)
        with conjugate(lambda u, v: u.__iadd__(v) and None)(a, b) if False else control(a[0]):
            x(b[0])

    @prog("nested-jit", R)
    def _(i, m):
        @J.qache
        def inner(q):
            for l in J.jrange(q.size):
                h(q[l])

        @J.qache
        def outer(k):
            q = QuantumVariable(k)
            inner(q)
            return q
        a = outer(i)
        b = outer(i + 1)
        inner(a)
        x(b)
    return P


def J_size(c):
    return c.size


def flat(qc, flag):
    """(name, qubits) of the elementary operations, classically controlled ones taken if the flag is set"""
    from qrisp.circuit import ClControlledOperation
    out = []
    for ins in qc.transpile().data:
        op = ins.op
        if isinstance(op, ClControlledOperation):
            if not flag:
                continue
            op = op.base_op
            sub = op.definition.transpile().data if op.definition else None
            if sub is not None:
                pos = {q: n for n, q in enumerate(op.definition.qubits)}
                out += [(i.op.name, [ins.qubits[pos[q]] for q in i.qubits]) for i in sub]
                continue
        out.append((op.name, list(ins.qubits)))
    return out


def resources(qc, flag):
    """counts, depth, allocation sequence of an executed circuit"""
    counts, depth, alloc = {}, {}, []
    for name, qs in flat(qc, flag):
        if name == "qb_alloc":
            alloc.append(1)
            continue
        if name == "qb_dealloc":
            alloc.append(-1)
            continue
        if name in ("reset", "barrier"):
            continue
        counts[name] = counts.get(name, 0) + 1
        if name == "measure" or not qs:
            continue
        ids = [id(q) for q in qs]
        d = max([depth.get(k, 0) for k in ids]) + 1
        for k in ids:
            depth[k] = d
    run = peak = 0
    for a in alloc:
        run += a
        peak = max(peak, run)
    return counts, max([0] + list(depth.values())), {"total_allocated": alloc.count(1), "total_deallocated": alloc.count(-1), "peak_allocations": peak, "finally_allocated": run}


QUBITS = {"index-neg": 6, "addq": 12, "fuse": 9, "fuse-qubit": 8}


def estimator(f, args, metric, behaviour, name=""):
    """closed jaxpr of the classical program and a function from its outputs to named terms"""
    import jax
    from qrisp.jasp import make_jaspr
    from qrisp.jasp.evaluation_tools.profiler import METRIC_DISPATCH, _normalize_meas_behavior
    jaspr = make_jaspr(lambda *a: f(*a, lambda v, n=1: v))(*args)
    kw = {"count_ops": {}, "depth": {"max_qubits": QUBITS.get(name, 24)}, "num_qubits": {"max_allocations": 40}}[metric]
    prof, aux = METRIC_DISPATCH[metric].build_profiler(jaspr, _normalize_meas_behavior(behaviour), **kw)
    closed = jax.make_jaxpr(prof)(*args)
    return closed, aux, jaspr


def named(metric, aux, outs, ex):
    import numpy as np
    if metric == "count_ops":
        n = len(aux)
        c = outs[-(n + 5):-5]
        return {k: c[aux[k]] for k in aux}, []
    if metric == "depth":
        return {"depth": outs[-3]}, [outs[-1]]
    arr, cnt, bad = outs[-3:]
    k = ex.concrete(cnt, True)
    zero = z3.BitVecVal(0, 64)
    tot = neg = run = peak = zero
    for v in list(arr)[:k]:
        v = v if isinstance(v, z3.ExprRef) else z3.BitVecVal(int(v), 64)
        tot = tot + z3.If(v > 0, v, zero)
        neg = neg + z3.If(v < 0, -v, zero)
        run = run + v
        peak = z3.If(run > peak, run, peak)
    return {"total_allocated": tot, "total_deallocated": neg, "peak_allocations": peak, "finally_allocated": run}, [bad]


def decide(name, f, ranges, metric, behaviour):
    import itertools
    from qrisp.jasp import make_jaspr
    from .. import jaxbv
    args = tuple(hi for lo, hi in ranges)
    flag = int(behaviour)
    # the executed circuits: measurement results replaced by the fixed outcome

    def fixed(*a):
        def m(v, n=1):
            return v * 0 + (2 ** n - 1) * flag if n > 1 else (a[-1] == 1 if n else a[-1] == 2)
        f(*a[:-1], m)
    ref = {}
    jr = make_jaspr(fixed)(*args, flag)
    for vals in itertools.product(*[range(lo, hi + 1) for lo, hi in ranges]):
        r = jr.to_qc(*vals, flag)
        qc = r[-1] if isinstance(r, tuple) else r
        c, d, a = resources(qc, flag)
        ref[vals] = {"count_ops": c, "depth": {"depth": d}, "num_qubits": a}[metric]
    closed, aux, jaspr = estimator(f, args, metric, behaviour, name)
    V = [z3.BitVec("arg%d" % k, 64) for k in range(len(ranges))]
    assume = [z3.And(v >= lo, v <= hi) for v, (lo, hi) in zip(V, ranges)]
    ex = jaxbv.Exec(assume=assume, loose=True)
    paths = 0
    for pc, outs in ex.run(closed, V):
        paths += 1
        terms, bad = named(metric, aux, outs, ex)
        pc = list(ex.cond)
        keys = set(terms) | {k for r in ref.values() for k in r}
        goal = []
        for k in sorted(keys):
            t = terms.get(k, 0)
            t = t if isinstance(t, z3.ExprRef) else z3.BitVecVal(int(t), 64)
            for vals, r in ref.items():
                goal.append(z3.Implies(z3.And(*[v == x for v, x in zip(V, vals)]), t == r.get(k, 0)))
        for b in bad:
            goal.append(z3.Not(ex.bl(b)))
        r, m = check(*(assume + pc + [z3.Not(z3.And(*goal))]))
        if r == "unsat":
            continue
        if r != "sat":
            raise Undecided("%s: no answer" % name)
        vals = tuple(m.eval(v, model_completion=True).as_long() for v in V)
        got = real(jaspr, vals, metric, behaviour)
        if same(got, ref[vals]):
            from ..prog import ReplayMismatch
            raise ReplayMismatch("%s%s: encoding differs from %s" % (name, vals, got))
        raise Violation("%s %s, measurements %s: parameters %s: estimate %s, executed circuit %s" % (metric, name, behaviour, vals, got, ref[vals]),
                        {"program": name, "parameters": vals, "estimate": got, "circuit": ref[vals]})
    vals = args
    got = real(jaspr, vals, metric, behaviour)
    if not same(got, ref[vals]):
        raise Violation("%s %s, measurements %s: parameters %s: estimate %s, executed circuit %s" % (metric, name, behaviour, vals, got, ref[vals]),
                        {"program": name, "parameters": vals, "estimate": got, "circuit": ref[vals]})
    return {"paths": paths, "executed_circuits": len(ref), "estimator_runs": 1}


def same(got, ref):
    if not isinstance(got, dict):
        got = {"depth": got}
    return all(got.get(k, 0) == ref.get(k, 0) for k in set(got) | set(ref))


def real(jaspr, vals, metric, behaviour):
    return getattr(jaspr, metric)(*vals, meas_behavior=behaviour)


def cases(tier):
    out = []
    big = tier == "thorough"
    for name, (f, ranges) in programs().items():
        if big:
            ranges = tuple((lo, hi + 3 if hi == 5 else hi + 1 if name not in ("adder", "encode", "measure-int") else hi) for lo, hi in ranges)
        for metric in ("count_ops", "depth", "num_qubits"):
            for b in "01":
                if (metric, name) == ("depth", "less"):
                    continue  # too slow
                if b == "1" and name not in ("measure", "feedback", "measure-int", "parity", "mcx", "adder", "addq", "less"):
                    continue
                out.append(("%s/%s/%s" % (metric, name, b), lambda name=name, f=f, ranges=ranges, metric=metric, b=b: decide(name, f, ranges, metric, b)))
    return out
