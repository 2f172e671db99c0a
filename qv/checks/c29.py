"""C29: Grover search, amplitude amplification and QAOA act as stated, for all angles and all marked elements."""
import itertools
import math
from fractions import Fraction

import numpy as np

from ..linstate import Dyn, differ
from ..matsym import compare, evaluate, ONE, ZERO, Mat
from ..prog import Violation, ReplayMismatch
from ..pysym import SymC, vanish
from .c17 import expm, cmul, circuit_cols

LEVEL = "bounded"
TECH = "symbolic execution of the generated circuits with symbolic angles (exact matrices) or symbolic marked elements (linear maps), and of the classical objectives on symbolic probabilities; decided by an SMT solver"
FUNCTIONS = ["qrisp.grover.{tag_state, diffuser, grovers_alg}", "qrisp.amplitude_amplification", "qrisp.reflection",
             "qrisp.qaoa.{RX_mixer, RY_mixer, RZ_mixer, XY_mixer, apply_XY_mixer, grover_mixer, controlled_RX_mixer_gen, constrained_mixer_gen}",
             "qrisp.algorithms.qaoa.problems.{maxCut, QUBO, eThrLinTwo, maxSat, maxIndepSet, maxClique, maxSetPacking, minSetCover, maxKColorableSubgraph}: cost operators, mixers, classical cost functions",
             "QAOAProblem.compile_circuit"]
BOUNDS = ("All values of the angles gamma and beta and of phases (symbolic), all input basis states and superpositions; problems of 1 to 5 qubits listed in this file (graphs, clause sets, matrices, set systems); QAOA with 1 and 2 layers on up to 3 qubits.  "
          "Grover and amplitude amplification: every marked element at once (a symbolic second register), search spaces of 2 to 16 elements, 1, 2 or 4 marked elements, plain and exact, static and traced; iteration counts up to 5.  "
          "Classical cost functions: every probability distribution over all outcomes (symbolic probabilities).")
OUTSIDE = "classical optimisation loops, random starting points and benchmarks of QAOAProblem; portfolio rebalancing; larger instances; quantum counting and backtracking"
HOW = ("Cost operators are compared with exp(i k gamma C) for the objective C written down in this file, mixers with the exponentials of their generators, the compiled QAOA circuit with the product of its layers in their order, "
       "all as exact matrices over the ring of exponentials of the symbols.  Objectives are executed on symbolic probabilities.  Grover's algorithm runs with an oracle that compares with a second register in an unknown superposition of all marked elements; "
       "its linear map is compared with the rotation in the plane of good and bad states; for the exact version the solver looks for a marked element that leaves an amplitude outside.")
TRUSTED = "z3; gate matrices of qv/linstate.py and qv/matsym.py; numpy for reference matrices"


class Vals(dict):
    """distinct numbers for the symbols"""

    def __missing__(self, k):
        self[k] = 0.7310 + 0.3871 * len(self)
        return self[k]


def verdict(cols, exp, tag, phase=True):
    w = compare(cols, exp, up_to_phase=phase)
    if w is None:
        return
    j, k = w
    env = Vals()
    if phase:
        # replay: no single phase factor relates the two numeric matrices
        a = np.array([evaluate(cols[c].get(r, ZERO), env) for c in cols for r in sorted(set(cols[c]) | set(exp[c]))])
        b = np.array([evaluate(exp[c].get(r, ZERO), env) for c in cols for r in sorted(set(cols[c]) | set(exp[c]))])
        bad = abs(abs(np.vdot(a, b)) - np.vdot(b, b).real) > 1e-6
    else:
        bad = abs(evaluate(cols[j].get(k, ZERO), env) - evaluate(exp[j].get(k, ZERO), env)) > 1e-6
    if not bad:
        raise ReplayMismatch("%s: ring elements differ, values do not" % tag)
    raise Violation("%s: the amplitude of output %d for input %d is not the stated one, e.g. at %s" % (tag, k, j, {str(s): round(v, 4) for s, v in env.items()}),
                    {"case": tag, "input": j, "output": k, "angles": {str(s): v for s, v in env.items()}})


def columns(qs, qubits):
    """columns of the session's circuit on the qubits; all other qubits start and end in |0>"""
    cols, _ = circuit_cols(qs, qubits, len(qubits))
    return cols


def diag(n, symb, f):
    """columns of diag(exp(i symb f(x)))"""
    out = {}
    for x in range(1 << n):
        v = Fraction(f(bits(x, n))).limit_denominator(1 << 20)
        out[x] = {x: {(0, ((symb, v),) if v else ()): Fraction(1)}}
    return out


def bits(x, n):
    return [x >> i & 1 for i in range(n)]


def symbol(name):
    import sympy
    return sympy.Symbol(name, real=True)


# ------------------------------------------------------------------ problems: objective functions written down independently
def graph(n, edges):
    import networkx as nx
    G = nx.Graph()
    G.add_nodes_from(range(n))
    G.add_edges_from(edges)
    return G


GRAPHS = {"edge": (2, [(0, 1)]), "path3": (3, [(0, 1), (1, 2)]), "tri": (3, [(0, 1), (1, 2), (0, 2)]), "star4": (4, [(0, 1), (0, 2), (0, 3)]),
          "cyc4": (4, [(0, 1), (1, 2), (2, 3), (3, 0)]), "house": (5, [(0, 1), (1, 2), (2, 3), (3, 0), (0, 4), (1, 4)]), "iso4": (4, [(0, 2), (3, 1)]), "lone3": (3, [(0, 2)])}
# the Frobenius norm of every matrix is a square of a dyadic number
QUBOS = {"one": [[1]], "neg": [[-1]], "full2": [[2, 2], [2, 2]], "asym2": [[0, 4], [0, 0]], "low2": [[2, -2], [2, -2]], "mix3": [[1, 2, 3], [-1, 0, 0], [0, -1, 0]], "mix4": [[1, -3, 0, 0], [0, 1, 1, 0], [0, 0, 0, 1], [1, 0, 1, 1]],
         "diag3": [[0, 0, 0], [0, -1, 0], [0, 0, 0]]}
LIN2 = {"one": (3, [[0, 1, 2, 0]]), "odd": (3, [[0, 1, 2, 1]]), "two": (4, [[0, 1, 2, 1], [1, 2, 3, 0]]), "perm": (4, [[2, 0, 3, 1], [3, 1, 0, 1], [1, 2, 3, 0]]), "five": (5, [[4, 0, 2, 0], [1, 3, 4, 1]])}
SAT = {"one": (2, [[1, 2]]), "neg": (2, [[-1, 2], [1, -2]]), "three": (3, [[1, 2, -3], [1, 3], [-2, -3]]), "unit": (3, [[1], [-2], [1, 2, 3]]), "four": (4, [[1, 2, -3], [1, 4, -3], [-1, -2, -4]])}
COVER = {"two": ([{0, 1}, {1, 2}, {0, 2}], {0, 1, 2}), "over": ([{0, 1}, {0, 1}], {0, 1}), "three": ([{0}, {0, 1}, {1}], {0, 1}), "four": ([{0, 1}, {1, 2}, {2, 0}, {0}], {0, 1, 2})}
COVER["sole"] = ([{0, 1}, {1, 2}], {0, 1, 2})
PACK = {"a": [{0, 1}, {1, 2}, {3}], "b": [{0}, {1}], "c": [{0, 1}, {1, 2}, {2, 3}, {3, 0}]}


def cut(edges):
    return lambda b: -sum(1 for i, j in edges if b[i] != b[j])


def qubo(Q):
    return lambda b: sum(Q[i][j] * b[i] * b[j] for i in range(len(Q)) for j in range(len(Q)))


def lin2(clauses):
    return lambda b: -sum(1 for i, j, k, c in clauses if (b[i] + b[j] + b[k]) % 2 == c)


def sat(clauses):
    return lambda b: -sum(1 for c in clauses if any(b[abs(v) - 1] == (1 if v > 0 else 0) for v in c))


def indep(edges):
    return lambda b: 0 if any(b[i] and b[j] for i, j in edges) else -sum(b)


def cover(sets, universe):
    return lambda b: sum(b) if set().union(*[s for s, v in zip(sets, b) if v]) == universe else len(sets)


def cost(tag, n, make, f, factor, exact=False):
    """cost operator = exp(i factor gamma f), up to a global phase unless exact"""
    def run():
        from qrisp import QuantumVariable
        g = symbol("g")
        qv = QuantumVariable(n)
        op, scale = make()
        op(qv, scale * g)
        verdict(columns(qv.qs, qv.reg), diag(n, "g", lambda b: Fraction(factor) * f(b)), "cost operator of %s" % tag, phase=not exact)
        return {"circuits": 1}
    return run


def cost_traced(tag, n, make, f, factor, g=0.8125):
    """the same operator in a traced program; angle fixed, input state symbolic"""
    def run():
        from ..jaspq import traced
        from qrisp import QuantumVariable
        op, scale = make()

        def main():
            qv = QuantumVariable(n)
            op(qv, scale * g)
            return qv
        regs, qc = traced(main)
        L = Dyn(regs[0]).run(qc)
        want = np.zeros((1 << L.n, 1 << n), complex)
        for x in range(1 << n):
            want[x, x] = np.exp(1j * factor * g * float(f(bits(x, n))))
        r = histories(L, want, "global")
        if r is not None:
            raise Violation("traced cost operator of %s: %s" % (tag, r))
        return {"circuits": 1}
    return run


class NpZeros:
    """numpy of the energy loop with an object array for the terms"""

    def __init__(self, np):
        self.__dict__["_np"] = np

    def __getattr__(self, k):
        return getattr(self._np, k)

    def zeros(self, *a, **k):
        return self._np.zeros(*a, dtype=object)


def objective(tag, n, make, f, mode="str"):
    """classical cost function on symbolic probabilities of all outcomes; f: cost of one outcome"""
    def run():
        import qrisp.algorithms.qaoa.problems.maxCut as mc
        fn = make()
        keys = [bits(x, n) for x in range(1 << n)]
        probs = [SymC.rvar("p%d" % x) for x in range(1 << n)]

        def key(b):
            s = "".join(map(str, b))
            if mode == "array":
                from qrisp.core.quantum_array import OutcomeArray
                return OutcomeArray(list(s))
            return s
        saved = (mc.maxcut_energy, mc.maxcut_obj_jitted, mc.np)
        try:
            # the compiled loops are executed by their Python source
            mc.maxcut_obj_jitted = getattr(saved[1], "py_func", saved[1])
            mc.maxcut_energy = getattr(saved[0], "py_func", saved[0])
            mc.np = NpZeros(saved[2])
            got = fn({key(b): p for b, p in zip(keys, probs)})
        finally:
            mc.maxcut_energy, mc.maxcut_obj_jitted, mc.np = saved
        want = SymC.of(0)
        for b, p in zip(keys, probs):
            want = want + p * f(b)
        got = SymC.of(got) if type(got) is not SymC else got
        w = vanish([got - want], [], 1e-9)
        if w is not None:
            # replay with numbers: the outcome with the largest deviation
            for b in keys:
                d = {key(k): (0.625 if k == b else 0.375 / (len(keys) - 1)) for k in keys}
                g = fn(d)
                e = sum(p * f(k) for k, p in zip(keys, d.values()))
                if abs(g - e) > 1e-9:
                    raise Violation("classical cost function of %s gives %s instead of %s for probability 0.625 of %s, the rest uniform" % (tag, g, e, "".join(map(str, b))), {"case": tag, "outcome": b})
            raise ReplayMismatch("%s: forms differ, values do not" % tag)
        return {"outcomes": len(keys)}
    return run


def cut_computer(name):
    """the traced objective with a symbolic outcome"""
    def run():
        import jax
        import jax.numpy as jnp
        from ..jaxbv import Exec
        from ..smt import z3, check
        from qrisp.algorithms.qaoa.problems.maxCut import create_cut_computer
        n, e = GRAPHS[name]
        fn = create_cut_computer(graph(n, e))
        closed = jax.make_jaxpr(fn)(jnp.uint32(0))
        w = 32
        x = z3.BitVec("x", w)
        k = 0
        for cond, outs in Exec(w).run(closed, [x]):
            want = z3.BitVecVal(0, w)
            for i, j in e:
                want = want - z3.ZeroExt(w - 1, z3.Extract(i, i, x) ^ z3.Extract(j, j, x))
            got = outs[0]
            got = got.item() if hasattr(got, "item") and not isinstance(got, z3.ExprRef) else got
            if got.size() > w:
                got = z3.Extract(w - 1, 0, got)
            r, m = check(*cond, got != want)
            k += 1
            if r == "unsat":
                continue
            v = m.eval(x, model_completion=True).as_long()
            g, exp = int(fn(jnp.uint32(v))), cut(e)(bits(v, n))
            if g == exp:
                raise ReplayMismatch("cut of %d" % v)
            raise Violation("cut computer of graph %s gives %d instead of %d for outcome %d" % (name, g, exp, v), {"graph": name, "outcome": v})
        return {"paths": k}
    return run


# ------------------------------------------------------------------ mixers
def mat(n, f):
    """{(row, col): value} of a matrix given by f(col bits) -> [(row bits, value)]"""
    out = {}
    for x in range(1 << n):
        for r, v in f(bits(x, n)):
            y = sum(b << i for i, b in enumerate(r))
            out[(y, x)] = out.get((y, x), 0) + v
    return {k: v for k, v in out.items() if v}


def flip(b, *idx):
    return [1 - v if i in idx else v for i, v in enumerate(b)]


def chain(n, gens):
    """product of exp(-i q s G) in order of application; gens: [(G, q, symbol)]"""
    out = {j: {j: ONE} for j in range(1 << n)}
    for G, q, s in gens:
        out = cmul(expm(G, q, s, 1 << n), out)
    return out


def X_gens(n, s="b", q=1):
    return [(mat(n, lambda b, i=i: [(flip(b, i), 1)]), q, s) for i in range(n)]


def Y_gens(n, s="b"):
    return [(mat(n, lambda b, i=i: [(flip(b, i), 1j if b[i] == 0 else -1j)]), 1, s) for i in range(n)]


def xy_gens(n, s="b", off=0, tot=None):
    tot = tot or n
    pairs = [(i, i + 1) for i in range(0, n - 1, 2)] + [(i, i + 1) for i in range(1, n - 1, 2)] + [(n - 1, 0)]
    return [(mat(tot, lambda b, i=i + off, j=j + off: [(flip(b, i, j), 2)] if b[i] != b[j] else []), 1, s) for i, j in pairs]


def cond_gens(n, pred, s="b"):
    return [(mat(n, lambda b, i=i: [(flip(b, i), 1)] if pred(b, i) else []), Fraction(1, 2), s) for i in range(n)]


def indep_pred(edges):
    return lambda b, i: not any(b[k] for e in edges if i in e for k in e if k != i)


def cover_pred(sets):
    # set i may be switched if every element of it is in another chosen set
    return lambda b, i: all(any(b[k] and e in s for k, s in enumerate(sets) if k != i) for e in sets[i])


def mixer(tag, n, make, gens):
    def run():
        from qrisp import QuantumVariable
        b = symbol("b")
        qv = QuantumVariable(n)
        make()(qv, b)
        cols = columns(qv.qs, qv.reg)
        verdict(cols, chain(n, gens()), "mixer %s" % tag)
        return {"circuits": 1}
    return run


def diffuse(tag, sizes, indices=None, func=None, array=False):
    """diffuser = I + (e^{i b} - 1)|s><s| on the chosen variables, up to a global phase"""
    def run():
        from qrisp import QuantumVariable, QuantumArray, h, cx, x
        from qrisp.grover import diffuser
        b = symbol("b")
        n = sum(sizes)
        prep = None
        vec = [2.0 ** (-n / 2)] * (1 << n)
        G = {(r, c): 2.0 ** -n for r in range(1 << n) for c in range(1 << n)}
        if func == "ghz":
            def prep(*a):
                q = [v for o in a for v in o.reg]
                h(q[0])
                for k in q[1:]:
                    cx(q[0], k)
            ends = (0, (1 << n) - 1)
            G = {(r, c): 0.5 for r in ends for c in ends}
        elif func == "flip":
            def prep(*a):
                q = [v for o in a for v in o.reg]
                for k in q[::2]:
                    x(k)
            e = sum(1 << i for i in range(0, n, 2))
            G = {(e, e): 1.0}
        if array:
            arg = QuantumArray(QuantumVariable(sizes[0]), shape=(len(sizes),))
            qvs = list(arg.flatten())
        else:
            qvs = [QuantumVariable(s) for s in sizes]
            arg = qvs[0] if len(qvs) == 1 else qvs
        kw = {}
        if indices is not None:
            kw["reflection_indices"] = indices
            # U prepares the uniform state on all variables, the reflection is conditioned on the listed ones only
            mask, pos = 0, 0
            for k, s in enumerate(sizes):
                if k in indices:
                    mask |= ((1 << s) - 1) << pos
                pos += s
            w = bin(mask).count("1")
            G = {(r, c): 2.0 ** -w for r in range(1 << n) for c in range(1 << n) if (r ^ c) & ~mask == 0}
        if prep is not None:
            kw["state_function"] = prep
        diffuser(arg, phase=b, **kw)
        qubits = [q for v in qvs for q in v.reg]
        verdict(columns(qvs[0].qs, qubits), chain(n, [(G, -1, "b")]), "diffuser %s" % tag)
        return {"circuits": 1}
    return run


def constrained(name, n, good, beta):
    """constrained mixer = I + (e^{i beta} - 1)|s><s| with s the uniform superposition of the allowed states"""
    def run():
        import qrisp as Q
        from qrisp.qaoa import constrained_mixer_gen
        f, oracle = ORACLES[good]
        ok = [x for x in range(1 << n) if f(bits(x, n))]
        mix = constrained_mixer_gen(lambda q, phase=np.pi: oracle(Q, q, phase), lambda q: len(ok))
        qv = Q.QuantumVariable(n)
        mix(qv, beta)
        L = Dyn(qv.reg)
        L.run(qv.qs.copy())
        s = np.zeros(1 << n)
        s[ok] = 1 / math.sqrt(len(ok))
        want = np.zeros((1 << L.n, 1 << n), complex)
        want[:1 << n] = np.eye(1 << n) + (np.exp(1j * beta) - 1) * np.outer(s, s)
        r = histories(L, want, "global")
        if r is not None:
            raise Violation("constrained mixer (%s, %d qubits, angle %s): %s" % (good, n, beta, r))
        return {"gates": L.gates}
    return run


def _differ(Q, q, phase):
    # states with q0 != q1
    Q.cx(q[0], q[1])
    Q.p(phase, q[1])
    Q.cx(q[0], q[1])


def _first(Q, q, phase):
    Q.x(q[0])
    Q.cp(phase, q[0], q[1])
    Q.x(q[0])


ORACLES = {"differ": (lambda b: b[0] != b[1], _differ), "first": (lambda b: not b[0] and b[1], _first)}


def tag(name, kinds, values, phase="sym", binary=False):
    """kinds: constructors; tag_state puts the phase on exactly the named basis state"""
    def run():
        import qrisp as Q
        from qrisp.grover import tag_state
        qvs = [KINDS[k](Q) for k in kinds]
        if len(qvs) > 1:
            Q.merge(qvs)
        qubits = [q for v in qvs for q in v.reg]
        n = len(qubits)
        b = symbol("b")
        spec = {}
        x, pos = 0, 0
        for v, k, val in zip(qvs, kinds, values):
            pat = int(val, 2) if binary else LABEL[k](val)
            x |= pat << pos
            pos += v.size
            spec[v] = val
        kw = {"binary_values": True} if binary else {}
        if phase == "sym":
            kw["phase"] = b
        elif phase is not None:
            kw["phase"] = phase
        tag_state(spec, **kw)
        cols = columns(qvs[0].qs, qubits)
        if phase == "sym":
            exp = chain(n, [({(x, x): 1.0}, -1, "b")])
        else:
            from ..matsym import root
            t = Fraction(1, 2) if phase is None else Fraction(phase / (2 * math.pi)).limit_denominator(64)
            exp = {j: {j: root(t) if j == x else ONE} for j in range(1 << n)}
        verdict(cols, exp, "tag_state %s" % name)
        return {"circuits": 1}
    return run


KINDS = {"v2": lambda Q: Q.QuantumVariable(2), "v1": lambda Q: Q.QuantumVariable(1), "v3": lambda Q: Q.QuantumVariable(3), "f3": lambda Q: Q.QuantumFloat(3), "f3m1": lambda Q: Q.QuantumFloat(3, -1), "s2": lambda Q: Q.QuantumFloat(2, signed=True),
         "m5": lambda Q: Q.QuantumModulus(5), "b": lambda Q: Q.QuantumBool()}
LABEL = {"v2": lambda s: int(s[::-1], 2), "v1": lambda s: int(s), "v3": lambda s: int(s[::-1], 2), "f3": int, "f3m1": lambda v: int(v * 2), "s2": lambda v: v % 8, "m5": int, "b": int}


# ------------------------------------------------------------------ complete QAOA circuits
def qaoa(name, n, make, fgen, mixgens, depth, init="h", init_type="random"):
    def run():
        from qrisp import QuantumVariable
        qv = QuantumVariable(n)
        prob = make()
        qc, syms = prob.compile_circuit(qv, depth, init_type) if init_type != "random" else prob.compile_circuit(qv, depth)
        if [str(s) for s in syms] != ["gamma_%d" % i for i in range(depth)] + ["beta_%d" % i for i in range(depth)]:
            raise Violation("QAOA %s: the parameters are returned in the order %s" % (name, syms))
        by = {q.identifier: q for q in qc.qubits}
        order = [by[q.identifier] for q in qv.reg] + [q for q in qc.qubits if q.identifier not in {r.identifier for r in qv.reg}]
        m = Mat(order, inputs=[0])
        m.run(qc)
        f, k = fgen
        from ..matsym import root, scale
        if init == "h":
            vec = {x: {(0, ()): Fraction(1)} for x in range(1 << n)}
            if init_type == "tqa":
                vec = {x: {(0, ()): Fraction((-1) ** bin(x).count("1"))} for x in range(1 << n)}
        else:
            x0 = 0 if init == "0" else (1 << n) - 1
            vec = {x0: {(0, ()): Fraction(1)}}
        cols = {0: vec}
        for i in range(depth):
            D = diag(n, "gamma_%d" % i, lambda b: Fraction(k) * f(b))
            cols = cmul(D, cols)
            for G in mixgens("beta_%d" % i):
                cols = cmul(expm(G[0], G[1], G[2], 1 << n), cols)
        got = {0: m.cols[0]}
        if init == "h":
            # remove the normalisation sqrt(2)^n of the uniform superposition
            fac = {(0, ()): Fraction(2 ** (n // 2))}
            if n % 2:
                from ..matsym import padd, pmul
                sqrt2 = padd(root(Fraction(1, 8)), root(Fraction(-1, 8)))
                fac = pmul(fac, sqrt2)
            from ..matsym import pmul
            got = {0: {r: pmul(fac, a) for r, a in got[0].items()}}
        verdict(got, cols, "QAOA circuit of %s with %d layers" % (name, depth))
        return {"circuits": 1}
    return run


# ------------------------------------------------------------------ coloring
def coloring(name, n, edges, colors, onehot):
    def run():
        from qrisp import QuantumArray
        from qrisp.qaoa import QuantumColor, create_coloring_operator
        g = symbol("g")
        arr = QuantumArray(qtype=QuantumColor(colors, one_hot_enc=onehot), shape=n)
        create_coloring_operator(graph(n, edges))(arr, g)
        qs = [q for v in arr.flatten() for q in v.reg]
        w = arr.flatten()[0].size

        def f(b):
            r = [b[i * w:(i + 1) * w] for i in range(n)]
            if onehot:
                return sum(sum(x & y for x, y in zip(r[i], r[j])) for i, j in edges)
            return sum(r[i] == r[j] for i, j in edges)
        verdict(columns(arr.qs, qs), diag(len(qs), "g", lambda b: 2 * f(b)), "coloring operator %s" % name)
        return {"circuits": 1}
    return run


def color_objective(name, n, edges, colors):
    def run():
        from qrisp.qaoa import create_coloring_cl_cost_function
        from qrisp.core.quantum_array import OutcomeArray
        fn = create_coloring_cl_cost_function(graph(n, edges))
        keys = list(itertools.product(colors, repeat=n))
        got = fn({k: SymC.rvar("p%d" % i) for i, k in enumerate(keys)})
        want = SymC.of(0)
        for i, k in enumerate(keys):
            want = want + SymC.rvar("p%d" % i) * (-4 ** sum(k[a] != k[b] for a, b in edges))
        if vanish([got - want], [], 1e-9) is not None:
            raise Violation("cost function of the coloring problem %s differs from -4^(number of edges with different colors)" % name)
        return {"outcomes": len(keys)}
    return run


def color_mixer(n, colors):
    def run():
        from qrisp import QuantumArray
        from qrisp.qaoa import QuantumColor, apply_XY_mixer
        b = symbol("b")
        arr = QuantumArray(qtype=QuantumColor(["c%d" % i for i in range(colors)]), shape=n)
        apply_XY_mixer(arr, b)
        qs = [q for v in arr.flatten() for q in v.reg]
        gens = sum([xy_gens(colors, off=k * colors, tot=n * colors) for k in range(n)], [])
        verdict(columns(arr.qs, qs), chain(n * colors, gens), "XY mixer of an array")
        return {"circuits": 1}
    return run


# ------------------------------------------------------------------ Grover
def good_mask(free, n):
    """bits that have to agree with the marked element"""
    return [i for i in range(n) if i >= free]


def histories(L, want, phase):
    """every measurement history gives the wanted map up to its own weight"""
    if len(L.br) == 1:
        return differ({(): [L.br[0].m]}, {(): [want]}, phase=phase)
    size = np.vdot(want, want).real
    maps, total = {}, 0
    for k, br in enumerate(L.br):
        c = np.vdot(want, br.m) / size
        total += abs(c) ** 2
        maps[k,] = [br.m / c if abs(c) > 1e-9 else br.m]
    if abs(total - 1) > 1e-6:
        return "the measurement histories do not give the stated state (total weight %.6f)" % total
    return differ(maps, {k: [want] for k in maps})


def grover(n, free=0, exact=False, iterations=None, wsa=True, split=None, mode="static", array=False):
    """the oracle marks all x that agree with the register m in the bits >= free (2^free winners)"""
    def run():
        import qrisp as Q
        from qrisp.grover import grovers_alg
        cmpbits = good_mask(free, n)
        sizes = split or [n]
        kw = {}
        if exact:
            kw["exact"] = True
        if exact or (wsa and free):
            kw["winner_state_amount"] = 1 << free
        if iterations is not None:
            kw["iterations"] = iterations

        def program():
            m = Q.QuantumVariable(len(cmpbits))
            if array:
                arg = Q.QuantumArray(Q.QuantumVariable(sizes[0]), shape=(len(sizes),))
                qvs = list(arg.flatten())
            else:
                qvs = [Q.QuantumVariable(s) for s in sizes]
                arg = qvs[0] if len(qvs) == 1 else qvs
            if mode == "static":
                Q.merge([m] + qvs)

            def oracle(a, phase=None):
                if array:
                    qs = [v[i] for v, s in zip(list(a.flatten()), sizes) for i in range(s)]
                elif len(sizes) == 1:
                    qs = [a[i] for i in range(n)]
                else:
                    qs = [v[i] for v, s in zip(a, sizes) for i in range(s)]

                def eq():
                    for k, i in enumerate(cmpbits):
                        Q.cx(m[k], qs[i])
                        Q.x(qs[i])
                eq()
                sel = [qs[i] for i in cmpbits]
                if len(sel) == 1:
                    Q.p(np.pi if phase is None else phase, sel[0])
                elif len(sel) == 2:
                    Q.cp(np.pi if phase is None else phase, *sel)
                else:
                    Q.mcp(np.pi if phase is None else phase, sel) if mode == "static" else chain_mcp(Q, np.pi if phase is None else phase, sel)
                with Q.invert():
                    eq()
            grovers_alg(arg, oracle, **kw)
            return m, qvs
        if mode == "static":
            m, qvs = program()
            Q.merge([m] + qvs)
            qc = m.qs.copy()
            mq = list(m.reg)
            xq = [q for v in qvs for q in v.reg]
        else:
            from ..jaspq import traced

            def main():
                m, qvs = program()
                return (m, *qvs)
            regs, qc = traced(main)
            mq = regs[0]
            xq = [q for r in regs[1:] for q in r]
        L = Dyn(mq)
        L.dirty = None
        L.run(qc)
        if L.dirty is not None:
            raise Violation("Grover: a temporary qubit is deallocated although it is not in |0>")
        for q in xq:
            L.need(q)
        M = L.br[0].m
        name = "grovers_alg(%s%s%s) on %s, %d marked" % ("exact " if exact else "", mode, " array" if array else "", sizes, 1 << free)
        N, K, w = 1 << n, 1 << free, len(cmpbits)
        want = np.zeros_like(M)
        theta = math.asin(math.sqrt(K / N))
        if iterations is not None and not exact:
            it = iterations
        elif not exact:
            it = round(math.pi / 4 * math.sqrt(N / K))
        idx = np.arange(1 << L.n)

        def val(qs):
            return sum(((idx >> L.pos[q]) & 1) << i for i, q in enumerate(qs))
        mv, xv = val(mq), val(xq)
        other = (1 << L.n) - 1 - sum(1 << L.pos[q] for q in mq + xq)
        for c in range(1 << w):
            isgood = ((xv >> free) == c) & (mv == c) & (idx & other == 0)
            isbad = ((xv >> free) != c) & (mv == c) & (idx & other == 0)
            if exact:
                want[isgood, c] = 1 / math.sqrt(K)
            else:
                want[isgood, c] = math.sin((2 * it + 1) * theta) / math.sqrt(K)
                if N > K:
                    want[isbad, c] = math.cos((2 * it + 1) * theta) / math.sqrt(N - K)
        r = histories(L, want, "global")
        if r is not None:
            raise Violation("%s: %s" % (name, r))
        return {"gates": L.gates}
    return run


def chain_mcp(Q, phi, sel):
    """multi controlled phase from pairwise phases: exp(i phi abc) for three qubits"""
    if len(sel) != 3:
        raise Exception("harness: %d" % len(sel))
    a, b, c = sel
    Q.cp(phi / 2, b, c)
    Q.cx(a, b)
    Q.cp(-phi / 2, b, c)
    Q.cx(a, b)
    Q.cp(phi / 2, a, c)


def amplify(n, prep, iters, listed=True, mode="static", indices=None):
    """amplitude amplification of U|0> with the good state chosen by a symbolic register"""
    def run():
        import qrisp as Q
        u = PREPS[prep]

        def program():
            m = Q.QuantumVariable(n)
            a = Q.QuantumVariable(n)
            if mode == "static":
                Q.merge([m, a])

            def state(v):
                u[0](Q, v, n)

            def oracle(v):
                def eq():
                    for i in range(n):
                        Q.cx(m[i], v[i])
                        Q.x(v[i])
                eq()
                if n == 1:
                    Q.z(v[0])
                elif n == 2:
                    Q.cz(v[0], v[1])
                else:
                    chain_mcp(Q, np.pi, [v[i] for i in range(n)])
                with Q.invert():
                    eq()
            state(a)
            Q.amplitude_amplification([a] if listed else a, state, oracle, iter=iters)
            return m, a
        if mode == "static":
            m, a = program()
            Q.merge([m, a])
            qc, mq, xq = m.qs.copy(), list(m.reg), list(a.reg)
        else:
            from ..jaspq import traced
            (mq, xq), qc = traced(program)
        L = Dyn(mq)
        L.dirty = None
        L.run(qc)
        if L.dirty is not None:
            raise Violation("amplitude amplification: a temporary qubit is deallocated although it is not in |0>")
        for q in xq:
            L.need(q)
        M = L.br[0].m
        psi = u[1](n)
        want = np.zeros_like(M)
        idx = np.arange(1 << L.n)

        def val(qs):
            return sum(((idx >> L.pos[q]) & 1) << i for i, q in enumerate(qs))
        mv, xv = val(mq), val(xq)
        other = (1 << L.n) - 1 - sum(1 << L.pos[q] for q in mq + xq)
        for c in range(1 << n):
            v = np.array(psi, complex)
            good = np.arange(1 << n) == c
            for _ in range(iters):
                v = np.where(good, -v, v)
                v = 2 * psi * np.vdot(psi, v) - v
            sel = (mv == c) & (idx & other == 0)
            want[sel, c] = v[xv[sel]]
        r = histories(L, want, "exact")
        if r is not None:
            raise Violation("amplitude_amplification (%s, %d qubits, state %s, %d iterations): %s" % (mode, n, prep, iters, r))
        return {"gates": L.gates}
    return run


def _ry(Q, v, n):
    for i in range(n):
        Q.ry(0.4 + 0.3 * i, v[i])


def _ry_vec(n):
    out = np.ones(1)
    for i in range(n):
        t = 0.4 + 0.3 * i
        out = np.kron([math.cos(t / 2), math.sin(t / 2)], out)
    return out.astype(complex)


def _ghz(Q, v, n):
    Q.ry(0.9, v[0])
    for i in range(1, n):
        Q.cx(v[0], v[i])
    Q.s(v[0])


def _ghz_vec(n):
    out = np.zeros(1 << n, complex)
    out[0], out[-1] = math.cos(0.45), 1j * math.sin(0.45)
    return out


def _h(Q, v, n):
    for i in range(n):
        Q.h(v[i])


PREPS = {"ry": (_ry, _ry_vec), "ghz": (_ghz, _ghz_vec), "h": (_h, lambda n: np.ones(1 << n, complex) / math.sqrt(1 << n))}


def cases(tier):
    import qrisp.qaoa as A
    out = []
    for k, (n, e) in GRAPHS.items():
        mk = lambda n=n, e=e: (A.create_maxcut_cost_operator(graph(n, e)), 1)
        out.append(("maxcut-op-" + k, cost("maxcut " + k, n, mk, cut(e), -2)))
        out.append(("maxcut-op-traced-" + k, cost_traced("maxcut " + k, n, mk, cut(e), -2)))
        for mode in ("str", "array"):
            out.append(("maxcut-cl-%s-%s" % (k, mode), objective("maxcut " + k, n, lambda n=n, e=e: A.create_maxcut_cl_cost_function(graph(n, e)), cut(e), mode)))
        out.append(("indep-cl-" + k, objective("independent set " + k, n, lambda n=n, e=e: A.create_max_indep_set_cl_cost_function(graph(n, e)), indep(e))))
        comp = [(i, j) for i in range(n) for j in range(i + 1, n) if (i, j) not in e and (j, i) not in e]
        out.append(("clique-cl-" + k, objective("clique " + k, n, lambda n=n, e=e: A.create_max_clique_cl_cost_function(graph(n, e)), indep(comp))))
        out.append(("clique-problem-cl-" + k, objective("clique problem " + k, n, lambda n=n, e=e: A.max_clique_problem(graph(n, e)).cl_cost_function, indep(comp))))
        if n <= 4:
            out.append(("indep-mixer-" + k, mixer("of independent set " + k, n, lambda n=n, e=e: A.create_max_indep_set_mixer(graph(n, e)), lambda n=n, e=e: cond_gens(n, indep_pred(e)))))
            out.append(("clique-mixer-" + k, mixer("of clique " + k, n, lambda n=n, e=e: A.max_clique_problem(graph(n, e)).mixer, lambda n=n, c=comp: cond_gens(n, indep_pred(c)))))
    for k, Q in QUBOS.items():
        q = np.array(Q)
        sc = math.sqrt(np.linalg.norm(q))
        out.append(("qubo-op-" + k, cost("QUBO " + k, len(Q), lambda q=q, sc=sc: (A.create_QUBO_cost_operator(q), int(sc) if sc == int(sc) else sc), qubo(Q), -1, exact=True)))
        out.append(("qubo-cl-" + k, objective("QUBO " + k, len(Q), lambda q=q: A.create_QUBO_cl_cost_function(q), qubo(Q))))
    for k, (n, c) in LIN2.items():
        out.append(("lin2-op-" + k, cost("E3Lin2 " + k, n, lambda c=c: (A.create_e3lin2_cost_operator(c), 1), lin2(c), 1)))
        out.append(("lin2-cl-" + k, objective("E3Lin2 " + k, n, lambda c=c: A.create_e3lin2_cl_cost_function(c), lin2(c))))
    for k, (n, c) in SAT.items():
        out.append(("sat-op-" + k, cost("MaxSat " + k, n, lambda n=n, c=c: (A.create_maxsat_cost_operator((n, c)), 1), sat(c), 1)))
        out.append(("sat-cl-" + k, objective("MaxSat " + k, n, lambda n=n, c=c: A.create_maxsat_cl_cost_function((n, c)), sat(c))))
    for k, s in PACK.items():
        n = len(s)
        e = [(i, j) for i in range(n) for j in range(i + 1, n) if s[i] & s[j]]
        out.append(("pack-cl-" + k, objective("set packing " + k, n, lambda s=s: A.max_set_packing_problem(s).cl_cost_function, indep(e))))
        out.append(("pack-mixer-" + k, mixer("of set packing " + k, n, lambda s=s: A.max_set_packing_problem(s).mixer, lambda n=n, e=e: cond_gens(n, indep_pred(e)))))
    for k, (s, u) in COVER.items():
        out.append(("cover-cl-" + k, objective("set cover " + k, len(s), lambda s=s, u=u: A.create_min_set_cover_cl_cost_function(s, u), cover(s, u))))
        out.append(("cover-mixer-" + k, mixer("of set cover " + k, len(s), lambda s=s, u=u: A.create_min_set_cover_mixer(s, u), lambda s=s: cond_gens(len(s), cover_pred(s)))))
    for n in (1, 2, 3):
        out.append(("rx-%d" % n, mixer("RX", n, lambda: A.RX_mixer, lambda n=n: X_gens(n))))
        out.append(("ry-%d" % n, mixer("RY", n, lambda: A.RY_mixer, lambda n=n: Y_gens(n))))
        out.append(("rz-%d" % n, cost("RZ mixer", n, lambda: (A.RZ_mixer, 1), lambda b: -sum(b), 1)))
        out.append(("grover-mixer-%d" % n, mixer("Grover", n, lambda: A.grover_mixer, lambda n=n: [({(r, c): 2.0 ** -n for r in range(1 << n) for c in range(1 << n)}, -1, "b")])))
    for n in (2, 3, 4) + ((5,) if tier != "quick" else ()):
        out.append(("xy-%d" % n, mixer("XY", n, lambda: A.XY_mixer, lambda n=n: xy_gens(n))))
    out.append(("xy-array-2-2", color_mixer(2, 2)))
    for name, n, e, c, oh in (("edge-2-hot", 2, [(0, 1)], ["r", "g"], True), ("edge-4", 2, [(0, 1)], ["r", "g", "b", "y"], False), ("path-2", 3, [(0, 1), (2, 1)], ["r", "g"], False), ("tri-2", 3, [(0, 1), (1, 2), (0, 2)], ["r", "g"], True)):
        out.append(("color-op-" + name, coloring(name, n, e, c, oh)))
        out.append(("color-cl-" + name, color_objective(name, n, e, c)))
    # complete circuits
    n3, e3 = GRAPHS["path3"]
    for d in (1, 2):
        out.append(("qaoa-maxcut-%d" % d, qaoa("maxcut", n3, lambda: A.maxcut_problem(graph(n3, e3)), (cut(e3), -2), lambda s: X_gens(n3, s), d)))
    out.append(("qaoa-maxcut-tqa", qaoa("maxcut", n3, lambda: A.maxcut_problem(graph(n3, e3)), (cut(e3), -2), lambda s: X_gens(n3, s), 1, init_type="tqa")))
    out.append(("qaoa-indep-2", qaoa("independent set", n3, lambda: A.max_indep_set_problem(graph(n3, e3)), (lambda b: -sum(b), 1), lambda s: cond_gens(n3, indep_pred(e3), s), 2, init="0")))
    sc, u = COVER["two"]
    out.append(("qaoa-cover-1", qaoa("set cover", 3, lambda: A.min_set_cover_problem(sc, u), (lambda b: -sum(b), 1), lambda s: cond_gens(3, cover_pred(sc), s), 1, init="1")))
    c2 = LIN2["odd"][1]
    out.append(("qaoa-lin2-1", qaoa("E3Lin2", 3, lambda: A.e3lin2_problem(c2), (lin2(c2), 1), lambda s: X_gens(3, s), 1)))
    c3 = SAT["neg"]
    out.append(("qaoa-sat-2", qaoa("MaxSat", 2, lambda: A.maxsat_problem(c3), (sat(c3[1]), 1), lambda s: X_gens(2, s), 2)))
    # diffuser, tag_state
    for nm, sizes, kw in (("1", [1], {}), ("2", [2], {}), ("3", [3], {}), ("1+2", [1, 2], {}), ("2+1 first", [2, 1], {"indices": [0]}), ("1+1+1 last two", [1, 1, 1], {"indices": [1, 2]}), ("ghz", [3], {"func": "ghz"}),
                          ("ghz 1+2", [1, 2], {"func": "ghz"}), ("flip", [3], {"func": "flip"}), ("array", [1, 1, 1], {"array": True}), ("4", [4], {})):
        out.append(("diffuser-" + nm.replace(" ", "_"), diffuse(nm, sizes, **kw)))
    for i in range(4):
        s = format(i, "02b")
        out.append(("tag-v2-" + s, tag("v2 " + s, ["v2"], [s])))
        out.append(("tag-bin-" + s, tag("v2 binary " + s, ["v2"], [s], binary=True)))
        out.append(("tag-pi-" + s, tag("v2 pi " + s, ["v2"], [s], phase=None)))
    for i in range(8):
        out.append(("tag-f3-%d" % i, tag("f3 %d" % i, ["f3"], [i])))
        out.append(("tag-f3-%d-pi" % i, tag("f3 %d" % i, ["f3"], [i], phase=None)))
    for kinds, vals in ((["v1", "v2"], ["1", "10"]), (["v1", "v2"], ["0", "01"]), (["f3m1", "b"], [2.5, True]), (["f3m1", "b"], [0.5, False]), (["s2", "v1"], [-3, "1"]), (["b", "s2"], [False, 2]), (["b", "b", "b"], [True, False, True]), (["m5"], [3]), (["v3", "b"], ["110", True])):
        nm = "%s=%s" % ("+".join(kinds), ",".join(map(str, vals)))
        out.append(("tag-" + nm, tag(nm, kinds, vals)))
        out.append(("tag-%s-pi4" % nm, tag(nm, kinds, vals, phase=math.pi / 4)))
        out.append(("tag-%s-pi" % nm, tag(nm, kinds, vals, phase=None)))
    for n in (2, 3):
        for good in ORACLES:
            for beta in (math.pi, 0.7):
                out.append(("constrained-%d-%s-%.1f" % (n, good, beta), constrained("", n, good, beta)))
    for k in GRAPHS:
        out.append(("cut-computer-" + k, cut_computer(k)))
    # Grover and amplitude amplification
    for mode in ("static", "traced"):
        for n, free in ((2, 0), (3, 0), (3, 1)) + (((4, 1), (4, 2), (4, 0)) if mode == "static" else ()):
            if n - free > 3 and mode == "traced":
                continue
            out.append(("grover-%s-%d-%d" % (mode, n, free), grover(n, free, mode=mode)))
            out.append(("grover-exact-%s-%d-%d" % (mode, n, free), grover(n, free, exact=True, mode=mode)))
        for it in (0, 1, 2, 3):
            out.append(("grover-it%d-%s" % (it, mode), grover(3, 0, iterations=it, mode=mode)))
        out.append(("grover-split-%s" % mode, grover(3, 0, split=[1, 2], mode=mode)))
        out.append(("grover-exact-split-%s" % mode, grover(3, 1, split=[2, 1], exact=True, mode=mode)))
        for n, prep in ((1, "ry"), (2, "ry"), (2, "ghz"), (3, "ghz"), (3, "ry"), (2, "h")):
            for it in (0, 1, 2, 3):
                if it and (it < 3 or n < 3):
                    out.append(("amplify-%s-%s%d-%d" % (mode, prep, n, it), amplify(n, prep, it, mode=mode, listed=it != 2)))
    out.append(("grover-array", grover(3, 0, split=[1, 1, 1], array=True)))
    out.append(("grover-exact-array", grover(4, 1, split=[2, 2], exact=True, array=True)))
    return out
