"""C15: algebra of qubit operators agrees with matrix algebra."""
import itertools

from ..prog import Violation, ReplayMismatch
from ..pysym import SymC, Explorer, vanish, isnum
from ..smt import z3, check

LEVEL = "bounded"
TECH = "symbolic execution of the operator classes with symbolic complex coefficients; SMT verdict over all coefficients per path"
FUNCTIONS = ["qrisp.operators.qubit.qubit_operator.QubitOperator.{__add__, __sub__, __rsub__, __mul__, __radd__, __rmul__, __iadd__, __isub__, __imul__, __pow__, subs, commutator, apply_threshold, from_matrix, "
             "from_numpy_array, to_sparse_matrix, to_array, to_pauli, _to_pauli_dict, adjoint, hermitize, eliminate_ladder_conjugates, commuting_groups, commuting_qw_groups, group_up, find_minimal_qubit_amount}",
             "qrisp.operators.qubit.qubit_term.QubitTerm.{__mul__, adjoint, to_pauli, subs, commutator, commute, commute_pauli, commute_qw, ladders_agree}", "qrisp.operators.hamiltonian_tools.group_up_iterable"]
BOUNDS = ("one qubit operators with all 8 factors and independent symbolic complex coefficients in every operation (all operands at once); every pair of two qubit terms (64 x 64) inside operators of 64 terms; "
          "families of operators with 2 to 6 terms on up to 4 qubits; every path of the threshold comparisons with at most 2 dropped coefficients (1 for the 64 term operators).  thorough: 3 qubit operators with 128 terms, 3 dropped coefficients.")
OUTSIDE = "coefficients that are sympy expressions or traced values; rounding of machine numbers; operators with more terms or qubits; the numerical eigenvalue solver behind ground_state_energy"
HOW = ("the operator classes are executed with proxy coefficients (polynomials in free real variables); every comparison of a coefficient with the drop threshold forks the execution.  Per path the matrix of the result "
       "is compared with the matrix expression computed by the harness: z3 decides that no coefficients satisfying the path condition make an entry differ by more than 1e-6")

I = [[1, 0], [0, 1]]
MATS = {"I": I, "X": [[0, 1], [1, 0]], "Y": [[0, -1j], [1j, 0]], "Z": [[1, 0], [0, -1]], "A": [[0, 1], [0, 0]], "C": [[0, 0], [1, 0]],
        "P0": [[1, 0], [0, 0]], "P1": [[0, 0], [0, 1]]}
LET = ["I", "X", "Y", "Z", "A", "C", "P0", "P1"]
TOL = 1e-6


# ------------------------------------------------------------------ reference matrices: {(row, col): SymC}, factor 0 most significant
def term_mat(fd, n):
    cur = {(0, 0): 1}
    for q in range(n):
        m = MATS[fd.get(q, "I")]
        nxt = {}
        for (r, c), v in cur.items():
            for i in range(2):
                for j in range(2):
                    if m[i][j]:
                        nxt[(2 * r + i, 2 * c + j)] = v * m[i][j]
        cur = nxt
    return cur


def madd(a, b, s=1):
    r = dict(a)
    for k, v in b.items():
        w = r.get(k, SymC({})) + v * s
        if w.p:
            r[k] = w
        else:
            r.pop(k, None)
    return r


def mscale(a, s):
    return {k: v * s for k, v in a.items() if (v * s).p}


def mmul(a, b):
    rows = {}
    for (r, c), v in b.items():
        rows.setdefault(r, []).append((c, v))
    out = {}
    for (r, c), v in a.items():
        for c2, w in rows.get(c, ()):
            out[(r, c2)] = out.get((r, c2), SymC({})) + v * w
    return {k: v for k, v in out.items() if v.p}


def mdag(a):
    return {(c, r): v.conjugate() for (r, c), v in a.items()}


def ident(n, s=1):
    s = SymC.of(s)
    return {(i, i): s for i in range(2 ** n)} if s.p else {}


CACHE = {}


def op_mat(op, n):
    """matrix of a QubitOperator (or number) of the code under test, from its terms"""
    if type(op) is SymC or isnum(op):
        return ident(n, op)
    acc = {}
    for t, c in op.terms_dict.items():
        key = (tuple(sorted(t.factor_dict.items())), n)
        if key not in CACHE:
            if any(not (0 <= k < n) for k in t.factor_dict):
                raise Violation("the result acts on a qubit outside the operands: %s" % (t.factor_dict,), {"term": t.factor_dict})
            CACHE[key] = term_mat(t.factor_dict, n)
        c = SymC.of(c)
        for k, v in CACHE[key].items():
            acc[k] = acc.get(k, SymC({})) + c * v
    return {k: v for k, v in acc.items() if v.p}


# ------------------------------------------------------------------ operands
def build(spec, coeff):
    """spec: list of factor dicts; coeff(i) -> coefficient"""
    from qrisp.operators.qubit.qubit_operator import QubitOperator
    from qrisp.operators.qubit.qubit_term import QubitTerm
    return QubitOperator({QubitTerm(fd): coeff(i) for i, fd in enumerate(spec)})


def ref(spec, coeff, n):
    acc = {}
    for i, fd in enumerate(spec):
        acc = madd(acc, {k: SymC.of(v) for k, v in term_mat(fd, n).items()}, coeff(i))
    return acc


def sym(name, real=False):
    return lambda i: (SymC.rvar if real else SymC.var)("%s%d" % (name, i))


def conc(name, env):
    def f(i):
        return complex(float(env.get("%s%d.re" % (name, i), 0)), float(env.get("%s%d.im" % (name, i), 0)))
    return f


def decide_case(names, specs, n, action, model, tag, max_true=2, real=False, scal=0):
    """action(ops, scalars) runs the code; model(mats, scalars) is the matrix expression"""
    k = 0
    syms = [sym(nm, real) for nm in names]
    scs = [SymC.var("s%d" % i) for i in range(scal)]
    exp = model([ref(s, f, n) for s, f in zip(specs, syms)], scs)
    ex = Explorer(max_true=max_true)

    def go():
        ops = [build(s, f) for s, f in zip(specs, syms)]
        keep = [dict(o.terms_dict) for o in ops]
        r = action(ops, list(scs))
        same = [all(x is y for x, y in zip(o.terms_dict.values(), d.values())) and list(o.terms_dict) == list(d) for o, d in zip(ops, keep)]
        return r, same
    inplace = tag.startswith("i")
    for cond, (r, same) in ex.run(go):
        if not inplace and not all(same):
            raise Violation("%s: an operand was modified" % tag, {"specs": specs})
        got = op_mat(r, n)
        d = madd(got, exp, -1)
        w = vanish(list(d.values()), cond, TOL)
        k += 1
        if w is None:
            continue
        # replay with machine numbers
        env = dict(w)
        ops = [build(s, conc(nm, env)) for s, nm in zip(specs, names)]
        sc = [complex(float(env.get("s%d.re" % i, 0)), float(env.get("s%d.im" % i, 0))) for i in range(scal)]
        e = {key: v.eval({x: float(env.get(x, 0)) for x in v.vars()}) for key, v in exp.items()}
        g = {key: complex(v) for key, v in op_mat(action(ops, sc), n).items()}
        err = max([abs(g.get(key, 0) - e.get(key, 0)) for key in set(g) | set(e)] or [0])
        if err > TOL / 2:
            raise Violation("%s: matrix of the result differs from the matrix expression by %.3g" % (tag, err),
                            {"operands": [str(s) for s in specs], "coefficients": {a: str(b) for a, b in env.items()}, "operation": tag,
                             "got": {str(a): str(b) for a, b in list(g.items())[:16]}, "expected": {str(a): str(b) for a, b in list(e.items())[:16]}})
        raise ReplayMismatch("%s: path disagrees but the run with machine numbers does not" % tag)
    return {"paths": k, "paths_cut": ex.cut}


# ------------------------------------------------------------------ operations
def _iadd(o, s):
    a = o[0]
    a += o[1]
    return a


def _isub(o, s):
    a = o[0]
    a -= o[1]
    return a


def _imul(o, s):
    a = o[0]
    a *= o[1]
    return a


def _iadds(o, s):
    a = o[0]
    a += s[0]
    return a


def _isubs(o, s):
    a = o[0]
    a -= s[0]
    return a


def _imuls(o, s):
    a = o[0]
    a *= s[0]
    return a


def pdict(o):
    from qrisp.operators.qubit.qubit_operator import QubitOperator
    from qrisp.operators.qubit.qubit_term import QubitTerm
    d = o._to_pauli_dict()
    for k in d:
        if list(k) != sorted(k) or any(p not in "XYZ" for _, p in k):
            raise Violation("key of the Pauli dictionary is not a sorted Pauli string: %s" % (k,), {"key": str(k)})
    return QubitOperator({QubitTerm(dict(k)): v for k, v in d.items()})


def paulis(o):
    r = o.to_pauli()
    if not hasattr(r, "terms_dict"):
        raise Violation("to_pauli returned a %s instead of an operator" % type(r).__name__, {})
    for t in r.terms_dict:
        if any(p not in ("X", "Y", "Z") for p in t.factor_dict.values()):
            raise Violation("to_pauli returned a term with factors %s" % (t.factor_dict,), {})
    return r


BIN = {
    "add": (lambda o, s: o[0] + o[1], lambda m, s, n: madd(m[0], m[1])),
    "sub": (lambda o, s: o[0] - o[1], lambda m, s, n: madd(m[0], m[1], -1)),
    "mul": (lambda o, s: o[0] * o[1], lambda m, s, n: mmul(m[0], m[1])),
    "iadd": (_iadd, lambda m, s, n: madd(m[0], m[1])),
    "isub": (_isub, lambda m, s, n: madd(m[0], m[1], -1)),
    "imul": (_imul, lambda m, s, n: mmul(m[0], m[1])),
    "commutator": (lambda o, s: o[0].commutator(o[1]), lambda m, s, n: madd(mmul(m[0], m[1]), mmul(m[1], m[0]), -1)),
}
UNA = {
    "adjoint": (lambda o, s: o[0].adjoint(), lambda m, s, n: mdag(m[0]), 0),
    "hermitize": (lambda o, s: o[0].hermitize(), lambda m, s, n: mscale(madd(m[0], mdag(m[0])), 0.5), 0),
    "to_pauli": (lambda o, s: paulis(o[0]), lambda m, s, n: m[0], 0),
    "pauli_dict": (lambda o, s: pdict(o[0]), lambda m, s, n: m[0], 0),
    "elim": (lambda o, s: o[0].hermitize().eliminate_ladder_conjugates().hermitize(), lambda m, s, n: mscale(madd(m[0], mdag(m[0])), 0.5), 0),
    "pow0": (lambda o, s: o[0] ** 0, lambda m, s, n: ident(n), 0),
    "pow1": (lambda o, s: o[0] ** 1, lambda m, s, n: m[0], 0),
    "pow2": (lambda o, s: o[0] ** 2, lambda m, s, n: mmul(m[0], m[0]), 0),
    "add_scalar": (lambda o, s: o[0] + s[0], lambda m, s, n: madd(m[0], ident(n, s[0])), 1),
    "radd_scalar": (lambda o, s: s[0] + o[0], lambda m, s, n: madd(m[0], ident(n, s[0])), 1),
    "sub_scalar": (lambda o, s: o[0] - s[0], lambda m, s, n: madd(m[0], ident(n, s[0]), -1), 1),
    "rsub_scalar": (lambda o, s: s[0] - o[0], lambda m, s, n: madd(ident(n, s[0]), m[0], -1), 1),
    "mul_scalar": (lambda o, s: o[0] * s[0], lambda m, s, n: mscale(m[0], s[0]), 1),
    "rmul_scalar": (lambda o, s: s[0] * o[0], lambda m, s, n: mscale(m[0], s[0]), 1),
    "iadd_scalar": (_iadds, lambda m, s, n: madd(m[0], ident(n, s[0])), 1),
    "isub_scalar": (_isubs, lambda m, s, n: madd(m[0], ident(n, s[0]), -1), 1),
    "imul_scalar": (_imuls, lambda m, s, n: mscale(m[0], s[0]), 1),
    "threshold0": (lambda o, s: o[0].apply_threshold(0), lambda m, s, n: m[0], 0),
    "threshold": (lambda o, s: o[0].apply_threshold(1e-7), lambda m, s, n: m[0], 0),
    "mixed": (lambda o, s: (2 * o[0] + 1) * (o[0] - 0.5j) - o[0] * o[0], lambda m, s, n: madd(mmul(madd(mscale(m[0], 2), ident(n)), madd(m[0], ident(n, -0.5j))), mmul(m[0], m[0]), -1), 0),
}
# a coefficient dropped inside these operations is multiplied by other coefficients afterwards
EXACT = {"pow2", "mixed", "rmul_scalar", "mul_scalar", "imul_scalar"}


def terms(n):
    return [{q: l for q, l in enumerate(ls) if l != "I"} for ls in itertools.product(LET, repeat=n)]


FAM = {
    "pauli2": (2, [{}, {0: "X", 1: "Y"}, {0: "Y"}, {1: "Z"}, {0: "Z", 1: "Z"}]),
    "ladder2": (2, [{0: "A", 1: "C"}, {0: "C", 1: "A"}, {0: "A"}, {1: "C"}, {0: "P0", 1: "A"}]),
    "proj2": (2, [{0: "P0"}, {0: "P1"}, {1: "P1"}, {0: "P0", 1: "P1"}, {}]),
    "mixed3": (3, [{0: "X", 1: "A", 2: "P1"}, {0: "Y", 2: "C"}, {1: "Z", 2: "A"}, {0: "P0", 1: "C", 2: "Y"}]),
    "order3": (3, [{2: "X", 0: "Y"}, {1: "A", 0: "C"}, {2: "P1", 1: "Z", 0: "A"}]),
    "wide4": (4, [{0: "A", 1: "Z", 2: "Z", 3: "C"}, {0: "C", 1: "Z", 2: "Z", 3: "A"}, {1: "X", 3: "Y"}]),
    "gap4": (4, [{3: "X"}, {1: "Y", 3: "Z"}, {3: "A"}]),
    "identity": (1, [{}]),
    "single": (2, [{1: "A"}]),
    "long6": (3, [{}, {0: "A", 1: "A", 2: "C"}, {0: "C", 1: "C", 2: "A"}, {0: "X"}, {0: "P0", 2: "Z"}, {1: "Y", 2: "Y"}]),
}


def run_bin(op, n, s1, s2, mt):
    act, mod = BIN[op]
    if op == "commutator":
        mt = min(mt, 1)
    return lambda: decide_case(["a", "b"], [s1, s2], n, act, lambda m, s: mod(m, s, n), op, mt)


def run_una(op, n, s1, mt, real=False):
    act, mod, sc = UNA[op]
    return lambda: decide_case(["a"], [s1], n, act, lambda m, s: mod(m, s, n), op, 0 if op in EXACT else mt, scal=sc, real=real)


# ------------------------------------------------------------------ further operations
def subs_case(n, spec, q):
    """every factor on qubit q replaced by a number"""
    def fn():
        from qrisp.operators.qubit.qubit_operator import QubitOperator
        k = 0
        v = SymC.var("v")
        ex = Explorer()
        for cond, r in ex.run(lambda: build(spec, sym("a")).subs({q: v})):
            acc = {}
            for i, fd in enumerate(spec):
                rest = {a: b for a, b in fd.items() if a != q}
                acc = madd(acc, {x: SymC.of(y) for x, y in term_mat(rest, n).items()}, sym("a")(i) * (v if q in fd else 1))
            w = vanish(list(madd(op_mat(r, n), acc, -1).values()), cond, TOL)
            k += 1
            if w is not None:
                raise Violation("subs: result differs from the operator with the factors of qubit %d replaced" % q, {"terms": str(spec)})
        return {"paths": k}
    return fn


def matrix_case(n, rev):
    """from_numpy_array of a matrix with symbolic entries"""
    def fn():
        import numpy as np
        from qrisp.operators.qubit.qubit_operator import QubitOperator
        N = 2 ** n
        M = np.empty((N, N), dtype=object)
        for i in range(N):
            for j in range(N):
                M[i, j] = SymC.var("m%d_%d_" % (i, j))
        ex = Explorer(max_true=1)
        k = 0
        for cond, r in ex.run(lambda: QubitOperator.from_numpy_array(M)):
            exp = {(i, j): M[i, j] for i in range(N) for j in range(N)}
            w = vanish(list(madd(op_mat(r, n), exp, -1).values()), cond, TOL)
            k += 1
            if w is not None:
                Mc = np.array([[complex(float(w.get("m%d_%d_.re" % (i, j), 0)), float(w.get("m%d_%d_.im" % (i, j), 0))) for j in range(N)] for i in range(N)])
                g = op_mat(QubitOperator.from_numpy_array(Mc), n)
                err = max(abs(complex(g.get((i, j), SymC({}))) - Mc[i, j]) for i in range(N) for j in range(N))
                if err > TOL / 2:
                    raise Violation("from_numpy_array: the operator differs from the matrix by %.3g" % err, {"matrix": str(Mc.tolist())})
                raise ReplayMismatch("from_numpy_array")
        return {"paths": k}
    return fn


def generators_case(n, rev):
    """from_matrix moves entries only; free generators (distinct integers) stand for the entries"""
    def fn():
        import numpy as np
        from qrisp.operators.qubit.qubit_operator import QubitOperator
        N = 2 ** n
        M = np.arange(1, N * N + 1).reshape(N, N).astype(float)
        op = QubitOperator.from_matrix(M, reverse_endianness=rev)
        gen = {float(M[i, j]): SymC.rvar("m%d_%d_" % (i, j)) for i in range(N) for j in range(N)}
        for t in op.terms_dict:
            op.terms_dict[t] = gen[float(op.terms_dict[t])]
        got = op_mat(op, n)

        def flip(i):
            return int(format(i, "0%db" % n)[::-1], 2) if rev else i
        exp = {(flip(i), flip(j)): gen[float(M[i, j])] for i in range(N) for j in range(N)}
        w = vanish(list(madd(got, exp, -1).values()), [], TOL)
        if w is not None:
            raise Violation("from_matrix (reverse_endianness=%s) does not represent the matrix" % rev, {"matrix": str(M.tolist())})
        return {"generators": N * N}
    return fn


def to_matrix_case(n, batch):
    """to_sparse_matrix is linear in the coefficients; powers of 64 identify every term's contribution"""
    def fn():
        import numpy as np
        k = 0
        for lo in range(0, len(batch), 8):
            part = batch[lo:lo + 8]
            for unit in (1, 1j):
                op = build(part, lambda i: unit * 64.0 ** i)
                m = op.to_array(n)
                if m.shape != (2 ** n, 2 ** n):
                    raise Violation("to_array(%d) has shape %s" % (n, m.shape), {"terms": str(part)})
                d = madd(ref(part, lambda i: SymC.of(unit * 64 ** i), n), {(i, j): SymC.of(complex(m[i, j])) for i in range(2 ** n) for j in range(2 ** n) if m[i, j]}, -1)
                s, _ = check(z3.Or(*[z3.BoolVal(bool(v.p)) for v in d.values()]) if d else z3.BoolVal(False))
                k += 1
                if s != "unsat":
                    raise Violation("to_array differs from the matrix of the terms", {"terms": str(part), "entries": str(list(d)[:4])})
        return {"matrices": k}
    return fn


def min_matrix_case(spec, n, unit):
    def fn():
        op = build(spec, lambda i: unit * (i + 1.0))
        m = op.to_array()
        if m.shape != (2 ** n, 2 ** n):
            raise Violation("to_array has shape %s, expected %d qubits" % (m.shape, n), {"terms": str(spec)})
        d = madd(ref(spec, lambda i: SymC.of(unit * (i + 1)), n), {(i, j): SymC.of(complex(m[i, j])) for i in range(2 ** n) for j in range(2 ** n) if m[i, j]}, -1)
        s, _ = check(z3.BoolVal(bool(d)))
        if s != "unsat":
            raise Violation("to_array differs from the matrix of the terms: %s" % {k: (complex(v)) for k, v in list(d.items())[:3]}, {"terms": str(spec)})
        return {"matrices": 1}
    return fn


def commute_case(n, t1s, t2s):
    """answers of the commutation tests, decided on matrices"""
    def fn():
        from qrisp.operators.qubit.qubit_term import QubitTerm
        k = 0
        bad = []
        x, y = SymC.var("x"), SymC.var("y")
        for f1 in t1s:
            m1 = {a: SymC.of(b) * x for a, b in term_mat(f1, n).items()}
            for f2 in t2s:
                m2 = {a: SymC.of(b) * y for a, b in term_mat(f2, n).items()}
                d = madd(mmul(m1, m2), mmul(m2, m1), -1)
                com = vanish(list(d.values()), [], 0) is None
                qw = all(not madd(mmul(lift(f1.get(q, "I")), lift(f2.get(q, "I"))), mmul(lift(f2.get(q, "I")), lift(f1.get(q, "I"))), -1) for q in range(n))
                a, b = QubitTerm(f1), QubitTerm(f2)
                r = bool(a.commute(b)), bool(a.commute_qw(b)), bool(a.commute_pauli(b))
                k += 1
                if r[0] != com:
                    bad.append(("commute", f1, f2, r[0]))
                if r[1] != qw:
                    bad.append(("commute_qw", f1, f2, r[1]))
                if r[2] and not com:
                    bad.append(("commute_pauli", f1, f2, r[2]))
        if bad:
            raise Violation("%s(%s, %s) answers %s" % bad[0], {"all": [str(b) for b in bad[:40]]})
        return {"term_pairs": k}
    return fn


def lift(l):
    return {(i, j): SymC.of(MATS[l][i][j]) for i in range(2) for j in range(2) if MATS[l][i][j]}


def group_case(method, n, spec):
    """a partition has the same sum, and the members of a group commute as documented"""
    def fn():
        k = 0
        ex = Explorer(max_true=3)

        def go():
            o = build(spec, sym("a"))
            if method == "com":
                return o.commuting_groups(), "com"
            if method == "qw":
                return o.commuting_qw_groups(), "qw"
            if method == "qwins":
                return o.commuting_qw_groups(use_graph_coloring=False), "qw"
            return o.group_up(lambda a, b: a.commute_pauli(b)), "com"
        exp = ref(spec, sym("a"), n)
        for cond, (gs, rel) in ex.run(go):
            acc = {}
            for g in gs:
                acc = madd(acc, op_mat(g, n))
            k += 1
            if vanish(list(madd(acc, exp, -1).values()), cond, TOL) is not None:
                raise Violation("groups do not sum up to the operator", {"terms": str(spec), "method": method})
            for g in gs:
                ts = [t.factor_dict for t in g.terms_dict]
                for f1, f2 in itertools.combinations(ts, 2):
                    if rel == "qw":
                        ok = all(not madd(mmul(lift(f1.get(q, "I")), lift(f2.get(q, "I"))), mmul(lift(f2.get(q, "I")), lift(f1.get(q, "I"))), -1) for q in range(n))
                    else:
                        m1 = {a: SymC.of(b) for a, b in term_mat(f1, n).items()}
                        m2 = {a: SymC.of(b) for a, b in term_mat(f2, n).items()}
                        ok = not madd(mmul(m1, m2), mmul(m2, m1), -1)
                    if not ok:
                        raise Violation("terms %s and %s share a group but do not commute" % (f1, f2), {"terms": str(spec), "method": method})
        return {"paths": k}
    return fn


def minimal_case():
    def fn():
        for nm, (n, spec) in FAM.items():
            o = build(spec, lambda i: 1.0)
            want = max([q + 1 for fd in spec for q in fd] or [0])
            s, _ = check(z3.IntVal(int(o.find_minimal_qubit_amount())) != z3.IntVal(want))
            if s != "unsat":
                raise Violation("find_minimal_qubit_amount of %s" % spec, {})
        return {}
    return fn


GROUPS = {
    "g1": (2, [{0: "X", 1: "X"}, {0: "Z", 1: "Z"}, {0: "Y", 1: "Y"}, {0: "X"}]),
    "g2": (3, [{0: "A", 1: "C"}, {2: "Z"}, {0: "P0"}, {1: "P1", 2: "Z"}]),
    "g3": (3, [{0: "Z"}, {0: "P0", 1: "X"}, {1: "X", 2: "A"}, {2: "P1"}]),
    "g4": (2, [{}, {0: "X"}, {1: "Y"}, {0: "X", 1: "Y"}]),
}


def cases(tier):
    T = tier == "thorough"
    out = []
    full1 = terms(1)
    for op in BIN:
        out.append(("bin/full1/%s" % op, run_bin(op, 1, full1, full1, 3 if T else 2)))
    for op in UNA:
        out.append(("una/full1/%s" % op, run_una(op, 1, full1, 3 if T else 2)))
        out.append(("una/real1/%s" % op, run_una(op, 1, full1, 3 if T else 2, real=True)))
    full2 = terms(2)
    # all 64 x 64 products: left operand in blocks
    for op in ("mul", "commutator"):
        for lo in range(0, 64, 8):
            out.append(("bin/full2/%s/%d" % (op, lo), run_bin(op, 2, full2[lo:lo + 8], full2, 1 if op == "mul" else 0)))
    for op in ("add", "sub", "imul"):
        out.append(("bin/full2/%s" % op, run_bin(op, 2, full2[:32] if op != "imul" else full2[::8], full2[16:48], 1)))
    for op in ("adjoint", "hermitize", "to_pauli", "pauli_dict", "elim"):
        out.append(("una/full2/%s" % op, run_una(op, 2, full2, 0)))
    if T:
        full3 = terms(3)
        for lo in range(0, 512, 128):
            for op in ("adjoint", "hermitize", "to_pauli", "elim"):
                out.append(("una/full3/%s/%d" % (op, lo), run_una(op, 3, full3[lo:lo + 128], 0)))
        for lo in range(0, 512, 16):
            out.append(("bin/full3/mul/%d" % lo, run_bin("mul", 3, full3[lo:lo + 16], full3[::3], 0)))
    for nm, (n, spec) in FAM.items():
        for op in UNA:
            if op == "pauli_dict" and nm == "identity" and False:
                continue
            out.append(("una/%s/%s" % (nm, op), run_una(op, n, spec, 3 if T else 2)))
        for q in range(n):
            out.append(("subs/%s/%d" % (nm, q), subs_case(n, spec, q)))
    fams = list(FAM.items())
    for i, (n1, (q1, s1)) in enumerate(fams):
        for n2, (q2, s2) in (fams if T else fams[i:] + fams[:max(0, i - 5)]):
            n = max(q1, q2)
            if n > 3 and n1 == "long6":
                continue
            for op in BIN:
                out.append(("bin/%s/%s/%s" % (n1, n2, op), run_bin(op, n, s1, s2, 2)))
    for n in (1, 2):
        out.append(("matrix/%d" % n, matrix_case(n, False)))
    for n in (1, 2, 3):
        for rev in (False, True):
            out.append(("generators/%d/%s" % (n, rev), generators_case(n, rev)))
    for n in (1, 2):
        out.append(("to_matrix/%d" % n, to_matrix_case(n, terms(n))))
    f3 = terms(3)
    for lo in range(0, 512, 128):
        out.append(("to_matrix/3/%d" % lo, to_matrix_case(3, f3[lo:lo + 128])))
    for nm, (n, spec) in FAM.items():
        nn = max([q + 1 for fd in spec for q in fd] or [0])
        for un, u in (("real", 1.0), ("imag", 1j)):
            out.append(("to_matrix/min/%s/%s" % (nm, un), min_matrix_case(spec, nn, u)))
    for lo in range(0, 64, 8):
        out.append(("commute/2/%d" % lo, commute_case(2, full2[lo:lo + 8], full2)))
    import random
    rnd = random.Random(5)
    pick = rnd.sample(f3, 120 if T else 40)
    for lo in range(0, len(pick), 10):
        out.append(("commute/3/%d" % lo, commute_case(3, pick[lo:lo + 10], pick)))
    for nm, (n, spec) in list(GROUPS.items()) + [(k, v) for k, v in FAM.items() if len(v[1]) <= 5]:
        for m in ("com", "qw", "qwins", "pauli"):
            out.append(("groups/%s/%s" % (nm, m), group_case(m, n, spec)))
    out.append(("minimal", minimal_case()))
    return out
