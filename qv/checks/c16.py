"""C16: fermionic operators obey the canonical anticommutation relations."""
import itertools

from ..prog import Violation, ReplayMismatch
from ..pysym import SymC, Explorer, vanish
from ..smt import z3, check
from .c15 import madd, mmul, mdag, mscale, ident, op_mat, term_mat, sym, conc, TOL

LEVEL = "bounded"
TECH = "symbolic execution of the fermionic operator classes with symbolic complex coefficients; SMT verdict over all coefficients per path"
FUNCTIONS = ["qrisp.operators.fermionic.fermionic_operator.FermionicOperator.{reduce, dagger, hermitize, __eq__, __neg__, __add__, __sub__, __rsub__, __mul__, __iadd__, __isub__, __imul__, apply_threshold, to_qubit_operator, from_openfermion, group_up, find_minimal_qubit_amount}",
             "qrisp.operators.fermionic.fermionic_term.FermionicTerm.{__mul__, dagger, sort, fermionic_swap, get_unipolars, to_qubit_term}", "qrisp.operators.fermionic.transformations.{a_jw, c_jw, jordan_wigner}",
             "qrisp.operators.qubit.QubitOperator (products and sums made by the mapping)"]
BOUNDS = ("all words of up to 3 ladder operators on 2 modes and up to 2 on 3 modes, words of 4 on 2 modes and selected words of 4 to 6 on up to 5 modes, as sums with independent symbolic complex coefficients; "
          "every operation on these sums; paths with at most 2 dropped coefficients (1 for large sums).  thorough: all words of 4 on 3 modes, of 5 on 2 modes.")
OUTSIDE = "rounding of machine numbers; import from pyscf; more modes and longer words"
HOW = ("the classes are executed with proxy coefficients; each result is mapped to a matrix with the Fock space action of the ladder operators written in the harness and compared with the same expression of the operand matrices; "
       "z3 decides per path over all coefficients")


# ------------------------------------------------------------------ reference: Fock space action, mode 0 most significant
def ladder(j, creator, m):
    out = {}
    for s in range(2 ** m):
        bits = [(s >> (m - 1 - k)) & 1 for k in range(m)]
        if bits[j] == (1 if creator else 0):
            continue
        sg = (-1) ** sum(bits[:j])
        t = list(bits)
        t[j] ^= 1
        r = sum(b << (m - 1 - k) for k, b in enumerate(t))
        out[(r, s)] = SymC.of(sg)
    return out


WORDS = {}


def word_mat(w, m):
    key = (tuple(w), m)
    if key not in WORDS:
        acc = ident(m)
        for j, cr in w:
            acc = mmul(acc, ladder(j, cr, m))
        WORDS[key] = acc
    return WORDS[key]


def ref(spec, coeff, m):
    acc = {}
    for i, w in enumerate(spec):
        acc = madd(acc, word_mat(w, m), coeff(i))
    return acc


def ferm_mat(op, m):
    """matrix of a FermionicOperator of the code under test: ladder_list holds the word from right to left"""
    if not hasattr(op, "terms_dict"):
        return ident(m, op)
    acc = {}
    for t, c in op.terms_dict.items():
        acc = madd(acc, word_mat(tuple((int(i), bool(cr)) for i, cr in t.ladder_list[::-1]), m), SymC.of(c))
    return acc


def build(spec, coeff):
    """from the documented constructors: products of a(i), c(i)"""
    from qrisp.operators.fermionic import a, c, FermionicOperator
    from qrisp.operators.fermionic.fermionic_term import FermionicTerm
    d = {}
    for i, w in enumerate(spec):
        t = 1
        for j, cr in w:
            t = t * (c(j) if cr else a(j))
        k = list(t.terms_dict)[0] if hasattr(t, "terms_dict") else FermionicTerm([])
        d[k] = coeff(i)
    return FermionicOperator(d)


def decide_case(tag, specs, m, action, model, max_true=2, scal=0, qubit=False):
    names = "ab"
    syms = [sym(names[i]) for i in range(len(specs))]
    scs = [SymC.var("s%d" % i) for i in range(scal)]
    exp = model([ref(s, f, m) for s, f in zip(specs, syms)], scs)
    ex = Explorer(max_true=max_true)
    k = 0

    def go():
        ops = [build(s, f) for s, f in zip(specs, syms)]
        return action(ops, list(scs))

    def mat(r):
        if r is None:
            raise Violation("%s returns None" % tag, {"operands": [str(s) for s in specs]})
        return op_mat(r, m) if qubit else ferm_mat(r, m)
    for cond, r in ex.run(go):
        w = vanish(list(madd(mat(r), exp, -1).values()), cond, TOL)
        k += 1
        if w is None:
            continue
        env = dict(w)
        ops = [build(s, conc(names[i], env)) for i, s in enumerate(specs)]
        sc = [complex(float(env.get("s%d.re" % i, 0)), float(env.get("s%d.im" % i, 0))) for i in range(scal)]
        e = {key: v.eval({x: float(env.get(x, 0)) for x in v.vars()}) for key, v in exp.items()}
        g = {key: complex(v) for key, v in mat(action(ops, sc)).items()}
        err = max([abs(g.get(key, 0) - e.get(key, 0)) for key in set(g) | set(e)] or [0])
        if err > TOL / 2:
            raise Violation("%s: result differs from the Fock space expression by %.3g" % (tag, err),
                            {"operands": [str(s) for s in specs], "coefficients": {x: str(b) for x, b in env.items()}})
        raise ReplayMismatch("%s: path disagrees but the run with machine numbers does not" % tag)
    return {"paths": k, "paths_cut": ex.cut}


def inplace(f):
    def act(o, s):
        x = o[0]
        if f == "iadd":
            x += o[1]
        elif f == "isub":
            x -= o[1]
        elif f == "imul":
            x *= o[1]
        elif f == "iadds":
            x += s[0]
        elif f == "isubs":
            x -= s[0]
        elif f == "imuls":
            x *= s[0]
        elif f == "thr":
            x.apply_threshold(1e-7)
        return x
    return act


BIN = {
    "add": (lambda o, s: o[0] + o[1], lambda m, s, n: madd(m[0], m[1])),
    "sub": (lambda o, s: o[0] - o[1], lambda m, s, n: madd(m[0], m[1], -1)),
    "mul": (lambda o, s: o[0] * o[1], lambda m, s, n: mmul(m[0], m[1])),
    "iadd": (inplace("iadd"), lambda m, s, n: madd(m[0], m[1])),
    "isub": (inplace("isub"), lambda m, s, n: madd(m[0], m[1], -1)),
    "imul": (inplace("imul"), lambda m, s, n: mmul(m[0], m[1])),
    "anti": (lambda o, s: (o[0] * o[1] + o[1] * o[0]).reduce(), lambda m, s, n: madd(mmul(m[0], m[1]), mmul(m[1], m[0]))),
}
UNA = {
    "same": (lambda o, s: o[0], lambda m, s, n: m[0], 0),
    "reduce": (lambda o, s: o[0].reduce(), lambda m, s, n: m[0], 0),
    "reduce_herm": (lambda o, s: o[0].reduce(assume_hermitian=True).hermitize(), lambda m, s, n: mscale(madd(m[0], mdag(m[0])), 0.5), 0),
    "dagger": (lambda o, s: o[0].dagger(), lambda m, s, n: mdag(m[0]), 0),
    "hermitize": (lambda o, s: o[0].hermitize(), lambda m, s, n: mscale(madd(m[0], mdag(m[0])), 0.5), 0),
    "herm_reduce": (lambda o, s: o[0].hermitize().reduce(assume_hermitian=True).hermitize(), lambda m, s, n: mscale(madd(m[0], mdag(m[0])), 0.5), 0),
    "neg": (lambda o, s: -o[0], lambda m, s, n: mscale(m[0], -1), 0),
    "add_scalar": (lambda o, s: o[0] + s[0], lambda m, s, n: madd(m[0], ident(n, s[0])), 1),
    "radd_scalar": (lambda o, s: s[0] + o[0], lambda m, s, n: madd(m[0], ident(n, s[0])), 1),
    "sub_scalar": (lambda o, s: o[0] - s[0], lambda m, s, n: madd(m[0], ident(n, s[0]), -1), 1),
    "rsub_scalar": (lambda o, s: s[0] - o[0], lambda m, s, n: madd(ident(n, s[0]), m[0], -1), 1),
    "mul_scalar": (lambda o, s: o[0] * s[0], lambda m, s, n: mscale(m[0], s[0]), 1),
    "rmul_scalar": (lambda o, s: s[0] * o[0], lambda m, s, n: mscale(m[0], s[0]), 1),
    "iadd_scalar": (inplace("iadds"), lambda m, s, n: madd(m[0], ident(n, s[0])), 1),
    "isub_scalar": (inplace("isubs"), lambda m, s, n: madd(m[0], ident(n, s[0]), -1), 1),
    "imul_scalar": (inplace("imuls"), lambda m, s, n: mscale(m[0], s[0]), 1),
    "threshold": (inplace("thr"), lambda m, s, n: m[0], 0),
}
QUB = {
    "jw": (lambda o, s: o[0].to_qubit_operator(), lambda m, s, n: m[0], 0),
    "jw_reduce": (lambda o, s: o[0].reduce().to_qubit_operator(), lambda m, s, n: m[0], 0),
    "jw_dagger": (lambda o, s: o[0].dagger().to_qubit_operator(), lambda m, s, n: mdag(m[0]), 0),
    "jw_herm": (lambda o, s: o[0].reduce(assume_hermitian=True).to_qubit_operator().hermitize(), lambda m, s, n: mscale(madd(m[0], mdag(m[0])), 0.5), 0),
}


def una(table, op, m, spec, mt, qubit=False):
    act, mod, sc = table[op]
    return lambda: decide_case(op, [spec], m, act, lambda x, s: mod(x, s, m), mt, sc, qubit)


def bina(op, m, s1, s2, mt):
    act, mod = BIN[op]
    return lambda: decide_case(op, [s1, s2], m, act, lambda x, s: mod(x, s, m), mt)


def words(m, length):
    return [tuple(w) for w in itertools.product([(j, c) for j in range(m) for c in (False, True)], repeat=length)]


def a(*js):
    """word: non-negative = annihilator, ~j = creator"""
    return tuple((j, False) if j >= 0 else (~j, True) for j in js)


FAM = {
    "quad": (2, [a(~0, 0), a(0, ~0), a(~1, 0), a(~0, 1), a(1, ~0)]),
    "pairs": (3, [a(0, 1), a(1, 0), a(~2, ~1), a(~1, ~2), a(2, 0)]),
    "four": (4, [a(~0, ~1, 2, 3), a(~3, ~2, 1, 0), a(~1, ~0, 3, 2), a(~0, 2, ~1, 3)]),
    "dens": (3, [a(~0, 0, ~1, 1), a(~0, ~1, 1, 0), a(~2, 2), a()]),
    "triple": (2, [a(0, ~0, 0), a(~1, 1, ~1), a(1, ~0, 0, ~0), a(1, 0, ~0, 0)]),
    "tripled": (3, [a(2, 0, ~0, 0), a(0, ~0, 0, 2), a(2, 1, ~1, 1, 0), a(~2, ~0, 0, ~0)]),
    "odd": (4, [a(3), a(~1), a(3, ~1, 0), a(~0, 3, 2)]),
    "zero": (2, [a(0, 0), a(~1, ~1), a(0, 1, 0), a(~0, 1, ~0)]),
    "wide": (5, [a(~4, 0), a(~0, 4), a(4, ~2, 0), a(~1, 3, 1)]),
    "six": (4, [a(~0, 1, ~2, 3, ~1, 0), a(3, ~3, 2, ~2, 1, ~1), a(~3, ~2, ~1, 1, 2, 3)]),
    "const": (1, [a()]),
    "single": (3, [a(2)]),
}


def eq_case(m, spec, kind):
    """== must hold between an operator and another way of writing it; operators it calls equal have the same hermitian part"""
    def fn():
        k = 0
        ex = Explorer(max_true=0)

        def other(o):
            from qrisp.operators.fermionic import FermionicOperator
            if kind == "reduce":
                return o.reduce()
            if kind == "self":
                return FermionicOperator(dict(o.terms_dict))
            if kind == "swap":
                # exchange two neighbouring operators of different modes in every word
                from qrisp.operators.fermionic.fermionic_term import FermionicTerm
                d = {}
                for t, c in o.terms_dict.items():
                    l = list(t.ladder_list)
                    sg = 1
                    for i in range(len(l) - 1):
                        if l[i][0] != l[i + 1][0]:
                            l[i], l[i + 1] = l[i + 1], l[i]
                            sg = -1
                            break
                    d[FermionicTerm(l)] = d.get(FermionicTerm(l), 0) + c * sg
                return FermionicOperator(d)
        # every coefficient comparison of equal polynomials is decided exactly, no forks are needed
        for cond, r in ex.run(lambda: [build(spec, sym("a")) == other(build(spec, sym("a"))), other(build(spec, sym("a"))) == build(spec, sym("a"))]):
            k += 1
            s, _ = check(z3.BoolVal(not all(bool(x) for x in r)))
            if s != "unsat":
                raise Violation("== denies that an operator equals its %s form (%s)" % (kind, r), {"terms": str(spec)})
        return {"paths": k}
    return fn


def neq_case(m, s1, s2, tag):
    """operators that == calls equal have the same hermitian part"""
    def fn():
        e1, e2 = ref(s1, sym("a"), m), ref(s2, sym("b"), m)
        ex = Explorer(max_true=3)
        k = 0
        for cond, r in ex.run(lambda: build(s1, sym("a")) == build(s2, sym("b"))):
            k += 1
            if not r:
                continue
            h1, h2 = madd(e1, mdag(e1)), madd(e2, mdag(e2))
            # the comparison of symbolic coefficients takes the branch "equal" by substitution
            c2 = [(c, v) for c, v in cond]
            w = vanish(list(madd(h1, h2, -1).values()), c2, TOL)
            if w is not None:
                raise Violation("== holds for operators with different hermitian parts", {"first": str(s1), "second": str(s2), "coefficients": {x: str(y) for x, y in w.items()}})
        return {"paths": k}
    return fn


def jw_case(m):
    def fn():
        from qrisp.operators.fermionic.transformations import a_jw, c_jw, jordan_wigner
        k = 0
        for j in range(m):
            for cr in (False, True):
                for f in (lambda: (c_jw if cr else a_jw)(j), lambda: jordan_wigner((j, cr))):
                    x = SymC.var("x")
                    d = madd(mscale(op_mat(f(), m), x), mscale(ladder(j, cr, m), x), -1)
                    k += 1
                    if vanish(list(d.values()), [], TOL) is not None:
                        raise Violation("Jordan-Wigner image of %s(%d) is not the ladder operator" % ("c" if cr else "a", j), {})
        return {"images": k}
    return fn


class OF:
    def __init__(self, terms):
        self.terms = terms


def of_case(m, spec):
    def fn():
        from qrisp.operators.fermionic import FermionicOperator
        f = OF({tuple((j, int(c)) for j, c in w): sym("a")(i) for i, w in enumerate(spec)})
        r = FermionicOperator.from_openfermion(f)
        if vanish(list(madd(ferm_mat(r, m), ref(spec, sym("a"), m), -1).values()), [], TOL) is not None:
            raise Violation("from_openfermion does not give the same operator", {"terms": str(spec)})
        return {"terms": len(spec)}
    return fn


def group_case(m, spec):
    def fn():
        o = build(spec, sym("a"))
        gs = o.group_up(lambda x, y: x.unipolars_agree(y))
        acc = {}
        for g in gs:
            acc = madd(acc, ferm_mat(g, m))
        if vanish(list(madd(acc, ref(spec, sym("a"), m), -1).values()), [], TOL) is not None:
            raise Violation("the groups do not sum up to the operator", {"terms": str(spec)})
        want = max([j + 1 for w in spec for j, _ in w] or [0])
        if o.find_minimal_qubit_amount() != want:
            raise Violation("find_minimal_qubit_amount is %s, expected %d" % (o.find_minimal_qubit_amount(), want), {"terms": str(spec)})
        for t in o.terms_dict:
            idx = [j for j, _ in t.ladder_list]
            u = sorted(j for j in set(idx) if idx.count(j) % 2)
            if sorted(t.get_unipolars()) != u:
                raise Violation("get_unipolars of %s is %s" % (t.ladder_list, t.get_unipolars()), {})
        return {"groups": len(gs)}
    return fn


def cases(tier):
    T = tier == "thorough"
    out = []
    big = {"w2x1": (2, words(2, 1)), "w2x2": (2, words(2, 2)), "w3x2": (3, words(3, 2)), "w4x1": (4, words(4, 1))}
    w3 = words(2, 3)
    for lo in range(0, 64, 16):
        big["w2x3_%d" % lo] = (2, w3[lo:lo + 16])
    w4 = words(2, 4)
    for lo in range(0, 256, 32):
        big["w2x4_%d" % lo] = (2, w4[lo:lo + 32])
    w33 = words(3, 3)
    for lo in range(0, 216, 36):
        big["w3x3_%d" % lo] = (3, w33[lo:lo + 36])
    if T:
        w34 = words(3, 4)
        for lo in range(0, len(w34), 81):
            big["w3x4_%d" % lo] = (3, w34[lo:lo + 81])
        w25 = words(2, 5)
        for lo in range(0, len(w25), 64):
            big["w2x5_%d" % lo] = (2, w25[lo:lo + 64])
    for nm, (m, spec) in big.items():
        for op in ("same", "reduce", "reduce_herm", "dagger", "hermitize", "herm_reduce", "neg"):
            out.append(("una/%s/%s" % (nm, op), una(UNA, op, m, spec, 0)))
        for op in QUB:
            out.append(("qub/%s/%s" % (nm, op), una(QUB, op, m, spec, 0, True)))
    for nm, (m, spec) in FAM.items():
        for op in UNA:
            out.append(("una/%s/%s" % (nm, op), una(UNA, op, m, spec, 2)))
        for op in QUB:
            out.append(("qub/%s/%s" % (nm, op), una(QUB, op, m, spec, 1, True)))
        for kind in ("self", "reduce", "swap"):
            if nm not in ("zero",):
                out.append(("eq/%s/%s" % (nm, kind), eq_case(m, spec, kind)))
        out.append(("openfermion/%s" % nm, of_case(m, spec)))
        out.append(("group/%s" % nm, group_case(m, spec)))
    fams = list(FAM.items())
    for i, (n1, (m1, s1)) in enumerate(fams):
        for j, (n2, (m2, s2)) in enumerate(fams):
            if not T and (i + j) % 3 and i != j:
                continue
            for op in BIN:
                out.append(("bin/%s/%s/%s" % (n1, n2, op), bina(op, max(m1, m2), s1, s2, 1)))
    ones = [(("a" if w[0][1] is False else "c") + str(w[0][0]), [w]) for w in words(3, 1)]
    for x, sx in ones:
        for y, sy in ones:
            out.append(("car/%s/%s" % (x, y), bina("anti", 3, sx, sy, 1)))
            out.append(("eq1/%s/%s" % (x, y), neq_case(3, sx, sy, x + y)))
    out.append(("eq1/pairs", neq_case(2, [a(0, 1), a(~0, 1)], [a(0, 1), a(~1, 0)], "pairs")))
    out.append(("jw", jw_case(5 if T else 4)))
    return out
