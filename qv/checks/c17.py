"""C17: Hamiltonian simulation circuits implement the exponentials of their terms."""
import itertools
from fractions import Fraction

from ..prog import Violation, ReplayMismatch
from ..matsym import Mat, padd, pmul, scale, compare, evaluate, root, ONE, ZERO
from ..pysym import SymC, Explorer, vanish
from ..smt import z3, check
from .c15 import term_mat, ref as opref, build as build_op, sym, madd, mdag, LET
from . import c16

LEVEL = "bounded"
TECH = "symbolic execution of the generated circuits with symbolic time / coefficient, decided by an SMT solver"
FUNCTIONS = ["qrisp.operators.qubit.qubit_term.QubitTerm.{simulate, serialize, binary_representation, commute_qw, commute_pauli, ladders_agree, intersect, unitary}",
             "qrisp.operators.qubit.qubit_operator.QubitOperator.{trotterization, change_of_basis, hermitize, eliminate_ladder_conjugates, group_up, unitaries}",
             "qrisp.operators.qubit.commutativity_tools.{construct_change_of_basis, gaussian_elimination_mod2, inverse_mod2}", "qrisp.operators.hamiltonian_tools.{group_up_iterable, find_coloring, rlf_coloring, dsatur_coloring}",
             "qrisp.operators.qubit.measurement.{evaluate_observable, evaluate_expectation, evaluate_expectation_jitted, create_padded_array}",
             "qrisp.operators.fermionic.trotterization.{fermionic_trotterization, kai_pflaume, apply_fermionic_swaps}", "qrisp.operators.fermionic.fermionic_term.FermionicTerm.{fermionic_swap, get_unipolars, to_qubit_term}"]
BOUNDS = ("QubitTerm.simulate with a symbolic coefficient for every factor combination on 1, 2 and 3 qubits (8 + 64 + 512) and selected ones on 4, plain and controlled; trotterization with symbolic time of 60 operators with up to 5 terms "
          "and 4 qubits, both methods, orders 1 and 2, 1 to 3 steps, 1 to 2 iterations, forward and backward; basis changes of commuting groups with symbolic coefficients (both methods), all commuting pairs of 2 qubit Pauli strings; "
          "fermionic trotterization of 25 operators on up to 5 modes; evaluation of observables with symbolic probabilities and coefficients.  thorough: 4 qubit terms, all commuting triples.")
OUTSIDE = "approximation quality of the product formula for non commuting groups (the exact product is checked instead); qdrift sampling; coefficients other than the listed dyadic numbers inside trotterization; traced mode"
HOW = ("the circuit is generated by the code under test with a sympy symbol for time or coefficient, its matrix is computed exactly in the ring of exponentials of the symbol and compared by z3 with exp(-itH) built in the harness from the "
       "spectral projector of the term (S^3 = l^2 S)")


# ------------------------------------------------------------------ exponentials
def amp(v):
    """complex number with dyadic parts -> ring element"""
    v = complex(v)
    r = ZERO
    if v.real:
        r = padd(r, {(0, ()): Fraction(v.real)})
    if v.imag:
        r = padd(r, scale(root(Fraction(1, 4)), Fraction(v.imag)))
    return r


def herm(m):
    """(T + T^dagger)/2 of {(row, col): number}"""
    out = {}
    for (r, c), v in m.items():
        out[(r, c)] = out.get((r, c), 0) + complex(v) / 2
        out[(c, r)] = out.get((c, r), 0) + complex(v).conjugate() / 2
    return {k: v for k, v in out.items() if v}


def nmul(a, b):
    rows = {}
    for (r, c), v in b.items():
        rows.setdefault(r, []).append((c, v))
    out = {}
    for (r, c), v in a.items():
        for c2, w in rows.get(c, ()):
            out[(r, c2)] = out.get((r, c2), 0) + v * w
    return {k: v for k, v in out.items() if v}


def expm(S, q, symb, dim):
    """exp(-i q symb S) for S with S^3 = l^2 S; returns {col: {row: ring element}}"""
    out = {j: {j: ONE} for j in range(dim)}
    if not S or not q:
        return out
    S2 = nmul(S, S)
    S3 = nmul(S2, S)
    k0 = next(iter(S))
    l2 = S3[k0] / S[k0]
    if any(abs(S3.get(k, 0) - l2 * S.get(k, 0)) > 1e-12 for k in set(S) | set(S3)):
        raise ReplayMismatch("not a scaled involution on its support")
    l = Fraction(l2.real ** 0.5).limit_denominator(64)
    f = l * Fraction(q)
    h = Fraction(1, 2)
    p = {(0, ((symb, f),)): h}
    m = {(0, ((symb, -f),)): h}
    cos1 = padd(padd(p, m), {(0, ()): Fraction(-1)})
    sin = pmul(root(Fraction(-1, 4)), padd(p, scale(m, -1)))       # sin(f t)
    ms = pmul(root(Fraction(-1, 4)), sin)                            # -i sin
    for (r, c), v in S2.items():
        out[c][r] = padd(out[c].get(r, ZERO), pmul(cos1, amp(v / complex(l2))))
    for (r, c), v in S.items():
        out[c][r] = padd(out[c].get(r, ZERO), pmul(ms, amp(v / float(l))))
    return {j: {k: a for k, a in col.items() if a} for j, col in out.items()}


def cmul(B, A):
    """columns of B*A"""
    out = {}
    for j, col in A.items():
        o = {}
        for k, a in col.items():
            for r, b in B[k].items():
                v = pmul(b, a)
                o[r] = padd(o[r], v) if r in o else v
        out[j] = {k: v for k, v in o.items() if v}
    return out


def flip(i, n):
    """factor 0 most significant <-> qubit 0 least significant"""
    return int(format(i, "0%db" % n)[::-1], 2)


def little(m, n):
    return {(flip(r, n), flip(c, n)): v for (r, c), v in m.items()}


def circuit_cols(qs, qubits, n, ctrl=None):
    """columns of the circuit on the data qubits (ancillas start and must end in zero)"""
    qc = qs.copy()
    order = list(qubits)
    ids = {q.identifier for q in order}
    order += [q for q in qc.qubits if q.identifier not in ids]
    # the session's circuit and its copy share qubit identifiers
    by = {q.identifier: i for i, q in enumerate(order)}
    m = Mat(order, inputs=range(1 << len(qubits)))
    m.pos = IdMap(by)
    for ins in qc.data:
        for p in ins.op.params:
            if complex_part(p):
                raise Violation("gate %s with the complex parameter %s" % (ins.op.name, p), {"gate": ins.op.name, "parameter": str(p)})
    m.run(qc)
    return m.cols, len(order)


def complex_part(p):
    import sympy
    if isinstance(p, sympy.Expr):
        return sympy.im(p.subs({s: 1 for s in p.free_symbols})) != 0
    return complex(p).imag != 0


class IdMap:
    def __init__(self, by):
        self.by = by

    def __getitem__(self, q):
        return self.by[q.identifier]


def verdict(cols, exp, n, tag, info, phase=False, symb="t"):
    w = compare(cols, exp, up_to_phase=phase)
    if w is None:
        return
    j, k = w
    # replay: the two amplitudes at a concrete time
    for tv in (0.7310, 1.9177):
        g = evaluate(cols[j].get(k, ZERO), Sub(tv))
        e = evaluate(exp[j].get(k, ZERO), Sub(tv))
        if abs(g - e) > 1e-6:
            info.update({"input": j, "output": k, "value of " + symb: tv, "got": str(g), "expected": str(e)})
            raise Violation("%s: amplitude <%d|U|%d> is %s, expected %s at %s=%s" % (tag, k, j, fmt(g), fmt(e), symb, tv), info)
    raise ReplayMismatch("%s: ring elements differ, values do not" % tag)


class Sub(dict):
    def __init__(self, v):
        self.v = v

    def __missing__(self, k):
        return self.v


def fmt(z):
    return "%.5f%+.5fj" % (z.real, z.imag)


# ------------------------------------------------------------------ single terms
def sim_case(fds, n, mode):
    def fn():
        import sympy
        from qrisp import QuantumVariable, QuantumBool, control
        from qrisp.operators.qubit.qubit_term import QubitTerm
        k = 0
        for fd in fds:
            t = sympy.Symbol("t", real=True)
            qv = QuantumVariable(n)
            exp = expm(little(herm(term_mat(fd, n)), n), 1, "t", 2 ** n)
            if mode == "plain":
                QubitTerm(fd).simulate(t, qv)
                cols, _ = circuit_cols(qv.qs, qv.reg, n)
            elif mode == "control":
                cb = QuantumBool(qs=qv.qs)
                with control(cb):
                    QubitTerm(fd).simulate(t, qv)
                cols, _ = circuit_cols(qv.qs, list(qv.reg) + list(cb.reg), n + 1)
                full = {j: {j: ONE} for j in range(2 ** n)}
                for j in range(2 ** n):
                    full[j + 2 ** n] = {r + 2 ** n: a for r, a in exp[j].items()}
                exp = full
            elif mode == "invert":
                from qrisp import invert
                with invert():
                    QubitTerm(fd).simulate(-t, qv)
                cols, _ = circuit_cols(qv.qs, qv.reg, n)
            k += 1
            verdict(cols, exp, n, "simulate(%s) %s" % (fd, mode), {"term": str(fd), "mode": mode})
        return {"circuits": k}
    return fn


# ------------------------------------------------------------------ trotterization of operators
OPS = {
    "z": (1, [({0: "Z"}, 0.5)]),
    "xyz": (1, [({0: "X"}, 1.0), ({0: "Y"}, 0.5), ({0: "Z"}, 0.25)]),
    "id": (1, [({}, 0.75), ({0: "Z"}, 1.0)]),
    "a": (1, [({0: "A"}, 1.0)]),
    "p0": (1, [({0: "P0"}, 1.5)]),
    "p01": (1, [({0: "P0"}, 1.5), ({0: "P1"}, 0.5)]),
    "zz": (2, [({0: "Z", 1: "Z"}, 1.0), ({0: "Z"}, 0.5), ({1: "Z"}, -0.5)]),
    "xx": (2, [({0: "X", 1: "X"}, 1.0), ({0: "X"}, 0.5)]),
    "bell": (2, [({0: "X", 1: "X"}, 1.0), ({0: "Y", 1: "Y"}, 0.5), ({0: "Z", 1: "Z"}, 0.25)]),
    "heis": (3, [({0: "X", 1: "X"}, 1.0), ({0: "Y", 1: "Y"}, 1.0), ({0: "Z", 1: "Z"}, 1.0), ({1: "X", 2: "X"}, 0.5)]),
    "ising": (3, [({0: "Z", 1: "Z"}, 1.0), ({1: "Z", 2: "Z"}, 1.0), ({0: "X"}, 0.5), ({1: "X"}, 0.5), ({2: "X"}, 0.5)]),
    "hop": (2, [({0: "A", 1: "C"}, 1.0)]),
    "hophc": (2, [({0: "A", 1: "C"}, 0.5), ({0: "C", 1: "A"}, 0.5)]),
    "pair": (2, [({0: "A", 1: "A"}, 1.5)]),
    "hopz": (3, [({0: "A", 1: "Z", 2: "C"}, 1.0)]),
    "hopx": (3, [({0: "A", 1: "C"}, 1.0), ({2: "X"}, 0.5)]),
    "hopx2": (3, [({0: "A", 1: "C", 2: "X"}, 1.0), ({2: "X"}, 0.5)]),
    "hoppair": (2, [({0: "A", 1: "C"}, 1.0), ({0: "A", 1: "A"}, 0.5)]),
    "hoptwo": (4, [({0: "A", 1: "C"}, 1.0), ({2: "A", 3: "C"}, 0.5)]),
    "proj": (3, [({0: "P0", 1: "P1"}, 1.0), ({0: "P0", 2: "Z"}, 0.5)]),
    "projx": (3, [({0: "P1", 1: "X"}, 1.0), ({1: "X", 2: "P0"}, 0.5), ({0: "Z"}, 0.25)]),
    "projz": (2, [({0: "Z"}, 1.0), ({0: "P0", 1: "X"}, 0.5)]),
    "zproj": (2, [({0: "P1", 1: "Y"}, 1.0), ({0: "Z", 1: "Y"}, 0.5)]),
    "p3": (4, [({0: "P0", 1: "P1", 2: "P1", 3: "Z"}, 1.0)]),
    "ladder4": (4, [({0: "A", 1: "C", 2: "C", 3: "A"}, 1.0)]),
    "mix4": (4, [({0: "A", 1: "P1", 2: "Z", 3: "C"}, 1.0), ({1: "P1", 2: "Z"}, 0.5)]),
    "projzx": (3, [({0: "X", 1: "Y", 2: "Z"}, 1.0), ({2: "P0"}, 0.5), ({0: "X", 2: "P1"}, 0.25)]),
    "yzperm": (3, [({2: "X"}, 1.0), ({0: "Z", 1: "Y"}, 0.5)]),
    "yy": (2, [({0: "Y"}, 1.0), ({1: "Y"}, 0.5), ({0: "Y", 1: "Y"}, 0.25)]),
    "doc": (4, [({0: "A", 1: "C", 2: "Z"}, 1.0), ({3: "Y"}, 1.0)]),
    "neg": (2, [({0: "X", 1: "Z"}, -1.0), ({0: "Z", 1: "X"}, -0.5)]),
    "graph": (3, [({0: "X", 1: "Z"}, 1.0), ({0: "Z", 1: "X", 2: "Z"}, 0.5), ({1: "Z", 2: "X"}, 0.25)]),
    "graphy": (3, [({0: "Y", 1: "X", 2: "Z"}, 1.0), ({0: "X", 1: "Y", 2: "Z"}, 0.5), ({2: "Z"}, 0.25)]),
    "ghz": (3, [({0: "X", 1: "X", 2: "X"}, 1.0), ({0: "Z", 1: "Z"}, 0.5), ({1: "Z", 2: "Z"}, 0.25), ({0: "Y", 1: "Y", 2: "X"}, 0.125)]),
    "cplx": (2, [({0: "A", 1: "C"}, 1j), ({0: "Z"}, 0.5)]),
    "cplx1": (1, [({0: "A"}, 0.5 + 1j)]),
    "cplx2": (2, [({0: "A", 1: "C"}, 0.5 - 0.5j), ({0: "C", 1: "A"}, 0.25)]),
}


def groups_of(spec, n):
    """hermitized operator as a list of (S, q) with each S of the form needed for expm: one entry per term, conjugate ladder terms merged;
    complex coefficients are split into Pauli strings"""
    out = {}
    for fd, c in spec:
        c = complex(c)
        lad = any(v in "AC" for v in fd.values())
        if not lad:
            out[tuple(sorted(fd.items()))] = out.get(tuple(sorted(fd.items())), 0) + c.real
            continue
        if c.imag:
            return None
        adj = {q: {"A": "C", "C": "A"}.get(v, v) for q, v in fd.items()}
        ka, kb = tuple(sorted(fd.items())), tuple(sorted(adj.items()))
        k = kb if kb in out else ka
        out[k] = out.get(k, 0) + c.real
    return [(little(herm(term_mat(dict(k), n)), n), Fraction(v)) for k, v in out.items() if v]


def commuting(ms):
    for a, b in itertools.combinations(ms, 2):
        x, y = nmul(a[0], b[0]), nmul(b[0], a[0])
        if any(abs(x.get(k, 0) - y.get(k, 0)) > 1e-12 for k in set(x) | set(y)):
            return False
    return True


def pauli_split(spec, n):
    """real Pauli expansion of the hermitized operator"""
    from .c15 import MATS
    tot = {}
    for fd, c in spec:
        for k, v in term_mat(fd, n).items():
            tot[k] = tot.get(k, 0) + complex(c) * v
    tot = herm(tot)
    out = []
    for ls in itertools.product("IXYZ", repeat=n):
        fd = {q: l for q, l in enumerate(ls) if l != "I"}
        pm = term_mat(fd, n)
        tr = sum(complex(v).conjugate() * tot.get(k, 0) for k, v in pm.items()) / 2 ** n
        if abs(tr) > 1e-12:
            out.append((little({k: complex(v) for k, v in pm.items()}, n), Fraction(tr.real)))
    return out


def trot_case(nm, method, order, steps, iters, fwd):
    def fn():
        import sympy
        from qrisp import QuantumVariable
        n, spec = OPS[nm]
        op = build_op([fd for fd, _ in spec], lambda i: spec[i][1])
        t = sympy.Symbol("t", real=True)
        qv = QuantumVariable(n)
        U = op.trotterization(order=order, method=method, forward_evolution=fwd)
        U(qv, t=t, steps=steps, iter=iters)
        cols, _ = circuit_cols(qv.qs, qv.reg, n)
        ms = groups_of(spec, n)
        alts = [ms] if ms is not None else []
        if ms is None:
            alts = [pauli_split(spec, n)]
        sg = 1 if fwd else -1
        info = {"operator": str(spec), "method": method, "order": order, "steps": steps, "iter": iters, "forward": fwd}
        tag = "trotterization %s" % nm
        for ms in alts:
            perms = [tuple(range(len(ms)))] if commuting(ms) else list(itertools.permutations(range(len(ms))))
            if len(perms) > 120:
                perms = perms[:120]
            last = None
            for p in perms:
                step = {j: {j: ONE} for j in range(2 ** n)}
                if order == 1:
                    seq = [(ms[i], Fraction(sg, steps)) for i in p]
                else:
                    seq = [(ms[i], Fraction(sg, 2 * steps)) for i in p]
                    seq = seq + seq[::-1]
                for (S, q), f in seq:
                    step = cmul(expm(S, q * f, "t", 2 ** n), step)
                exp = {j: {j: ONE} for j in range(2 ** n)}
                for _ in range(steps * iters):
                    exp = cmul(step, exp)
                last = exp
                if len(perms) == 1:
                    verdict(cols, exp, n, tag, info)
                    return {"orders_tried": 1}
                if quick_equal(cols, exp) and compare(cols, exp) is None:
                    return {"orders_tried": perms.index(p) + 1}
        if len(perms) > 1:
            # no order of the exact exponentials reproduces the circuit; first order shows the difference
            verdict(cols, last, n, tag + " (no order of the exact exponentials agrees)", info)
        return {}
    return fn


def quick_equal(A, B):
    """numeric prefilter so that only one candidate order is sent to the solver"""
    s = Sub(0.83)
    for j in A:
        for k in set(A[j]) | set(B[j]):
            if abs(evaluate(A[j].get(k, ZERO), s) - evaluate(B[j].get(k, ZERO), s)) > 1e-9:
                return False
    return True


# ------------------------------------------------------------------ change of basis
def basis_case(n, spec, method, tag):
    """circuit B with B H = D B for the operator H of the group and the returned diagonal operator D, symbolic coefficients"""
    def fn():
        from qrisp import QuantumVariable
        k = 0
        op = build_op(spec, sym("a", real=True))
        qv = QuantumVariable(n)
        d = op.change_of_basis(qv, method=method)
        cols, nq = circuit_cols(qv.qs, qv.reg, n)
        if nq != n:
            raise Violation("change of basis allocates qubits", {"terms": str(spec)})
        d2 = op.change_of_basis(QuantumVariable(n), method=method)
        if {t: c.p for t, c in d.terms_dict.items()} != {t: c.p for t, c in d2.terms_dict.items()}:
            raise Violation("change of basis is not deterministic", {"terms": str(spec)})
        for i, fd in enumerate(spec):
            v = "a%d.re" % i
            D = {}
            for t, c in d.terms_dict.items():
                if any(f not in ("Z", "P0", "P1", "I") for f in t.factor_dict.values()):
                    raise Violation("change of basis returns the non diagonal term %s" % (t.factor_dict,), {"terms": str(spec)})
                co = SymC.of(c).p.get((v,), (0, 0))
                if co[0] or co[1]:
                    for (r, cc), x in little(term_mat(t.factor_dict, n), n).items():
                        D[r] = D.get(r, 0) + complex(float(co[0]), float(co[1])) * x
            Hm = little(herm(term_mat(fd, n)), n)
            # D B and B H
            left = {j: {r: pmul(amp(D.get(r, 0)), a) for r, a in col.items() if D.get(r, 0)} for j, col in cols.items()}
            right = {}
            for j in range(2 ** n):
                o = {}
                for (r, c), x in Hm.items():
                    if c == j:
                        for rr, a in cols[r].items():
                            o[rr] = padd(o.get(rr, ZERO), pmul(a, amp(x)))
                right[j] = {a: b for a, b in o.items() if b}
            k += 1
            verdict({j: {a: b for a, b in c.items() if b} for j, c in left.items()}, right, n, "change of basis (%s) of term %s" % (method, fd), {"terms": str(spec), "group": tag})
        return {"terms": k}
    return fn


BASES = {
    "b1": (2, [{0: "X", 1: "X"}, {0: "X"}, {1: "X"}]),
    "b2": (2, [{0: "Y", 1: "Z"}, {0: "Y"}, {1: "Z"}, {}]),
    "b3": (3, [{0: "X", 1: "Y", 2: "Z"}, {2: "P0"}, {0: "X", 2: "P1"}]),
    "b4": (3, [{0: "A", 1: "C"}, {2: "Z"}, {2: "P1"}]),
    "b5": (3, [{0: "A", 1: "C", 2: "Z"}, {0: "A", 1: "A", 2: "Z"}]),
    "b6": (4, [{0: "A", 1: "C", 2: "A"}, {0: "A", 1: "A", 2: "A", 3: "X"}, {3: "X"}]),
    "b7": (4, [{0: "A", 1: "C"}, {2: "C", 3: "A"}]),
    "b8": (2, [{0: "Z"}, {0: "P0"}, {0: "P1", 1: "Y"}, {0: "Z", 1: "Y"}]),
    "b9": (4, [{3: "A", 0: "C"}, {1: "P0", 2: "P1"}, {1: "Z"}]),
}
COMM = {
    "c1": (2, [{0: "X", 1: "X"}, {0: "Z", 1: "Z"}]),
    "c2": (2, [{0: "X", 1: "X"}, {0: "Y", 1: "Y"}, {0: "Z", 1: "Z"}]),
    "c3": (2, [{0: "X", 1: "Y"}, {0: "Y", 1: "X"}, {0: "Z", 1: "Z"}]),
    "c4": (3, [{0: "X", 1: "Z"}, {0: "Z", 1: "X", 2: "Z"}, {1: "Z", 2: "X"}]),
    "c5": (3, [{0: "X", 1: "X", 2: "X"}, {0: "Z", 1: "Z"}, {1: "Z", 2: "Z"}, {0: "Y", 1: "Y", 2: "X"}]),
    "c6": (3, [{0: "Y", 1: "X", 2: "Z"}, {0: "X", 1: "Y", 2: "Z"}, {2: "Z"}]),
    "c7": (4, [{0: "X", 1: "X"}, {0: "Z", 1: "Z"}, {2: "Y", 3: "Y"}, {2: "Z", 3: "Z"}]),
    "c8": (4, [{0: "Y", 1: "Z", 2: "X", 3: "Y"}, {0: "Z", 1: "Y", 2: "Y", 3: "X"}, {0: "X", 1: "X"}]),
    "c9": (3, [{0: "Y"}, {1: "Y"}, {0: "Y", 1: "Y", 2: "Y"}]),
    "c10": (3, [{0: "Y", 1: "Y"}, {1: "Y", 2: "Y"}, {0: "X", 1: "X", 2: "X"}]),
    "c11": (3, [{0: "X", 1: "X"}, {0: "Z", 1: "Z", 2: "P0"}, {2: "P1"}]),
    "c12": (4, [{0: "X", 1: "X", 2: "A", 3: "C"}, {0: "Z", 1: "Z", 2: "A", 3: "C"}, {0: "Y", 1: "Y"}]),
    "c13": (2, [{}, {0: "X", 1: "X"}]),
    "c14": (3, [{2: "X"}, {0: "Z", 2: "X"}]),
    "c15": (2, [{0: "P0"}, {1: "P1"}]),
}


def pauli_pairs(n):
    ts = [{q: l for q, l in enumerate(ls) if l != "I"} for ls in itertools.product("IXYZ", repeat=n)][1:]
    out = []
    for a, b in itertools.combinations(ts, 2):
        if sum(1 for q in a if q in b and a[q] != b[q]) % 2 == 0:
            out.append([a, b])
    return out


def multi_basis(n, specs, method, tag):
    def fn():
        k = 0
        for s in specs:
            k += basis_case(n, s, method, tag)()["terms"]
        return {"terms": k}
    return fn


# ------------------------------------------------------------------ measurement post processing
def observable_case(n, spec):
    """expectation from samples: symbolic probabilities and coefficients"""
    def fn():
        import numpy as np
        from qrisp.operators.qubit import measurement as M
        from qrisp.operators.qubit.qubit_term import QubitTerm
        N = 2 ** n
        terms_ = [QubitTerm(fd) for fd in spec]
        groups = [terms_[:2], terms_[2:]] if len(terms_) > 2 else [terms_]
        probs = [[SymC.rvar("p%d_%d_" % (g, x)) for x in range(N)] for g in range(len(groups))]
        co = [[SymC.rvar("c%d_%d_" % (g, i)) for i in range(len(ts))] for g, ts in enumerate(groups)]
        samples = np.array([list(range(N)) for _ in groups])
        parr = np.empty((len(groups), N), dtype=object)
        for g in range(len(groups)):
            for x in range(N):
                parr[g, x] = probs[g][x]
        mo = M.create_padded_array([[t.serialize() for t in ts] for ts in groups], use_tuples=True)
        mx = max(len(c) for c in co)
        carr = [c + [SymC.of(0)] * (mx - len(c)) for c in co]
        exp = SymC({})
        for g, ts in enumerate(groups):
            for i, t in enumerate(ts):
                m = term_mat(t.factor_dict, n)
                for x in range(N):
                    v = m.get((flip(x, n), flip(x, n)), 0)
                    exp = exp + probs[g][x] * co[g][i] * complex(v).real
        k = 0
        for f in (M.evaluate_expectation, M.evaluate_expectation_jitted.py_func):
            r = f(samples, parr, mo, carr)
            k += 1
            if vanish([SymC.of(r) - exp], [], 1e-9) is not None:
                raise Violation("%s differs from the sum over the diagonal" % f.__name__, {"terms": str(spec)})
        return {"evaluations": k}
    return fn


# ------------------------------------------------------------------ unitaries
def unitaries_case(n, spec, signs):
    def fn():
        from qrisp import QuantumVariable
        op = build_op(spec, lambda i: signs[i % len(signs)] * (1.0 + 0.25 * i))
        us, cs = op.unitaries()
        tot = {}
        for u, c in zip(us, cs):
            if c < 0:
                raise Violation("unitaries returns a negative coefficient", {"terms": str(spec)})
            qv = QuantumVariable(n)
            u(qv)
            cols, _ = circuit_cols(qv.qs, qv.reg, n)
            for j, col in cols.items():
                for r, a in col.items():
                    tot.setdefault(j, {})
                    tot[j][r] = padd(tot[j].get(r, ZERO), scale(a, Fraction(float(c))))
        exp = {j: {} for j in range(2 ** n)}
        acc = {}
        for i, fd in enumerate(spec):
            for kk, v in term_mat(fd, n).items():
                acc[kk] = acc.get(kk, 0) + v * signs[i % len(signs)] * (1.0 + 0.25 * i)
        for (r, c), v in little(herm(acc), n).items():
            exp[c][r] = amp(v)
        got = {j: {k: a for k, a in tot.get(j, {}).items() if a} for j in range(2 ** n)}
        verdict(got, exp, n, "linear combination of the unitaries", {"terms": str(spec), "signs": signs})
        return {"unitaries": len(us)}
    return fn


# ------------------------------------------------------------------ fermions
def a(*js):
    return c16.a(*js)


FERM = {
    "n": (1, [(a(~0, 0), 1.0)]),
    "n2": (2, [(a(~0, 0, ~1, 1), 1.0)]),
    "nn": (2, [(a(0, ~0), 0.5), (a(~1, 1), 1.0)]),
    "hop": (2, [(a(~0, 1), 1.0)]),
    "hophc": (2, [(a(~0, 1), 0.5), (a(~1, 0), 0.5)]),
    "hop02": (3, [(a(~0, 2), 1.0)]),
    "hop20": (3, [(a(~2, 0), 1.0)]),
    "hop04": (5, [(a(~0, 4), 1.0)]),
    "pair": (2, [(a(0, 1), 1.0)]),
    "pair31": (4, [(a(3, 1), 1.0)]),
    "single": (3, [(a(2), 1.0)]),
    "single0": (2, [(a(0), 1.0)]),
    "singles": (3, [(a(2), 1.0), (a(0), 0.5)]),
    "odd3": (4, [(a(~0, 1, 3), 1.0)]),
    "double": (4, [(a(~0, ~1, 2, 3), 1.0)]),
    "double2": (4, [(a(~0, ~2, 1, 3), 1.0)]),
    "double3": (5, [(a(~0, ~3, 2, 4), 1.0)]),
    "dens": (3, [(a(~0, ~1, 1, 2), 1.0)]),
    "densm": (4, [(a(~0, ~2, 2, 3), 1.0), (a(~0, 3), 0.5)]),
    "cross": (4, [(a(~0, 2), 1.0), (a(~1, 3), 0.5)]),
    "nest": (4, [(a(~0, 3), 1.0), (a(~1, 2), 0.5)]),
    "chain": (3, [(a(~0, 1), 1.0), (a(~1, 2), 0.5)]),
    "triple": (2, [(a(1, 0, ~0, 0), 1.0)]),
    "six": (5, [(a(~0, ~2, ~4, 1, 3), 1.0)]),
    "const": (2, [(a(), 0.5), (a(~0, 1), 1.0)]),
    "cplx": (2, [(a(~0, 1), 1j)]),
    "cplx2": (3, [(a(~0, 2), 0.5 + 0.5j), (a(~1, 1), 0.5)]),
}


def num(m):
    return {k: complex(v) for k, v in m.items()}


def ferm_case(nm, steps, fwd):
    def fn():
        import sympy
        from qrisp import QuantumVariable
        n, spec = FERM[nm]
        op = c16.build([w for w, _ in spec], lambda i: spec[i][1])
        t = sympy.Symbol("t", real=True)
        qv = QuantumVariable(n)
        op.trotterization(forward_evolution=fwd)(qv, t=t, steps=steps)
        cols, _ = circuit_cols(qv.qs, qv.reg, n)
        ms = {}
        for w, c in spec:
            S = {}
            for k, v in num(c16.word_mat(w, n)).items():
                S[k] = S.get(k, 0) + v * complex(c)
            S = herm(S)
            # merge terms with proportional operators
            ms[w] = little(S, n)
        ms = [(S, Fraction(1)) for S in ms.values() if S]
        merged = []
        for S, q in ms:
            for i, (R, p) in enumerate(merged):
                if set(R) == set(S):
                    k0 = next(iter(S))
                    f = S[k0] / R[k0]
                    if abs(f.imag) < 1e-12 and all(abs(S[k] - f * R[k]) < 1e-12 for k in S):
                        merged[i] = (R, p + Fraction(f.real))
                        break
            else:
                merged.append((S, q))
        merged = [(S, q) for S, q in merged if q]
        sg = 1 if fwd else -1
        info = {"operator": str(spec), "steps": steps, "forward": fwd}
        perms = [tuple(range(len(merged)))] if commuting(merged) else list(itertools.permutations(range(len(merged))))
        for p in perms:
            step = {j: {j: ONE} for j in range(2 ** n)}
            for i in p:
                S, q = merged[i]
                step = cmul(expm(S, q * Fraction(sg, steps), "t", 2 ** n), step)
            exp = {j: {j: ONE} for j in range(2 ** n)}
            for _ in range(steps):
                exp = cmul(step, exp)
            if len(perms) == 1 or p == perms[-1]:
                verdict(cols, exp, n, "fermionic trotterization %s" % nm, info)
                break
            if quick_equal(cols, exp) and compare(cols, exp) is None:
                break
        return {"orders_tried": perms.index(p) + 1}
    return fn


def cases(tier):
    T = tier == "thorough"
    out = []
    for n in (1, 2):
        ts = [{q: l for q, l in enumerate(ls) if l != "I"} for ls in itertools.product(LET, repeat=n)]
        for mode in ("plain", "control", "invert"):
            for lo in range(0, len(ts), 16):
                out.append(("simulate/%d/%s/%d" % (n, mode, lo), sim_case(ts[lo:lo + 16], n, mode)))
    ts = [{q: l for q, l in enumerate(ls) if l != "I"} for ls in itertools.product(LET, repeat=3)]
    for mode in ("plain", "control") if not T else ("plain", "control", "invert"):
        for lo in range(0, len(ts), 32):
            out.append(("simulate/3/%s/%d" % (mode, lo), sim_case(ts[lo:lo + 32], 3, mode)))
    t4 = [{q: l for q, l in enumerate(ls) if l != "I"} for ls in itertools.product(LET, repeat=4)]
    pick = t4[:: 8 if T else 67]
    for lo in range(0, len(pick), 16):
        for mode in ("plain", "control"):
            out.append(("simulate/4/%s/%d" % (mode, lo), sim_case(pick[lo:lo + 16], 4, mode)))
    for nm in OPS:
        for method in ("commuting_qw", "commuting"):
            for order, steps, iters, fwd in ((1, 1, 1, True), (1, 2, 1, False), (2, 1, 1, True), (1, 1, 2, True), (2, 2, 1, False), (1, 3, 1, True)):
                if steps * iters * order > 2 and len(OPS[nm][1]) > 3 and not T:
                    continue
                out.append(("trotter/%s/%s/o%d_s%d_i%d_%s" % (nm, method, order, steps, iters, "f" if fwd else "b"), trot_case(nm, method, order, steps, iters, fwd)))
    for nm, (n, spec) in BASES.items():
        out.append(("basis/qw/%s" % nm, basis_case(n, spec, "commuting_qw", nm)))
    for nm, (n, spec) in list(COMM.items()) + [(k, v) for k, v in BASES.items() if not any(f in "AC" for fd in v[1] for f in fd.values())]:
        out.append(("basis/com/%s" % nm, basis_case(n, spec, "commuting", nm)))
    pp = pauli_pairs(2)
    for lo in range(0, len(pp), 15):
        out.append(("basis/pairs2/%d" % lo, multi_basis(2, pp[lo:lo + 15], "commuting", "pairs")))
    p3 = pauli_pairs(3)
    p3 = p3 if T else p3[::2]
    for lo in range(0, len(p3), 15):
        out.append(("basis/pairs3/%d" % lo, multi_basis(3, p3[lo:lo + 15], "commuting", "pairs")))
    diag = [{}, {0: "Z"}, {0: "P0", 1: "Z"}, {0: "P1", 2: "P0"}, {0: "Z", 1: "Z", 2: "P1"}, {0: "P0", 1: "P0", 2: "P1"}]
    for i in range(len(diag)):
        out.append(("observable/%d" % i, observable_case(3, diag[i:] + diag[:i])))
    for nm in ("bell", "graph", "hopz", "proj", "neg", "id"):
        n, spec = OPS[nm]
        for signs in ([1], [-1], [1, -1]):
            out.append(("unitaries/%s/%s" % (nm, "".join("+" if s > 0 else "-" for s in signs)), unitaries_case(n, [fd for fd, _ in spec], signs)))
    for nm in FERM:
        for steps, fwd in ((1, True), (2, False)):
            out.append(("fermion/%s/s%d_%s" % (nm, steps, "f" if fwd else "b"), ferm_case(nm, steps, fwd)))
    return out
