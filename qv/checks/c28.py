"""C28: block encodings contain the stated operator, scaled by their normalisation, in the ancilla-zero block."""
import numpy as np

from ..linstate import Dyn, differ
from ..prog import Violation

LEVEL = "bounded"
TECH = "symbolic execution of the generated circuits as linear maps on a symbolic operand state, decided by an SMT solver"
FUNCTIONS = ["BlockEncoding.{from_operator, from_array, from_lcu, from_eye, from_projector, from_foqcs_lcu_operator}", "BlockEncoding.{apply, __add__, __sub__, __mul__, __rmul__, __matmul__, __neg__, kron, dagger, qubitization, chebyshev}",
             "BlockEncoding.{poly, svt, inv, sim} with GQET, QET, QSVT, GQSVT, hamiltonian_simulation", "qrisp.alg_primitives.{LCU, reflection, q_switch, prepare}"]
BOUNDS = ("All operand states (symbolic amplitudes) of 1 to 3 qubits; the operators, matrices, coefficients, polynomials and combinations listed in this file (coefficients positive, negative, complex, equal, zero); "
          "circuits that occupy at most 16 qubits at a time; differences below 1e-5 of the normalisation are taken as rounding, for sim the truncation error of the stated order, for inv the stated precision.")
OUTSIDE = "other coefficients than those listed, operands of more than 3 qubits, success probabilities and repeat-until-success loops, resources()"
HOW = ("The real method is executed; its circuit becomes a linear map whose columns belong to the unknown amplitudes of the operand; the solver looks for an operand state on which an output amplitude with all ancillas in |0> differs from "
       "that of the operator divided by the normalisation.  Where the encoding says its unitary is Hermitian, U*U is compared with the identity on operand and ancillas.")
TRUSTED = "z3; gate matrices of qv/linstate.py; numpy for the reference matrices"

PAULI = {"I": np.eye(2), "X": np.array([[0, 1], [1, 0]]), "Y": np.array([[0, -1j], [1j, 0]]), "Z": np.diag([1, -1]),
         "A": np.array([[0, 1], [0, 0]]), "C": np.array([[0, 0], [1, 0]]), "P0": np.diag([1, 0]), "P1": np.diag([0, 1])}


def pauli(n, terms):
    """matrix of sum c * prod pauli; terms: [(c, {qubit: name})]; qubit 0 is the lowest bit"""
    m = np.zeros((1 << n, 1 << n), complex)
    for c, t in terms:
        k = np.eye(1)
        for q in range(n):
            k = np.kron(PAULI[t.get(q, "I")], k)
        m = m + c * k
    return m


def operator(terms):
    from qrisp.operators import X, Y, Z, A, C, P0, P1
    f = {"X": X, "Y": Y, "Z": Z, "A": A, "C": C, "P0": P0, "P1": P1}
    H = 0
    for c, t in terms:
        o = c
        for q, p in t.items():
            o = o * f[p](q)
        H = H + o
    return H


def run_circuit(be, sizes, twice=False, ancs=False):
    """map of the encoding: columns operand (and ancilla) basis states"""
    from qrisp import QuantumFloat, merge
    ops = [QuantumFloat(s) for s in sizes]
    merge(ops)
    if twice:
        anc = be.create_ancillas()
        if anc:
            merge(list(anc) + ops)
        be.unitary(*anc, *ops)
        be.unitary(*anc, *ops)
    else:
        anc = be.apply(*ops)
        merge(list(anc) + ops)
    qc = ops[0].qs.copy()
    q = [b for o in ops for b in o.reg]
    aq = [b for a in anc for b in a.reg]
    start = q + aq if ancs else q
    L = Dyn(start)
    L.dirty = None
    L.run(qc)
    if L.dirty is not None:
        raise Violation("a temporary qubit is deallocated although it is not in |0>")
    for b in list(aq):
        if b not in L.pos:
            L.need(b)
    return L, q, aq


def run_traced(make, sizes):
    from ..jaspq import traced
    from qrisp import QuantumFloat
    box = {}

    def main():
        be = make()
        ops = [QuantumFloat(s) for s in sizes]
        anc = be.apply(*ops)
        box["n"] = len(anc)
        return (*ops, *anc)
    regs, qc = traced(main)
    k = len(sizes)
    q = [b for r in regs[:k] for b in r]
    aq = [b for r in regs[k:] for b in r]
    if len(regs) != k + box["n"]:
        raise Exception("harness: %d registers" % len(regs))
    L = Dyn(q)
    L.dirty = None
    L.run(qc)
    if L.dirty is not None:
        raise Violation("a temporary qubit is deallocated although it is not in |0>")
    for b in aq:
        if b not in L.pos:
            L.need(b)
    return L, q, aq


def encoded(tag, make, sizes, ref, alpha=None, tol=0.0, herm=None, jasp=False):
    """ref: matrix of the operator; tol: allowed deviation (in units of the operator)"""
    def run():
        be = make()
        a = complex(be.alpha)
        if abs(a.imag) > 1e-9 or not a.real > 0:
            raise Violation("%s: normalisation is %s" % (tag, be.alpha))
        a = a.real
        M = np.asarray(ref() if callable(ref) else ref, complex)
        if alpha is not None and abs(a - alpha) > 1e-5 * max(1, alpha):
            raise Violation("%s: normalisation %s instead of %s" % (tag, a, alpha))
        if np.linalg.norm(M, 2) > a * (1 + 1e-5) + tol:
            raise Violation("%s: normalisation %s is smaller than the norm of the operator" % (tag, a))
        L, q, aq = run_traced(make, sizes) if jasp else run_circuit(be, sizes)
        n = len(q)
        # rows with all ancillas 0; qubits that are neither operand nor ancilla are temporaries and have to end in |0>
        amask = sum(1 << L.pos[b] for b in aq)
        idx = np.arange(1 << L.n)
        want = np.zeros((1 << L.n, 1 << n), complex)
        want[:1 << n] = M / a
        want = want[idx & amask == 0]
        size = np.vdot(want, want).real
        blocks, total = {}, 0
        for k, br in enumerate(L.br):
            got = br.m[idx & amask == 0]
            if len(L.br) > 1 and size > 1e-12:
                # internal measurements: every history has to give the same operator up to its own weight
                c = np.vdot(want, got) / size
                total += abs(c) ** 2
                if abs(c) > 1e-9:
                    got = got / c
            if tol:
                # entries within the stated error count as equal
                got = np.where(np.abs(got - want) <= tol / a, want, got)
            blocks[k,] = [got]
        if total and abs(total - 1) > 1e-5:
            raise Violation("%s: the weights of the measurement histories add up to %s" % (tag, total))
        r = differ(blocks, {k: [want] for k in blocks})
        if r is not None:
            raise Violation("%s: the encoded operator is not the stated one: %s" % (tag, r))
        nq = 1
        if herm is not False and be.is_hermitian and not jasp:
            L, q, aq = run_circuit(be, sizes, twice=True, ancs=True)
            m = L.br[0].m
            r = differ({(): [m]}, {(): [np.eye(m.shape[0], m.shape[1])]})
            nq += 1
            if r is not None:
                raise Violation("%s: the unitary is not Hermitian although the encoding says so: %s" % (tag, r))
        return {"queries": nq, "gates": L.gates}
    return run


def cheb(M, k):
    a, b = np.eye(len(M), dtype=complex), M
    if k == 0:
        return a
    for _ in range(k - 1):
        a, b = b, 2 * M @ b - a
    return b


def polyval(M, p, kind):
    out = np.zeros_like(M)
    P = np.eye(len(M), dtype=complex)
    for k, c in enumerate(p):
        out = out + c * (P if kind == "Polynomial" else cheb(M, k))
        P = P @ M
    return out


def svt(M, p, kind, parity):
    U, S, V = np.linalg.svd(M)
    c = np.array(p, float)
    c[(1 if parity == "even" else 0)::2] = 0
    f = np.polynomial.chebyshev.chebval(S, c) if kind == "Chebyshev" else np.polynomial.polynomial.polyval(S, c)
    left = U if parity == "odd" else V.conj().T
    return left @ np.diag(f) @ V


def shift(n, k):
    return np.eye(1 << n, k=k)


# operators: terms over n qubits
OPERS = {
    "one": (1, [(1.5, {0: "Z"})]),
    "neg": (1, [(-2, {0: "X"})]),
    "two": (2, [(1, {0: "X", 1: "Y"}), (0.5, {0: "Z", 1: "X"})]),
    "signs": (2, [(-0.7, {0: "X"}), (0.4, {1: "Z"}), (-1.1, {0: "Z", 1: "Z"})]),
    "const": (2, [(0.3, {}), (1, {0: "Y"}), (-0.2, {0: "Y", 1: "Y"})]),
    "five": (2, [(1, {0: "X"}), (0.9, {1: "X"}), (0.8, {0: "Z"}), (-0.6, {1: "Z"}), (0.5, {0: "Y", 1: "Y"})]),
    "gap": (3, [(1, {2: "X"}), (-0.3, {0: "Z", 2: "Z"})]),
    "ladder": (2, [(1, {0: "A", 1: "C"}), (1, {0: "C", 1: "A"})]),
    "proj": (2, [(2, {0: "P0"}), (1, {0: "P1", 1: "Z"})]),
    "three": (3, [(0.5, {0: "X", 1: "X"}), (0.5, {1: "Y", 2: "Y"}), (1, {0: "Z", 1: "Z", 2: "Z"})]),
}
ARRAYS = {
    "sym": [[1, 2], [2, 5]],
    "herm": [[1, 2 - 1j], [2 + 1j, -3]],
    "zero-diag": [[0, 1, 0, 1], [1, 0, 0, 0], [0, 0, 1, 0], [1, 0, 0, 0]],
    "complex": [[0.5, 1j, 0, 0], [-1j, 0.25, 0, 2], [0, 0, 1, 0], [0, 2, 0, -1]],
    "nonherm": [[1, 2], [0, 3]],
}


def ident(q):
    pass


def sx(q):
    from qrisp import x
    x(q[0])


def sy(q):
    from qrisp import y
    y(q[0])


def plus(q):
    q += 1


def minus(q):
    q -= 1


def had(q):
    from qrisp import h
    h(q[0])


def phase(q):
    from qrisp import s
    s(q[0])


def umat(f, n):
    one = {ident: np.eye(2), sx: PAULI["X"], sy: PAULI["Y"], had: np.array([[1, 1], [1, -1]]) / np.sqrt(2), phase: np.diag([1, 1j])}
    if f in one:
        return np.kron(np.eye(1 << n - 1), one[f])
    N = 1 << n
    m = np.zeros((N, N))
    for i in range(N):
        m[(i + (1 if f is plus else -1)) % N, i] = 1
    return m


LCUS = {
    "single": ([2.0], [sx]), "single-neg": ([-2.0], [plus]), "pos": ([1.0, 1.0], [plus, minus]), "weights": ([3.0, 1.0], [ident, minus]),
    "neg": ([1.0, -0.5], [sx, had]), "complex": ([1.0, 0.5j, -0.25 + 0.25j], [sx, phase, plus]), "imag": ([1j, 2j], [had, sx]),
    "three": ([0.2, 0.7, 1.4], [sy, plus, had]), "zero": ([1.0, 0.0, 2.0], [sx, sy, plus]), "allneg": ([-1.0, -2.0], [plus, sx]), "five": ([1, 2, 3, -4, 0.5], [ident, sx, sy, plus, had]),
}


def lcu(name, n):
    c, u = LCUS[name]
    return sum(a * umat(f, n) for a, f in zip(c, u)), float(np.sum(np.abs(c)))


def B():
    from qrisp.block_encodings import BlockEncoding
    return BlockEncoding


def of(name):
    return lambda: B().from_operator(operator(OPERS[name][1]))


def ofm(name, n=None):
    k, t = OPERS[name]
    return pauli(n or k, t)


def ofl(name):
    return lambda: B().from_lcu(np.array(LCUS[name][0]), list(LCUS[name][1]))


SPIN = {
    "fields": (2, [(1, {0: "X"}), (1, {1: "X"})]),
    "mixed": (2, [(1, {0: "X"}), (1, {1: "X"}), (0.5, {0: "Y"}), (0.5, {1: "Y"}), (0.2, {0: "Z", 1: "Z"})]),
    "glass": (2, [(0.7, {0: "X"}), (-0.3, {1: "Z"}), (0.5, {0: "X", 1: "X"}), (1.2, {0: "Y", 1: "Y"}), (-0.8, {0: "Z", 1: "Z"})]),
    "heisenberg": (3, [(0.5, {0: "X", 1: "X"}), (0.5, {1: "X", 2: "X"}), (0.25, {0: "Y", 1: "Y"}), (0.25, {1: "Y", 2: "Y"}), (1, {0: "Z", 1: "Z"}), (1, {1: "Z", 2: "Z"}), (0.1, {0: "Z"}), (0.1, {1: "Z"}), (0.1, {2: "Z"})]),
    "heis-neg": (3, [(-0.5, {0: "X", 1: "X"}), (-0.5, {1: "X", 2: "X"}), (-0.1, {0: "Y"}), (-0.1, {1: "Y"}), (-0.1, {2: "Y"})]),
    "zz": (2, [(-1.5, {0: "Z", 1: "Z"}), (0.5, {0: "Y"})]),
}


def cases(tier):
    big = tier == "thorough"
    out = []

    def add(tag, *a, **k):
        out.append((tag, encoded(tag, *a, **k)))
    for name, (n, t) in OPERS.items():
        add("operator/" + name, of(name), [n], pauli(n, t))
    add("operator/larger-operand", of("one"), [2], ofm("one", 2))
    add("operator/fermion", fermion, [2], lambda: fermion_ref())
    for name, A in ARRAYS.items():
        A = np.array(A)
        n = len(A).bit_length() - 1
        add("array/" + name, lambda A=A: B().from_array(A), [n], (A + A.conj().T) / 2)
    for name in LCUS:
        for n in (1, 2) if not big else (1, 2, 3):
            if name == "single-neg" and n == 1:
                continue
            M, al = lcu(name, n)
            add("lcu/%s/%d" % (name, n), ofl(name), [n], M, alpha=al)
    for n in (1, 2, 3):
        for k in range(-3, 4):
            if abs(k) < 1 << n:
                add("eye/%d/%d" % (n, k), lambda k=k: B().from_eye(k), [n], shift(n, k), alpha=1)

    def basis(n, i, j):
        m = np.zeros((1 << n, 1 << n))
        m[i, j] = 1
        return m
    for n, i, j in ((1, 0, 1), (2, 1, 3), (2, 2, 0), (3, 5, 2), (2, 3, 3)):
        add("projector/%d/%d-%d" % (n, i, j), lambda i=i, j=j: B().from_projector(i, j), [n], basis(n, i, j))
    for n, i in ((1, 1), (2, 0), (2, 2), (3, 6)):
        add("projector/%d/%d" % (n, i), lambda i=i: B().from_projector(i), [n], basis(n, i, i))
        add("projector/%d/kernel-%d" % (n, i), lambda i=i: B().from_projector(i, kernel=True), [n], np.eye(1 << n) - basis(n, i, i))
    add("projector/tuple", lambda: B().from_projector((1, 2), (0, 3)), [1, 2], basis(3, 1 + 4, 6))
    add("projector/tuple-kernel", lambda: B().from_projector((1, 2), kernel=True), [1, 2], np.eye(8) - basis(3, 5, 5))
    u = np.full((4, 1), 0.5)
    e1 = np.eye(4)[:, [1]]
    add("projector/state", lambda: B().from_projector(hall), [2], u @ u.T)
    add("projector/state-basis", lambda: B().from_projector(hall, 1), [2], u @ e1.T)
    add("projector/basis-state", lambda: B().from_projector(1, hall), [2], e1 @ u.T)
    for name, (n, t) in SPIN.items():
        add("foqcs/" + name, lambda t=t: B().from_foqcs_lcu_operator(operator(t)), [n], pauli(n, t), tol=0)
    # algebra
    X_ = {"two": (of("two"), ofm("two")), "signs": (of("signs"), ofm("signs")), "const": (of("const"), ofm("const")), "five": (of("five"), ofm("five")), "oneop": (of("one"), ofm("one", 2)),
          "lcu-complex": (ofl("complex"), lcu("complex", 2)[0]), "lcu-shift": (ofl("weights"), lcu("weights", 2)[0]), "eye0": (lambda: B().from_eye(0), np.eye(4)), "eye1": (lambda: B().from_eye(1), shift(2, 1)),
          "proj": (lambda: B().from_projector(1, 3), basis(2, 1, 3)), "single-neg": (ofl("single-neg"), lcu("single-neg", 2)[0])}
    pairs = [("two", "signs"), ("signs", "two"), ("two", "oneop"), ("oneop", "eye0"), ("lcu-complex", "lcu-shift"), ("lcu-shift", "two"), ("eye1", "const"), ("proj", "lcu-shift"), ("eye0", "five"), ("single-neg", "two"), ("two", "single-neg"), ("lcu-complex", "proj")]
    if big:
        pairs = [(a, b) for a in X_ for b in X_]
    for a, b in pairs:
        fa, ma = X_[a]
        fb, mb = X_[b]
        add("add/%s+%s" % (a, b), lambda fa=fa, fb=fb: fa() + fb(), [2], ma + mb)
        add("sub/%s-%s" % (a, b), lambda fa=fa, fb=fb: fa() - fb(), [2], ma - mb)
        add("matmul/%s@%s" % (a, b), lambda fa=fa, fb=fb: fa() @ fb(), [2], ma @ mb)
    for a in X_:
        fa, ma = X_[a]
        add("neg/" + a, lambda fa=fa: -fa(), [2], -ma)
        add("dagger/" + a, lambda fa=fa: fa().dagger(), [2], ma.conj().T)
        for c in (2, -1.5, 0.25):
            add("mul/%s*%s" % (a, c), lambda fa=fa, c=c: fa() * c, [2], ma * c)
        add("rmul/%s" % a, lambda fa=fa: -3 * fa(), [2], ma * -3)
        if a in ("two", "signs", "const", "five", "oneop", "eye0"):
            add("walk/" + a, lambda fa=fa: fa().qubitization(), [2], ma)
            for k in (0, 1, 2, 3) + ((4, 5) if big else ()):
                al = None

                def plain(fa=fa, k=k):
                    return fa().chebyshev(k, rescale=False)

                def pref(fa=fa, ma=ma, k=k):
                    a_ = float(fa().alpha)
                    return cheb(ma / a_, k) * (a_ if k == 1 else 1)
                add("chebyshev/%s/%d" % (a, k), plain, [2], pref)
            for k in (1, 2, 3) + ((4,) if big else ()):
                add("chebyshev-rescaled/%s/%d" % (a, k), lambda fa=fa, k=k: fa().chebyshev(k), [2], cheb(ma, k))
    for a, b in (("one", "one"), ("one", "two"), ("two", "one"), ("neg", "signs")):
        add("kron/%s-%s" % (a, b), lambda a=a, b=b: of(a)().kron(of(b)()), [OPERS[a][0], OPERS[b][0]], np.kron(ofm(b), ofm(a)))
    add("kron/shift-lcu", lambda: B().from_eye(1).kron(ofl("complex")()), [2, 1], np.kron(lcu("complex", 1)[0], shift(2, 1)))
    for a, b in (("one", "complex"), ("complex", "one"), ("neg", "weights")):
        m_ = {k: (ofm(k) if k in OPERS else lcu(k, 1)[0]) for k in (a, b)}
        f_ = {k: (of(k) if k in OPERS else ofl(k)) for k in (a, b)}
        add("kron/mixed/%s-%s" % (a, b), lambda a=a, b=b, f_=f_: f_[a]().kron(f_[b]()), [1, 1], np.kron(m_[b], m_[a]))
    # traced programs
    for name in ("two", "signs", "const", "one", "neg", "five"):
        add("traced/operator/" + name, of(name), [OPERS[name][0]], ofm(name), jasp=True)
    for name in ("pos", "weights", "neg", "complex", "zero", "single-neg"):
        add("traced/lcu/" + name, ofl(name), [2], lcu(name, 2)[0], jasp=True)
    for k in (-2, -1, 0, 1, 3):
        add("traced/eye/%d" % k, lambda k=k: B().from_eye(k), [2], shift(2, k), jasp=True)
    for a, b in (("two", "signs"), ("lcu-complex", "lcu-shift"), ("eye1", "oneop"), ("two", "single-neg")):
        fa, ma = X_[a]
        fb, mb = X_[b]
        add("traced/add/%s+%s" % (a, b), lambda fa=fa, fb=fb: fa() + fb(), [2], ma + mb, jasp=True)
        add("traced/sub/%s-%s" % (a, b), lambda fa=fa, fb=fb: fa() - fb(), [2], ma - mb, jasp=True)
        add("traced/matmul/%s@%s" % (a, b), lambda fa=fa, fb=fb: fa() @ fb(), [2], ma @ mb, jasp=True)
    for a in ("two", "lcu-complex", "eye1", "oneop"):
        fa, ma = X_[a]
        add("traced/neg/" + a, lambda fa=fa: -fa(), [2], -ma, jasp=True)
        add("traced/dagger/" + a, lambda fa=fa: fa().dagger(), [2], ma.conj().T, jasp=True)
        add("traced/mul/" + a, lambda fa=fa: fa() * (-1.5), [2], ma * -1.5, jasp=True)
    for a in ("two", "const"):
        fa, ma = X_[a]
        add("traced/walk/" + a, lambda fa=fa: fa().qubitization(), [2], ma, jasp=True)
        for k in (2, 3):
            add("traced/chebyshev/%s/%d" % (a, k), lambda fa=fa, k=k: fa().chebyshev(k), [2], cheb(ma, k), jasp=True)
        add("traced/poly/" + a, lambda fa=fa: fa().poly(np.array([1., 1j, -0.5])), [2], lambda ma=ma: polyval(ma, [1., 1j, -0.5], "Polynomial"), jasp=True)
        add("traced/sim/" + a, lambda fa=fa: fa().sim(0.3, 6), [2], lambda ma=ma: expm(ma, 0.3), tol=1e-3, jasp=True)
        for parity in ("odd", "even"):
            add("traced/svt/%s/%s" % (a, parity), lambda fa=fa, parity=parity: fa().svt(np.array([0.5, 1., 0.25, 1.]), parity=parity), [2], lambda ma=ma, parity=parity: svt(ma, [0.5, 1., 0.25, 1.], "Polynomial", parity), jasp=True)
    # three deep
    add("nest/a+b*c", lambda: of("two")() + 2 * (of("one")() @ of("signs")()), [2], ofm("two") + 2 * ofm("one", 2) @ ofm("signs"))
    add("nest/dagger(a-b)", lambda: (ofl("complex")() - ofl("weights")()).dagger(), [2], (lcu("complex", 2)[0] - lcu("weights", 2)[0]).conj().T)
    add("nest/-(a@b)", lambda: -(B().from_eye(-1) @ of("two")()), [2], -(shift(2, -1) @ ofm("two")))
    add("nest/poly-of-sum", lambda: (of("two")() + of("one")()).poly([0., 1., 1.]), [2], lambda: (ofm("two") + ofm("one", 2)) + (ofm("two") + ofm("one", 2)) @ (ofm("two") + ofm("one", 2)))
    add("nest/poly-of-walk", lambda: of("two")().qubitization().poly([0., 0., 1.]), [2], lambda: ofm("two") @ ofm("two"))
    add("nest/poly-of-scaled", lambda: (-2 * of("two")()).poly([1., 0., 1.]), [2], lambda: np.eye(4) + 4 * ofm("two") @ ofm("two"))
    # transformations
    polys = [([1., 2., 3.], "Polynomial"), ([0., 1.], "Polynomial"), ([0.5, 0., -1., 0.25], "Polynomial"), ([0.1, 0.2, 0.3], "Chebyshev"), ([0., 0., 0., 1.], "Chebyshev"), ([1., 1j, -0.5], "Polynomial")]
    for a in ("two", "signs", "const") + (("five",) if big else ()):
        fa, ma = X_[a]
        for i, (p, kind) in enumerate(polys):
            add("poly/%s/%d" % (a, i), lambda fa=fa, p=p, kind=kind: fa().poly(np.array(p), kind=kind), [2], lambda ma=ma, p=p, kind=kind: polyval(ma, p, kind))
        for t, N in ((0.3, 6), (1.0, 10), (-0.5, 8)):
            add("sim/%s/%s" % (a, t), lambda fa=fa, t=t, N=N: fa().sim(t, N), [2], lambda ma=ma, t=t: expm(ma, t), tol=1e-3)
    for a in ("two", "lcu-shift", "lcu-complex"):
        fa, ma = X_[a]
        for parity in ("odd", "even"):
            for p, kind in (([0.5, 1., 0., 1.], "Polynomial"), ([0.2, 0.3, 0.4], "Chebyshev"), ([1., -0.5, 2.], "Polynomial")):
                add("svt/%s/%s/%s-%s" % (a, parity, len(p), kind[0] + str(p[0])), lambda fa=fa, p=p, kind=kind, parity=parity: fa().svt(np.array(p), kind=kind, parity=parity), [2],
                    lambda ma=ma, p=p, kind=kind, parity=parity: svt(ma, p, kind, parity))
    INV = np.array([[0.73255474, 0.14516978, -0.14510851, -0.0391581], [0.14516978, 0.68701415, -0.04929867, -0.00999921], [-0.14510851, -0.04929867, 0.76587818, -0.03420339], [-0.0391581, -0.00999921, -0.03420339, 0.58862043]])
    for meth in ("QET", "QSVT", "GQSVT"):
        add("inv/" + meth, lambda meth=meth: B().from_array(INV).inv(0.01, 4, method=meth), [2], np.linalg.inv(INV), tol=0.02)
        add("inv/lcu/" + meth, lambda meth=meth: ofl("weights")().inv(0.01, 4, method=meth), [2], np.linalg.inv(lcu("weights", 2)[0]), tol=0.02) if meth != "QET" else None
    add("inv/unitary", lambda: ofl("single")().inv(0.01, 2), [2], np.linalg.inv(lcu("single", 2)[0]))
    return out


def hall(q):
    from qrisp import h
    h(q)


def fermion():
    from qrisp.operators import a, c
    return B().from_operator(a(0) * c(1) + a(1) * c(0) + 0.5 * c(0) * a(0))


def fermion_ref():
    Z, A_, C_ = PAULI["Z"], PAULI["A"], PAULI["C"]
    I = np.eye(2)
    # Jordan-Wigner, qubit 0 lowest bit; either string convention gives the same hopping term
    a0 = np.kron(I, A_)
    a1 = np.kron(A_, Z)
    return a0 @ a1.conj().T + a1 @ a0.conj().T + 0.5 * a0.conj().T @ a0


def expm(M, t):
    w, v = np.linalg.eigh(M)
    return v @ np.diag(np.exp(-1j * t * w)) @ v.conj().T
