"""C27: state preparation routines produce the stated state for every amplitude vector."""
import contextlib
import sys
from fractions import Fraction as Fr

import numpy as np

from .. import jaxalg as ja
from ..intsym import Run
from ..linstate import Dyn, differ
from ..pathsum import Unsupported, Undecided
from ..prog import Violation
from ..smt import z3, check

LEVEL = "bounded"
TECH = "symbolic execution of the angle computation (jaxpr of the real code over exact reals) and of the generated circuits, decided by an SMT solver"
FUNCTIONS = ["prepare(method=qswitch) with prepare_qswitch, _preprocess, _compute_thetas, _compute_u3_params, _normalize_with_phase, swap_endianness", "unbalanced_w_state",
             "dicke_state, split_cycle_shift", "prepare(method=qiskit), QuantumVariable.init_state (on witnesses of the explored paths)"]
BOUNDS = ("prepare/qswitch: all complex amplitude vectors of 1 and 2 qubits, all non-negative real vectors with every pattern of zeros of 3 qubits, any norm, both bit orders; unbalanced_w_state: all complex vectors of 1 to 3 and all non-negative real vectors of 4 amplitudes; non-zero intermediate norms are above the code's "
          "threshold; dicke_state: n <= 5 (6 thorough), all k, all superpositions of the states with 0..k ones at the end.")
OUTSIDE = "amplitudes below the thresholds (1e-8 relative), float rounding; q_switch itself (C09/C26/C28); the search inside qiskit's StatePreparation, of which the result is compared on the witness of every explored path only"
HOW = ("The real function is traced once with an abstract amplitude vector; gate functions record the traced angles and q_switch runs every branch under its index pattern.  The angle expressions are executed over z3 reals; the state after the recorded gates "
       "is compared with the given vector: the solver looks for amplitudes where they differ.  Every explored path yields a witness vector, which is run through the real static and traced routines and read from the resulting circuit.")
TRUSTED = "z3; matrices of ry, u3, p, xxyy in this file (C01 compares the gates with the same matrices)"


class Recorder:
    def __init__(self):
        self.gates = []
        self.ctrl = ()

    def bits(self, q):
        if isinstance(q, Reg):
            return list(q.qs)
        if isinstance(q, (list, tuple)):
            return [b for x in q for b in self.bits(x)]
        return [q]

    def gate(self, name, nparams, nq=1):
        def f(*args, **kw):
            args = list(args) + [kw[k] for k in kw if k in ("theta", "phi", "lam", "beta", "gamma", "qubits", "qubits_0", "qubits_1")]
            params, qs = args[:nparams], [self.bits(a) for a in args[nparams:nparams + nq]]
            for tup in zip(*qs):
                self.gates.append((self.ctrl, name, params, list(tup)))
            return args[-1]
        return f

    def q_switch(self, index, branches, *operands, branch_amount=None, method="auto"):
        idx = self.bits(index)
        n = 1 << len(idx)
        amount = n if branch_amount is None else branch_amount
        old = self.ctrl
        for i in range(n if callable(branches) else min(n, len(branches))):
            if i >= amount:
                break
            self.ctrl = old + tuple((q, i >> k & 1) for k, q in enumerate(idx))
            if callable(branches):
                branches(i, *operands)
            else:
                branches[i](*operands)
        self.ctrl = old


class Reg:
    """stand-in of a register: knows its qubits by number"""

    def __init__(self, qs):
        self.qs = list(qs)
        self.size = len(self.qs)
        self.reg = self.qs

    def __len__(self):
        return len(self.qs)

    def __iter__(self):
        return iter(self.qs)

    def __getitem__(self, k):
        if isinstance(k, slice):
            return Reg(self.qs[k])
        return self.qs[k]


@contextlib.contextmanager
def recording(rec):
    """gate functions record instead of acting, in every module of qrisp that names them"""
    import qrisp
    import qrisp.jasp.program_control.jrange_iterator as jr
    import qrisp.jasp.program_control.prefix_control as pc
    new = {}
    for n, k, q in (("ry", 1, 1), ("rz", 1, 1), ("p", 1, 1), ("gphase", 1, 1), ("u3", 3, 1), ("x", 0, 1), ("xxyy", 2, 2), ("cx", 0, 2), ("h", 0, 1), ("z", 0, 1)):
        new[id(getattr(qrisp, n))] = rec.gate(n, k, q)
    new[id(pc.q_switch)] = rec.q_switch
    new[id(jr.jrange)] = range
    saved = []
    for name, mod in list(sys.modules.items()):
        if not name.startswith("qrisp") or mod is None:
            continue
        for k, v in list(vars(mod).items()):
            if id(v) in new and callable(v):
                saved.append((mod, k, v))
                setattr(mod, k, new[id(v)])
    try:
        yield
    finally:
        for mod, k, v in saved:
            setattr(mod, k, v)


def trace(fn, dim):
    """(jaxpr of all recorded angles, gates with indices into its outputs)"""
    import jax
    rec = Recorder()

    def go(v):
        rec.gates = []
        with recording(rec):
            fn(v)
        return [x for g in rec.gates for x in g[2]]
    jaxpr = jax.make_jaxpr(go)(np.zeros(dim, complex))
    return jaxpr, rec.gates


def matrix(name, ang):
    """entries of the gate matrix as exact complex numbers; angles as jaxalg angles"""
    one, nil = ja.C(Fr(1), Fr(0)), ja.C(Fr(0), Fr(0))
    half = lambda a: a.times(Fr(1, 2)).unit()
    m = lambda *x: x
    if name == "ry":
        u = half(ang[0])
        c, s = ja.C.of(u.re), ja.C.of(u.im)
        return [[c, ja.neg(s)], [s, c]]
    if name == "u3":
        u = half(ang[0])
        c, s = ja.C.of(u.re), ja.C.of(u.im)
        p, l = ang[1].unit(), ang[2].unit()
        return [[c, ja.neg(ja.mul(l, s))], [ja.mul(p, s), ja.mul(ja.mul(p, l), c)]]
    if name == "p":
        return [[one, nil], [nil, ang[0].unit()]]
    if name == "gphase":
        u = ang[0].unit()
        return [[u, nil], [nil, u]]
    if name == "rz":
        u = half(ang[0])
        return [[ja.conj(u), nil], [nil, u]]
    if name == "x":
        return [[nil, one], [one, nil]]
    if name == "z":
        return [[one, nil], [nil, ja.C(Fr(-1), Fr(0))]]
    raise Unsupported("gate " + name)


def simulate(n, gates):
    """state after the gates, started in |0>"""
    st = {0: ja.C(Fr(1), Fr(0))}
    nil = lambda v: all(ja.isnum(x) and x == 0 for x in (v.re, v.im))
    for ctrl, name, ang, qs in gates:
        new = {}

        def put(k, v):
            v = ja.C.of(v)
            if nil(v):
                return
            new[k] = ja.add(new[k], v) if k in new else v
        for k, v in st.items():
            if any((k >> q & 1) != b for q, b in ctrl):
                put(k, v)
            elif name == "xxyy":
                a, b = qs
                x, y = k >> a & 1, k >> b & 1
                if x == y:
                    put(k, v)
                else:
                    u = ang[0].times(Fr(1, 2)).unit()
                    e = ang[1].unit()
                    if x == 0:
                        e = ja.conj(e)
                    # |10> -> cos|10> - i e^(i beta) sin |01>  (first qubit, second qubit)
                    put(k, ja.mul(v, ja.C.of(u.re)))
                    put(k ^ (1 << a) ^ (1 << b), ja.mul(v, ja.mul(ja.mul(ja.C(Fr(0), Fr(-1)), e), ja.C.of(u.im))))
            elif name == "cx":
                put(k ^ ((k >> qs[0] & 1) << qs[1]), v)
            else:
                m = matrix(name, ang)
                b = k >> qs[0] & 1
                for r in (0, 1):
                    put(k & ~(1 << qs[0]) | r << qs[0], ja.mul(v, m[r][b]))
        st = new
    return st


def number(m, v):
    """float of a model value"""
    if ja.isnum(v):
        return float(v)
    x = m.eval(v, model_completion=True)
    if z3.is_algebraic_value(x):
        x = x.approx(20)
    return x.numerator_as_long() / x.denominator_as_long()


def witness(m, vec):
    return np.array([number(m, c.re) + 1j * number(m, c.im) for c in vec])


def amplitudes(n, kind):
    """symbolic vector and its assumptions"""
    vec, assume = [], []
    for i in range(n):
        re = z3.Real("re%d" % i)
        k = kind[i]
        if k == "0":
            vec.append(ja.C(Fr(0), Fr(0)))
        elif k == "c":
            vec.append(ja.C(re, z3.Real("im%d" % i)))
        elif k == "d":
            vec.append(ja.C(re * 3 / 5, -re * 4 / 5))
            assume.append(re > 0)
        elif k == "i":
            vec.append(ja.C(Fr(0), re))
            assume.append(re != 0)
        else:
            vec.append(ja.C(re, Fr(0)))
            assume.append({"p": re > 0, "r": z3.BoolVal(True), "n": re < 0, "q": re >= 0}[k])
    tot = z3.Sum([ja.t(ja.add(ja.mul(c.re, c.re), ja.mul(c.im, c.im))) for c in vec])
    return vec, assume, tot


def same_ray(st, want):
    """do two float vectors agree up to a common phase"""
    want = want / np.linalg.norm(want)
    return abs(abs(np.vdot(st, want)) - 1) < 1e-6 and abs(np.linalg.norm(st) - 1) < 1e-6


def decide(name, n, dim, fn, target, real, kind, unit=False):
    """fn(reg, vector) prepares on n qubits; target(index) -> basis state number; real(vector) -> list of (label, float state)"""
    jaxpr, gates = trace(lambda v: fn(Reg(range(n)), v), dim)
    vec, assume, tot = amplitudes(dim, kind)
    norm = z3.Real("N")
    assume = assume + [norm > 0, norm * norm == tot]
    if unit:
        assume.append(norm == 1)
    run = Run(assume=assume, max_paths=3000)
    stats = {"paths": 0, "queries": 0, "witnesses": 0}

    def body():
        ja.UNITS.clear()
        run.roots = [norm]
        arg = np.empty(dim, dtype=object)
        for i, c in enumerate(vec):
            arg[i] = c
        out = ja.run(jaxpr.jaxpr, jaxpr.consts, [arg])
        it = iter([ja.A.of(x[()] if ja.symbolic(x) else Fr(float(x))) for x in out])
        gs = [(c, g, [next(it) for _ in p], q) for c, g, p, q in gates]
        return simulate(n, gs)
    for cond, st in run.explore(body):
        stats["paths"] += 1
        # witness of the path through the real routines
        r, m = check(*(assume + cond))
        stats["queries"] += 1
        if r == "sat":
            w = witness(m, vec)
            want = np.zeros(1 << n, complex)
            for i in range(dim):
                want[target(i)] = w[i]
            for label, got in (real(w) if stats["paths"] <= 6 else []):
                stats["witnesses"] += 1
                if not same_ray(got, want):
                    raise Violation("%s: %s of amplitudes %s gives %s" % (name, label, np.round(w, 6).tolist(), np.round(got, 6).tolist()), {"case": name, "vector": [[float(x.real), float(x.imag)] for x in w]})
        z = ja.C(Fr(0), Fr(0))
        exp = {target(i): vec[i] for i in range(dim)}
        for k in sorted(set(st) | set(exp)):
            a, b = st.get(k, z), exp.get(k, z)
            bad = z3.Or(ja.t(a.re) * norm != ja.t(b.re), ja.t(a.im) * norm != ja.t(b.im))
            r, m = check(*(assume + cond + [bad]))
            stats["queries"] += 1
            if r == "sat":
                # counterexample: run it; equal up to a common phase is no violation
                w = witness(m, vec)
                want = np.zeros(1 << n, complex)
                for i in range(dim):
                    want[target(i)] = w[i]
                for label, got in real(w):
                    if not same_ray(got, want):
                        raise Violation("%s: %s of amplitudes %s gives %s" % (name, label, np.round(w, 6).tolist(), np.round(got, 6).tolist()), {"case": name, "vector": [[float(x.real), float(x.imag)] for x in w]})
                raise Undecided("the state differs from the vector by a phase or in the model only: %s" % np.round(w, 4).tolist())
            if r != "unsat":
                raise Undecided("amplitude %d" % k)
    if not stats["paths"]:
        raise Unsupported("no path explored")
    return stats


def vector(qv):
    f = qv.qs.statevector("array")
    n = len(f).bit_length() - 1
    pos = list(range(n)) if n == len(qv.reg) else [qv.qs.qubits.index(b) for b in qv.reg]
    out = np.zeros(1 << len(pos), complex)
    for k in range(1 << n):
        if abs(f[k]) > 1e-9:
            bits = [k >> (n - 1 - i) & 1 for i in range(n)]
            if any(bits[i] for i in range(n) if i not in pos):
                return np.full(1 << len(pos), np.nan)
            out[sum(bits[p] << j for j, p in enumerate(pos))] = f[k]
    return out


def prep_case(n, rev, kind, unit):
    def run():
        from qrisp import QuantumVariable, prepare
        f = lambda reg, v: prepare(reg, v, rev, method="qswitch")
        br = lambda i: int(format(i, "0%db" % n)[::-1], 2)

        def real(w):
            out = []
            for method in ("qswitch", "qiskit"):
                qv = QuantumVariable(n)
                prepare(qv, w, rev, method=method)
                out.append(("prepare(method=%r, reversed=%s)" % (method, rev), vector(qv)))
            if not rev:
                qv = QuantumVariable(n)
                qv.init_state({format(i, "0%db" % n)[::-1]: w[i] for i in range(1 << n)})
                out.append(("init_state", vector(qv)))
            return out
        return decide("prepare-%d-%s-%s" % (n, rev, kind), n, 1 << n, f, (br if rev else (lambda i: i)), real, kind, unit)
    return run


def w_case(n, kind):
    def run():
        from qrisp import QuantumVariable, unbalanced_w_state

        def real(w):
            qv = QuantumVariable(n)
            unbalanced_w_state(qv, w)
            return [("unbalanced_w_state", vector(qv))]
        return decide("w-%d-%s" % (n, kind), n, n, lambda reg, v: unbalanced_w_state(reg, v), lambda i: 1 << i, real, kind)
    return run


def dicke_case(n, k):
    def run():
        from math import comb
        from qrisp import QuantumVariable, dicke_state
        qv = QuantumVariable(n)
        dicke_state(qv, k)
        qc = qv.qs.copy()
        q = list(qv.reg)
        L = Dyn(q)
        L.dirty = None
        L.run(qc)
        if L.dirty is not None:
            raise Violation("dicke_state(%d qubits, %d): a temporary qubit is deallocated although it is not in |0>" % (n, k))
        if len(L.br) != 1:
            raise Unsupported("internal measurements")
        got = L.br[0].m
        cols = [((1 << l) - 1) << (n - l) for l in range(k + 1)]
        want = np.zeros((got.shape[0], k + 1), complex)
        for l in range(k + 1):
            for x in range(1 << n):
                if bin(x).count("1") == l:
                    want[x, l] = comb(n, l) ** -0.5
        d = differ({(): [got[:, cols]]}, {(): [want]}, "exact")
        if d is not None:
            raise Violation("dicke_state on %d qubits with weight %d: %s" % (n, k, str(d)[:200]), {"case": "dicke", "n": n, "k": k})
        return {"gates": L.gates, "columns": k + 1}
    return run


PAIR = ["cppp", "pcpp", "ppcp", "pppc", "npdc", "npnp", "rrpp", "qqqq", "0c0c", "cc00", "00cc", "0c00", "000c", "iiii", "nnnn", "0pcp", "pdin", "dddd"]
TRIPLE = ["0d00p00n", "pp00pp00", "p00p0pp0", "000000c0", "00p0000c", "0i00000p", "c0000000", "p0n000i0"]


def cases(tier):
    out = []
    for rev in (False, True):
        tag = "reversed" if rev else "plain"
        out.append(("prepare/1-%s" % tag, prep_case(1, rev, "cc", False)))
        for k in PAIR if not rev else PAIR[:4] + PAIR[8:12]:
            out.append(("prepare/2-%s-%s" % (tag, k), prep_case(2, rev, k, False)))
        for k in TRIPLE if not rev else TRIPLE[:4]:
            out.append(("prepare/3-%s-%s" % (tag, k), prep_case(3, rev, k, False)))
        if tier != "quick":
            for k in ("pppppppp", "ppppp0cp"):
                out.append(("prepare/3-%s-%s" % (tag, k), prep_case(3, rev, k, False)))
    if tier != "quick":
        for k in ("crcp", "cdpp", "dpcn", "pdcp"):
            out.append(("prepare/2-plain-%s" % k, prep_case(2, False, k, False)))
    for k in ("c", "cc", "ccc", "qqqq", "cpnp", "ppci", "0c0p", "pp00", "00pq"):
        out.append(("w/%d-%s" % (len(k), k), w_case(len(k), k)))
    for n in range(2, 6 if tier == "quick" else 7):
        for k in range(1, n + 1):
            out.append(("dicke/%d-%d" % (n, k), dicke_case(n, k)))
    return out
