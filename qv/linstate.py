"""Circuits with numeric angles, measurements, resets and classical conditions as linear maps.

A circuit is executed as a set of branches, one per history of measurement
results: classical record -> list of Kraus operators.  Two circuits are then
compared on a *symbolic* input: the amplitudes of the input state (or, if a
record has several histories, the entries of the input density matrix) are
unknowns of a linear real arithmetic problem, and the solver looks for an input
on which an output entry of both circuits differs by more than the tolerance.

The matrices of gates are written here from their textbook definition; every
other operation is executed through its definition circuit.
"""
import cmath
import math

import numpy as np

from .pathsum import Unsupported
from .smt import z3, check

EPS = 1e-5        # reported difference; coefficients below ROUND are taken as 0
ROUND = 1e-8

_S = 1 / math.sqrt(2)


def num(a):
    try:
        return float(a)
    except TypeError:
        raise Unsupported("symbolic angle %s" % a)


def u3m(t, p, l):
    c, s = math.cos(t / 2), math.sin(t / 2)
    return np.array([[c, -cmath.exp(1j * l) * s], [cmath.exp(1j * p) * s, cmath.exp(1j * (p + l)) * c]])


def gate2(name, params):
    if name == "x":
        return np.array([[0, 1], [1, 0]], complex)
    if name == "y":
        return np.array([[0, -1j], [1j, 0]])
    if name == "z":
        return np.diag([1, -1]).astype(complex)
    if name == "h":
        return np.array([[_S, _S], [_S, -_S]], complex)
    if name in ("s", "s_dg", "t", "t_dg"):
        return np.diag([1, cmath.exp(2j * math.pi * {"s": .25, "s_dg": -.25, "t": .125, "t_dg": -.125}[name])])
    if name in ("id", "id_dg"):
        return np.eye(2, dtype=complex)
    if name == "p":
        return np.diag([1, cmath.exp(1j * num(params[0]))])
    if name in ("rz", "u1"):
        a = num(params[0])
        return np.diag([cmath.exp(-.5j * a), cmath.exp(.5j * a)])
    if name in ("rx", "sx", "sx_dg"):
        a = num(params[0]) if name == "rx" else math.pi / 2 * (1 if name == "sx" else -1)
        c, s = math.cos(a / 2), math.sin(a / 2)
        return np.array([[c, -1j * s], [-1j * s, c]])
    if name == "ry":
        a = num(params[0])
        c, s = math.cos(a / 2), math.sin(a / 2)
        return np.array([[c, -s], [s, c]], complex)
    if name == "r":               # exp(-i theta/2 (cos phi X + sin phi Y))
        th, ph = num(params[0]), num(params[1])
        c, s = math.cos(th / 2), math.sin(th / 2)
        return np.array([[c, -1j * cmath.exp(-1j * ph) * s], [-1j * cmath.exp(1j * ph) * s, c]])
    if name == "u3":
        return u3m(*[num(x) for x in params[:3]])
    if name == "gphase":
        return cmath.exp(1j * num(params[0])) * np.eye(2)
    return None


class Branch:
    __slots__ = ("m", "cl")

    def __init__(self, m, cl):
        self.m = m
        self.cl = cl


class Lin:
    def __init__(self, qubits, clbits=(), columns=None):
        self.pos = {q: i for i, q in enumerate(qubits)}
        self.n = len(qubits)
        m = np.eye(1 << self.n, dtype=complex)
        if columns is not None:
            m = m[:, columns]
        self.br = [Branch(m, {c: 0 for c in clbits})]
        self.gates = 0

    def run(self, qc, qmap=None, cmap=None, ctrl=()):
        for ins in qc.data:
            qs = ins.qubits if qmap is None else [qmap[q] for q in ins.qubits]
            cs = ins.clbits if cmap is None else [cmap[c] for c in ins.clbits]
            self.apply(ins.op, qs, cs, ctrl)
        return self

    def apply(self, op, qs, cs, cond=()):
        name = op.name
        if name in ("barrier", "qb_alloc", "qb_dealloc"):
            return
        if name in ("measure", "reset"):
            b = 1 << self.pos[qs[0]]
            idx = np.arange(1 << self.n)
            out = []
            for br in self.br:
                if any(br.cl[c] != v for c, v in cond):
                    out.append(br)
                    continue
                for v in (0, 1):
                    m = br.m * ((idx & b != 0) == bool(v))[:, None]
                    if np.abs(m).max(initial=0) < 1e-12:
                        continue
                    cl = dict(br.cl)
                    if name == "measure":
                        cl[cs[0]] = v
                    elif v:
                        m = m[idx ^ b]
                    out.append(Branch(m, cl))
            self.br = out
            return
        if name.startswith("c_if_") and hasattr(op, "base_op"):
            k = op.num_control
            self.apply(op.base_op, qs, cs[k:], tuple(cond) + tuple((c, int(v)) for c, v in zip(cs[:k], op.ctrl_state)))
            return
        if op.definition is not None:
            d = op.definition
            self.run(d, dict(zip(d.qubits, qs)), dict(zip(d.clbits, cs)), cond)
            return
        self.gates += 1
        if name in ("cx", "cy", "cz"):
            self.gate(gate2(name[1:], ()), qs[1], [qs[0]], cond)
            return
        if name == "swap":
            X = gate2("x", ())
            for a, b in ((0, 1), (1, 0), (0, 1)):
                self.gate(X, qs[b], [qs[a]], cond)
            return
        m = gate2(name, op.params) if name != "u3" or not hasattr(op, "theta") else None
        if m is None and all(hasattr(op, a) for a in ("theta", "phi", "lam")):
            m = u3m(num(op.theta), num(op.phi), num(op.lam)) * cmath.exp(1j * num(getattr(op, "global_phase", 0)))
        if m is None:
            raise Unsupported("no matrix for gate %s" % name)
        self.gate(m, qs[0], (), cond)

    def gate(self, g, t, ctrl, cond):
        b = 1 << self.pos[t]
        idx = np.arange(1 << self.n)
        act = np.ones(1 << self.n, bool)
        for c in ctrl:
            act &= (idx & (1 << self.pos[c])) != 0
        lo = idx[act & (idx & b == 0)]
        hi = lo | b
        for br in self.br:
            if any(br.cl[c] != v for c, v in cond):
                continue
            m = br.m.copy()
            m[lo] = g[0, 0] * br.m[lo] + g[0, 1] * br.m[hi]
            m[hi] = g[1, 0] * br.m[lo] + g[1, 1] * br.m[hi]
            br.m = m

    def records(self, clbits, perm=None):
        """record -> Kraus operators; perm: row reordering (new qubit order)"""
        out = {}
        for br in self.br:
            out.setdefault(tuple(br.cl.get(c, 0) for c in clbits), []).append(br.m)
        return out


def _phase(a, b):
    """unit complex u minimising |a*u - b|"""
    z = np.vdot(a, b)
    return z / abs(z) if abs(z) > 1e-12 else 1


def differ(A, B, phase="exact"):
    """A, B: record -> Kraus operators.  None, or a description of an input on which they differ."""
    keys = set(A) | set(B)
    pure = all(len(A.get(k, [])) <= 1 and len(B.get(k, [])) <= 1 for k in keys)
    rows = []          # (coefficient vector complex, record, row)
    for k in sorted(keys):
        ra, rb = A.get(k, []), B.get(k, [])
        some = (ra or rb)[0]
        if pure:
            a = ra[0] if ra else np.zeros_like(some)
            b = rb[0] if rb else np.zeros_like(some)
            if phase != "exact" or len(keys) > 1:
                a = a * _phase(a, b)
            d = a - b
        else:
            def sup(ks):
                return sum((np.kron(x, x.conj()) for x in ks), np.zeros((some.shape[0] ** 2, some.shape[1] ** 2), complex))
            d = sup(ra) - sup(rb)
        d = np.where(np.abs(d) < ROUND, 0, d)
        for i in range(d.shape[0]):
            rows.append((d[i], k, i))
    ncol = rows[0][0].shape[0]
    re = [z3.Real("re%d" % i) for i in range(ncol)]
    im = [z3.Real("im%d" % i) for i in range(ncol)]
    box = [z3.And(v >= -1, v <= 1) for v in re + im]
    if not pure:
        # Hermitian input
        dim = int(round(math.sqrt(ncol)))
        for i in range(dim):
            for j in range(dim):
                if i <= j:
                    box += [re[i * dim + j] == re[j * dim + i], im[i * dim + j] == -im[j * dim + i]]
    bad = []
    for d, k, i in rows:
        nz = np.nonzero(d)[0]
        if not len(nz):
            continue
        r = z3.Sum([_q(d[j].real) * re[j] - _q(d[j].imag) * im[j] for j in nz])
        m = z3.Sum([_q(d[j].real) * im[j] + _q(d[j].imag) * re[j] for j in nz])
        bad.append((z3.Or(r > EPS, m > EPS), k, i))
    s, mod = check(z3.And(*(box + [z3.Or(*[b for b, _, _ in bad]) if bad else z3.BoolVal(False)])))
    if s == "unsat":
        return None
    if s != "sat":
        raise Unsupported("solver gave no answer")
    for b, k, i in bad:
        if z3.is_true(mod.eval(b, model_completion=True)):
            def val(v):
                x = mod.eval(v, model_completion=True)
                return float(x.as_fraction())
            st = {j: complex(val(re[j]), val(im[j])) for j in range(ncol)}
            st = {j: v for j, v in st.items() if v}
            return "classical record %s, output entry %d differs for the input %s" % (k, i, {j: str(v) for j, v in list(st.items())[:8]})
    return "outputs differ"


def _q(x):
    return z3.RealVal(repr(float(x))) if "e" not in repr(float(x)) else z3.RealVal("%.15f" % x)


def compare(qa, qb, qubits, clbits=(), phase="exact", bmap=None, columns=None):
    """circuits qa, qb as instruments on `qubits` (names in qa); bmap: qubit of qa -> qubit of qb holding it at the end and start.

    bmap may be a pair (start map, end map).
    """
    A = Lin(qubits, clbits, columns).run(qa)
    start, end = bmap if isinstance(bmap, tuple) else (bmap, bmap)
    qbs = [start[q] for q in qubits] if start else list(qubits)
    B = Lin(qbs, clbits, columns).run(qb)
    rb = B.records(clbits)
    if end and start is not end:
        # bit i of the output is qubit end[qubits[i]]
        src = [B.pos[end[q]] for q in qubits]
        idx = np.arange(1 << len(qubits))
        frm = sum((((idx >> i) & 1) << s) for i, s in enumerate(src))
        rb = {k: [m[frm] for m in v] for k, v in rb.items()}
    return differ(A.records(clbits), rb, phase), A.gates + B.gates


class Dyn(Lin):
    """columns of the state of the register `qubits`; further qubits join in |0> when first used and leave when deallocated in |0>"""

    def __init__(self, qubits, maxq=16):
        super().__init__(list(qubits))
        self.maxq = maxq
        self.free = []

    def need(self, q):
        if q in self.pos:
            return
        if self.free:
            self.pos[q] = self.free.pop()
            return
        if self.n >= self.maxq:
            raise Unsupported("more than %d qubits at a time" % self.maxq)
        self.pos[q] = self.n
        self.n += 1
        for br in self.br:
            br.m = np.vstack([br.m, np.zeros_like(br.m)])

    def apply(self, op, qs, cs, cond=()):
        if op.name == "qb_dealloc":
            q = qs[0]
            if q in self.pos:
                if self.excited(q) > 1e-7:
                    self.dirty = q
                    return
                self.free.append(self.pos.pop(q))
            return
        if op.name in ("qb_alloc", "barrier"):
            return
        if op.definition is None or op.name in ("measure", "reset"):
            for q in qs:
                self.need(q)
        super().apply(op, qs, cs, cond)

    def excited(self, q):
        idx = np.arange(1 << self.n)
        sel = idx & (1 << self.pos[q]) != 0
        return max(np.abs(br.m[sel]).max(initial=0) for br in self.br)
