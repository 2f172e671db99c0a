"""Small independent state-vector simulator used to replay counterexamples.

Shares no code with the path-sum engine: gates are explicit 2x2 matrices.
Measurements and resets branch.
"""
import cmath
import math
import numpy as np

from .interp import SYM_PREFIX

R2 = 1 / math.sqrt(2)


def u3(t, p, l):
    c, s = math.cos(t / 2), math.sin(t / 2)
    return np.array([[c, -cmath.exp(1j * l) * s], [cmath.exp(1j * p) * s, cmath.exp(1j * (p + l)) * c]])


def mat(name, params):
    f = [float(x) for x in params]
    if name == "x":
        return np.array([[0, 1], [1, 0]], complex)
    if name == "y":
        return np.array([[0, -1j], [1j, 0]])
    if name == "z":
        return np.diag([1, -1]).astype(complex)
    if name == "h":
        return R2 * np.array([[1, 1], [1, -1]], complex)
    if name in ("s", "s_dg", "t", "t_dg"):
        a = {"s": .5, "s_dg": -.5, "t": .25, "t_dg": -.25}[name] * math.pi
        return np.diag([1, cmath.exp(1j * a)])
    if name == "p":
        return np.diag([1, cmath.exp(1j * f[0])])
    if name in ("rz", "u1"):
        return np.diag([cmath.exp(-.5j * f[0]), cmath.exp(.5j * f[0])])
    if name == "rx":
        return u3(f[0], -math.pi / 2, math.pi / 2)
    if name == "ry":
        return u3(f[0], 0, 0)
    if name == "u3":
        return u3(*f[:3])
    if name == "sx":
        return u3(math.pi / 2, -math.pi / 2, math.pi / 2)
    if name == "sx_dg":
        return u3(-math.pi / 2, -math.pi / 2, math.pi / 2)
    if name in ("id", "id_dg"):
        return np.eye(2, dtype=complex)
    return None


class Branch:
    __slots__ = ("amps", "cl", "record")

    def __init__(self, amps, cl, record):
        self.amps, self.cl, self.record = amps, cl, record


class SparseSim:
    def __init__(self, inputs=None, subs=None):
        self.inputs = inputs or {}
        self.subs = subs or {}
        self.idx = {}
        self.branches = [Branch({0: 1 + 0j}, {}, ())]
        self.dealloc_dirty = []

    def q(self, q):
        if q not in self.idx:
            self.idx[q] = len(self.idx)
        return self.idx[q]

    def run(self, qc, qmap=None, cmap=None, ctrl=()):
        if qmap is None:
            for q in qc.qubits:
                self.q(q)
        for ins in qc.data:
            qs = ins.qubits if qmap is None else [qmap[x] for x in ins.qubits]
            cs = ins.clbits if qmap is None else [cmap[x] for x in ins.clbits]
            self.apply(ins.op, qs, cs, ctrl)
        return self

    def _cond(self, br, ctrl):
        return all(br.cl.get(c, 0) == v for c, v in ctrl)

    def apply(self, op, qs, cs, ctrl):
        name = op.name
        if name.startswith(SYM_PREFIX + "h:"):
            y = self.inputs.get(name[len(SYM_PREFIX):], 0)
            self._gate(np.array([[0, 0], [1, -1]] if y else [[1, 1], [0, 0]], complex), self.q(qs[0]), [], ctrl)
            return
        if name.startswith(SYM_PREFIX):
            if self.inputs.get(name[len(SYM_PREFIX):], 0):
                self._gate(np.array([[0, 1], [1, 0]], complex), self.q(qs[0]), [], ctrl)
            return
        if getattr(op, "rawctrl", None):
            k = len(op.rawctrl)
            p = [float(x.subs(self.subs)) if hasattr(x, "subs") else float(x) for x in op.params]
            cq = [(self.q(c), v) for c, v in zip(qs[:k], op.rawctrl)]
            tg = qs[k:]
            X = mat("x", [])
            for c, v in cq:
                if not v:
                    self._gate(X, c, [], ctrl)
            cc = [c for c, _ in cq]
            if name == "gphase":
                f = cmath.exp(1j * p[0])
                if len(cc):
                    self._gate(np.diag([1, f]), cc[0], cc[1:], ctrl)
            elif name == "swap":
                a, b = self.q(tg[0]), self.q(tg[1])
                for s_, t_ in ((a, b), (b, a), (a, b)):
                    self._gate(X, t_, cc + [s_], ctrl)
            elif name in ("cx", "cy", "cz"):
                self._gate(mat(name[1:], []), self.q(tg[1]), cc + [self.q(tg[0])], ctrl)
            else:
                self._gate(mat(name, p), self.q(tg[0]), cc, ctrl)
            for c, v in cq:
                if not v:
                    self._gate(X, c, [], ctrl)
            return
        if name in ("barrier", "qb_alloc"):
            for q in qs:
                self.q(q)
            return
        if name == "qb_dealloc":
            b = 1 << self.q(qs[0])
            for br in self.branches:
                w = sum(abs(a) ** 2 for k, a in br.amps.items() if k & b)
                if w > 1e-9:
                    self.dealloc_dirty.append((str(qs[0]), w))
            return
        if name in ("measure", "reset"):
            b = 1 << self.q(qs[0])
            out = []
            for br in self.branches:
                for v in (0, 1):
                    amps = {k: a for k, a in br.amps.items() if bool(k & b) == bool(v)}
                    w = sum(abs(a) ** 2 for a in amps.values())
                    if w < 1e-12:
                        continue
                    n = math.sqrt(w)
                    amps = {k: a / n for k, a in amps.items()}
                    cl = dict(br.cl)
                    if name == "measure":
                        cl[cs[0]] = v
                    else:
                        amps = {k & ~b: a for k, a in amps.items()}
                    out.append(Branch(amps, cl, br.record + ((name[0], v),)))
            self.branches = out
            return
        if name.startswith("c_if_") and hasattr(op, "base_op"):
            k = op.num_control
            extra = tuple((c, int(v)) for c, v in zip(cs[:k], op.ctrl_state))
            self.apply(op.base_op, qs, cs[k:], ctrl + extra)
            return
        if op.definition is not None:
            d = op.definition
            self.run(d, dict(zip(d.qubits, qs)), dict(zip(d.clbits, cs)), ctrl)
            return
        p = [float(x.subs(self.subs)) if hasattr(x, "subs") else float(x) for x in op.params]
        if name == "gphase":
            f = cmath.exp(1j * p[0])
            for br in self.branches:
                if self._cond(br, ctrl):
                    br.amps = {k: a * f for k, a in br.amps.items()}
            return
        if name == "swap":
            a, b = self.q(qs[0]), self.q(qs[1])
            X = mat("x", [])
            self._gate(X, a, [b], ctrl)
            self._gate(X, b, [a], ctrl)
            self._gate(X, a, [b], ctrl)
            return
        m = mat(name, p)
        if m is None and hasattr(op, "theta"):
            m = u3(float(op.theta), float(op.phi), float(op.lam)) * cmath.exp(1j * float(op.global_phase))
        elif name == "u3" and getattr(op, "global_phase", 0):
            m = m * cmath.exp(1j * float(op.global_phase))
        if m is not None:
            self._gate(m, self.q(qs[0]), [], ctrl)
            return
        if name in ("cx", "cy", "cz"):
            self._gate(mat(name[1:], []), self.q(qs[1]), [self.q(qs[0])], ctrl)
            return
        raise Exception("replay simulator: unknown gate " + name)

    def _gate(self, m, t, cq, ctrl):
        b = 1 << t
        cm = 0
        for c in cq:
            cm |= 1 << c
        for br in self.branches:
            if not self._cond(br, ctrl):
                continue
            out = {}
            for k, a in br.amps.items():
                if k & cm != cm:
                    out[k] = out.get(k, 0) + a
                    continue
                v = 1 if k & b else 0
                for w in (0, 1):
                    f = m[w, v]
                    if abs(f) > 1e-14:
                        kk = (k | b) if w else (k & ~b)
                        out[kk] = out.get(kk, 0) + a * f
            br.amps = {k: a for k, a in out.items() if abs(a) > 1e-12}

    def bits(self, key, qubits):
        return sum(((key >> self.idx[q]) & 1) << i for i, q in enumerate(qubits))


def simulate(qc, inputs, subs=None, init=None):
    s = SparseSim(inputs, subs)
    for q in qc.qubits:
        s.q(q)
    if init:
        k = 0
        for q, v in init.items():
            if v:
                k |= 1 << s.q(q)
        s.branches = [Branch({k: 1 + 0j}, {}, ())]
    s.run(qc)
    return s


def op_matrix(op):
    """matrix of an operation without classical parts, first qubit most significant"""
    n = op.num_qubits
    U = np.zeros((1 << n, 1 << n), complex)
    qs = list(range(n))
    for j in range(1 << n):
        s = SparseSim()
        for q in qs:
            s.q(n - 1 - q)
        s.branches = [Branch({j: 1 + 0j}, {}, ())]
        s.apply(op, qs, [], ())
        for k, a in s.branches[0].amps.items():
            U[k, j] = a
    return U
