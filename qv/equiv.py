"""Circuit equivalence: circuit followed by the harness' own inverse of a reference circuit.

The inverse is produced here gate by gate (not by the code under test) from the
definitions of the reference, so "A then inverse(B) is the identity with phase 1
(or one common phase)" decides A = B for every input, superposed outputs included.
"""
import math

from .interp import SYM_PREFIX, Unsupported
from .smt import z3
from .prog import Spec, verify_circuit, inbit


class RawOp:
    """leaf gate by name"""

    definition = None

    def __init__(self, name, params=(), nq=1):
        self.name = name
        self.params = list(params)
        self.num_qubits = nq
        self.num_clbits = 0


class RawInstr:
    def __init__(self, op, qubits, clbits=()):
        self.op = op
        self.qubits = list(qubits)
        self.clbits = list(clbits)


class RawCircuit:
    def __init__(self, qubits=(), clbits=()):
        self.qubits = list(qubits)
        self.clbits = list(clbits)
        self.data = []

    def add(self, name, params, *qubits):
        self.data.append(RawInstr(RawOp(name, params, len(qubits)), qubits))
        for q in qubits:
            if q not in self.qubits:
                self.qubits.append(q)

    def extend(self, qc, qmap=None):
        for ins in qc.data:
            qs = ins.qubits if qmap is None else [qmap[q] for q in ins.qubits]
            self.data.append(RawInstr(ins.op, qs, ins.clbits))
        for q in qc.qubits:
            q = q if qmap is None else qmap[q]
            if q not in self.qubits:
                self.qubits.append(q)
        for c in qc.clbits:
            if c not in self.clbits:
                self.clbits.append(c)


PI = math.pi

SELF = {"x", "y", "z", "h", "cx", "cz", "cy", "swap", "id", "id_dg", "barrier"}
PAIR = {"s": "s_dg", "t": "t_dg", "sx": "sx_dg"}
PAIR.update({v: k for k, v in list(PAIR.items())})
NEG = {"p", "u1", "rz", "rx", "ry", "gphase"}


def dagger(qc, out=None, qmap=None):
    """list of leaf instructions of the inverse of qc"""
    out = out if out is not None else []
    for ins in reversed(qc.data):
        op = ins.op
        qs = list(ins.qubits) if qmap is None else [qmap[q] for q in ins.qubits]
        dagger_op(op, qs, out)
    return out


def dagger_op(op, qs, out):
    name = op.name
    if name in ("qb_alloc", "qb_dealloc", "barrier"):
        return
    if name.startswith(SYM_PREFIX) or name in ("measure", "reset") or name.startswith("c_if_"):
        raise Unsupported("no inverse for %s" % name)
    if op.definition is not None:
        d = op.definition
        dagger(d, out, dict(zip(d.qubits, qs)))
        return
    if name in SELF:
        out.append(RawInstr(RawOp(name, (), len(qs)), qs))
    elif name in PAIR:
        out.append(RawInstr(RawOp(PAIR[name], (), len(qs)), qs))
    elif name in NEG:
        out.append(RawInstr(RawOp(name, [-op.params[0]], len(qs)), qs))
    elif name == "u3":
        t, p, l = op.params
        out.append(RawInstr(RawOp("u3", [-t, -l, -p], 1), qs))
        if getattr(op, "global_phase", 0):
            out.append(RawInstr(RawOp("gphase", [-op.global_phase], 1), qs))
    elif all(hasattr(op, a) for a in ("theta", "phi", "lam", "global_phase")):
        out.append(RawInstr(RawOp("u3", [-op.theta, -op.lam, -op.phi], 1), qs))
        out.append(RawInstr(RawOp("gphase", [-op.global_phase], 1), qs))
    else:
        raise Unsupported("no inverse for %s" % name)


def strip(qc):
    """instructions without allocation markers and symbolic inputs"""
    r = RawCircuit(qc.qubits, qc.clbits)
    for ins in qc.data:
        n = ins.op.name
        if n == "qb_alloc" or n.startswith(SYM_PREFIX):
            continue
        r.data.append(RawInstr(ins.op, ins.qubits, ins.clbits))
    return r


def same(A, B, qubits, bmap=None, phase="exact", names=None, assume=(), tag="", rest_zero=True, symsubs=None, extra=None):
    """A and B act alike on the listed qubits (of A); every other qubit starts and ends in |0>

    bmap maps qubits of A to those of B (default identity).
    """
    A, B = strip(A), strip(B)
    both = RawCircuit(A.qubits, A.clbits)
    both.data += A.data
    inv = {}
    for q in qubits:
        inv[bmap[q] if bmap else q] = q
    ren = {}
    for q in B.qubits:
        # other qubits of the reference are fresh ones
        ren[q] = inv[q] if q in inv else ("ref", q)
    for q in ren.values():
        if q not in both.qubits:
            both.qubits.append(q)
    both.data += dagger(B, qmap=ren)
    sp = Spec()
    sp.phase = phase
    sp.assume += list(assume)
    init = {}
    for i, q in enumerate(qubits):
        n = names[i] if names else "q[%d]" % i
        init[q] = n
        sp.expect[q] = inbit(n)
        sp.label[q] = n
    if extra:
        extra(sp)
    return verify_circuit(both, sp, init=init, tag=tag, symsubs=symsubs)


# ------------------------------------------------------------------ complex conjugate
def conjugate(qc, out=None, qmap=None):
    """list of leaf instructions of the complex conjugate of qc"""
    out = out if out is not None else []
    for ins in qc.data:
        qs = list(ins.qubits) if qmap is None else [qmap[q] for q in ins.qubits]
        conjugate_op(ins.op, qs, list(ins.clbits), out)
    return out


def conjugate_op(op, qs, cl, out):
    name = op.name
    if name in ("qb_alloc", "qb_dealloc", "barrier"):
        return
    if name in ("measure", "reset") or name.startswith("c_if_"):
        raise Unsupported("no conjugate for %s" % name)
    if name.startswith(SYM_PREFIX):
        out.append(RawInstr(op, qs, cl))
    elif op.definition is not None:
        d = op.definition
        conjugate(d, out, dict(zip(d.qubits, qs)))
    elif name in ("y", "cy"):
        out.append(RawInstr(RawOp(name, (), len(qs)), qs))
        out.append(RawInstr(RawOp("z", (), 1), qs[:1]) if name == "cy" else RawInstr(RawOp("gphase", [PI], 1), qs))
    elif name in SELF or name == "ry":
        out.append(RawInstr(RawOp(name, op.params, len(qs)), qs))
    elif name in PAIR:
        out.append(RawInstr(RawOp(PAIR[name], (), len(qs)), qs))
    elif name in NEG:
        out.append(RawInstr(RawOp(name, [-op.params[0]], len(qs)), qs))
    elif name == "u3" or all(hasattr(op, a) for a in ("theta", "phi", "lam", "global_phase")):
        t, p, l = op.params if name == "u3" else (op.theta, op.phi, op.lam)
        out.append(RawInstr(RawOp("u3", [t, -p, -l], 1), qs))
        if getattr(op, "global_phase", 0):
            out.append(RawInstr(RawOp("gphase", [-op.global_phase], 1), qs))
    else:
        raise Unsupported("no conjugate for %s" % name)


def twin(A, B, keep, zero=(), free=(), init=None, tag="", phase="exact", bmap=None):
    """A and B map every basis input to basis states that agree on `keep` with the same phase; A leaves `zero` (and
    every qubit that is neither in keep nor free) in |0>.  B runs complex conjugated on twin qubits with the same inputs."""
    both = RawCircuit(A.qubits, A.clbits)
    both.data += [RawInstr(i.op, i.qubits, i.clbits) for i in A.data]
    bq = (lambda q: q) if bmap is None else (lambda q: bmap.get(q, q))
    ren = {q: ("twin", q) for q in B.qubits}
    both.data += conjugate(B, qmap=ren)
    both.qubits = list(both.qubits) + list(ren.values())
    sp = Spec()
    sp.phase = phase
    sp.free = set(ren.values()) | set(free)
    for q in keep:
        sp.free.add(q)
    for q in zero:
        sp.expect[q] = z3.BoolVal(False)
        sp.label[q] = "uncomputed " + str(q)

    def agree(outs):
        fs = []
        for q in keep:
            a, b = outs.get(q), outs.get(("twin", bq(q)))
            a = z3.BoolVal(False) if a is None else a
            b = z3.BoolVal(False) if b is None else b
            fs.append(a == b)
        return z3.And(*fs) if fs else z3.BoolVal(True)
    sp.post.append(agree)
    if init:
        init = dict(init)
        for q, n in list(init.items()):
            init[ren[bq(q)]] = n
    return verify_circuit(both, sp, init=init, tag=tag)
