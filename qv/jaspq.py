"""Traced (jasp) programs: circuits of a program in dynamic and in static mode, with symbolic inputs.

The same Python function is run twice: traced by make_jaspr and extracted with Jaspr.to_qc for given run-time values, and
executed statically.  Symbolic inputs are marked by the opaque gate symin in both circuits."""

from .interp import SYM_PREFIX
from .prog import symin_op, sym_input, Spec, verify_circuit, inbit
from .equiv import RawCircuit, RawInstr, dagger


def mark(qv, name, n):
    """symbolic input on the first n qubits of qv in either mode"""
    from qrisp.jasp import check_for_tracing_mode
    if not check_for_tracing_mode():
        regs = list(qv.reg)[:n] if hasattr(qv, "reg") else list(qv)[:n]
        sym_input(regs, name)
        return
    from qrisp.jasp import TracingQuantumSession
    qs = TracingQuantumSession.get_instance()
    for i in range(n):
        qs.append(symin_op("%s[%d]" % (name, i)), [qv[i]])


def traced(f, *args, transform=None):
    """(registers of the returned variables, circuit)"""
    from qrisp.jasp import make_jaspr
    jaspr = make_jaspr(f)(*args)
    if transform:
        jaspr = transform(jaspr)
    r = jaspr.to_qc(*args)
    if not isinstance(r, tuple):
        r = (r,)
    return [x for x in r[:-1] if isinstance(x, list)], r[-1]


def static(f, *args):
    from qrisp import QuantumVariable, merge
    r = f(*args)
    out = [x for x in (r if isinstance(r, tuple) else (r,)) if isinstance(x, QuantumVariable)]
    merge([q.qs for q in out])
    qs = out[0].qs
    return [list(q.reg) for q in out], qs.copy()


def inputs(qc):
    """{name: qubit} of the symbolic inputs"""
    out = {}
    for ins in qc.data:
        if ins.op.name.startswith(SYM_PREFIX):
            out[ins.op.name[len(SYM_PREFIX):]] = ins.qubits[0]
    return out


def compare(A, regsA, B, regsB, tag, phase="relative"):
    """circuit A followed by the inverse of B restores all inputs (for all basis inputs, phases included)"""
    ia, ib = inputs(A), inputs(B)
    if set(ia) != set(ib):
        raise Exception("harness: inputs differ: %s %s" % (sorted(ia), sorted(ib)))
    ren = {}
    for n, q in ib.items():
        ren[q] = ia[n]
    for ra, rb in zip(regsA, regsB):
        if len(ra) != len(rb):
            from .prog import Violation
            raise Violation("%s: the traced program returns a register of %d qubits, the static one of %d" % (tag, len(ra), len(rb)))
        for x, y in zip(ra, rb):
            if y in ren and ren[y] is not x and ren[y] != x:
                raise Exception("harness: conflicting registers")
            ren[y] = x
    both = RawCircuit(list(A.qubits), list(A.clbits))
    both.data = [RawInstr(i.op, i.qubits, i.clbits) for i in A.data]
    # returned and input qubits are only released at the end of the combined circuit
    live = set(ia.values()) | {q for r in regsA for q in r}
    both.data = [i for i in both.data if not (i.op.name == "qb_dealloc" and i.qubits[0] in live)]
    s = RawCircuit(list(B.qubits), list(B.clbits))
    s.data = [RawInstr(i.op, i.qubits, i.clbits) for i in B.data if i.op.name not in ("qb_alloc", "qb_dealloc") and not i.op.name.startswith(SYM_PREFIX)]
    for q in B.qubits:
        ren.setdefault(q, ("ref", q))
    have = set(map(id, both.qubits))
    both.qubits += [q for q in ren.values() if id(q) not in have]
    both.data += dagger(s, qmap=ren)
    sp = Spec()
    sp.phase = phase
    for n, q in ia.items():
        sp.expect[q] = inbit(n)
        sp.label[q] = n
    return verify_circuit(both, sp, tag=tag)
