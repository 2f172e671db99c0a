"""C07: comparisons and boolean logic."""
from ..prog import sym_input, inbit, invec, bits_to_bv, Spec, verify_circuit, z3, b2v, Violation
from .c05 import Q, ext, const, spec, W, SC

LEVEL = "translation_validation"
FUNCTIONS = ["qrisp.alg_primitives.arithmetic.comparisons.{less_than,less_than_gate,equal,lt,gt,leq,geq,eq,neq}",
             "qrisp.qtypes.quantum_float.QuantumFloat.{__lt__,__le__,__gt__,__ge__,__eq__,__ne__,truncate,encoder}",
             "qrisp.qtypes.quantum_bool.QuantumBool.{__and__,__or__,__xor__,__invert__,flip}", "qrisp.core.quantum_variable.QuantumVariable.{__and__,__or__,__xor__,__eq__,__ne__}",
             "qrisp.environments.quantum_conditionals.q_eq", "qrisp.core.quantum_session.QuantumSession.compile"]
BOUNDS = ("quick: float operands of 1..3 qubits, exponents -1..1, both signednesses, all six relations, thresholds on a half-step grid reaching outside the representable "
          "range on both sides; bit registers up to 3 qubits.  thorough: up to 4 qubits and exponents -2..2.  All register contents symbolic.")
OUTSIDE = "larger registers; comparison of modular integers in differing Montgomery representation (refused by the code)"
HOW = "z3 decides that the result qubit equals the relation of the operand values (bit-vector comparison at common scale), operands unchanged, ancillas 0, no relative phase."

REL = {"<": lambda a, b: a < b, "<=": lambda a, b: a <= b, ">": lambda a, b: a > b, ">=": lambda a, b: a >= b,
       "==": lambda a, b: a == b, "!=": lambda a, b: a != b}


def py(op, x, y):
    return REL[op](x, y)


def cmp_qq(op, fa, fb):
    def run():
        a = Q(*fa, name="a")
        b = Q(*fb, name="b")
        r = py(op, a.qf, b.qf)
        sp = spec()
        a.keep(sp)
        b.keep(sp)
        sp.reg(r.reg, [REL[op](a.val, b.val)], "result")
        return verify_circuit(a.qf.qs.compile(), sp, tag="%s %s %s" % (fa, op, fb))
    return run


def cmp_qc(op, fa, c, swap=False):
    def run():
        a = Q(*fa, name="a")
        r = py(op, c, a.qf) if swap else py(op, a.qf, c)
        sp = spec()
        a.keep(sp)
        sp.reg(r.reg, [REL[op](const(c), a.val) if swap else REL[op](a.val, const(c))], "result")
        from qrisp import merge
        merge([a.qf, r])
        return verify_circuit(a.qf.qs.compile(), sp, tag="%s %s %s" % ((c, op, fa) if swap else (fa, op, c)))
    return run


def cmp_self(op, fa):
    """operand compared with a copy of itself: true for all values or false for all"""
    def run():
        from qrisp import QuantumFloat
        a = Q(*fa, name="a")
        b = a.qf.duplicate(init=True)
        r = py(op, a.qf, b)
        sp = spec()
        a.keep(sp)
        sp.reg(b.reg, a.bits, "copy")
        sp.reg(r.reg, [z3.BoolVal(op in ("<=", ">=", "=="))], "result")
        return verify_circuit(a.qf.qs.compile(), sp, tag="%s %s copy" % (fa, op))
    return run


def chain(fa, lo, hi):
    """(a > lo) & (a < hi) | ~(...)"""
    def run():
        a = Q(*fa, name="a")
        p = a.qf > lo
        q = a.qf < hi
        r = p & q
        s = p | q
        t = p ^ q
        u = ~p
        sp = spec()
        a.keep(sp)
        P, Qq = a.val > const(lo), a.val < const(hi)
        for reg, v, l in ((p, P, "p"), (q, Qq, "q"), (r, z3.And(P, Qq), "and"), (s, z3.Or(P, Qq), "or"), (t, z3.Xor(P, Qq), "xor"), (u, z3.Not(P), "not")):
            sp.reg(reg.reg, [v], l)
        from qrisp import merge
        merge([a.qf, p, q, r, s, t, u])
        return verify_circuit(a.qf.qs.compile(), sp, tag="range %s %s %s" % (fa, lo, hi))
    return run


def boolean(op):
    def run():
        from qrisp import QuantumBool
        a, b = QuantumBool(name="a"), QuantumBool(name="b")
        sym_input(a.reg, "a")
        sym_input(b.reg, "b")
        A, B = inbit("a[0]"), inbit("b[0]")
        sp = spec()
        if op == "&":
            r, v = a & b, z3.And(A, B)
        elif op == "|":
            r, v = a | b, z3.Or(A, B)
        elif op == "^":
            r, v = a ^ b, z3.Xor(A, B)
        elif op == "~":
            r, v = ~a, z3.Not(A)
        elif op == "==":
            r, v = a == b, A == B
        elif op == "!=":
            r, v = a != b, z3.Xor(A, B)
        elif op == "nest":
            r, v = (~a & b) ^ (a | ~b), z3.Xor(z3.And(z3.Not(A), B), z3.Or(A, z3.Not(B)))
        elif op == "flip":
            a.flip()
            r, v, A = a, z3.Not(A), z3.Not(A)
        sp.reg(a.reg, [A], "a")
        sp.reg(b.reg, [B], "b")
        if r is not a:
            sp.reg(r.reg, [v], "result")
        if op == "nest":
            sp.rest_zero = False
        from qrisp import merge
        merge([a, b, r])
        return verify_circuit(a.qs.compile(), sp, tag="bool %s" % op)
    return run


def bitwise(op, n, m):
    def run():
        from qrisp import QuantumVariable, QuantumFloat
        a, b = QuantumFloat(n, name="a"), QuantumFloat(m, name="b")
        sym_input(a.reg, "a")
        sym_input(b.reg, "b")
        r = {"&": lambda: a & b, "|": lambda: a | b, "^": lambda: a ^ b}[op]()
        k = max(n, m)
        A = [inbit("a[%d]" % i) if i < n else z3.BoolVal(False) for i in range(k)]
        B = [inbit("b[%d]" % i) if i < m else z3.BoolVal(False) for i in range(k)]
        f = {"&": z3.And, "|": z3.Or, "^": z3.Xor}[op]
        sp = spec()
        sp.reg(a.reg, A[:n], "a")
        sp.reg(b.reg, B[:m], "b")
        sp.reg(r.reg, [f(x, y) for x, y in zip(A, B)], "result")
        from qrisp import merge
        merge([a, b, r])
        return verify_circuit(a.qs.compile(), sp, tag="%d bits %s %d bits" % (n, op, m))
    return run


def var_eq(n, other, inv, env):
    """equality of plain registers, with a register or a label, as a value or as a condition"""
    def run():
        from qrisp import QuantumVariable, QuantumBool, merge, x
        a = QuantumVariable(n, name="a")
        sym_input(a.reg, "a")
        sp = spec()
        sp.reg(a.reg, invec("a", n), "a")
        A = invec("a", n)
        if other == "q":
            b = QuantumVariable(n, name="b")
            sym_input(b.reg, "b")
            sp.reg(b.reg, invec("b", n), "b")
            v = A == invec("b", n)
        else:
            b = other
            v = A == z3.BitVecVal(a.encoder(other), n)
        if inv:
            v = z3.Not(v)
        if env:
            t = QuantumBool(name="t")
            merge([a, b, t] if other == "q" else [a, t])
            # the condition is recognised by the source line it stands in
            if inv:
                with a != b:
                    x(t)
            else:
                with a == b:
                    x(t)
        else:
            t = (a != b) if inv else (a == b)
        sp.reg(t.reg, [v], "flipped under the condition" if env else "result")
        return verify_circuit(a.qs.compile(), sp, tag="register equality %d %s" % (n, other))
    return run


def cases(tier):
    T = tier == "thorough"
    out = []

    def nm(*fs):
        return "-".join("%d%s%d" % (f[0], "us"[f[2]], f[1]) for f in fs)
    fm = [(1, 0, False), (2, 0, False), (3, 0, False), (2, 1, False), (2, -1, False), (1, 0, True), (2, 0, True), (2, -1, True), (2, 1, True), (3, -1, True)]
    if T:
        fm += [(4, 0, False), (3, -2, False), (3, 2, True), (4, -2, True), (3, 0, True)]
    ops = list(REL)
    # formats whose bit ranges do not overlap
    for fa, fb in (((1, -3, False), (3, 0, False)), ((2, 0, False), (1, 3, False)), ((2, -2, True), (2, 1, False)), ((1, -2, True), (2, 1, True)), ((2, 2, False), (2, 0, False))):
        for op in ops:
            out.append(("qq-%s-%s" % (op, nm(fa, fb)), cmp_qq(op, fa, fb)))
            out.append(("qq-%s-%s" % (op, nm(fb, fa)), cmp_qq(op, fb, fa)))
    for i, fa in enumerate(fm):
        for j, fb in enumerate(fm):
            for k, op in enumerate(ops):
                if not T and op not in ("<", "==") and (i + j + k) % 3:
                    continue
                out.append(("qq-%s-%s" % (op, nm(fa, fb)), cmp_qq(op, fa, fb)))
    for i, fa in enumerate(fm):
        n, e, s = fa
        step = 2.0 ** e
        lo = -2 ** n * step if s else 0
        hi = (2 ** n - 1) * step
        th = sorted({lo - 2 * step, lo - step, lo, lo + step, lo + step / 2, hi - step, hi - step / 2, hi, hi + step / 2, hi + step, hi + 3 * step, 0, step, -step, step / 2, -step / 2})
        for k, c in enumerate(th):
            if c == int(c):
                c = int(c)
            for q, op in enumerate(ops):
                if not T and (i + k + q) % 2 and op not in ("<", ">"):
                    continue
                out.append(("qc-%s-%s-%s" % (op, nm(fa), c), cmp_qc(op, fa, c)))
                if T or (i + k + q) % 4 == 0:
                    out.append(("cq-%s-%s-%s" % (op, nm(fa), c), cmp_qc(op, fa, c, True)))
    for fa in fm[1:7]:
        for op in ops:
            out.append(("self-%s-%s" % (op, nm(fa)), cmp_self(op, fa)))
    for fa, lo, hi in (((3, 0, False), 2, 5), ((2, 0, True), -2, 1), ((3, -1, True), -1.5, 2)):
        out.append(("range-%s" % nm(fa), chain(fa, lo, hi)))
    for op in ("&", "|", "^", "~", "==", "!=", "nest", "flip"):
        out.append(("bool-%s" % op, boolean(op)))
    for op in "&|^":
        for n in (1, 2, 3):
            for m in (1, 2, 3):
                out.append(("bits-%s-%d-%d" % (op, n, m), bitwise(op, n, m)))
    for n in (1, 2, 3):
        for o in ("q",) + tuple(range(0, 2 ** n)):
            for inv in (False, True):
                lab = o if o == "q" else format(o, "0%db" % n)[::-1]
                for env in (0, 1):
                    out.append(("vareq-%d-%s-%d-%d" % (n, lab, inv, env), var_eq(n, lab, inv, env)))
    return out
