"""C06: modular arithmetic."""
from ..prog import sym_input, inbit, invec, bits_to_bv, Spec, verify_circuit, z3, b2v, Violation

LEVEL = "translation_validation"
FUNCTIONS = ["qrisp.qtypes.quantum_modulus.QuantumModulus.{__add__,__radd__,__iadd__,__sub__,__rsub__,__isub__,__mul__,__rmul__,__imul__,encoder,decoder,comparison operators}",
             "qrisp.alg_primitives.arithmetic.modular_arithmetic.{mod_adder,beauregard_adder,montgomery_addition,montgomery_mod_mul,montgomery_mod_semi_mul,semi_cl_inpl_mult,QREDC,montgomery_red,"
             "qft_semi_cl_inpl_mult}",
             "qrisp.alg_primitives.arithmetic.jasp_arithmetic.jasp_montgomery.{cq_montgomery_multiply,cq_montgomery_multiply_inplace,q_montgomery_reduction,qq_montgomery_multiply_modulus}"]
BOUNDS = ("quick: additions and subtractions for every modulus 2..9 and 13; multiplications for the odd moduli 3..9 and 13, 15 with classical factors; quantum-quantum products up to modulus 7; "
          "Fourier and Gidney adders (Fourier up to modulus 8 for sums and 7 for products).  thorough: moduli up to 21 (products up to 15) with every classical operand.  Residues symbolic.")
OUTSIDE = "larger moduli; even moduli for Montgomery multiplication (documented to need odd ones); registers holding values that are not residues"
HOW = ("z3 decides, for all residues at once, that the result register holds the residue of the exact integer result (in the Montgomery representation the object reports), operands and ancillas "
       "restored and no relative phase.")
W = 16


def bvr(name, n):
    return z3.ZeroExt(W - n, invec(name, n))


def adder(name):
    import qrisp
    return {"fourier": qrisp.fourier_adder, "gidney": qrisp.gidney_adder, "qcla": getattr(qrisp, "qcla", None)}[name]


class M:
    def __init__(self, N, name, ad="fourier", m=0):
        from qrisp import QuantumModulus
        self.q = QuantumModulus(N, inpl_adder=adder(ad))
        self.q.m = m
        self.m = m
        self.N = N
        self.n = len(self.q)
        self.name = name
        sym_input(self.q.reg, name)
        self.v = bvr(name, self.n)
        self.reg = list(self.q.reg)
        self.dom = z3.ULT(self.v, N)

    def keep(self, sp):
        sp.reg(self.reg, [inbit("%s[%d]" % (self.name, i)) for i in range(self.n)], self.name)


def put(sp, q, val, N, label):
    n = len(q.reg)
    sp.reg(q.reg, z3.Extract(n - 1, 0, z3.URem(val, z3.BitVecVal(N, W))), label)


def fin(sp, ms, res, tag):
    from qrisp import merge
    sp.assume += [m.dom for m in ms]
    if res is not None:
        merge([ms[0].q, res])
    return verify_circuit(ms[0].q.qs.compile(), sp, tag=tag)


def enc(c, m, N):
    """representation of the classical value c"""
    return (c % N) * pow(2, m, N) % N if m >= 0 else (c % N) * pow(pow(2, -m, N), -1, N) % N


def add_qq(op, N, ad, m=0, m2=None):
    def run():
        a = M(N, "a", ad, m)
        b = M(N, "b", ad, m if m2 is None else m2)
        sp = Spec()
        res = None
        if op == "+":
            res = a.q + b.q
            put(sp, res, a.v + b.v, N, "result")
        elif op == "-":
            res = a.q - b.q
            put(sp, res, a.v + N - b.v, N, "result")
        else:
            q = a.q
            if op == "+=":
                q += b.q
                # b counts in its own representation
                put(sp, q, a.v + b.v * z3.BitVecVal(enc(1, m - b.m, N), W), N, "a")
            else:
                q -= b.q
                put(sp, q, a.v + N - b.v, N, "a")
        b.keep(sp)
        if res is not None:
            a.keep(sp)
            if res.m != m:
                raise Violation("representation of the sum changed", {})
        return fin(sp, [a, b], res, "modular %s mod %d" % (op, N))
    return run


def add_qc(op, N, c, ad, m=0):
    def run():
        a = M(N, "a", ad, m)
        sp = Spec()
        res = None
        k = enc(c, m, N)
        if op in ("+=", "-="):
            q = a.q
            if op == "+=":
                q += c
                put(sp, q, a.v + k, N, "a")
            else:
                q -= c
                put(sp, q, a.v + N - k, N, "a")
        else:
            if op == "+":
                res, v = a.q + c, a.v + k
            elif op == "r+":
                res, v = c + a.q, a.v + k
            elif op == "-":
                res, v = a.q - c, a.v + N - k
            else:
                res, v = c - a.q, k + N - a.v
            a.keep(sp)
            put(sp, res, v, N, "result")
        return fin(sp, [a], res, "modular %s %d mod %d" % (op, c, N))
    return run


def mul_qc(op, N, c, ad, ctrl=False):
    def run():
        from qrisp import QuantumBool, control, merge
        a = M(N, "a", ad)
        sp = Spec()
        v = a.v * z3.BitVecVal(c % N, W)
        q = a.q
        res = None
        if op == "*=":
            if ctrl:
                qb = QuantumBool(name="c")
                sym_input(qb.reg, "c")
                with control(qb):
                    q *= c
                sp.reg(qb.reg, [inbit("c[0]")], "control")
                v = z3.If(inbit("c[0]"), v, a.v)
            else:
                q *= c
            if q.m != 0:
                v = v * z3.BitVecVal(enc(1, q.m, N), W)
            put(sp, q, v, N, "a")
        else:
            res = q * c if op == "*" else c * q
            a.keep(sp)
            put(sp, res, v * z3.BitVecVal(enc(1, res.m, N), W), N, "result")
        return fin(sp, [a], res, "modular %s %d mod %d" % (op, c, N))
    return run


def semi(fn, N, c, ad, ctrl, invalid=False):
    """the statically compiled in-place multiplications"""
    def run():
        from qrisp import QuantumBool, control
        from qrisp.alg_primitives.arithmetic.modular_arithmetic import modular_multiplication as mm
        import importlib
        a = M(N, "a", ad)
        sp = Spec()
        v = a.v * z3.BitVecVal(c % N, W)
        if fn == "semi_cl_inpl_mult":
            kw = {"treat_invalid": True} if invalid else {}
            f = lambda: mm.semi_cl_inpl_mult(a.q, c, **kw)
        elif fn == "qft":
            mq = importlib.import_module("qrisp.alg_primitives.arithmetic.modular_arithmetic.modular_qft_multiplication")
            f = lambda: mq.qft_semi_cl_inpl_mult(a.q, c)
        if ctrl:
            qb = QuantumBool(name="c")
            sym_input(qb.reg, "c")
            with control(qb):
                f()
            sp.reg(qb.reg, [inbit("c[0]")], "control")
            v = z3.If(inbit("c[0]"), v, a.v)
        else:
            f()
        if a.q.m != 0:
            v = v * z3.BitVecVal(enc(1, a.q.m, N), W)
        put(sp, a.q, v, N, "a")
        return fin(sp, [a], None, "%s %d mod %d" % (fn, c, N))
    return run


def mul_qq(N, ad, m1=0, m2=0, fn="*"):
    def run():
        a = M(N, "a", ad, m1)
        b = M(N, "b", ad, m2)
        sp = Spec()
        if fn == "*":
            res = a.q * b.q
        else:
            import importlib
            mq = importlib.import_module("qrisp.alg_primitives.arithmetic.modular_arithmetic.modular_qft_multiplication")
            res = getattr(mq, fn)(a.q, b.q)
        a.keep(sp)
        b.keep(sp)
        # stored = value * 2^m, so the product is known up to the difference of shifts
        f = enc(1, res.m - m1 - m2, N)
        put(sp, res, z3.URem(a.v * b.v, z3.BitVecVal(N, W)) * z3.BitVecVal(f, W), N, "result")
        return fin(sp, [a, b], res, "modular product mod %d" % N)
    return run


def beaur(N, c, size):
    def run():
        from qrisp import QuantumFloat
        from qrisp.alg_primitives.arithmetic.modular_arithmetic import beauregard_adder
        q = QuantumFloat(size, name="a")
        sym_input(q.reg, "a")
        sp = Spec()
        av = bvr("a", size)
        sp.assume.append(z3.ULT(av, N))
        if c == "q":
            b = QuantumFloat(size, name="b")
            sym_input(b.reg, "b")
            bv = bvr("b", size)
            sp.assume.append(z3.ULT(bv, N))
            sp.reg(b.reg, invec("b", size), "b")
            beauregard_adder(q, b, N)
        else:
            bv = z3.BitVecVal(c % N, W)
            beauregard_adder(q, c, N)
        put(sp, q, av + bv, N, "a")
        return verify_circuit(q.qs.compile(), sp, tag="beauregard_adder %s mod %d" % (c, N))
    return run


def compare(op, N, other):
    def run():
        from .c07 import REL
        a = M(N, "a")
        sp = Spec()
        if other == "q":
            b = M(N, "b")
            r = REL[op](a.q, b.q)
            b.keep(sp)
            v = {"==": a.v == b.v, "!=": a.v != b.v, "<": z3.ULT(a.v, b.v), "<=": z3.ULE(a.v, b.v), ">": z3.UGT(a.v, b.v), ">=": z3.UGE(a.v, b.v)}[op]
            ms = [a, b]
        else:
            r = REL[op](a.q, other)
            k = z3.BitVecVal(other, W)
            v = {"==": a.v == k, "!=": a.v != k, "<": z3.ULT(a.v, k), "<=": z3.ULE(a.v, k), ">": z3.UGT(a.v, k), ">=": z3.UGE(a.v, k)}[op]
            ms = [a]
        a.keep(sp)
        sp.reg(r.reg, [v], "result")
        return fin(sp, ms, r, "residue %s %s mod %d" % (op, other, N))
    return run


def cases(tier):
    T = tier == "thorough"
    from math import gcd
    out = []
    for N in ([2, 3, 4, 5, 6, 7, 8, 9, 13] if not T else list(range(2, 22))):
        for ad in ("fourier", "gidney"):
            if N > 8 and ad == "fourier":
                continue
            for op in ("+", "-", "+=", "-="):
                out.append(("qq%s-%d-%s" % (op, N, ad), add_qq(op, N, ad)))
            for op in ("+", "r+", "-", "r-", "+=", "-="):
                ks = sorted({0, 1, N - 1, N // 2, 2 % N, N, N + 1, -1}) if ad == "fourier" or N > 8 else sorted({1, N - 1})
                for k, c in enumerate(ks if not T else range(-1, N + 2)):
                    if not T and op in ("r+", "r-") and k % 2:
                        continue
                    out.append(("qc%s-%d-%d-%s" % (op, N, c, ad), add_qc(op, N, c, ad)))
    for N in (3, 5, 7):
        for m in (1, 2, 3):
            for op in ("+", "-", "+=", "-="):
                out.append(("qq%s-%d-m%d" % (op, N, m), add_qq(op, N, "fourier", m)))
            for op in ("+", "r-", "+=", "-="):
                out.append(("qc%s-%d-2-m%d" % (op, N, m), add_qc(op, N, 2, "fourier", m)))
        for m, m2 in ((0, 1), (1, 0), (2, 1), (0, 3)):
            out.append(("qq+=-%d-m%d_%d" % (N, m, m2), add_qq("+=", N, "fourier", m, m2)))
    for N in ([3, 5, 7, 9, 13, 15] if not T else [3, 5, 7, 9, 11, 13, 15, 17, 21]):
        for ad in ("fourier", "gidney"):
            if N > 7 and ad == "fourier":
                continue
            cs = sorted({1, 2, 3, N - 1, N // 2, N + 2, 0}) if not T and N > 5 else list(range(0, N + 2))
            for c in cs:
                out.append(("mul-%d-%d-%s" % (N, c, ad), mul_qc("*", N, c, ad)))
                if gcd(c, N) == 1 and c % N:
                    out.append(("imul-%d-%d-%s" % (N, c, ad), mul_qc("*=", N, c, ad)))
                    if N <= 7 or T:
                        out.append(("imul-%d-%d-%s-ctrl" % (N, c, ad), mul_qc("*=", N, c, ad, True)))
                        out.append(("semi-%d-%d-%s" % (N, c, ad), semi("semi_cl_inpl_mult", N, c, ad, False)))
                        out.append(("semi-%d-%d-%s-ctrl" % (N, c, ad), semi("semi_cl_inpl_mult", N, c, ad, True)))
                        if ad == "fourier" and N <= 7:
                            out.append(("qftmul-%d-%d" % (N, c), semi("qft", N, c, ad, False)))
            if ad == "gidney":
                out.append(("rmul-%d" % N, mul_qc("r*", N, 2, ad)))
    for N in ([3, 5, 7] if not T else [3, 5, 7, 9, 11, 13, 15]):
        for ad in ("fourier", "gidney"):
            if N <= 5 or ad == "gidney":
                out.append(("mulqq-%d-%s" % (N, ad), mul_qq(N, ad)))
        if N > 5:
            continue
        out.append(("mulqq-%d-m1_0" % N, mul_qq(N, "fourier", 1, 0)))
        out.append(("mulqq-%d-m1_2" % N, mul_qq(N, "fourier", 1, 2)))
    for N, size in ((2, 2), (3, 2), (4, 2), (5, 3), (6, 3), (7, 3), (8, 3), (5, 4)):
        for c in ("q", 0, 1, N - 1, N + 1):
            out.append(("beauregard-%d-%d-%s" % (N, size, c), beaur(N, c, size)))
    for N in (3, 5, 6):
        for op in ("<", "<=", ">", ">=", "==", "!="):
            out.append(("cmp%s-%d-q" % (op, N), compare(op, N, "q")))
            for k in (0, 1, N - 1):
                out.append(("cmp%s-%d-%d" % (op, N, k), compare(op, N, k)))
    return out
