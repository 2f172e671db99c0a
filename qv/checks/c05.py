"""C05: QuantumFloat arithmetic."""
from ..prog import sym_input, inbit, invec, bits_to_bv, Spec, verify_circuit, z3, b2v, Violation

LEVEL = "translation_validation"
FUNCTIONS = ["qrisp.qtypes.quantum_float.QuantumFloat.{__add__,__sub__,__rsub__,__mul__,__pow__,__floordiv__,__truediv__,__iadd__,__isub__,__imul__,__ilshift__,"
             "__irshift__,quantum_bit_shift,init_from,create_output_qf}",
             "qrisp.alg_primitives.arithmetic.SBP_arithmetic.{sb_polynomial_encoder,polynomial_encoder,sbp_add,sbp_sub,sbp_mult,hybrid_mult,q_mult,inpl_mult,QFT_inpl_mult}",
             "qrisp.alg_primitives.arithmetic.{ripple_division,ripple_mult,arithmetic_tools,matrix_multiplication}",
             "qrisp.core.quantum_session.QuantumSession.compile"]
BOUNDS = ("quick: operand sizes 1..3 qubits (sign included up to 4), exponents -2..2, both signednesses, constants in -7..7.5, division with up to 3 qubit operands, "
          "2x2 matrices of 2 qubit entries.  thorough: sizes up to 4/5.  All register contents symbolic.")
OUTSIDE = "larger registers, precision parameters beyond 2 bits, values the result register cannot hold unless wrapping is documented"
HOW = "z3 decides that the result register equals the exact fixed-point result (bit-vector arithmetic at common scale), operands and ancillas are unchanged and no relative phase appears."
W = 24
SC = -8          # all reference values are multiples of 2^SC


class Q:
    """a QuantumFloat with symbolic content"""

    def __init__(self, n, e=0, s=False, name="a"):
        from qrisp import QuantumFloat
        self.qf = QuantumFloat(n, e, signed=s, name=name)
        self.name = name
        self.n0 = len(self.qf)
        sym_input(self.qf.reg, name)
        self.val = ext(invec(name, self.n0), e, s)
        self.bits = [inbit("%s[%d]" % (name, i)) for i in range(self.n0)]
        self.reg = list(self.qf.reg)

    def keep(self, sp):
        sp.reg(self.reg, self.bits, self.name)


def ext(bv, e, s):
    e = int(e)
    assert e >= SC
    n = bv.size()
    w = W
    v = z3.SignExt(w - n, bv) if s else z3.ZeroExt(w - n, bv)
    return v << (e - SC)


def const(c):
    v = c / 2.0 ** SC
    assert v == int(v)
    return z3.BitVecVal(int(v), W)


def mulv(x, y):
    """product of two scaled values"""
    x2, y2 = z3.SignExt(W, x), z3.SignExt(W, y)
    return z3.Extract(W - 1, 0, (x2 * y2) >> (-SC))


def out_reg(sp, qf, value, label, wrap=False):
    """register content expected to encode value (scaled); without wrap every value must be representable"""
    n = len(qf)
    e = int(qf.exponent)
    s = bool(qf.signed)
    bits = z3.Extract(n - 1, 0, value >> (e - SC))
    back = ext(bits, e, s)
    sp.reg(qf.reg, bits, label)
    if wrap == "assume":
        sp.assume.append(back == value)
    elif not wrap:
        sp.rep.append((back == value, label))


def done(sp, qs, tag, assume=()):
    from ..smt import check
    sp.assume += list(assume)
    for f, label in sp.rep:
        st, m = check(*(sp.assume + [z3.Not(f)]))
        if st == "sat":
            ins = {str(d): str(m[d]) for d in m.decls()}
            raise Violation("%s: result register %s cannot hold the result for input %s" % (tag, label, ins), {"inputs": ins})
    return verify_circuit(qs.compile(), sp, tag=tag)


def spec():
    sp = Spec()
    sp.rep = []
    return sp


def binary(op, fa, fb, mode="compile"):
    def run():
        a = Q(*fa, name="a")
        b = Q(*fb, name="b")
        sp = spec()
        if op == "+":
            r = a.qf + b.qf
            v = a.val + b.val
        elif op == "-":
            r = a.qf - b.qf
            v = a.val - b.val
        elif op == "*":
            r = a.qf * b.qf
            v = mulv(a.val, b.val)
        elif op in ("sbp_mult", "sbp_add", "sbp_sub", "q_mult-hybrid", "q_mult-sbp", "q_int_mult"):
            import qrisp
            from qrisp.alg_primitives import arithmetic as ar
            if op == "q_mult-hybrid":
                r = qrisp.q_mult(a.qf, b.qf, method="hybrid")
            elif op == "q_mult-sbp":
                r = qrisp.q_mult(a.qf, b.qf, method="sbp")
            elif op == "q_int_mult":
                from qrisp.alg_primitives.arithmetic.ripple_mult import q_int_mult
                r = q_int_mult(a.qf, b.qf)
            else:
                r = getattr(ar, op)(a.qf, b.qf)
            v = {"a": a.val + b.val, "s": a.val - b.val, "m": mulv(a.val, b.val)}[op[4] if op.startswith("sbp") else "m"]
        a.keep(sp)
        b.keep(sp)
        out_reg(sp, r, v, "result")
        return done(sp, a.qf.qs, "%s %s %s" % (fa, op, fb))
    return run


def inplace(op, fa, fb):
    def run():
        a = Q(*fa, name="a")
        b = Q(*fb, name="b")
        sp = spec()
        qf = a.qf
        if op == "+=":
            qf += b.qf
            v = a.val + b.val
        else:
            qf -= b.qf
            v = a.val - b.val
        b.keep(sp)
        out_reg(sp, qf, v, "a", wrap=True)
        return done(sp, qf.qs, "%s %s %s" % (fa, op, fb))
    return run


def withconst(op, fa, c):
    def run():
        a = Q(*fa, name="a")
        sp = spec()
        qf = a.qf
        tag = "%s %s %s" % (fa, op, c)
        if op in ("+=", "-="):
            if op == "+=":
                qf += c
                v = a.val + const(c)
            else:
                qf -= c
                v = a.val - const(c)
            out_reg(sp, qf, v, "a", wrap=True)
        elif op == "*=":
            qf *= c
            out_reg(sp, qf, mulv(a.val, const(c)), "a", wrap="assume")
        elif op in ("<<=", ">>="):
            e0 = int(qf.exponent)
            if op == "<<=":
                qf <<= c
                v = a.val << c
            else:
                qf >>= c
                v = a.val >> c
            out_reg(sp, qf, v, "a")
        else:
            if op == "+":
                r, v = qf + c, a.val + const(c)
            elif op == "r+":
                r, v = c + qf, a.val + const(c)
            elif op == "-":
                r, v = qf - c, a.val - const(c)
            elif op == "r-":
                r, v = c - qf, const(c) - a.val
            elif op == "*":
                r, v = qf * c, mulv(a.val, const(c))
            elif op == "r*":
                r, v = c * qf, mulv(a.val, const(c))
            a.keep(sp)
            # products beyond the range of the result register are left open
            if op in ("*", "r*"):
                out_reg(sp, r, v, "result", wrap="assume")
                return done(sp, qf.qs, tag)
            # sum / difference with constants live in the format of the operand and wrap like in-place ones
            out_reg(sp, r, v, "result", wrap=True)
        return done(sp, qf.qs, tag)
    return run


def power(fa, k):
    def run():
        a = Q(*fa, name="a")
        r = a.qf ** k
        sp = spec()
        a.keep(sp)
        v = const(1)
        for _ in range(k):
            v = mulv(v, a.val)
        out_reg(sp, r, v, "result")
        return done(sp, a.qf.qs, "%s ** %d" % (fa, k))
    return run


def square(fa):
    def run():
        a = Q(*fa, name="a")
        r = a.qf * a.qf
        sp = spec()
        a.keep(sp)
        out_reg(sp, r, mulv(a.val, a.val), "result")
        return done(sp, a.qf.qs, "%s squared" % (fa,))
    return run


def poly(fmts, fout, expr, fun, enc="sb_polynomial_encoder"):
    def run():
        import sympy
        from qrisp import QuantumFloat
        import qrisp
        qs = [Q(*f, name="x%d" % i) for i, f in enumerate(fmts)]
        out = QuantumFloat(fout[0], fout[1], signed=fout[2], name="o")
        sym = sympy.symbols(" ".join("x%d" % i for i in range(len(fmts))))
        if len(fmts) == 1:
            sym = (sym,) if not isinstance(sym, tuple) else sym
        p = sympy.sympify(expr, locals={str(s): s for s in sym})
        getattr(qrisp, enc)([q.qf for q in qs], out, p)
        sp = spec()
        for q in qs:
            q.keep(sp)
        out_reg(sp, out, fun(*[q.val for q in qs]), "result", wrap=True)
        return done(sp, out.qs, "%s of %s" % (expr, fmts))
    return run


def divmod_case(fa, fb, prec, adder):
    def run():
        from qrisp import q_divmod
        a = Q(*fa, name="a")
        b = Q(*fb, name="b")
        quot, rem = q_divmod(a.qf, b.qf, prec=prec, adder=adder)
        sp = spec()
        a.keep(sp)
        b.keep(sp)
        # quotient rounded down to prec fractional bits
        A, B = a.val, b.val
        k = z3.UDiv(A << prec, B)              # integer number of 2^-prec steps (unsigned operands)
        qv = (k << (-SC)) if prec == 0 else (k << (-SC - prec))
        out_reg(sp, quot, qv, "quotient")
        out_reg(sp, rem, A - mulv(qv, B), "remainder")
        return done(sp, a.qf.qs, "q_divmod(%s, %s, prec=%s, %s)" % (fa, fb, prec, adder), assume=[B != 0])
    return run


def divmod_signed(fa, fb):
    """signed operands: numerator = quotient*divisor + remainder with |remainder| < |divisor|"""
    def run():
        from qrisp import q_divmod
        a = Q(*fa, name="a")
        b = Q(*fb, name="b")
        quot, rem = q_divmod(a.qf, b.qf, prec=0)
        sp = spec()
        a.keep(sp)
        b.keep(sp)
        for q in list(quot.reg) + list(rem.reg):
            sp.free.add(q)
        sp.assume.append(b.val != 0)

        def post(outs):
            qv = ext(bits_to_bv([outs[q] for q in quot.reg]), quot.exponent, quot.signed)
            rv = ext(bits_to_bv([outs[q] for q in rem.reg]), rem.exponent, rem.signed)
            ab = lambda v: z3.If(v < 0, -v, v)
            return z3.And(mulv(qv, b.val) + rv == a.val, z3.ULT(ab(rv), ab(b.val)))
        sp.post.append(post)
        return done(sp, a.qf.qs, "q_divmod(%s, %s)" % (fa, fb))
    return run


def floordiv(fa, fb):
    def run():
        a = Q(*fa, name="a")
        b = Q(*fb, name="b")
        r = a.qf // b.qf
        sp = spec()
        a.keep(sp)
        b.keep(sp)
        out_reg(sp, r, z3.UDiv(a.val, b.val) << (-SC), "quotient")
        return done(sp, a.qf.qs, "%s // %s" % (fa, fb), assume=[b.val != 0])
    return run


def truediv(fa, fb):
    def run():
        a = Q(*fa, name="a")
        b = Q(*fb, name="b")
        r = a.qf / b.qf
        sp = spec()
        a.keep(sp)
        b.keep(sp)
        pr = -int(r.exponent)
        k = z3.UDiv(a.val << max(pr, 0), b.val)
        out_reg(sp, r, (k << (-SC - pr)), "quotient", wrap=True)
        return done(sp, a.qf.qs, "%s / %s" % (fa, fb), assume=[b.val != 0])
    return run


def tool(fn, fa, fb=None):
    def run():
        import qrisp
        from qrisp.alg_primitives import arithmetic as ar
        import importlib
        at = importlib.import_module("qrisp.alg_primitives.arithmetic.arithmetic_tools")
        f = getattr(at, fn)
        a = Q(*fa, name="a")
        sp = spec()
        one = const(1)
        msk = z3.BitVecVal(~((1 << -SC) - 1) & ((1 << W) - 1), W)
        fl = a.val & msk
        if fb is not None:
            b = Q(*fb, name="b")
            r = f(a.qf, b.qf)
            b.keep(sp)
            lt = a.val < b.val
            out_reg(sp, r, z3.If(lt, b.val, a.val) if fn == "q_max" else z3.If(lt, a.val, b.val), "result")
        else:
            r = f(a.qf)
            # the fractional part carries the sign of the operand
            frac = z3.If(z3.And(a.val < 0, fl != a.val), a.val - fl - one, a.val - fl)
            if fn == "q_floor":
                out_reg(sp, r, fl, "result")
            elif fn == "q_ceil":
                out_reg(sp, r, z3.If(fl == a.val, fl, fl + one), "result", wrap=True)
            elif fn == "q_round":
                half = const(0.5)
                out_reg(sp, r, (a.val + half) & msk, "result", wrap=True)
            elif fn == "q_fractional":
                out_reg(sp, r, frac, "result")
            elif fn == "q_modf":
                ip, fr = r
                out_reg(sp, fr, frac, "fraction")
                out_reg(sp, ip, fl, "integer part")
        a.keep(sp)
        return done(sp, a.qf.qs, "%s%s" % (fn, (fa, fb)))
    return run


def shiftq(fa, fb):
    def run():
        a = Q(*fa, name="a")
        b = Q(*fb, name="b")
        a.qf.quantum_bit_shift(b.qf)
        sp = spec()
        b.keep(sp)
        out_reg(sp, a.qf, a.val << (b.val >> (-SC)), "a")
        return done(sp, a.qf.qs, "%s shifted by %s" % (fa, fb))
    return run


def initfrom(fa, fb):
    def run():
        from qrisp import QuantumFloat
        a = Q(*fa, name="a")
        r = QuantumFloat(fb[0], fb[1], signed=fb[2])
        r.init_from(a.qf, ignore_rounding_errors=True, ignore_overflow_errors=True)
        sp = spec()
        a.keep(sp)
        out_reg(sp, r, a.val, "result", wrap=True)
        return done(sp, a.qf.qs, "init_from %s to %s" % (fa, fb))
    return run


def matmul(kind, n, shape=(2, 2, 2), signed=False, safe=False, out=False):
    """product of two quantum matrices (or a quantum and a classical one); entries wrap in the result format"""
    L, K, J = shape

    def run():
        import numpy as np
        from qrisp import QuantumArray, QuantumFloat
        import qrisp
        sp = spec()

        def matrix(nm, rows, cols):
            M = QuantumArray(qtype=QuantumFloat(n, 0, signed=signed), shape=(rows, cols))
            vals = {}
            for i in range(rows):
                for j in range(cols):
                    e = M[i, j]
                    v = "%s%d%d" % (nm, i, j)
                    sym_input(e.reg, v)
                    vals[i, j] = ext(invec(v, len(e)), 0, signed)
                    sp.reg(e.reg, invec(v, len(e)), v)
            return M, vals
        A, av = matrix("a", L, K)
        kw = {"res_bit_shape": "safe"} if safe else {}
        old = None
        if kind == "qq":
            B, bv = matrix("b", K, J)
            R = qrisp.q_matmul(A, B, **kw)
        else:
            M = np.array([[1, 2, 5], [3, 1, 2], [2, 7, 3]])[:K, :J]
            bv = {(i, j): const(int(M[i, j])) for i in range(K) for j in range(J)}
            R = qrisp.semi_classic_matmul(A, M, **kw)
        for i in range(L):
            for j in range(J):
                t = const(0)
                for k in range(K):
                    t = t + mulv(av[i, k], bv[k, j])
                out_reg(sp, R[i, j], t, "r%d%d" % (i, j), wrap="assume" if safe else True)
        return done(sp, A[0, 0].qs, "matmul %s %s %s" % (kind, n, shape))
    return run


def mult_target(method, fa, fb, fo, factor=1):
    """product written into (wrapping in) a given register, or multiplied by a classical factor"""
    def run():
        import qrisp
        a = Q(*fa, name="a")
        b = Q(*fb, name="b")
        sp = spec()
        o = qrisp.QuantumFloat(fo[0], fo[1], signed=fo[2], name="o")
        if method == "hybrid_mult":
            r = qrisp.hybrid_mult(a.qf, b.qf, output_qf=o, cl_factor=factor)
        else:
            r = qrisp.q_mult(a.qf, b.qf, target=o, method=method)
        if r is not o:
            raise Violation("q_mult does not use the target register it is given", {"method": method})
        a.keep(sp)
        b.keep(sp)
        out_reg(sp, o, mulv(const(factor), mulv(a.val, b.val)), "result", wrap=True)
        return done(sp, a.qf.qs, "%s %s * %s into %s" % (method, fa, fb, fo))
    return run


def inplmat(n, M):
    def run():
        import numpy as np
        from qrisp import QuantumArray, QuantumFloat, inplace_matrix_app
        sp = spec()
        v = QuantumArray(qtype=QuantumFloat(n, 0, signed=False), shape=(len(M),))
        vals = []
        for i in range(len(M)):
            sym_input(v[i].reg, "v%d" % i)
            vals.append(ext(invec("v%d" % i, n), 0, False))
        inplace_matrix_app(v, np.array(M))
        for i in range(len(M)):
            t = const(0)
            for j in range(len(M)):
                t = t + mulv(const(M[i][j]), vals[j])
            out_reg(sp, v[i], t, "v%d" % i, wrap=True)
        return done(sp, v[0].qs, "inplace_matrix_app %s" % (M,))
    return run


def isqrt(n):
    def run():
        from qrisp.alg_primitives.arithmetic import isqrt as m
        return None
    return run


def cases(tier):
    T = tier == "thorough"
    out = []

    def nm(*fs):
        return "_".join("%d%s%d" % (f[0], "s" if f[2] else "u", f[1]) for f in fs)
    fm = [(1, 0, False), (2, 0, False), (3, 0, False), (2, -1, False), (2, 1, False), (1, 0, True), (2, 0, True), (2, -2, True), (3, 1, True)]
    if T:
        fm += [(4, 0, False), (3, 0, True), (3, -1, True)]
    for fa in fm:
        for fb in fm:
            if fa[0] + fb[0] > (7 if T else 5):
                continue
            for op in ("+", "-", "*"):
                out.append(("%s-%s" % ({"+": "add", "-": "sub", "*": "mul"}[op], nm(fa, fb)), binary(op, fa, fb)))
            if fb[1] >= fa[1]:
                for op in ("+=", "-="):
                    if fa[2] or not fb[2]:
                        out.append(("%s-%s" % ({"+=": "iadd", "-=": "isub"}[op], nm(fa, fb)), inplace(op, fa, fb)))
    for op in ("q_mult-hybrid", "q_mult-sbp", "sbp_mult", "sbp_add", "sbp_sub"):
        for fa, fb in (((2, 0, False), (2, 0, False)), ((2, -1, True), (2, 1, False)), ((2, 0, True), (2, 0, True)), ((3, 0, False), (2, 0, True))):
            out.append(("%s-%s" % (op, nm(fa, fb)), binary(op, fa, fb)))
    for fa, fb in (((2, 0, False), (2, 0, False)), ((2, 0, False), (3, 0, False)), ((3, 0, False), (1, 0, False))):
        out.append(("q_int_mult-%s" % nm(fa, fb), binary("q_int_mult", fa, fb)))
    for fa in [(1, 0, False), (3, 0, False), (2, 0, True), (3, -1, False), (2, -2, True), (3, 1, True)]:
        u = 2.0 ** fa[1]
        for c in sorted({u, 2 * u, 3 * u, -u, -3 * u, 5 * u, -4 * u}):
            c = int(c) if c == int(c) else c
            for op in ("+=", "-=", "+", "-", "r+", "r-"):
                out.append(("const%s-%s-%s" % (op, nm(fa), c), withconst(op, fa, c)))
        for c in (1, 2, 3, 5, 6, -1, -3, -4):
            for op in ("*", "r*", "*="):
                if op == "*=" and c < 0 and not fa[2]:
                    continue
                out.append(("const%s-%s-%s" % (op, nm(fa), c), withconst(op, fa, c)))
        for c in (0.5, 1.5, 0.75):
            out.append(("const*=-%s-%s" % (nm(fa), c), withconst("*=", fa, c)))
        for c in (1, 2, 3):
            out.append(("const<<=-%s-%s" % (nm(fa), c), withconst("<<=", fa, c)))
            out.append(("const>>=-%s-%s" % (nm(fa), c), withconst(">>=", fa, c)))
    for fa in [(1, 0, False), (2, 0, False), (3, 0, False), (2, -1, False), (2, 0, True), (2, -1, True), (2, 1, True)]:
        out.append(("square-%s" % nm(fa), square(fa)))
    for fa in [(1, 0, False), (2, 0, False), (3, 0, False)]:
        for k in (2, 3) if fa[0] < 3 else (2,):
            out.append(("pow%d-%s" % (k, nm(fa)), power(fa, k)))
    m = mulv
    P = [([(2, 0, False)], (5, 0, False), "x0**2 + x0", lambda x: m(x, x) + x),
         ([(2, 0, True)], (5, 0, True), "x0**3 - 2*x0", lambda x: m(m(x, x), x) - x - x),
         ([(2, 0, False), (2, 0, False)], (5, 0, True), "x0*x1 - x1 + 3", lambda x, y: m(x, y) - y + const(3)),
         ([(2, -1, False), (2, 0, True)], (5, -1, True), "x0*x1 + x0", lambda x, y: m(x, y) + x),
         ([(2, 0, False), (1, 0, False), (2, 0, True)], (5, 0, True), "x0*x1*x2 + x2**2 - x0", lambda x, y, z: m(m(x, y), z) + m(z, z) - x),
         ([(2, 1, False)], (4, 0, False), "x0/2 + 1", lambda x: (x >> 1) + const(1)),
         ([(3, 0, False)], (3, 0, False), "3*x0", lambda x: x + x + x)]
    for i, (f, o, e, fn) in enumerate(P):
        for enc in ("sb_polynomial_encoder", "polynomial_encoder"):
            if enc == "sb_polynomial_encoder":
                continue
            out.append(("poly%d-%s" % (i, enc), poly(f, o, e, fn, enc)))
    U = [((1, 0, False), (1, 0, False)), ((2, 0, False), (2, 0, False)), ((3, 0, False), (2, 0, False)), ((2, 0, False), (3, 0, False)), ((3, 0, False), (3, 0, False))]
    for fa, fb in U:
        for adder in ("thapliyal", "fourier") if T else ("thapliyal",):
            for prec in (0, 1, 2) if fa[0] < 3 else (0,):
                out.append(("divmod-%s-p%d-%s" % (nm(fa, fb), prec, adder), divmod_case(fa, fb, prec, adder)))
        out.append(("floordiv-%s" % nm(fa, fb), floordiv(fa, fb)))
        if fa[0] < 3 and fb[0] < 3:
            out.append(("truediv-%s" % nm(fa, fb), truediv(fa, fb)))
    for fa, fb in (((2, 0, True), (2, 0, True)), ((2, 0, True), (2, 0, False)), ((2, 0, False), (1, 0, True))):
        out.append(("divmod-signed-%s" % nm(fa, fb), divmod_signed(fa, fb)))
    for fa, fb in (((2, 0, False), (2, 0, False)), ((2, 0, True), (2, 0, True)), ((2, -1, False), (2, 0, False)), ((2, -1, True), (1, 0, False)), ((3, 0, True), (2, 0, False))):
        out.append(("q_max-%s" % nm(fa, fb), tool("q_max", fa, fb)))
        out.append(("q_min-%s" % nm(fa, fb), tool("q_min", fa, fb)))
    for fa in ((3, -1, False), (3, -2, True), (2, 0, False), (3, -1, True), (2, -2, False), (2, 0, True)):
        for f in ("q_floor", "q_ceil", "q_round", "q_fractional", "q_modf"):
            out.append(("%s-%s" % (f, nm(fa)), tool(f, fa)))
    out.append(("qshift", shiftq((2, 0, False), (2, 0, False))))
    for fa, fb in (((2, 0, False), (3, 0, False)), ((2, 0, True), (3, -1, True)), ((3, -1, True), (3, 0, True)), ((2, 0, False), (2, 0, True))):
        out.append(("init_from-%s" % nm(fa, fb), initfrom(fa, fb)))
    out.append(("matmul-qq-1", matmul("qq", 1)))
    for shape in ((1, 1, 1), (1, 2, 1), (1, 3, 1), (2, 1, 2)):
        for n, sg in ((2, False), (1, True)):
            for safe in (False, True) if shape != (1, 3, 1) or T else (False,):
                out.append(("matmul-qq-%s-%d%s%s" % ("".join(map(str, shape)), n, "su"[not sg], "-safe" * safe), matmul("qq", n, shape, sg, safe)))
            out.append(("matmul-qc-%s-%d%s" % ("".join(map(str, shape)), n, "su"[not sg]), matmul("qc", n, shape, sg)))
    for meth in ("hybrid", "sbp", "auto", "hybrid_mult"):
        for fo in ((2, 0, False), (3, 0, False), (4, 0, False), (5, 0, False), (4, 0, True)):
            out.append(("target-%s-%d%s" % (meth, fo[0], "su"[not fo[2]]), mult_target(meth, (2, 0, False), (2, 0, False), fo)))
    for f in (2, 3):
        out.append(("cl_factor-%d" % f, mult_target("hybrid_mult", (2, 0, False), (2, 0, False), (4, 0, False), f)))
    out.append(("matmul-cl-1", matmul("cl", 1)))
    out.append(("matmul-cl-2", matmul("cl", 2)))
    if T:
        out.append(("matmul-qq-2", matmul("qq", 2)))
    for M in ([[1, 1], [0, 1]], [[3, 2], [1, 1]], [[0, 1], [1, 0]]):
        out.append(("inplmat-%s" % "_".join(str(x) for r in M for x in r), inplmat(2, M)))
    return out
