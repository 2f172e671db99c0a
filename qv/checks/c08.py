"""C08: labels and bit patterns of quantum types correspond one to one."""
from ..smt import z3, check
from ..pathsum import Undecided
from ..prog import Violation, ReplayMismatch

LEVEL = "translation_validation"
TECH = "symbolic execution of the encoder and decoder code on jax tracers (forking on branches), decided by an SMT solver over bit vectors and IEEE doubles"
FUNCTIONS = ["qtypes.quantum_float: decoder, jdecoder, encoder, truncate, sb_poly, significant, _signed_int_iso, _signed_int_iso_inv",
             "qtypes.quantum_modulus: decoder, jdecoder, encoder", "jasp_mod_tools: new_montgomery_decoder, montgomery_encoder, pow2mod, modinv",
             "modular_arithmetic: montgomery_encoder",
             "qtypes.quantum_bool / quantum_char / quantum_string: decoder, encoder", "core.quantum_variable: decoder, encoder",
             "core.quantum_array: decoder", "misc.utility: bin_rep, int_encoder, int_as_array, array_as_int, custom_qv, bit_reverse"]
BOUNDS = ("QuantumFloat: mantissa 1..6 (thorough ..12), exponent -3..3 (thorough -8..8), signed and unsigned; all bit patterns, all IEEE double labels of magnitude 2^-200..2^200 "
          "and zero, all integer labels below 2^40. QuantumModulus: moduli 2..17 (thorough ..40), Montgomery shifts -3..3, all residues, all integer labels of magnitude below 2^30. "
          "Other types: all patterns up to 8 qubits.")
OUTSIDE = "BigInteger moduli (their arithmetic is C20), encode(rounding=True), user supplied decoders beyond the ones listed, formats above the bounds, NaN and infinite labels."
HOW = ("The conversion code runs unchanged on tracers; every feasible path gives a term for the result, and the solver decides for all patterns and labels that decoding gives the "
       "documented label, encoding inverts decoding, labels outside the range raise, and truncation returns a nearest representable value.")
TRUSTED = "z3 (bit vectors, floating point); jax tracing; the jaxpr interpreter qv/jaxbv.py; int() and float() on traced values replaced by conversions of the tracer"

F64 = z3.Float64()
RNE = z3.RNE()


def mods():
    import qrisp  # noqa
    import sys
    names = ["qrisp.qtypes.quantum_float", "qrisp.qtypes.quantum_modulus", "qrisp.qtypes.quantum_bool", "qrisp.qtypes.quantum_char", "qrisp.misc.utility",
             "qrisp.core.quantum_variable", "qrisp.core.quantum_array", "qrisp.alg_primitives.arithmetic.jasp_arithmetic.jasp_mod_tools",
             "qrisp.alg_primitives.arithmetic.modular_arithmetic.mod_tools"]
    import importlib
    for n in names:
        importlib.import_module(n)
    return [sys.modules[n] for n in names]


def describe(m, vars_):
    return {str(v): str(m.eval(v, model_completion=True)) for v in vars_}


class Case:
    """explore fn over the symbolic arguments and decide goal(result) on every path"""

    def __init__(self, tag, fn, avals, args, assume, goal, static=True, pyres=False, limit=None):
        self.limit = limit
        self.tag, self.fn, self.avals, self.args = tag, fn, avals, args
        self.assume, self.goal, self.static, self.pyres = list(assume), goal, static, pyres

    def __call__(self):
        from ..jaxfork import Paths, Raised
        P = Paths(mods(), static=self.static, index_limit=self.limit or 300, strings=self.limit is not None)
        n = q = 0
        for cond, r in P.terms(self.fn, self.avals, self.args, self.assume):
            n += 1
            g = self.goal(r)
            if g is True:
                continue
            a = self.assume + cond + ([] if g is False else [z3.Not(g)])
            res, m = check(*a, timeout=100000)
            q += 1
            if res == "unsat":
                continue
            if res != "sat":
                raise Undecided("%s: solver gives no answer" % self.tag)
            inp = describe(m, self.args)
            vals = [pyval(m, x) for x in self.args]
            seen, res = self.replay(vals)
            try:
                g = self.goal(res)
                held = g if isinstance(g, bool) else z3.is_true(z3.simplify(z3.substitute(g, *[(x, m.eval(x, model_completion=True)) for x in self.args])))
            except Exception:
                held = False
            if held:
                raise ReplayMismatch("%s: input %s violates the statement in the encoding (%s) but not in the code (%s)" % (
                    self.tag, inp, repr(r.e) if isinstance(r, Raised) else r, seen))
            raise Violation("%s: input %s gives %s" % (self.tag, inp, seen), {"inputs": inp, "values": vals, "result": seen})
        if not n:
            raise Violation("%s: no path is feasible" % self.tag, {})
        return {"paths": n}

    def replay(self, vals):
        """the same call on concrete values, without tracing"""
        from ..jaxfork import Raised
        import numpy as np
        try:
            if self.static:
                r = self.fn(*vals)
            else:
                import jax
                r = jax.jit(self.fn)(*vals)
        except Exception as e:
            return "%s: %s" % (type(e).__name__, str(e)[:120]), Raised(e)
        v = r
        if hasattr(v, "item") and getattr(v, "ndim", 1) == 0:
            v = v.item()
        return repr(r), [v] if isinstance(v, (bool, int, float)) and not self.pyres else ("py", v)


def pyval(m, x):
    v = m.eval(x, model_completion=True)
    if isinstance(v, z3.BitVecNumRef):
        return v.as_signed_long()
    s = z3.simplify(z3.fpToReal(v)) if isinstance(v, z3.FPRef) else v
    try:
        return float(s.as_fraction())
    except Exception:
        return str(v)


def i64(name="i"):
    return z3.BitVec(name, 64)


def terms_of(r):
    """solver terms of a path result, None if the path raised"""
    from ..jaxfork import Raised
    if isinstance(r, Raised):
        return None
    if isinstance(r, tuple) and r[0] == "py":
        return [r[1]]
    return list(r)


def as_bv(x):
    import numpy as np
    if isinstance(x, (bool, int, np.integer)):
        return z3.BitVecVal(int(x), 64)
    if isinstance(x, z3.BoolRef):
        return z3.If(x, z3.BitVecVal(1, 64), z3.BitVecVal(0, 64))
    if isinstance(x, z3.BitVecRef):
        return x if x.size() == 64 else z3.SignExt(64 - x.size(), x)
    return None


def as_fp(x):
    if isinstance(x, z3.FPRef):
        return x
    if isinstance(x, float):
        return z3.FPVal(x, F64)
    b = as_bv(x)
    return None if b is None else z3.fpSignedToFP(RNE, b, F64)


def sval(i, n, signed):
    """value of pattern i as 64-bit integer"""
    return z3.SignExt(64 - n, z3.Extract(n - 1, 0, i)) if signed else i


def rng(i, n):
    return [z3.ULT(i, z3.BitVecVal(2 ** n, 64))]


def sane(x):
    a = z3.fpAbs(x)
    return [z3.Or(z3.fpIsZero(x), z3.And(z3.fpGEQ(a, z3.FPVal(2.0 ** -200, F64)), z3.fpLEQ(a, z3.FPVal(2.0 ** 200, F64))))]


def float_cases(add, big):
    import jax.numpy as jnp
    from qrisp import QuantumFloat
    sizes = range(1, 13) if big else range(1, 7)
    exps = range(-8, 9) if big else range(-3, 4)
    IA = jnp.int64(0)
    FA = jnp.float64(0)
    for n in sizes:
        for e in exps:
            for sg in (False, True):
                size = n + sg
                key = "%d.%d.%s" % (n, e, "s" if sg else "u")
                lo, hi = (-2 ** n if sg else 0), 2 ** n - 1
                i, x = i64(), z3.FP("x", F64)

                def label(r, want, e=e):
                    """r equals the integer term want times 2^e"""
                    t = terms_of(r)
                    if t is None or len(t) != 1:
                        return False
                    if isinstance(t[0], (z3.FPRef, float)):
                        return z3.fpEQ(as_fp(t[0]), z3.fpMul(RNE, z3.fpSignedToFP(RNE, want, F64), z3.FPVal(2.0 ** e, F64)))
                    b = as_bv(t[0])
                    return False if b is None or e < 0 else b == want << e

                def mk(fn, n=n, e=e, sg=sg):
                    # the quantum variable is created outside of the tracing
                    qf = QuantumFloat(n, e, signed=sg)
                    return lambda *a: fn(qf, *a)

                def new(tag, fn, avals, args, assume, goal, static=True, mk=mk):
                    add(tag, lambda: Case(tag, mk(fn), avals, args, assume, goal, static)())
                new("float/dec/" + key, lambda qf, v: qf.decoder(v), (IA,), (i,), rng(i, size),
                    lambda r, size=size, sg=sg, label=label: label(r, sval(i64(), size, sg)))
                new("float/jdec/" + key, lambda qf, v: qf.jdecoder(v), (IA,), (i,), rng(i, size),
                    lambda r, size=size, sg=sg, label=label: label(r, sval(i64(), size, sg)), static=False)
                for static in (True, False):
                    new("float/round%s/%s" % ("" if static else "-j", key), lambda qf, v: qf.encoder(qf.decoder(v)), (IA,), (i,), rng(i, size),
                        lambda r: False if terms_of(r) is None else as_bv(terms_of(r)[0]) == i64(), static=static)

                def enc(r, n=n, e=e, lo=lo, hi=hi, size=size, x=x):
                    from ..jaxfork import Raised
                    t = z3.fpMul(RNE, x, z3.FPVal(2.0 ** -e, F64))
                    inside = z3.And(z3.fpGEQ(t, z3.FPVal(float(lo), F64)), z3.fpLEQ(t, z3.FPVal(float(hi), F64)))
                    whole = z3.fpEQ(z3.fpRoundToIntegral(RNE, t), t)
                    if isinstance(r, Raised):
                        return z3.Not(z3.And(inside, whole)) if isinstance(r.e, (ValueError, Exception)) else False
                    b = as_bv(terms_of(r)[0])
                    k = z3.fpToSBV(z3.RTZ(), t, z3.BitVecSort(64))
                    ok = b == (k & z3.BitVecVal(2 ** size - 1, 64))
                    # labels between two representable ones: see float/between
                    return z3.And(inside, z3.Implies(whole, ok))
                new("float/enc/" + key, lambda qf, v: qf.encoder(v), (FA,), (x,), sane(x), enc)
                v = i64("v")

                def enci(r, e=e, lo=lo, hi=hi, size=size, v=v):
                    from ..jaxfork import Raised
                    sc = v << -e if e < 0 else v >> e
                    whole = z3.BoolVal(True) if e <= 0 else (sc << e) == v
                    inside = z3.And(sc >= lo, sc <= hi) if e <= 0 else z3.And(v >= lo * 2 ** e, v <= hi * 2 ** e)
                    if isinstance(r, Raised):
                        return z3.Not(z3.And(inside, whole))
                    b = as_bv(terms_of(r)[0])
                    return z3.And(inside, z3.Implies(whole, b == (sc & z3.BitVecVal(2 ** size - 1, 64))))
                new("float/enci/" + key, lambda qf, w: qf.encoder(w), (IA,), (v,), [v >= -2 ** 40, v <= 2 ** 40], enci)

                def trunc(r, e=e, lo=lo, hi=hi, x=x):
                    t = terms_of(r)
                    if t is None:
                        return False
                    s = z3.FPVal(2.0 ** -e, F64)
                    y = z3.fpMul(RNE, as_fp(t[0]), s)        # exact
                    z = z3.fpMul(RNE, x, s)
                    lo_, hi_, h = z3.FPVal(float(lo), F64), z3.FPVal(float(hi), F64), z3.FPVal(0.5, F64)
                    near = z3.And(z3.fpLEQ(z3.fpSub(RNE, y, h), z), z3.fpLEQ(z, z3.fpAdd(RNE, y, h)))
                    return z3.And(z3.fpEQ(z3.fpRoundToIntegral(RNE, y), y), z3.fpGEQ(y, lo_), z3.fpLEQ(y, hi_),
                                  z3.If(z3.fpGEQ(z, hi_), z3.fpEQ(y, hi_), z3.If(z3.fpLEQ(z, lo_), z3.fpEQ(y, lo_), near)))
                lim = z3.FPVal(2.0 ** 40, F64)
                for static in (True, False):
                    new("float/trunc%s/%s" % ("" if static else "-j", key), lambda qf, w: qf.truncate(w), (FA,), (x,), sane(x) + [z3.fpLEQ(z3.fpAbs(x), lim)], trunc, static=static)
                k = i64("k")

                def sig(r, n=n, e=e, k=k):
                    from ..jaxfork import Raised
                    inside = z3.And(k >= e, k < e + n)
                    if isinstance(r, Raised):
                        return z3.Not(inside)
                    return z3.And(inside, k == r[1] + e)
                if n <= 6:
                    new("float/sig/" + key, lambda qf, w: IDX(qf, qf.significant(w)), (IA,), (k,), [k >= -40, k <= 40], sig)
                add("float/poly/" + key, lambda n=n, e=e, sg=sg, key=key: sb_poly(n, e, sg, key))

    def between():
        x = z3.FP("x", F64)
        qf = QuantumFloat(3, -1)

        def goal(r):
            from ..jaxfork import Raised
            t = z3.fpMul(RNE, x, z3.FPVal(2.0, F64))
            return True if isinstance(r, Raised) else z3.fpEQ(z3.fpRoundToIntegral(RNE, t), t)
        return Case("float/between", lambda w: qf.encoder(w), (FA,), (x,), sane(x), goal)()
    add("float/between", between)


class IDX:
    """position of a qubit in its register (a plain Python result)"""
    def __new__(cls, qf, qb):
        return [q.identifier for q in qf.reg].index(qb.identifier)


def sb_poly(n, e, sg, key):
    import sympy
    from fractions import Fraction
    from qrisp import QuantumFloat
    qf = QuantumFloat(n, e, signed=sg)
    size = n + sg
    done = 0
    for m in [0] + list(range(size, size + 4)):
        p = sympy.Poly(qf.sb_poly(m), *[sympy.symbols("%s_%d" % (hash(qf), i)) for i in range(size)])
        bits = [z3.Int("b%d" % i) for i in range(size)]
        tot = z3.RealVal(0)
        for mon, c in p.terms():
            f = Fraction(sympy.Rational(c).p, sympy.Rational(c).q) / Fraction(2) ** e
            t = z3.RealVal(str(f))
            for b, k in zip(bits, mon):
                for _ in range(k):
                    t = t * z3.ToReal(b)
            tot = tot + t
        val = z3.Sum([bits[i] * (2 ** i if not (sg and i == size - 1) else -2 ** i) for i in range(size)])
        mm = (m or size) + 1
        w = bits[-1] * 2 ** mm if sg else z3.IntVal(0)
        r, mod = check(*([z3.And(b >= 0, b <= 1) for b in bits] + [tot != z3.ToReal(val + w)]))
        done += 1
        if r == "unsat":
            continue
        if r != "sat":
            raise Undecided("sb_poly")
        raise Violation("float/poly/%s: m=%d bits %s: polynomial and value differ" % (key, m, describe(mod, bits)), {"m": m, "bits": describe(mod, bits), "poly": str(qf.sb_poly(m))})
    return {"polynomials": done}


def modulus_cases(add, big):
    import jax.numpy as jnp
    IA = jnp.int64(0)
    for N in range(2, 41) if big else range(2, 18):
        for m in range(-3, 4):
            if m and N % 2 == 0:
                continue
            n = (N - 1).bit_length() if N > 1 else 1
            i, v = i64(), i64("v")
            inv = pow(pow(2, abs(m), N), -1, N) if N % 2 else 1
            enc = pow(2, m, N) if m >= 0 else inv
            dec = inv if m > 0 else pow(2, -m, N)

            def mk(fn, N=N, m=m):
                from qrisp import QuantumModulus
                q = QuantumModulus(N)
                q.m = m
                return lambda *a: fn(q, *a)

            def new(tag, fn, args, assume, goal, static=True, mk=mk):
                add(tag, lambda: Case(tag, mk(fn), (IA,), args, assume, goal, static)())
            key = "%d.%d" % (N, m)

            def gd(r, N=N, dec=dec, i=i):
                import math
                t = terms_of(r)
                if t is None:
                    return False
                inside = z3.ULT(i, z3.BitVecVal(N, 64))
                if isinstance(t[0], float):
                    return z3.Not(inside) if math.isnan(t[0]) else False
                b = as_bv(t[0])
                return False if b is None else z3.And(inside, b == z3.URem(i * dec, z3.BitVecVal(N, 64)))
            size = N.bit_length()
            new("mod/dec/" + key, lambda q, w: q.decoder(w), (i,), rng(i, size), gd)

            def gj(r, N=N, dec=dec, i=i):
                t = terms_of(r)
                return False if t is None else as_bv(t[0]) == z3.URem(i * dec, z3.BitVecVal(N, 64))
            if m or N % 2:
                new("mod/jdec/" + key, lambda q, w: q.jdecoder(w), (i,), [z3.ULT(i, z3.BitVecVal(N, 64))], gj, static=False)

            def ge(r, N=N, enc=enc, v=v):
                t = terms_of(r)
                inside = z3.And(v >= 0, v < N)
                if t is None:
                    return z3.Not(inside)
                return z3.And(inside, as_bv(t[0]) == z3.URem(v * enc, z3.BitVecVal(N, 64)))
            new("mod/enc/" + key, lambda q, w: q.encoder(w), (v,), [v >= -2 ** 30, v <= 2 ** 30], ge)

            def gr(r, i=i):
                t = terms_of(r)
                return False if t is None else as_bv(t[0]) == i
            new("mod/round/" + key, lambda q, w: q.decoder(q.encoder(w)), (i,), [z3.ULT(i, z3.BitVecVal(N, 64))], gr)
            if m >= 0:
                new("mod/round-j/" + key, lambda q, w: q.decoder(q.encoder(w)), (i,), [z3.ULT(i, z3.BitVecVal(N, 64))], gr, static=False)


def table_cases(add, big):
    """types with tabulated labels: the path pins the pattern, the solver decides that label and pattern belong together"""
    import jax.numpy as jnp
    import numpy as np
    import qrisp as Q
    IA = jnp.int64(0)

    def new(tag, make, size, spec, back=True):
        def run():
            q = make()
            if isinstance(q, Q.QuantumArray):
                elementwise(q)
            i = i64()

            def pat(label):
                ks = [k for k in range(2 ** size) if eq(spec(k), label)]
                return z3.Or(*[i == k for k in ks]) if ks else z3.BoolVal(False)

            def dec(r):
                t = terms_of(r)
                if t is None:
                    return False
                if isinstance(t[0], z3.ExprRef):
                    return z3.And(*[z3.Implies(i == k, as_bv(t[0]) == int(spec(k))) for k in range(2 ** size)])
                return pat(t[0])
            c = Case(tag, lambda w: Box(q.decoder(w)), (IA,), (i,), rng(i, size), dec, limit=2 ** size)()
            if back:
                def rd(r):
                    t = terms_of(r)
                    return False if t is None else as_bv(t[0]) == i
                d = Case(tag + "/round", lambda w: q.encoder(q.decoder(w)), (IA,), (i,), rng(i, size), rd, limit=2 ** size)()
                c["paths"] += d["paths"]
            return c
        add(tag, run)

    new("bool", lambda: Q.QuantumBool(), 1, lambda k: bool(k))
    nisq = "abcdefghijklmnopqrstuvwxyz .!?:,"
    new("char/nisq", lambda: Q.QuantumChar(), 5, lambda k: nisq[k])
    new("char/full", lambda: Q.QuantumChar(nisq_char=False), 8, chr, back=False)
    for n in range(1, 7 if big else 6):
        new("variable/%d" % n, lambda n=n: Q.QuantumVariable(n), n, lambda k, n=n: "".join(str(k >> j & 1) for j in range(n)), back=n < 5)
    from qrisp.misc.utility import custom_qv
    for L in range(1, 18 if big else 10):
        labels = ["l%d" % (j * 7 % 23) for j in range(L)]
        n = max(1, (L - 1).bit_length())
        new("custom/%d" % L, lambda labels=labels: custom_qv(list(labels)), n, lambda k, labels=labels: labels[k] if k < len(labels) else "undefined_label_%d" % k)
        new("customvar/%d" % L, lambda labels=labels: Q.QuantumVariable.custom(list(labels)), n, lambda k, labels=labels: labels[k] if k < len(labels) else "undefined_label_%d" % k)
    new("custom/dec", lambda: custom_qv([0] * 8, decoder=lambda k: k * k - 5), 3, lambda k: k * k - 5)
    # arrays: the first element is the most significant part of the pattern
    def arr(k, shape, n, one):
        tot = int(np.prod(shape))
        out = np.empty(tot, dtype=object)
        for j in range(tot):
            out[j] = one(k >> (n * (tot - 1 - j)) & (2 ** n - 1))
        return out.reshape(shape)

    def qf(e, sg, n):
        return lambda k: ((k - 2 ** n if sg and k >> (n - 1) else k) * 2.0 ** e)
    A = [((2,), 2, 0, False), ((3,), 2, 0, False), ((2, 2), 2, 0, False), ((2,), 3, -1, False), ((2,), 2, -1, True), ((2,), 2, 0, True), ((4,), 1, 2, False), ((2, 1, 2), 1, 0, True)]
    for shape, n, e, sg in A:
        size = (n + sg) * int(np.prod(shape))
        new("array/float/%s.%d.%d.%d" % ("x".join(map(str, shape)), n, e, sg), lambda shape=shape, n=n, e=e, sg=sg: Q.QuantumArray(Q.QuantumFloat(n, e, signed=sg), shape), size,
            lambda k, shape=shape, n=n, e=e, sg=sg: arr(k, shape, n + sg, qf(e, sg, n + sg)), back=False)
    new("array/bool", lambda: Q.QuantumArray(Q.QuantumBool(), (2, 3)), 6, lambda k: arr(k, (2, 3), 1, bool), back=False)
    new("array/char", lambda: Q.QuantumArray(Q.QuantumChar(), (1,)), 5, lambda k: arr(k, (1,), 5, lambda j: nisq[j]), back=False)
    new("array/modulus", lambda: Q.QuantumArray(Q.QuantumModulus(3), (2,)), 4, lambda k: arr(k, (2,), 2, lambda j: j if j < 3 else float("nan")), back=False)
    new("string/1", lambda: Q.QuantumString(1), 5, lambda k: nisq[k], back=False)

    def helper(tag, fn, n, goal, extra=()):
        def run():
            i = i64()
            return Case(tag, fn, (IA,), (i,), list(extra) or rng(i, n), lambda r: goal(r, i), limit=2 ** n + 4)()
        add(tag, run)

    from qrisp.misc import utility as U
    for n in range(1, 6):
        def bits(r, i, n=n):
            t = terms_of(r)
            if t is None:
                return z3.Not(z3.And(i >= 0, i < 2 ** n))
            s = t[0].v
            if len(s) != n:
                return False
            return i == sum(int(b) << (n - 1 - j) for j, b in enumerate(s))
        i = i64()
        helper("bin_rep/%d" % n, lambda w, n=n: Box(U.bin_rep(w, n)), n, bits, [i >= -3, i < 2 ** n + 3])
        helper("int_as_array/%d" % n, lambda w, n=n: Box(list(U.int_as_array(w, n))), n, bits)
        helper("as_int/%d" % n, lambda w, n=n: U.array_as_int(U.int_as_array(w, n)), n, lambda r, i: False if terms_of(r) is None else as_bv(terms_of(r)[0]) == i)

        def enc(r, i, n=n):
            t = terms_of(r)
            if t is None:
                return z3.Not(z3.ULT(i, z3.BitVecVal(2 ** n, 64)))
            return i == sum(1 << j for j in t[0].v)
        if n < 5:
            helper("int_encoder/%d" % n, lambda w, n=n: Box(flips(n, w)), n, enc, [i >= 0, i < 2 ** n + 2])


def elementwise(qa):
    """decoding of a known element pattern is evaluated instead of traced"""
    import jax
    orig = qa.qtype.decoder

    def dec(k):
        if isinstance(k, int):
            with jax.ensure_compile_time_eval():
                return orig(k)
        return orig(k)
    qa.qtype.decoder = dec


class Box:
    """a plain Python result (kept out of the traced outputs)"""
    def __new__(cls, v):
        from ..jaxfork import TR
        if isinstance(v, TR):
            return v
        b = object.__new__(cls)
        b.v = v
        return b

    def __repr__(self):
        return repr(self.v)


def eq(a, b):
    import numpy as np
    b = b.v if isinstance(b, Box) else b
    if isinstance(a, np.ndarray):
        b = np.asarray(b)
        return a.shape == b.shape and all(eq(x, y) for x, y in zip(a.ravel(), b.ravel()))
    if isinstance(a, float) and a != a:
        return isinstance(b, float) and b != b
    if isinstance(a, (bool, str)):
        return type(a) is type(b) and a == b
    try:
        return bool(a == b)
    except Exception:
        return False


def flips(n, w):
    """positions of the qubits flipped by int_encoder"""
    import qrisp as Q
    from qrisp.misc.utility import int_encoder
    qv = Q.QuantumVariable(n)
    int_encoder(qv, w)
    out = []
    for ins in qv.qs.data:
        if ins.op.name == "qb_alloc":
            continue
        if ins.op.name != "x":
            raise AssertionError("unexpected gate " + ins.op.name)
        out.append([q.identifier for q in qv.reg].index(ins.qubits[0].identifier))
    if len(set(out)) != len(out):
        raise AssertionError("qubit flipped twice")
    return out


def cases(tier):
    out = []
    big = tier == "thorough"

    def add(tag, fn):
        out.append((tag, fn))
    float_cases(add, big)
    modulus_cases(add, big)
    table_cases(add, big)
    return out
