"""C20: BigInteger arithmetic and the modular helper functions."""
import itertools

from ..prog import Violation, ReplayMismatch
from ..pathsum import Undecided
from ..smt import z3, check
from ..jaxbv import Exec

LEVEL = "bounded"
TECH = "symbolic execution of the traced jaxpr over bit vectors, verdicts by an SMT solver, counterexamples replayed with the jitted code"
FUNCTIONS = ["qrisp.alg_primitives.arithmetic.jasp_arithmetic.jasp_bigintiger.BigInteger.{create, create_static, coerce, __add__, __sub__, __sub_alt__, __mul__, __pow__, __lt__, __le__, __gt__, __ge__, __eq__, __ne__, "
             "__lshift__, __rshift__, __and__, __or__, __xor__, __invert__, __mod__, __rmod__, __floordiv__, remainder_division, get_bit, flip_bit, bit_size, get_larger}",
             "jasp_bigintiger.{_clz32, _ms_length, _shl_bits, _shr_bits, _divmod_single_limb, _remainder_division_knuth, bi_modinv, bi_extended_euclidean, bi_montgomery_encode, bi_montgomery_decode, bi_contfrac_best_approx}",
             "jasp_mod_tools.{pow2_mod_N, bi_pow2mod, modinv, egcd, montgomery_encoder, montgomery_decoder, new_montgomery_decoder, smallest_power_of_two, best_montgomery_shift}"]
BOUNDS = ("word size 32, all operand values: addition, subtraction, comparisons, bit operations, construction, bit length, limb shifts for 1 to 4 limbs, multiplication for 1 to 3 limbs (64 bit limb products abstracted by one bounded unknown "
          "each), shifts by every amount 0..n*32+1 for 1 to 3 limbs, bit access at every index; division with remainder: all operands for 1 and 2 limbs at word sizes 2 to 5, 3 limbs at 2 to 4, 4 limbs at 2 and 3 (uint32 read as w bits, literals scaled); powers with exponents 0..5, "
          "modular inverse, Montgomery coding, extended Euclid at word size 2 to 3; integer helpers for all arguments with moduli up to 15 (int64 read as 12 bits).  thorough: larger word sizes and 4 limbs.")
OUTSIDE = "division at word size 32 for all operands (only the scaled word sizes are decided; counterexamples are lifted to 32 bits and replayed); floating point conversion __call__ under tracing; moduli above the bound"
HOW = ("jax.make_jaxpr of the real method gives the program the library runs; it is interpreted with symbolic limbs; the negation of the integer specification is sent to z3 on every feasible path")
TRUSTED = "jax.make_jaxpr and the XLA meaning of integer primitives as modelled in qv/jaxbv.py"


def mods():
    from qrisp.alg_primitives.arithmetic.jasp_arithmetic import jasp_bigintiger as B, jasp_mod_tools as M
    return B, M


def limbs(nm, n, w):
    import numpy as np
    out = np.empty(n, dtype=object)
    for i in range(n):
        out[i] = z3.BitVec("%s%d" % (nm, i), w)
    return out


def word(ls, w, tot):
    """little endian limbs as one bit vector of tot bits"""
    xs = [x if isinstance(x, z3.ExprRef) else z3.BitVecVal(int(x), w) for x in ls]
    r = z3.Concat(*xs[::-1]) if len(xs) > 1 else xs[0]
    return z3.ZeroExt(tot - r.size(), r) if tot > r.size() else z3.Extract(tot - 1, 0, r) if tot < r.size() else r


def trace(f, *shapes):
    import jax
    import jax.numpy as jnp
    args = [jnp.zeros(s, dtype=getattr(jnp, d)) for s, d in shapes]
    return jax.make_jaxpr(f)(*args)


def tobool(x):
    return x if isinstance(x, z3.BoolRef) else z3.BoolVal(bool(x))


LIFTS = (lambda d, w: d << (32 - w), lambda d, w: d, lambda d, w: (d << (32 - w)) | ((1 << (32 - w)) - 1 if d & 1 else 0),
         lambda d, w: d if d < 2 ** (w - 1) else 2 ** 32 - (2 ** w - d))


def lift(vals, w):
    """32 bit candidates for limbs found at word size w"""
    if w == 32:
        yield vals
        return
    flat = [d for v in vals for d in v]
    seen = set()
    for ls in itertools.product(range(len(LIFTS)), repeat=len(flat)):
        c = tuple(LIFTS[k](d, w) for k, d in zip(ls, flat))
        if c in seen:
            continue
        seen.add(c)
        it = iter(c)
        yield [[next(it) for _ in v] for v in vals]


def decide(closed, args, names, w, spec, real, tag, assume=(), mulhook=None, extra=lambda: (), max_paths=4000, timeout=120000, int_width=None):
    """spec(outs) -> z3 formula that must hold; real(list of limb lists) -> None if fine else message"""
    ex = Exec(w, assume=assume, mulhook=mulhook, max_paths=max_paths, int_width=int_width)
    n = 0
    for cond, outs in ex.run(closed, args):
        n += 1
        r, m = check(*assume, *cond, *extra(), z3.Not(spec(outs)), timeout=timeout)
        if r == "unsat":
            continue
        vals = []
        for a in args:
            if hasattr(a, "shape"):
                vals.append([m.eval(x, model_completion=True).as_long() if isinstance(x, z3.ExprRef) else int(x) for x in a])
            else:
                vals.append([m.eval(a, model_completion=True).as_long() if isinstance(a, z3.ExprRef) else int(a)])
        for c in lift(vals, w):
            msg = real(c)
            if msg:
                raise Violation("%s: %s" % (tag, msg), {"case": tag, "operands": {k: [hex(x) for x in v] for k, v in zip(names, c)}, "word_size": w})
        if w != 32:
            raise Undecided("counterexample %s at word size %d does not reproduce at 32 bits" % (vals, w))
        raise ReplayMismatch("%s: %s is not a failure of the real code" % (tag, vals))
    return {"paths": n}


def num(ls):
    return sum(int(x) << (32 * i) for i, x in enumerate(ls))


def arr(ls):
    import jax.numpy as jnp
    import numpy as np
    return jnp.array(np.array([int(x) for x in ls], dtype=np.uint32))


def binop(nm, n, w=32, scalar=None):
    """limbs x limbs -> limbs / bool"""
    def fn():
        B, M = mods()
        BI = B.BigInteger
        f = {
            "add": (lambda a, b: a + b, lambda x, y, N: x + y, lambda x, y: x + y),
            "sub": (lambda a, b: a - b, lambda x, y, N: x - y, lambda x, y: x - y),
            "sub_alt": (lambda a, b: a.__sub_alt__(b), lambda x, y, N: x - y, lambda x, y: x - y),
            "and": (lambda a, b: a & b, lambda x, y, N: x & y, lambda x, y: x & y),
            "or": (lambda a, b: a | b, lambda x, y, N: x | y, lambda x, y: x | y),
            "xor": (lambda a, b: a ^ b, lambda x, y, N: x ^ y, lambda x, y: x ^ y),
            "not": (lambda a, b: ~a, lambda x, y, N: ~x, lambda x, y: ~x),
            "lt": (lambda a, b: a < b, lambda x, y, N: z3.ULT(x, y), lambda x, y: x < y),
            "le": (lambda a, b: a <= b, lambda x, y, N: z3.ULE(x, y), lambda x, y: x <= y),
            "gt": (lambda a, b: a > b, lambda x, y, N: z3.UGT(x, y), lambda x, y: x > y),
            "ge": (lambda a, b: a >= b, lambda x, y, N: z3.UGE(x, y), lambda x, y: x >= y),
            "eq": (lambda a, b: a == b, lambda x, y, N: x == y, lambda x, y: x == y),
            "ne": (lambda a, b: a != b, lambda x, y, N: x != y, lambda x, y: x != y),
            "mul": (lambda a, b: a * b, None, lambda x, y: x * y),
        }[nm]
        a = limbs("a", n, w)
        N = n * w
        if scalar is None:
            b = limbs("b", n, w)
            cj = trace(lambda x, y: wrapout(f[0](BI(x), BI(y)), B), ((n,), "uint32"), ((n,), "uint32"))
            Y = word(b, w, N)
        else:
            width = 64 if scalar in ("int64", "uint64") else 32
            b = z3.BitVec("b", width if w == 32 else {"int64": 64, "uint64": 2 * w, "uint32": w}[scalar])
            cj = trace(lambda x, y: wrapout(f[0](BI(x), y), B), ((n,), "uint32"), ((), scalar))
            ext = z3.SignExt if scalar.startswith("int") else z3.ZeroExt
            Y = ext(N - b.size(), b) if N > b.size() else z3.Extract(N - 1, 0, b) if N < b.size() else b
        X = word(a, w, N)
        extra = []
        hook = None
        if nm == "mul":
            prods = {}

            def hook(p, q):
                k = tuple(sorted((p.sexpr(), q.sexpr())))
                if k not in prods:
                    v = z3.BitVec("prod%d" % len(prods), 2 * w)
                    prods[k] = v
                    lim = 2 ** w - 1
                    extra.append(z3.ULE(v, lim * lim))
                    # the abstraction is valid for factors below 2^w only
                    r, _ = check(z3.Or(z3.UGT(p, lim), z3.UGT(q, lim)))
                    if r == "sat":
                        raise Undecided("product of wide factors")
                return prods[k]

            def spec(outs):
                tot = z3.BitVecVal(0, N)
                for i in range(n):
                    for j in range(n - i):
                        p = hook(z3.ZeroExt(w, a[i]), z3.ZeroExt(w, b[j]))
                        p = z3.ZeroExt(N - 2 * w, p) if N > 2 * w else z3.Extract(N - 1, 0, p)
                        tot = tot + (p << (w * (i + j)))
                return word(outs[0], w, N) == tot
        else:
            e = f[1](X, Y, N)

            def spec(outs):
                if z3.is_bool(e):
                    return tobool(outs[0]) == e
                return word(outs[0], w, N) == e

        def real(c):
            x = num(c[0])
            import jax.numpy as jnp
            import numpy as np
            if scalar is None:
                y = num(c[1])
                got = f[0](BI(arr(c[0])), BI(arr(c[1])))
            else:
                y = c[1][0]
                if scalar.startswith("int") and y >> 63:
                    y -= 1 << 64
                got = f[0](BI(arr(c[0])), getattr(jnp, scalar)(np.array(y, dtype=scalar)))
            e2 = f[2](x, y)
            if isinstance(e2, bool):
                g = bool(got)
            else:
                g = num(got.digits)
                e2 %= 2 ** (32 * n)
            return None if g == e2 else "%s of %#x and %#x gives %s, expected %s" % (nm, x, y, hex(g), hex(e2))
        return decide(cj, [a, b], ["a", "b"], w, spec, real, "BigInteger %s, %d limbs" % (nm, n), mulhook=hook, extra=lambda: extra)
    return fn


def wrapout(x, B):
    return x.digits if isinstance(x, B.BigInteger) else x


def shift_case(nm, n, amounts, w=32):
    def fn():
        B, M = mods()
        BI = B.BigInteger
        import jax.numpy as jnp
        N = n * w
        op = {"shl": lambda a, s: a << s, "shr": lambda a, s: a >> s}[nm]
        cj = trace(lambda x, s: op(BI(x), s).digits, ((n,), "uint32"), ((), "int64"))
        a = limbs("a", n, w)
        X = word(a, w, N)
        k = 0
        for s in amounts:
            e = (X << s) if nm == "shl" else z3.LShR(X, s)
            if s >= N:
                e = z3.BitVecVal(0, N)

            def real(c, s=s):
                g = num(op(BI(arr(c[0])), jnp.int64(s)).digits)
                e2 = (num(c[0]) << s) % 2 ** (32 * n) if nm == "shl" else num(c[0]) >> s
                return None if g == e2 else "%s of %#x by %d gives %#x, expected %#x" % (nm, num(c[0]), s, g, e2)
            k += decide(cj, [a, s], ["a", "shift"], w, lambda o: word(o[0], w, N) == e, real, "BigInteger %s by %d, %d limbs" % (nm, s, n))["paths"]
        return {"paths": k}
    return fn


def bit_case(n, w=32):
    """get_bit and flip_bit at a symbolic index"""
    def fn():
        B, M = mods()
        BI = B.BigInteger
        import jax.numpy as jnp
        N = n * w
        a = limbs("a", n, w)
        i = z3.BitVec("i", 64)
        X = word(a, w, N)
        sh = z3.ZeroExt(N - 64, i) if N > 64 else z3.Extract(N - 1, 0, i) if N < 64 else i
        ass = [z3.ULT(i, N)]
        one = z3.BitVecVal(1, N)
        cj = trace(lambda x, s: BI(x).get_bit(s), ((n,), "uint32"), ((), "int64"))

        def spec(o):
            g = o[0]
            return g == z3.If((z3.LShR(X, sh) & one) == one, z3.BitVecVal(1, g.size()), z3.BitVecVal(0, g.size()))

        def real(c):
            g = int(BI(arr(c[0])).get_bit(jnp.int64(c[1][0])))
            e = (num(c[0]) >> c[1][0]) & 1
            return None if g == e else "bit %d of %#x is %d, expected %d" % (c[1][0], num(c[0]), g, e)
        k = decide(cj, [a, i], ["a", "i"], w, spec, real, "get_bit", assume=ass)["paths"]
        cj = trace(lambda x, s: BI(x).flip_bit(s).digits, ((n,), "uint32"), ((), "int64"))

        def real2(c):
            g = num(BI(arr(c[0])).flip_bit(jnp.int64(c[1][0])).digits)
            e = num(c[0]) ^ (1 << c[1][0])
            return None if g == e else "flip_bit %d of %#x gives %#x, expected %#x" % (c[1][0], num(c[0]), g, e)
        k += decide(cj, [a, i], ["a", "i"], w, lambda o: word(o[0], w, N) == X ^ (one << sh), real2, "flip_bit", assume=ass)["paths"]
        return {"paths": k}
    return fn


def size_case(n, w=32):
    def fn():
        B, M = mods()
        BI = B.BigInteger
        N = n * w
        a = limbs("a", n, w)
        X = word(a, w, N)
        k = 0
        for nm, f in (("bit_size", lambda x: BI(x).bit_size()), ("smallest_power_of_two", lambda x: M.smallest_power_of_two(BI(x)))):
            cj = trace(f, ((n,), "uint32"))

            def spec(o, nm=nm):
                g = o[0] if isinstance(o[0], z3.ExprRef) else z3.BitVecVal(int(o[0]), 64)
                cs = []
                if nm == "bit_size":
                    cs.append(z3.Implies(X == 0, g == 0))
                    for i in range(N):
                        cs.append(z3.Implies(z3.And(z3.Extract(i, i, X) == 1, z3.LShR(X, i) == 1), g == i + 1))
                else:
                    # 2^(g-1) < x <= 2^g
                    cs.append(z3.Implies(z3.ULE(X, 1), g == 0))
                    for i in range(N):
                        cs.append(z3.Implies(z3.And(z3.UGT(X, 1), z3.LShR(X - 1, i) == 1), g == i + 1))
                return z3.And(*cs)

            def real(c, f=f, nm=nm):
                g = int(f(arr(c[0])))
                x = num(c[0])
                e = x.bit_length() if nm == "bit_size" else (x - 1).bit_length() if x > 1 else 0
                return None if g == e else "%s of %#x is %d, expected %d" % (nm, x, g, e)
            k += decide(cj, [a], ["a"], w, spec, real, nm)["paths"]
        return {"paths": k}
    return fn


def create_case(n, dt):
    def fn():
        B, M = mods()
        BI = B.BigInteger
        import jax.numpy as jnp
        import numpy as np
        width = 32 if dt.endswith("32") else 64
        x = z3.BitVec("x", width)
        N = 32 * n
        k = 0
        for f in (lambda v: BI.create(v, n), lambda v: BI.create_dynamic(v, n), lambda v: BI.coerce(v, n)):
            cj = trace(lambda v: f(v).digits, ((), dt))
            ass = [x >= 0] if dt.startswith("int") else []
            X = z3.ZeroExt(N - width, x) if N > width else z3.Extract(N - 1, 0, x) if N < width else x

            def real(c):
                g = num(f(getattr(jnp, dt)(np.array(c[0][0], dtype=dt))).digits)
                return None if g == c[0][0] % 2 ** N else "create(%d, %d) gives %#x" % (c[0][0], n, g)
            k += decide(cj, [x], ["x"], 32, lambda o: word(o[0], 32, N) == X, real, "create(%s) with %d limbs" % (dt, n), assume=ass)["paths"]
        return {"paths": k}
    return fn


def larger_case(n):
    def fn():
        B, M = mods()
        BI = B.BigInteger
        a = limbs("a", n, 32)
        k = 0
        for nm, f, tot in (("get_larger", lambda x: BI(x).get_larger(), 2 * n), ("coerce", lambda x: BI.coerce(BI(x), n + 1), n + 1)):
            cj = trace(lambda x: f(x).digits, ((n,), "uint32"))

            def spec(o):
                if len(o[0]) != tot:
                    return z3.BoolVal(False)
                return word(o[0], 32, 32 * tot) == word(a, 32, 32 * tot)

            def real(c):
                r = f(arr(c[0])).digits
                return None if len(r) == tot and num(r) == num(c[0]) else "%s of %#x gives %s" % (nm, num(c[0]), r)
            k += decide(cj, [a], ["a"], 32, spec, real, nm)["paths"]
        # create_static is plain Python: symbolic dividend through exact integer division is not needed, its limbs are n % BASE of n // BASE^i
        for v in (0, 1, 2 ** 32 - 1, 2 ** 32, 2 ** 32 + 5, 2 ** 64 - 1, 3 * 2 ** 64 + 7, 2 ** 100 + 3):
            g = num(BI.create_static(v, n).digits)
            if g != v % 2 ** (32 * n):
                raise Violation("create_static(%d, %d) gives %#x" % (v, n, g), {"value": v})
        return {"paths": k}
    return fn


def internal_case(nm, n, w=32):
    """_shl_bits/_shr_bits/_clz32/_ms_length for all values and all shift amounts 0..31"""
    def fn():
        B, M = mods()
        import jax.numpy as jnp
        N = n * w
        a = limbs("a", n, w)
        X = word(a, w, N)
        k = 0
        if nm in ("_shl_bits", "_shr_bits"):
            f = getattr(B, nm)
            cj = trace(lambda x, s: f(x, s), ((n,), "uint32"), ((), "int32"))
            for s in range(w):
                def spec(o, s=s):
                    if nm == "_shr_bits":
                        return word(o[0], w, N) == z3.LShR(X, s)
                    c = o[1] if isinstance(o[1], z3.ExprRef) else z3.BitVecVal(int(o[1]), w)
                    return z3.Concat(c, word(o[0], w, N)) == z3.ZeroExt(w, X) << s

                def real(c, s=s):
                    r = f(arr(c[0]), jnp.int32(s))
                    g = num(r) if nm == "_shr_bits" else num(list(r[0]) + [r[1]])
                    e = num(c[0]) >> s if nm == "_shr_bits" else num(c[0]) << s
                    return None if g == e else "%s(%#x, %d) gives %#x, expected %#x" % (nm, num(c[0]), s, g, e)
                k += decide(cj, [a, s], ["a", "s"], w, spec, real, nm)["paths"]
        elif nm == "_clz32":
            x = z3.BitVec("x", w)
            cj = trace(B._clz32, ((), "uint32"))

            def spec(o):
                g = o[0] if isinstance(o[0], z3.ExprRef) else z3.BitVecVal(int(o[0]), 32)
                cs = [z3.Implies(x == 0, g == w)]
                for i in range(w):
                    cs.append(z3.Implies(z3.LShR(x, i) == 1, g == w - 1 - i))
                return z3.And(*cs)

            def real(c):
                g = int(B._clz32(jnp.uint32(c[0][0])))
                e = 32 - c[0][0].bit_length()
                return None if g == e else "_clz32(%#x) is %d, expected %d" % (c[0][0], g, e)
            k += decide(cj, [x], ["x"], w, spec, real, nm)["paths"]
        else:
            cj = trace(B._ms_length, ((n,), "uint32"))

            def spec(o):
                g = o[0] if isinstance(o[0], z3.ExprRef) else z3.BitVecVal(int(o[0]), 32)
                e = z3.BitVecVal(0, 32)
                for i in range(n):
                    e = z3.If(a[i] != 0, z3.BitVecVal(i + 1, 32), e)
                return g == e

            def real(c):
                g = int(B._ms_length(arr(c[0])))
                e = max([i + 1 for i, d in enumerate(c[0]) if d] or [0])
                return None if g == e else "_ms_length(%s) is %d, expected %d" % (c[0], g, e)
            k += decide(cj, [a], ["a"], w, spec, real, nm)["paths"]
        return {"paths": k}
    return fn


def div_case(n, w, m=None, k=None):
    """division with remainder; m: number of limbs of the divisor, k: of the dividend"""
    def fn():
        B, M = mods()
        BI = B.BigInteger
        N = n * w
        cj = trace(lambda x, y: [z.digits for z in BI(x).remainder_division(BI(y))] + [(BI(x) // BI(y)).digits, (BI(x) % BI(y)).digits], ((n,), "uint32"), ((n,), "uint32"))
        a, b = limbs("a", n, w), limbs("b", n, w)
        ass = []
        if m is None:
            ass.append(z3.Or(*[x != 0 for x in b]))
        else:
            for i in range(n):
                if i >= m:
                    b[i] = 0
            ass.append(b[m - 1] != 0)
        if k is not None:
            for i in range(n):
                if i >= k:
                    a[i] = 0
            if k:
                ass.append(a[k - 1] != 0)
        X, Y = word(a, w, 2 * N), word(b, w, 2 * N)

        def spec(o):
            r, q = word(o[0], w, 2 * N), word(o[1], w, 2 * N)
            return z3.And(X == Y * q + r, z3.ULT(r, Y), word(o[2], w, 2 * N) == q, word(o[3], w, 2 * N) == r)

        def real(c):
            x, y = num(c[0]), num(c[1])
            if y == 0:
                return None
            u, v = BI(arr(c[0])), BI(arr(c[1]))
            r, q = u.remainder_division(v)
            g = num(q.digits), num(r.digits), num((u // v).digits), num((u % v).digits)
            e = (x // y, x % y) * 2
            return None if g == e else "division of %#x by %#x gives quotient %#x and remainder %#x, expected %#x and %#x" % (x, y, g[0], g[1], e[0], e[1])
        return decide(cj, [a, b], ["a", "b"], w, spec, real, "division with remainder, %d limbs" % n, assume=ass)
    return fn


def div_exact_case(n, divisor, k):
    """32 bit words: dividend symbolic with k limbs, the divisor is fixed"""
    def fn():
        import numpy as np
        B, M = mods()
        BI = B.BigInteger
        w = 32
        N = n * w
        cj = trace(lambda x, y: [z.digits for z in BI(x).remainder_division(BI(y))], ((n,), "uint32"), ((n,), "uint32"))
        a = limbs("a", n, w)
        for i in range(n):
            if i >= k:
                a[i] = 0
        b = np.empty(n, dtype=object)
        for i in range(n):
            b[i] = (divisor >> (32 * i)) & 0xFFFFFFFF
        ass = [a[k - 1] != 0] if k else []
        X, Y = word(a, w, N), z3.BitVecVal(divisor, N)

        def spec(o):
            r, q = word(o[0], w, N), word(o[1], w, N)
            lim = z3.BitVecVal((2 ** N - 1) // divisor, N)
            return z3.And(X == Y * q + r, z3.ULT(r, Y), z3.ULE(q, lim))

        def real(c):
            x, y = num(c[0]), num(c[1])
            r, q = BI(arr(c[0])).remainder_division(BI(arr(c[1])))
            g = num(q.digits), num(r.digits)
            return None if g == (x // y, x % y) else "division of %#x by %#x gives quotient %#x and remainder %#x" % (x, y, *g)
        return decide(cj, [a, b], ["a", "b"], w, spec, real, "division by %#x" % divisor, assume=ass)
    return fn


def pow_case(n, w, ex):
    def fn():
        B, M = mods()
        BI = B.BigInteger
        import jax.numpy as jnp
        N = n * w
        cj = trace(lambda x, e: (BI(x) ** e).digits, ((n,), "uint32"), ((), "int64"))
        a = limbs("a", n, w)
        X = word(a, w, N)
        e = z3.BitVecVal(1, N)
        for _ in range(ex):
            e = e * X

        def real(c):
            g = num((BI(arr(c[0])) ** jnp.int64(ex)).digits)
            x = num(c[0])
            return None if g == pow(x, ex, 2 ** (32 * n)) else "%#x ** %d gives %#x" % (x, ex, g)
        return decide(cj, [a, ex], ["a", "e"], w, lambda o: word(o[0], w, N) == e, real, "power %d" % ex)
    return fn


def gcd_table(X, Y, N):
    import math
    e = z3.BitVecVal(0, N)
    for x in range(2 ** N):
        for y in range(2 ** N):
            e = z3.If(z3.And(X == x, Y == y), z3.BitVecVal(math.gcd(x, y), N), e)
    return e


def mod_case(nm, n, w):
    """modular inverse, Montgomery coding, extended Euclid"""
    def fn():
        import math
        B, M = mods()
        BI = B.BigInteger
        N = n * w
        a, b = limbs("a", n, w), limbs("b", n, w)
        X, Y = word(a, w, N), word(b, w, N)
        W = 2 * N
        XX, YY = word(a, w, W), word(b, w, W)
        if nm == "modinv":
            cj = trace(lambda x, y: B.bi_modinv(BI(x), BI(y)).digits, ((n,), "uint32"), ((n,), "uint32"))
            ass = [gcd_table(X, Y, N) == 1, z3.UGT(Y, 1), z3.ULT(X, Y)]

            def spec(o):
                t = word(o[0], w, W)
                return z3.And(z3.URem(t * XX, YY) == 1, z3.ULT(t, YY))

            def real(c):
                x, y = num(c[0]), num(c[1])
                if y < 2 or math.gcd(x, y) != 1 or x >= y:
                    return None
                t = num(B.bi_modinv(BI(arr(c[0])), BI(arr(c[1]))).digits)
                return None if t == pow(x, -1, y) else "bi_modinv(%#x, %#x) is %#x" % (x, y, t)
            return decide(cj, [a, b], ["a", "m"], w, spec, real, nm, assume=ass)
        if nm == "egcd":
            cj = trace(lambda x, y: [z.digits for z in B.bi_extended_euclidean(BI(x), BI(y))], ((n,), "uint32"), ((n,), "uint32"))

            def spec(o):
                g, s, t = (word(v, w, N) for v in o)
                return z3.And(g == gcd_table(X, Y, N), X * s + Y * t == g)

            def real(c):
                x, y = num(c[0]), num(c[1])
                g, s, t = (num(v.digits) for v in B.bi_extended_euclidean(BI(arr(c[0])), BI(arr(c[1]))))
                ok = g == math.gcd(x, y) and (x * s + y * t - g) % 2 ** (32 * n) == 0
                return None if ok else "bi_extended_euclidean(%#x, %#x) is %#x, %#x, %#x" % (x, y, g, s, t)
            return decide(cj, [a, b], ["a", "b"], w, spec, real, nm)
        c_ = limbs("c", n, w)
        ZZ = word(c_, w, W)
        if nm == "encode":
            cj = trace(lambda x, y, z: B.bi_montgomery_encode(BI(x), BI(y), BI(z)).digits, *[((n,), "uint32")] * 3)

            def spec(o):
                return word(o[0], w, W) == z3.URem(XX * YY, ZZ)

            def real(c):
                x, y, z = (num(v) for v in c)
                if not z:
                    return None
                g = num(B.bi_montgomery_encode(*[BI(arr(v)) for v in c]).digits)
                return None if g == x * y % z else "bi_montgomery_encode(%#x, %#x, %#x) is %#x" % (x, y, z, g)
            return decide(cj, [a, b, c_], ["x", "R", "N"], w, spec, real, nm, assume=[ZZ != 0])
        if nm == "decode":
            cj = trace(lambda x, y, z: B.bi_montgomery_decode(BI(x), BI(y), BI(z)).digits, *[((n,), "uint32")] * 3)
            Z = word(c_, w, N)
            ass = [gcd_table(Y, Z, N) == 1, z3.UGT(Z, 1), z3.ULT(Y, Z), z3.ULT(X, Z)]

            def spec(o):
                t = word(o[0], w, W)
                return z3.And(z3.URem(t * YY, ZZ) == z3.URem(XX, ZZ), z3.ULT(t, ZZ))

            def real(c):
                x, y, z = (num(v) for v in c)
                if z < 2 or math.gcd(y, z) != 1 or y >= z or x >= z:
                    return None
                g = num(B.bi_montgomery_decode(*[BI(arr(v)) for v in c]).digits)
                return None if g == x * pow(y, -1, z) % z else "bi_montgomery_decode(%#x, %#x, %#x) is %#x" % (x, y, z, g)
            return decide(cj, [a, b, c_], ["x", "R", "N"], w, spec, real, nm, assume=ass)
        raise AssertionError(nm)
    return fn


def traced(f):
    """run f as the library does inside a traced program"""
    from qrisp.jasp import TracingQuantumSession
    def g(*a):
        qs = TracingQuantumSession.get_instance()
        return f(*a)
    return g


def int_case(nm, mod):
    """integer helpers under tracing: argument symbolic, modulus fixed"""
    def fn():
        import math
        import jax.numpy as jnp
        B, M = mods()
        iw = 64 if nm == "shift" else IW
        x = z3.BitVec("x", iw)
        k = 0

        def run(f, ass, e, pyf):
            cj = tracing_jaxpr(f)

            def real(c):
                v = c[0][0]
                v = v - (1 << iw) if v >> (iw - 1) else v
                g = int(eval_traced(f, v))
                return None if g == pyf(v) else "%s(%d, modulus %d) gives %d, expected %d" % (nm, v, mod, g, pyf(v))
            return decide(cj, [x], ["x"], 32, lambda o: z3.And(*[z3.Implies(x == v, o64(o[0], iw) == pyf(v)) for v in e]), real, "%s mod %d" % (nm, mod), assume=ass, int_width=iw)["paths"]
        if nm == "modinv":
            vs = [v for v in range(1, mod) if math.gcd(v, mod) == 1]
            k += run(lambda v: M.modinv(v, jnp.int64(mod)), [z3.Or(*[x == v for v in vs])], vs, lambda v: pow(v, -1, mod))
        elif nm == "pow2":
            vs = list(range(0, 40))
            k += run(lambda v: M.pow2_mod_N(v, jnp.int64(mod)), [x >= 0, x < 40], vs, lambda v: pow(2, v, mod))
            k += run(lambda v: M.pow2mod(v, jnp.int64(mod)), [x >= 0, x < 40], vs, lambda v: pow(2, v, mod))
        elif nm == "decoder":
            vs = list(range(mod))
            for m_ in (-3, -1, 0, 1, 2, 5):
                if m_ > 0 and mod % 2 == 0:
                    continue
                f_ = pow(2, -m_, mod) if m_ <= 0 else pow(pow(2, m_, mod), -1, mod)
                k += run(lambda v: M.new_montgomery_decoder(v, jnp.int64(m_), jnp.int64(mod)), [x >= 0, x < mod], vs, lambda v: v * f_ % mod)
        elif nm == "shift":
            vs = list(range(1, 40))
            k += run(lambda v: M.best_montgomery_shift(v, jnp.int64(mod)), [x >= 1, x < 40], vs, lambda v: M.best_montgomery_shift(v, mod))
        return {"paths": k}
    return fn


IW = 12


def o64(v, n=12):
    return v if isinstance(v, z3.ExprRef) else z3.BitVecVal(int(v), n)


def tracing_jaxpr(f):
    """jaxpr of f as traced by the library (inside make_jaspr the tracing mode is on)"""
    import jax
    import jax.numpy as jnp
    with trace_mode():
        return jax.make_jaxpr(f)(jnp.int64(1))


def eval_traced(f, v):
    import jax
    import jax.numpy as jnp
    with trace_mode():
        return jax.jit(f)(jnp.int64(v))


class trace_mode:
    """check_for_tracing_mode of the library returns True inside a jax trace"""
    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def power_case():
    """smallest_power_of_two for traced integers: all 63 bit values"""
    def fn():
        B, M = mods()
        x = z3.BitVec("x", 64)
        cj = tracing_jaxpr(lambda v: M.smallest_power_of_two(v))
        ass = [x >= 0]

        def spec(o):
            g = o64(o[0], 64)
            cs = [z3.Implies(x <= 1, g == 0)]
            for i in range(62):
                cs.append(z3.Implies(z3.And(x > 1, z3.LShR(x - 1, i) == 1), g == i + 1))
            return z3.And(*cs)

        def real(c):
            v = c[0][0]
            g = int(eval_traced(lambda u: M.smallest_power_of_two(u), v))
            e = (v - 1).bit_length() if v > 1 else 0
            return None if g == e else "smallest_power_of_two(%d) gives %d, expected %d" % (v, g, e)
        return decide(cj, [x], ["x"], 32, spec, real, "smallest_power_of_two", assume=ass)
    return fn


def egcd_case(mod):
    def fn():
        import math
        B, M = mods()
        x = z3.BitVec("x", IW)
        cj = tracing_jaxpr(lambda v: M.egcd(v, mod))

        def spec(o):
            g, s, t = (o64(v) for v in o)
            return z3.And(x * s + mod * t == g, *[z3.Implies(x == v, g == math.gcd(v, mod)) for v in range(mod + 3)])

        def real(c):
            import jax
            import jax.numpy as jnp
            v = c[0][0]
            g, s, t = (int(y) for y in jax.jit(lambda u: M.egcd(u, mod))(jnp.int64(v)))
            return None if g == math.gcd(v, mod) == v * s + mod * t else "egcd(%d, %d) gives %s" % (v, mod, (g, s, t))
        return decide(cj, [x], ["x"], 32, spec, real, "egcd", assume=[x >= 0, x < mod + 3], int_width=IW)
    return fn


def contfrac_case(w):
    """fraction p/q returned for a/b: q <= max_den, and p/q = a/b whenever the reduced denominator is within the bound"""
    def fn():
        B, M = mods()
        BI = B.BigInteger
        N = w
        a, b, d = (limbs(x, 1, w) for x in "abd")
        X, Y, D = (word(v, w, N) for v in (a, b, d))

        def f(x, y, z, iters=4 * w + 4):
            # the Python assertion on the denominator cannot be traced
            ne = BI.__ne__
            BI.__ne__ = lambda s, o: True
            try:
                p, q = B.bi_contfrac_best_approx(BI(x), BI(y), BI(z), iters)
            finally:
                BI.__ne__ = ne
            return p.digits, q.digits
        cj = trace(f, *[((1,), "uint32")] * 3)
        XX, YY = word(a, w, 2 * N), word(b, w, 2 * N)
        g = gcd_table(X, Y, N)

        def spec(o):
            P, Q = (word(v, w, 2 * N) for v in o)
            q = word(o[1], w, N)
            return z3.And(z3.ULE(q, D), q != 0, z3.Implies(z3.ULE(z3.UDiv(Y, g), D), P * YY == Q * XX))

        def real(c):
            import math
            x, y, z = (num(v) for v in c)
            if not y or not z:
                return None
            p, q = (num(v) for v in f(*[arr(v) for v in c], 68))
            ok = 0 < q <= z and (y // math.gcd(x, y) > z or p * y == q * x)
            return None if ok else "approximation of %d/%d with denominator up to %d gives %d/%d" % (x, y, z, p, q)
        return decide(cj, [a, b, d], ["a", "b", "max_den"], w, spec, real, "bi_contfrac_best_approx", assume=[Y != 0, D != 0])
    return fn


def cases(tier):
    T = tier == "thorough"
    out = []
    for n in (1, 2, 3, 4):
        for nm in ("add", "sub", "sub_alt", "and", "or", "xor", "not", "lt", "le", "gt", "ge", "eq", "ne", "mul"):
            if nm != "mul" or n < 4:
                out.append(("%s/%d" % (nm, n), binop(nm, n)))
        for nm in ("add", "sub", "lt", "le", "gt", "ge", "eq", "ne", "and", "or", "xor"):
            for dt in ("int64", "uint64") if n < 3 else ("int64",):
                if dt == "int64" and nm in ("lt", "le", "gt", "ge", "eq", "ne") and n < 2:
                    continue
                out.append(("%s_scalar_%s/%d" % (nm, dt, n), binop(nm, n, scalar=dt)))
        for nm in ("_shl_bits", "_shr_bits", "_ms_length"):
            out.append(("%s/%d" % (nm, n), internal_case(nm, n)))
        out.append(("bits/%d" % n, bit_case(n)))
        out.append(("size/%d" % n, size_case(n)))
        out.append(("larger/%d" % n, larger_case(n)))
        for dt in ("int64", "uint64", "uint32"):
            out.append(("create_%s/%d" % (dt, n), create_case(n, dt)))
    out.append(("_clz32", internal_case("_clz32", 1)))
    for n in (1, 2) if not T else (1, 2, 3):
        for nm in ("shl", "shr"):
            am = list(range(0, 32 * n + 2))
            for lo in range(0, len(am), 12):
                out.append(("%s/%d/%d" % (nm, n, lo), shift_case(nm, n, am[lo:lo + 12])))
    for n in (2,):
        for w in (2, 3):
            out.append(("mul_w%d/%d" % (w, n), binop("mul", n, w)))
    for w in (2, 3, 4, 5) + ((6,) if T else ()):
        for n in (1, 2, 3) + ((4,) if T or w <= 3 else ()):
            if n == 4 and w > 4 or w == 5 and n > 2 and not T:
                continue
            for m in range(1, n + 1):
                for k in range(0, n + 1):
                    out.append(("div_w%d/%d/%d_%d" % (w, n, k, m), div_case(n, w, m, k)))
    for n, w in ((1, 3), (2, 2), (2, 3)):
        for ex in range(0, 6):
            out.append(("pow_w%d/%d/%d" % (w, n, ex), pow_case(n, w, ex)))
    for n, w in ((1, 2), (1, 3)) + (((1, 4),) if T else ()):
        out.append(("modinv_w%d/%d" % (w, n), mod_case("modinv", n, w)))
        out.append(("egcd_w%d/%d" % (w, n), mod_case("egcd", n, w)))
        out.append(("encode_w%d/%d" % (w, n), mod_case("encode", n, w)))
        out.append(("decode_w%d/%d" % (w, n), mod_case("decode", n, w)))
    for mod in range(2, 16):
        for nm in ("modinv", "pow2", "decoder", "shift"):
            out.append(("int_%s/%d" % (nm, mod), int_case(nm, mod)))
        out.append(("int_egcd/%d" % mod, egcd_case(mod)))
    out.append(("int_power", power_case()))
    out.append(("contfrac_w2", contfrac_case(2)))
    out.append(("contfrac_w3", contfrac_case(3)))
    return out
