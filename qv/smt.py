"""Translation of path-sum results to SMT and bookkeeping of solver queries."""
import sys
import time

TOOLS = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if TOOLS not in sys.path:
    sys.path.append(TOOLS)
import z3  # noqa: E402

from .pathsum import MOD, Undecided  # noqa: E402


class Stats:
    def __init__(self):
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.time = 0.0


STATS = Stats()


def check(*assertions, timeout=120000, want_model=True, solver=None):
    """('unsat', None) | ('sat', model); raises Undecided on unknown"""
    s = solver or z3.Solver()
    s.set("timeout", timeout)
    for a in assertions:
        s.add(a)
    t = time.time()
    r = s.check()
    STATS.time += time.time() - t
    STATS.queries += 1
    if r == z3.unsat:
        STATS.unsat += 1
        return "unsat", None
    if r == z3.sat:
        STATS.sat += 1
        return "sat", s.model()
    STATS.unknown += 1
    raise Undecided("solver returned unknown: %s" % s.reason_unknown())


class Encoder:
    """z3 terms for the Boolean polynomials of one PathState"""

    def __init__(self, st, shared_inputs=None, prefix=""):
        self.st = st
        self.prefix = prefix
        self.shared = shared_inputs
        self.cache = {}

    def var(self, v):
        t = self.cache.get(v)
        if t is not None:
            return t
        st = self.st
        if st.kind[v] == "def":
            t = self.anf(st.defs[v])
        elif st.kind[v] == "in":
            n = st.vname[v]
            t = z3.Bool("in!" + n)
        else:
            t = z3.Bool("%spath!%d" % (self.prefix, v))
        self.cache[v] = t
        return t

    def mono(self, m):
        if m == 0:
            return z3.BoolVal(True)
        vs = []
        while m:
            b = m & -m
            vs.append(self.var(b.bit_length() - 1))
            m ^= b
        return vs[0] if len(vs) == 1 else z3.And(*vs)

    def anf(self, f):
        if not f:
            return z3.BoolVal(False)
        ts = [self.mono(m) for m in sorted(f)]
        # balanced xor tree
        while len(ts) > 1:
            ts = [z3.Xor(ts[i], ts[i + 1]) if i + 1 < len(ts) else ts[i] for i in range(0, len(ts), 2)]
        return ts[0]

    def bv(self, anfs):
        """little endian list of anfs -> bit vector"""
        bits = [z3.If(self.anf(f), z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)) for f in anfs]
        if not bits:
            return None
        if len(bits) == 1:
            return bits[0]
        return z3.Concat(*bits[::-1])

    def phase_neq(self, ph, exclude_const=False):
        """formula: the dyadic part of the phase polynomial ph is not 0 mod 1 (or None if empty)"""
        items = [(m, k) for m, k in ph.items() if k % MOD and not (exclude_const and m == 0)]
        if not items:
            return None
        # dyadic?
        p = 0
        dy = True
        for _, k in items:
            d = 0
            kk = k % MOD
            while kk and d <= 25:
                kk = (2 * kk) % MOD
                d += 1
            if kk:
                dy = False
                break
            p = max(p, d)
        if dy:
            unit = MOD >> p
            if p == 1:
                ts = [self.mono(m) for m, _ in items]
                f = ts[0]
                for t in ts[1:]:
                    f = z3.Xor(f, t)
                return f
            tot = z3.BitVecVal(0, p)
            for m, k in items:
                tot = tot + z3.If(self.mono(m), z3.BitVecVal(k // unit, p), z3.BitVecVal(0, p))
            return tot != 0
        tot = z3.IntVal(0)
        for m, k in items:
            tot = tot + z3.If(self.mono(m), z3.IntVal(k), z3.IntVal(0))
        return tot % MOD != 0

    def lin_neq(self, d, exclude_const=False, scale=1):
        """formula: sum of rational coefficients over monomials is not 0"""
        items = [(m, c) for m, c in d.items() if c and not (exclude_const and m == 0)]
        if not items:
            return None
        tot = z3.RealVal(0)
        for m, c in items:
            tot = tot + z3.If(self.mono(m), z3.RealVal(str(c)), z3.RealVal(0))
        return tot != 0

    def float_neq(self, d, exclude_const=False, tol=1e-6):
        items = [(m, c) for m, c in d.items() if abs(c) > tol and not (exclude_const and m == 0)]
        if not items:
            return None
        tot = z3.RealVal(0)
        for m, c in items:
            tot = tot + z3.If(self.mono(m), z3.RealVal("%.15f" % c), z3.RealVal(0))
        k = z3.FreshInt("wrap")
        # not within tol of any integer: exists k with k+tol < tot < k+1-tol
        return z3.And(tot > z3.ToReal(k) + tol, tot < z3.ToReal(k) + 1 - tol)
