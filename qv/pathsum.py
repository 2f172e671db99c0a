"""Path-sum symbolic execution of Qrisp circuits.

A state is kept as

    sum over path variables y of  2^(-k/2) * exp(2*pi*i*phase(x, y)) |f_1(x,y) ... f_n(x,y)>

with x the symbolic input bits.  Every f_j is a Boolean polynomial over GF(2)
(set of integer bit masks, one per monomial, mask 0 is the constant 1) and
phase is a multilinear polynomial whose coefficients are

  * integers modulo MOD (turn fractions k/MOD),
  * rational multiples of symbolic angles,
  * floats (fractions of a turn) when an angle is neither of the above.

Large Boolean polynomials are replaced by defined variables (hash-consed), so
that the final question is a formula for the SMT solver and not a blown-up
normal form.

Hadamards introduce path variables.  They are removed by the two sound
rewrites HH (delta summation) and omega (Gauss sum).  What can not be removed
is left in the result and reported by the caller as undecided.
"""
from fractions import Fraction
import math
from itertools import combinations

MOD = (1 << 24) * 45
COARSE = 1 << 14
HALF = MOD // 2
QUART = MOD // 4
EIGHTH = MOD // 8
ONE = frozenset([0])
ZERO = frozenset()
FTOL = 1e-7


class Unsupported(Exception):
    """The engine has no semantics for something in the circuit."""


class Undecided(Exception):
    """The symbolic state could not be brought into a form the solver accepts."""


# ---------------------------------------------------------------- angles
def full_turn(a):
    """argument of exp(i a) without reductions modulo a full turn"""
    import sympy
    if isinstance(a, sympy.Basic) and a.has(sympy.Mod):
        def un(e, c):
            if not e.has(sympy.Mod):
                return e
            if e.func is sympy.Mod:
                k = float(c) * float(e.args[1]) / (2 * math.pi)
                if abs(k - round(k)) > 1e-9:
                    raise Unsupported("angle %s" % a)
                return un(e.args[0], c)
            if e.func is sympy.Add:
                return sympy.Add(*[un(t, c) for t in e.args])
            if e.func is sympy.Mul:
                num = [t for t in e.args if t.is_number]
                rest = [t for t in e.args if not t.is_number]
                if len(rest) == 1:
                    k = sympy.Mul(*num)
                    return k * un(rest[0], c * k)
            raise Unsupported("angle %s" % a)
        return un(a, 1)
    return a


def parse_angle(a):
    """angle in radians -> (int mod MOD, {symbol: Fraction turns per radian-symbol unit}, float turns).

    Symbol coefficients are rational multiples of the (radian valued) symbol.
    """
    t = type(a)
    if t in (int, float):
        return _num_angle(float(a))
    import sympy
    if isinstance(a, sympy.Basic):
        if a.is_number:
            return _num_angle(float(a))
        e = sympy.expand(a)
        syms = {}
        const = 0
        for term in sympy.Add.make_args(e):
            c, rest = term.as_coeff_Mul()
            fs = term.free_symbols
            if not fs:
                const = const + term
                continue
            if len(fs) != 1:
                raise Unsupported("nonlinear angle expression %s" % a)
            s = next(iter(fs))
            co = sympy.simplify(term / s)
            if co.free_symbols:
                raise Unsupported("nonlinear angle expression %s" % a)
            fr = Fraction(float(co)).limit_denominator(4096)
            if abs(float(fr) - float(co)) > 1e-9:
                raise Unsupported("irrational multiple in angle expression %s" % a)
            syms[str(s)] = syms.get(str(s), Fraction(0)) + fr
        k, _, fl = _num_angle(float(const))
        return k, {s: c for s, c in syms.items() if c}, fl
    return _num_angle(float(a))


def _num_angle(x):
    k = x / (2 * math.pi) * MOD
    r = round(k)
    tol = 1e-4 + abs(k) * 1e-13
    if abs(k - r) < tol:
        return r % MOD, None, 0.0
    # single precision results are read as the multiple of 2*pi/2^14 they round to
    t = x / (2 * math.pi)
    c = round(t * COARSE)
    if abs(t - c / COARSE) < 6e-8 * max(1.0, 2 * abs(t)):
        return c * (MOD // COARSE) % MOD, None, 0.0
    return 0, None, math.fmod(x / (2 * math.pi), 1.0)


def neg_angle(a):
    k, s, f = a
    return (-k) % MOD, ({n: -c for n, c in s.items()} if s else None), -f


def half_angle(a, what=""):
    """a/2 where the *un-reduced* angle has to be given; see callers."""
    raise NotImplementedError


def dyadic_order(k):
    """smallest d with 2^d * k == 0 mod MOD, or None"""
    d = 0
    while k % MOD:
        k = (2 * k) % MOD
        d += 1
        if d > 24:
            return None
    return d


class PathState:
    def __init__(self, compact=24, expand_limit=600, entry=None):
        self.nvars = 0
        self.kind = []          # 'in' | 'path' | 'def'
        self.vname = []
        self.defs = {}          # var -> anf
        self.defkey = {}        # anf -> var
        self.supp = []          # base variable support mask, per var
        self.val = {}           # qubit -> anf
        self.clval = {}         # clbit -> anf
        self.ph = {}            # mono -> int mod MOD
        self.sym = {}           # symbol -> {mono: Fraction}
        self.fl = {}            # mono -> float turns
        self.halfpow = 0        # amplitude factor 2^(-halfpow/2)
        self.env = []           # traced-out values
        self.measured = 0       # mask of path vars that only label measurement outcomes
        self.compact = compact
        self.entry = compact if entry is None else entry    # size bound for inputs of composite gates
        self.expand_limit = expand_limit
        self.zero = False
        self.live_out_extra = []
        self.stats = {"gates": 0, "paths": 0, "elims": 0, "defs": 0}

    # ------------------------------------------------------------ variables
    def newvar(self, kind, name=None):
        v = self.nvars
        self.nvars += 1
        self.kind.append(kind)
        self.vname.append(name or "%s%d" % (kind, v))
        self.supp.append(0 if kind == "def" else 1 << v)
        return v

    def input_var(self, name):
        return frozenset([1 << self.newvar("in", name)])

    def define(self, f):
        """variable standing for the Boolean polynomial f"""
        if len(f) == 1:
            (m,) = f
            if m and m & (m - 1) == 0:
                return m.bit_length() - 1
        v = self.defkey.get(f)
        if v is None:
            v = self.newvar("def")
            self.defs[v] = f
            self.defkey[f] = v
            self.supp[v] = self.base_support(f)
            self.stats["defs"] += 1
        return v

    def base_support_mask(self, mask):
        s = 0
        while mask:
            b = mask & -mask
            s |= self.supp[b.bit_length() - 1]
            mask ^= b
        return s

    def base_support(self, f):
        u = 0
        for m in f:
            u |= m
        return self.base_support_mask(u)

    def small(self, f, limit=None):
        if len(f) > (self.compact if limit is None else limit):
            c = f & ONE
            g = f ^ c
            # keep the linear part visible so that later xors with the same terms cancel
            lin = frozenset(m for m in g if m & (m - 1) == 0)
            if lin and len(lin) < len(g) and len(lin) + 1 <= (self.compact if limit is None else limit):
                return frozenset([1 << self.define(g ^ lin)]) ^ lin ^ c
            return frozenset([1 << self.define(g)]) ^ c
        return f

    # ------------------------------------------------------------ ANF ops
    def mul(self, f, g):
        if not f or not g:
            return ZERO
        if f == ONE:
            return g
        if g == ONE:
            return f
        if f == g:
            return f
        if len(f) * len(g) > 4 * self.compact:
            if len(f) > 4:
                f = self.small(f, 4)
            if len(g) > 4:
                g = self.small(g, 4)
        out = set()
        for a in f:
            for b in g:
                out ^= {a | b}
        return frozenset(out)

    # ------------------------------------------------------------ phase ops
    def _add_int(self, m, k):
        k = (self.ph.get(m, 0) + k) % MOD
        if k:
            self.ph[m] = k
        else:
            self.ph.pop(m, None)

    def _add_sym(self, s, m, c):
        d = self.sym.setdefault(s, {})
        c = d.get(m, 0) + c
        if c:
            d[m] = c
        else:
            d.pop(m, None)
            if not d:
                del self.sym[s]

    def _add_fl(self, m, x):
        x = math.fmod(self.fl.get(m, 0.0) + x, 1.0)
        if abs(x) < FTOL or abs(abs(x) - 1) < FTOL:
            self.fl.pop(m, None)
        else:
            k, _, fl = _num_angle(x * 2 * math.pi)
            if not fl:          # the sum is a dyadic fraction of a turn
                self.fl.pop(m, None)
                self._add_int(m, k)
            else:
                self.fl[m] = x

    def add_phase(self, ang, f):
        """phase += ang * f   with f a Boolean polynomial (lifted to integers)"""
        k, syms, fl = ang
        if not f:
            return
        if 0 in f and len(f) > 1:       # a * (1 xor g) = a - a * g
            self.add_phase(ang, ONE)
            self.add_phase(neg_angle(ang), f ^ ONE)
            return
        if k:
            d = dyadic_order(k)
            if d is None:
                d = 24
            n = len(f)
            tot = 0
            c = 1
            for j in range(1, min(d, n) + 1):
                c = c * (n - j + 1) // j
                tot += c
            g = f
            if tot > self.expand_limit:
                g = self.small(f, 2)
            for m, c in self.lift(g, d):
                self._add_int(m, k * c)
        if syms or fl:
            g = f if len(f) <= 5 else self.small(f, 2)
            for m, c in self.lift(g, 64):
                if syms:
                    for s, q in syms.items():
                        self._add_sym(s, m, q * c)
                if fl:
                    self._add_fl(m, fl * c)

    @staticmethod
    def lift(f, d):
        """xor of monomials -> integer multilinear combination, dropping 2^d multiples"""
        mons = list(f)
        acc = {}
        for j in range(1, min(d, len(mons)) + 1):
            c = (-2) ** (j - 1)
            for comb in combinations(mons, j):
                m = 0
                for q in comb:
                    m |= q
                acc[m] = acc.get(m, 0) + c
        return [(m, c) for m, c in acc.items() if c]

    # ------------------------------------------------------------ path variables
    def hadamard(self, q):
        f = self.val[q]
        if len(f) > self.expand_limit:
            f = self.small(f)
        y = self.newvar("path")
        self.stats["paths"] += 1
        for m in f:
            self._add_int(m | (1 << y), HALF)
        self.val[q] = frozenset([1 << y])
        self.halfpow += 1
        supp = self.base_support(f)
        self.try_eliminate(supp | (1 << y))

    def _live_mask(self):
        u = 0
        for f in self.val.values():
            for m in f:
                u |= m
        for f in self.clval.values():
            for m in f:
                u |= m
        for f in self.env:
            for m in f:
                u |= m
        return u

    def try_eliminate(self, cand=None):
        """eliminate internal path variables from the candidate mask, to fixpoint"""
        progress = True
        while progress:
            progress = False
            live = self._live_mask()
            live_base = self.base_support_mask(live)
            if cand is None:
                c = 0
                for v in range(self.nvars):
                    if self.kind[v] == "path":
                        c |= 1 << v
            else:
                c = cand
            c &= ~live_base
            vs = []
            while c:
                b = c & -c
                v = b.bit_length() - 1
                c ^= b
                if self.kind[v] == "path":
                    vs.append(v)
            for v in reversed(vs):
                r = self._eliminate_one(v)
                if r is not None:
                    if cand is not None:
                        cand |= r
                    progress = True
                    break

    def _occurs_in_defs(self, y):
        """does y occur (transitively) inside a definition that is used in the phase"""
        by = 1 << y
        for v in self.defs:
            if self.supp[v] & by:
                return True
        return False

    def _eliminate_one(self, y):
        by = 1 << y
        # any float / symbolic phase on y forbids elimination
        for d in self.sym.values():
            for m in d:
                if m & by or self.base_support_mask(m) & by:
                    return None
        for m in self.fl:
            if m & by or self.base_support_mask(m) & by:
                return None
        rest = {}
        indef = self._occurs_in_defs(y)
        for m, k in self.ph.items():
            if m & by:
                rest[m ^ by] = k
            elif indef and self.base_support_mask(m) & by:
                return None
        if indef:
            for m in rest:
                if self.base_support_mask(m) & by:
                    return None
        if not rest:
            if self.kind[y] != "path":
                return None
            # y occurs nowhere: sum gives a factor 2
            self.kind[y] = "gone"
            self.halfpow -= 2
            return 0
        half = set()
        quart = 0
        for m, k in rest.items():
            if k == HALF:
                half ^= {m}
            elif m == 0 and k % QUART == 0:
                quart = k
            else:
                return None
        if quart:
            # sum_y exp(2 pi i (k y + 1/2 y Q)), k = +-1/4
            sgn = 1 if quart == QUART else -1
            self._drop(by)
            Q = frozenset(half)
            self._add_int(0, sgn * EIGHTH)
            self.halfpow -= 1
            self.kind[y] = "gone"
            self.stats["elims"] += 1
            self.add_phase((-sgn * QUART % MOD, None, 0.0), Q)
            return self.base_support(Q)
        Q = frozenset(half)
        if Q == ONE:
            self.zero = True
            return None
        # delta(Q = 0): choose an internal variable occurring linearly
        best = None
        union_rest = {}
        for m in Q:
            if m and m & (m - 1) == 0:
                z = m.bit_length() - 1
                if self.kind[z] != "path":
                    continue
                R = Q ^ frozenset([m])
                if self.base_support(R) & m:
                    continue
                key = (z,)
                if best is None or key > best[0]:
                    best = (key, z, R)
        if best is None:
            return None
        _, z, R = best
        if self.measured >> z & 1:
            pass
        self._drop(by)
        self.kind[y] = "gone"
        self.substitute(z, R)
        self.kind[z] = "gone"
        self.halfpow -= 2
        self.stats["elims"] += 1
        return self.base_support(R)

    def _drop(self, by):
        for m in [m for m in self.ph if m & by]:
            del self.ph[m]

    def substitute(self, z, R):
        """replace variable z by the Boolean polynomial R everywhere"""
        bz = 1 << z
        R = self.small(R)
        # rewrite definitions containing z (topological order = index order)
        ren = {}
        for v in sorted(self.defs):
            f = self.defs[v]
            if self.supp[v] & bz:
                g = self._sub_anf(f, bz, R, ren)
                g = self.small(g)
                ren[v] = g
        if ren:
            for v in ren:
                f = self.defs.pop(v)
                if self.defkey.get(f) == v:
                    del self.defkey[f]
            # dead definitions keep an empty support
                self.supp[v] = 0
                self.kind[v] = "gone"
        bad = bz
        for v in ren:
            bad |= 1 << v
        for q, f in self.val.items():
            if any(m & bad for m in f):
                self.val[q] = self.small(self._sub_anf(f, bz, R, ren))
        for q, f in self.clval.items():
            if any(m & bad for m in f):
                self.clval[q] = self.small(self._sub_anf(f, bz, R, ren))
        self.env = [self._sub_anf(f, bz, R, ren) if any(m & bad for m in f) else f for f in self.env]
        ph = [(m, k) for m, k in self.ph.items() if m & bad]
        for m, _ in ph:
            del self.ph[m]
        for m, k in ph:
            self.add_phase((k, None, 0.0), self._sub_mono(m, bz, R, ren))
        for s in list(self.sym):
            items = [(m, c) for m, c in self.sym[s].items() if m & bad]
            for m, c in items:
                self._add_sym(s, m, -c)
            for m, c in items:
                self.add_phase((0, {s: c}, 0.0), self._sub_mono(m, bz, R, ren))
        fl = [(m, x) for m, x in self.fl.items() if m & bad]
        for m, _ in fl:
            del self.fl[m]
        for m, x in fl:
            self.add_phase((0, None, x), self._sub_mono(m, bz, R, ren))

    def _sub_mono(self, m, bz, R, ren):
        keep = m & ~bz
        f = None
        mm = keep
        factors = []
        while mm:
            b = mm & -mm
            v = b.bit_length() - 1
            mm ^= b
            if v in ren:
                keep ^= b
                factors.append(ren[v])
        out = frozenset([keep])
        if m & bz:
            out = self.mul(out, R)
        for g in factors:
            out = self.mul(out, g)
        return out

    def _sub_anf(self, f, bz, R, ren):
        out = set()
        for m in f:
            out ^= self._sub_mono(m, bz, R, ren)
        return frozenset(out)

    # ------------------------------------------------------------ gates
    def x(self, q, g=ONE):
        f = self.val[q] ^ g
        if len(f) > 8 * self.compact:
            f = self.small(f)
        self.val[q] = f

    def phase(self, ang, q, g=ONE):
        self.add_phase(ang, self.mul(self.val[q], g))

    def gphase(self, ang, g=ONE):
        self.add_phase(ang, g)

    def h(self, q, g=ONE):
        if g == ONE:
            self.hadamard(q)
            return
        if g == ZERO:
            return
        # CH = (S H T)^-1-conjugated CX
        self.phase((QUART, None, 0.0), q)
        self.hadamard(q)
        self.phase((EIGHTH, None, 0.0), q)
        self.x(q, g)
        self.phase((MOD - EIGHTH, None, 0.0), q)
        self.hadamard(q)
        self.phase((MOD - QUART, None, 0.0), q)

    def ry(self, theta, q, g=ONE):
        k, s, fl = parse_angle(theta)
        if not s and not fl:
            # the angle has period two turns: recover it unreduced
            turns = Fraction(round(float(theta) / (2 * math.pi) * MOD), MOD) % 2
            n = turns * 4
            if n.denominator == 1:
                n = int(n)            # multiples of pi/2, mod 8
                if n == 0:
                    return
                if n == 4:
                    self.add_phase((HALF, None, 0.0), g)
                    return
                if n in (2, 6):       # +-pi
                    if n == 2:        # Z then X
                        self.phase((HALF, None, 0.0), q, g)
                        self.x(q, g)
                    else:
                        self.x(q, g)
                        self.phase((HALF, None, 0.0), q, g)
                    return
                if g == ONE:
                    if n in (3, 5):   # extra -1 on ry(-pi/2) / ry(pi/2)
                        pass
                    if n == 1 or n == 5:      # H Z
                        self.phase((HALF, None, 0.0), q)
                        self.hadamard(q)
                        if n == 5:
                            self.gphase((HALF, None, 0.0))
                    else:                     # n = 7 (-pi/2) or 3 (3pi/2 = -(-pi/2)): Z H
                        self.hadamard(q)
                        self.phase((HALF, None, 0.0), q)
                        if n == 3:
                            self.gphase((HALF, None, 0.0))
                    return
        # RY = S H RZ H Sdg   (circuit order sdg h rz h s)
        self.phase((MOD - QUART, None, 0.0), q)
        self.hadamard(q)
        self.rz(theta, q, g)
        self.hadamard(q)
        self.phase((QUART, None, 0.0), q)

    def rz(self, theta, q, g=ONE):
        self.add_phase(neg_angle(parse_angle(theta / 2)), g)
        self.phase(parse_angle(theta), q, g)

    def u3(self, theta, phi, lam, q, g=ONE):
        self.phase(parse_angle(lam), q, g)
        self.ry(theta, q, g)
        self.phase(parse_angle(phi), q, g)

    def rx(self, theta, q, g=ONE):
        import sympy
        if not isinstance(theta, sympy.Basic):
            turns = Fraction(round(float(theta) / (2 * math.pi) * MOD), MOD) * 4
            if turns.denominator == 1:
                self.phase((QUART, None, 0.0), q, g)
                self.ry(theta, q, g)
                self.phase((MOD - QUART, None, 0.0), q, g)
                return
        self.hadamard(q)
        self.rz(theta, q, g)
        self.hadamard(q)

    # ------------------------------------------------------------ snapshots
    def copy(self):
        import copy
        n = PathState.__new__(PathState)
        n.__dict__.update(self.__dict__)
        for a in ("kind", "vname", "supp", "env", "live_out_extra"):
            setattr(n, a, list(getattr(self, a)))
        for a in ("defs", "defkey", "val", "clval", "ph", "fl", "stats"):
            setattr(n, a, dict(getattr(self, a)))
        n.sym = {s: dict(d) for s, d in self.sym.items()}
        return n

    def remaining_paths(self):
        """base path variables that still occur anywhere, minus measured ones"""
        u = 0
        for m in self.ph:
            u |= m
        for d in self.sym.values():
            for m in d:
                u |= m
        for m in self.fl:
            u |= m
        b = self.base_support_mask(u) | self.base_support_mask(self._live_mask())
        return [v for v in range(self.nvars) if self.kind[v] == "path" and b >> v & 1]
