"""Symbolic execution of Python code with symbolic numbers.

The code under test is executed unchanged with proxy objects in place of
numbers.  SymC is a complex number whose real and imaginary part are
polynomials with rational coefficients in real variables.  Branches on symbolic
values ask the current Explorer, which re-executes the program once per path
(depth first); the condition taken is recorded as path condition.
"""
import numbers
from fractions import Fraction

from .smt import z3, check
from .pathsum import Unsupported, Undecided


class Explorer:
    """re-executes a function once per path; at most max_true decisions of a path may be True"""
    current = None

    def __init__(self, max_true=2, max_paths=20000):
        self.max_true = max_true
        self.max_paths = max_paths
        self.paths = 0
        self.cut = 0

    def run(self, fn):
        stack = [[]]
        while stack:
            prefix = stack.pop()
            self.prefix = prefix
            self.pos = 0
            self.taken = []
            self.cond = []
            Explorer.current = self
            try:
                res = fn()
            finally:
                Explorer.current = None
            self.paths += 1
            if self.paths > self.max_paths:
                raise Unsupported("more than %d paths" % self.max_paths)
            yield list(self.cond), res
            for i in range(len(prefix), len(self.taken)):
                if self.taken[i] is False:
                    alt = self.taken[:i] + [True]
                    if sum(alt) <= self.max_true:
                        stack.append(alt)
                    else:
                        self.cut += 1

    def decide(self, cond):
        v = self.prefix[self.pos] if self.pos < len(self.prefix) else False
        self.pos += 1
        self.taken.append(v)
        self.cond.append((cond, v))
        return v


def decide(cond):
    if Explorer.current is None:
        raise Unsupported("branch on a symbolic value outside an exploration")
    return Explorer.current.decide(cond)


def frac(v):
    if isinstance(v, Fraction):
        return v
    if isinstance(v, int):
        return Fraction(v)
    return Fraction(float(v))


def isnum(v):
    return type(v) is not SymC and isinstance(v, (numbers.Number,)) or type(v).__module__ == "numpy" and getattr(v, "ndim", 1) == 0


class SymC:
    """polynomial in real variables with coefficients in Q[i]"""
    __slots__ = ("p",)
    __hash__ = None

    def __init__(self, p):
        self.p = p

    @property
    def __class__(self):
        return complex

    @staticmethod
    def var(name):
        return SymC({(name + ".re",): (Fraction(1), Fraction(0)), (name + ".im",): (Fraction(0), Fraction(1))})

    @staticmethod
    def rvar(name):
        return SymC({(name + ".re",): (Fraction(1), Fraction(0))})

    @staticmethod
    def of(v):
        if type(v) is SymC:
            return v
        if not isnum(v):
            return None
        v = complex(v) if not isinstance(v, (int, Fraction)) else v
        if isinstance(v, complex):
            re, im = frac(v.real), frac(v.imag)
        else:
            re, im = frac(v), Fraction(0)
        return SymC({(): (re, im)} if re or im else {})

    def __add__(self, o):
        o = SymC.of(o)
        if o is None:
            return NotImplemented
        r = dict(self.p)
        for m, (x, y) in o.p.items():
            a, b = r.get(m, (0, 0))
            a, b = a + x, b + y
            if a or b:
                r[m] = (a, b)
            else:
                r.pop(m, None)
        return SymC(r)

    __radd__ = __add__

    def __neg__(self):
        return SymC({m: (-a, -b) for m, (a, b) in self.p.items()})

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = SymC.of(o)
        if o is None:
            return NotImplemented
        return self + (-o)

    def __rsub__(self, o):
        o = SymC.of(o)
        if o is None:
            return NotImplemented
        return o + (-self)

    def __mul__(self, o):
        o = SymC.of(o)
        if o is None:
            return NotImplemented
        r = {}
        for m, (a, b) in self.p.items():
            for k, (x, y) in o.p.items():
                mk = tuple(sorted(m + k)) if m and k else m or k
                u, v = r.get(mk, (0, 0))
                r[mk] = (u + a * x - b * y, v + a * y + b * x)
        return SymC({m: c for m, c in r.items() if c[0] or c[1]})

    __rmul__ = __mul__

    def __truediv__(self, o):
        o = SymC.of(o)
        if o is None:
            return NotImplemented
        if any(m for m in o.p):
            raise Unsupported("division by a symbolic number")
        x, y = o.p.get((), (Fraction(0), Fraction(0)))
        n = x * x + y * y
        if n == 0:
            raise ZeroDivisionError
        return self * SymC({(): (x / n, -y / n)})

    def __pow__(self, k):
        if not isinstance(k, int) or k < 0:
            return NotImplemented
        r = SymC.of(1)
        for _ in range(k):
            r = r * self
        return r

    def conjugate(self):
        return SymC({m: (a, -b) for m, (a, b) in self.p.items()})

    @property
    def real(self):
        return SymC({m: (a, Fraction(0)) for m, (a, b) in self.p.items() if a})

    @property
    def imag(self):
        return SymC({m: (b, Fraction(0)) for m, (a, b) in self.p.items() if b})

    def __abs__(self):
        return SymAbs(self)

    def const(self):
        if not self.p:
            return (Fraction(0), Fraction(0))
        if list(self.p) == [()]:
            return self.p[()]
        return None

    def __complex__(self):
        c = self.const()
        if c is None:
            raise Unsupported("symbolic number converted to a machine number")
        return complex(float(c[0]), float(c[1]))

    def __float__(self):
        c = self.const()
        if c is None or c[1]:
            raise Unsupported("symbolic number converted to a machine number")
        return float(c[0])

    def __eq__(self, o):
        o = SymC.of(o)
        if o is None:
            return NotImplemented
        d = (self - o)
        c = d.const()
        if c is not None:
            return c == (0, 0)
        return decide(("zero", d))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def __bool__(self):
        return not (self == 0)

    def _cmp(self, o, flip):
        o = SymC.of(o)
        if o is None:
            return NotImplemented
        d = (o - self) if not flip else (self - o)      # asks d > 0 ... self < o
        c = d.const()
        if c is not None:
            return c[0] > 0
        return decide(("pos", d))

    def __lt__(self, o):
        return self._cmp(o, False)

    def __gt__(self, o):
        return self._cmp(o, True)

    def __le__(self, o):
        r = self._cmp(o, True)
        return r if r is NotImplemented else not r

    def __ge__(self, o):
        r = self._cmp(o, False)
        return r if r is NotImplemented else not r

    def eval(self, env):
        s = 0
        for m, (a, b) in self.p.items():
            t = 1
            for v in m:
                t = t * env[v]
            s = s + complex(float(a), float(b)) * float(t)
        return s

    def vars(self):
        return {v for m in self.p for v in m}

    def __repr__(self):
        return "SymC(%s)" % {("*".join(m) or "1"): (str(a), str(b)) for m, (a, b) in self.p.items()}


class SymAbs:
    """absolute value of a SymC (only usable in comparisons)"""
    __slots__ = ("c", "k")
    __hash__ = None

    def __init__(self, c, k=1):
        self.c = c
        self.k = k

    def _lt(self, o, strict):
        """|c| < o (or <=)"""
        if isinstance(o, SymAbs):
            return decide(("other", None))
        if not isnum(o):
            return NotImplemented
        c = self.c.const() if self.c is not None else None
        if c is not None:
            v = (float(c[0]) ** 2 + float(c[1]) ** 2) ** 0.5
            return v < o if strict else v <= o
        if self.c is None:
            return decide(("other", None))
        return decide(("abs<" if strict else "abs<=", self.c, Fraction(float(o))))

    def __lt__(self, o):
        return self._lt(o, True)

    def __le__(self, o):
        return self._lt(o, False)

    def __ge__(self, o):
        r = self._lt(o, True)
        return r if r is NotImplemented else not r

    def __gt__(self, o):
        r = self._lt(o, False)
        return r if r is NotImplemented else not r

    def __eq__(self, o):
        if not isnum(o) and not isinstance(o, SymAbs):
            return NotImplemented
        return decide(("other", None))

    def __mul__(self, o):
        return SymAbs(None)

    __rmul__ = __truediv__ = __add__ = __radd__ = __mul__


# ------------------------------------------------------------------ verdicts
def linear(p, lin):
    """z3 terms (re, im) of a SymC with every monomial a free real variable"""
    re, im = [], []
    for m, (a, b) in p.p.items():
        v = z3.RealVal(1) if m == () else lin.setdefault(m, z3.Real("*".join(m)))
        if a:
            re.append(z3.RealVal(str(a)) * v)
        if b:
            im.append(z3.RealVal(str(b)) * v)
    return (z3.Sum(re) if re else z3.RealVal(0)), (z3.Sum(im) if im else z3.RealVal(0))


def poly(p, env):
    re, im = z3.RealVal(0), z3.RealVal(0)
    for m, (a, b) in p.p.items():
        t = z3.RealVal(1)
        for v in m:
            t = t * env.setdefault(v, z3.Real(v))
        re = re + z3.RealVal(str(a)) * t
        im = im + z3.RealVal(str(b)) * t
    return re, im


def cond_linear(cond, lin):
    out = []
    for c, v in cond:
        if c[0] in ("abs<", "abs<=") and v:
            re, im = linear(c[1], lin)
            t = z3.RealVal(str(c[2]))
            out += [re <= t, re >= -t, im <= t, im >= -t]
        elif c[0] == "zero" and v:
            re, im = linear(c[1], lin)
            out += [re == 0, im == 0]
        elif c[0] == "pos":
            re, _ = linear(c[1], lin)
            out.append(re > 0 if v else re <= 0)
    return out


def cond_exact(cond, env):
    out = []
    for c, v in cond:
        if c[0] in ("abs<", "abs<="):
            re, im = poly(c[1], env)
            t = z3.RealVal(str(c[2] * c[2]))
            n = re * re + im * im
            f = n < t if c[0] == "abs<" else n <= t
            out.append(f if v else z3.Not(f))
        elif c[0] == "zero":
            re, im = poly(c[1], env)
            f = z3.And(re == 0, im == 0)
            out.append(f if v else z3.Not(f))
        elif c[0] == "pos":
            re, _ = poly(c[1], env)
            out.append(re > 0 if v else re <= 0)
    return out


def vanish(diffs, cond, tol):
    """None if all the differences are at most tol on the path, else an assignment of the variables (to be replayed)"""
    lin = {}
    parts = []
    t = z3.RealVal(str(Fraction(tol).limit_denominator(10 ** 12)))
    for d in diffs:
        if not d.p:
            continue
        re, im = linear(d, lin)
        parts += [re > t, re < -t, im > t, im < -t]
    s, m = check(z3.And(z3.Or(*parts) if parts else z3.BoolVal(False), *cond_linear(cond, lin)))
    if s == "unsat":
        return None
    env = {}
    parts = []
    for d in diffs:
        if d.p:
            re, im = poly(d, env)
            parts += [re > t, re < -t, im > t, im < -t]
    ex = cond_exact(cond, env)
    names = sorted(env)
    # generic point first: if it satisfies the path condition no solver is needed to find the witness
    gen = {v: Fraction(3 + 2 * i, 7 + 3 * (i % 5)) * (-1 if i % 3 == 1 else 1) for i, v in enumerate(names)}
    s = z3.Solver()
    s.set("timeout", 20000)
    s.add(z3.Or(*parts), *ex)
    s.push()
    s.add(*[env[v] == z3.RealVal(str(gen[v])) for v in names])
    if s.check() == z3.sat:
        return gen
    s.pop()
    r = s.check()
    if r == z3.unsat:
        return None
    if r == z3.unknown:
        raise Undecided("no verdict about a path")
    if r == z3.sat:
        m = s.model()
        out = {}
        for v in names:
            x = m.eval(env[v], model_completion=True)
            try:
                out[v] = Fraction(x.numerator_as_long(), x.denominator_as_long())
            except Exception:
                out[v] = Fraction(x.approx(20).as_fraction())
        return out
