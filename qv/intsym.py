"""Symbolic execution of Python code with symbolic integers, reals and choices.

Num behaves like a number whose value is a z3 Int or Real term.  Branches ask the current Run, which explores all feasible
paths depth first; feasibility of both outcomes is decided by the solver.  Operations without meaning for a symbolic value
(hashing into a concrete key, conversion to a machine number) raise Unsupported, so nothing is silently concretised."""
from fractions import Fraction

from .smt import z3, check
from .pathsum import Unsupported, Undecided


class Run:
    current = None

    def __init__(self, assume=(), max_paths=200000):
        self.assume = list(assume)
        self.max_paths = max_paths
        self.paths = 0
        self.queries = 0

    def feasible(self, conds):
        self.queries += 1
        r, m = check(*(self.assume + conds))
        if r == "unknown":
            raise Undecided("feasibility of a path")
        return r == "sat"

    def explore(self, fn):
        stack = [[]]
        while stack:
            self.prefix = stack.pop()
            self.pos = 0
            self.taken = []
            self.cond = []
            Run.current = self
            self.alts = []
            try:
                res = fn()
            finally:
                Run.current = None
            self.paths += 1
            if self.paths > self.max_paths:
                raise Unsupported("more than %d paths" % self.max_paths)
            alts = list(self.alts)
            yield list(self.cond), res
            stack += alts

    def decide(self, t):
        t = z3.simplify(t)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
            self.pos += 1
        else:
            can = self.feasible(self.cond + [t])
            cannot = self.feasible(self.cond + [z3.Not(t)])
            self.pos += 1
            v = can
            if can and cannot:
                self.alts.append(self.taken + [False])
            self.taken.append(v)
            self.cond.append(t if v else z3.Not(t))
            return v
        self.taken.append(v)
        self.cond.append(t if v else z3.Not(t))
        return v


def fork(t):
    if Run.current is None:
        raise Unsupported("symbolic branch outside of a run")
    return Run.current.decide(t)


def choose(v, n):
    """concrete value of the Int term v in 0..n-1, one path each"""
    for k in range(n - 1):
        if fork(v == k):
            return k
    return n - 1


def term(x):
    if isinstance(x, Num) or type(x) is Num:
        return x.t
    if isinstance(x, bool):
        raise Unsupported("bool arithmetic")
    if isinstance(x, int):
        return z3.IntVal(x)
    f = Fraction(x)
    return z3.RealVal("%d/%d" % (f.numerator, f.denominator))


def both(a, b):
    a, b = term(a), term(b)
    if z3.is_int(a) != z3.is_int(b):
        a, b = [z3.ToReal(x) if z3.is_int(x) else x for x in (a, b)]
    return a, b


class Num:
    """symbolic number; passes isinstance checks for int (Int terms) or float (Real terms)"""

    def __init__(self, t):
        self.t = t

    @property
    def __class__(self):
        return int if z3.is_int(self.t) else float

    def _op(f):
        def op(self, o):
            if o is None or isinstance(o, (str, tuple, list, dict)):
                return NotImplemented
            a, b = both(self, o)
            return Num(f(a, b))
        return op

    def _cmp(f):
        def op(self, o):
            if o is None or isinstance(o, (str, tuple, list, dict)):
                return NotImplemented
            a, b = both(self, o)
            return fork(f(a, b))
        return op
    __add__ = _op(lambda a, b: a + b)
    __radd__ = _op(lambda a, b: b + a)
    __sub__ = _op(lambda a, b: a - b)
    __rsub__ = _op(lambda a, b: b - a)
    __mul__ = _op(lambda a, b: a * b)
    __rmul__ = _op(lambda a, b: b * a)

    def __truediv__(self, o):
        a, b = [z3.ToReal(x) if z3.is_int(x) else x for x in both(self, o)]
        if fork(b == 0):
            raise ZeroDivisionError("division by zero")
        return Num(a / b)

    def __rtruediv__(self, o):
        return Num(term(o)).__truediv__(self)

    def __neg__(self):
        return Num(-self.t)

    def __abs__(self):
        return Num(z3.If(self.t < 0, -self.t, self.t))

    __lt__ = _cmp(lambda a, b: a < b)
    __le__ = _cmp(lambda a, b: a <= b)
    __gt__ = _cmp(lambda a, b: a > b)
    __ge__ = _cmp(lambda a, b: a >= b)

    def __eq__(self, o):
        if o is None or isinstance(o, (str, tuple, list, dict)):
            return False
        a, b = both(self, o)
        return fork(a == b)

    def __ne__(self, o):
        return not self.__eq__(o)

    def __hash__(self):
        return 7        # equal hashes: containers compare by __eq__, which forks

    def __bool__(self):
        return fork(self.t != 0)

    def __index__(self):
        raise Unsupported("symbolic number used as index")

    __int__ = __float__ = __index__

    def __repr__(self):
        return "<%s>" % self.t

    def __format__(self, spec):
        return repr(self)


def pick(name, n):
    """free choice of 0..n-1: the variable `name` is unconstrained, so every value is feasible"""
    run = Run.current
    v = z3.Int(name)
    if run.pos < len(run.prefix):
        k = run.prefix[run.pos]
    else:
        k = 0
        for other in range(1, n):
            run.alts.append(run.taken + [other])
    run.pos += 1
    run.taken.append(k)
    run.cond.append(v == k)
    return k
