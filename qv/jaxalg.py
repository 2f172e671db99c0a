"""Symbolic execution of jaxprs over exact real and complex numbers with angles.

Arrays are numpy object arrays.  Entries are exact rationals, z3 Real terms, pairs (complex numbers) or angles.  An angle is
a linear combination of atoms; an atom is known by its cosine and sine only (acos x has cosine x and sine sqrt(1-x^2),
atan2(y, x) is the argument of x+iy).  A square root is a fresh non-negative real with its defining equation.  Comparisons
fork the current run, the solver decides which outcomes are feasible.  Comparisons of a value with a positive constant of at
most 1e-7 are taken as comparisons with zero: smaller non-zero amplitudes are out of scope.

Structural operations (slicing, reshaping, gathering, ...) are carried out by the jax primitive itself on an array of entry
numbers, so their meaning is that of jax."""
from fractions import Fraction as Fr
import math

import numpy as np

from .smt import z3, check
from .pathsum import Unsupported
from .intsym import Run, fork

TINY = Fr(1, 10**7)
COUNT = [0]


class NaN:
    pass


NAN = NaN()


def fresh(name):
    COUNT[0] += 1
    return z3.Real("%s!%d" % (name, COUNT[0]))


def t(x):
    if isinstance(x, (int, Fr)):
        return z3.RealVal(str(Fr(x)))
    return x


def isnum(x):
    return isinstance(x, (int, Fr))


def add(a, b):
    if a is NAN or b is NAN:
        return NAN
    if isinstance(a, A) or isinstance(b, A):
        return A.of(a).plus(A.of(b))
    if isinstance(a, C) or isinstance(b, C):
        a, b = C.of(a), C.of(b)
        return C(add(a.re, b.re), add(a.im, b.im))
    if isnum(a) and isnum(b):
        return a + b
    if isnum(a) and a == 0:
        return b
    if isnum(b) and b == 0:
        return a
    return t(a) + t(b)


def mul(a, b):
    if a is NAN or b is NAN:
        return NAN
    if isinstance(a, A) or isinstance(b, A):
        if isinstance(b, A):
            a, b = b, a
        return a.times(b)
    if isinstance(a, C) or isinstance(b, C):
        a, b = C.of(a), C.of(b)
        return C(sub(mul(a.re, b.re), mul(a.im, b.im)), add(mul(a.re, b.im), mul(a.im, b.re)))
    if isnum(a) and isnum(b):
        return a * b
    for x, y in ((a, b), (b, a)):
        if isnum(x):
            if x == 0:
                return Fr(0)
            if x == 1:
                return y
    return t(a) * t(b)


def neg(a):
    return mul(Fr(-1), a)


def sub(a, b):
    return add(a, neg(b))


def zero(x):
    """is the real x zero; forks"""
    if isnum(x):
        return x == 0
    return fork(t(x) == 0)


def valid(f, ms=3000):
    from .pathsum import Undecided
    try:
        r, _ = check(*(Run.current.assume + Run.current.cond + [z3.Not(f)]), timeout=ms)
    except Undecided:
        r = "unknown"
    Run.current.queries += 1
    return r == "unsat"


def div(a, b):
    if a is NAN or b is NAN:
        return NAN
    if isinstance(a, A):
        return a.times(Fr(1) / b)
    if isinstance(b, C):
        if isnum(b.im) and b.im == 0:
            return div(a, b.re)
        n = add(mul(b.re, b.re), mul(b.im, b.im))
        return div(mul(a, C(b.re, neg(b.im))), n)
    if isinstance(a, C):
        return C(div(a.re, b), div(a.im, b))
    if zero(b):
        return NAN
    if isnum(b):
        return mul(a, Fr(1) / b)
    if isnum(a) and a == 0:
        return a
    if a is b:
        return Fr(1)
    q = fresh("q")
    Run.current.cond.append(q * b == t(a))
    return q


def sqrt(x):
    if x is NAN:
        return NAN
    if isnum(x):
        r = Fr(math.isqrt(Fr(x).numerator), math.isqrt(Fr(x).denominator)) if x >= 0 else None
        if r is not None and r * r == x:
            return r
    else:
        # a root that is already known keeps the terms small
        for k in (Fr(1), Fr(0)):
            if valid(t(x) == t(k)):
                return k
        for s in reversed(getattr(Run.current, "roots", [])):
            if valid(t(x) == s * s):
                return s
    s = fresh("r")
    Run.current.cond += [s * s == t(x), s >= 0]
    if not hasattr(Run.current, "roots"):
        Run.current.roots = []
    Run.current.roots.append(s)
    return s


class C:
    def __init__(self, re, im):
        self.re, self.im = re, im

    @staticmethod
    def of(x):
        return x if isinstance(x, C) else C(x, Fr(0))


UNITS = {}


class A:
    """sum of coef * atom + pi * turn, optionally times i"""

    def __init__(self, parts, pi=Fr(0), i=False):
        self.parts = {k: v for k, v in parts.items() if v != 0}
        self.pi, self.i = pi, i

    @staticmethod
    def atom(name, c, s):
        UNITS[name] = C(c, s)
        return A({name: Fr(1)})

    @staticmethod
    def of(x):
        if isinstance(x, A):
            return x
        if isnum(x):
            k = Fr(float(x) / math.pi).limit_denominator(64)
            if abs(float(k) * math.pi - float(x)) < 1e-12:
                return A({}, k)
        raise Unsupported("number used as an angle: %r" % (x,))

    def plus(self, o):
        if self.i != o.i:
            if not o.parts and o.pi == 0:
                return self
            if not self.parts and self.pi == 0:
                return o
            raise Unsupported("sum of real and imaginary angles")
        p = dict(self.parts)
        for k, v in o.parts.items():
            p[k] = p.get(k, Fr(0)) + v
        return A(p, self.pi + o.pi, self.i)

    def times(self, k):
        if isinstance(k, C):
            if isnum(k.re) and k.re == 0 and isnum(k.im):
                if self.i:
                    r = self.times(-k.im)
                    r.i = False
                    return r
                r = self.times(k.im)
                r.i = True
                return r
            if isnum(k.im) and k.im == 0:
                return self.times(k.re)
        if not isnum(k):
            raise Unsupported("angle times a symbolic number")
        return A({n: v * k for n, v in self.parts.items()}, self.pi * k, self.i)

    def unit(self):
        """exp(i angle)"""
        r = C(Fr(1), Fr(0))
        for n, v in self.parts.items():
            u = UNITS[n]
            if v.denominator != 1 or abs(v) > 8:
                raise Unsupported("fraction of an angle")
            if v < 0:
                u = C(u.re, neg(u.im))
            for _ in range(abs(int(v))):
                r = mul(r, u)
        k = self.pi % 2
        quarter = {Fr(0): (1, 0), Fr(1, 2): (0, 1), Fr(1): (-1, 0), Fr(3, 2): (0, -1)}
        if k not in quarter:
            raise Unsupported("constant angle %s pi" % k)
        return mul(r, C(*[Fr(x) for x in quarter[k]]))


def absolute(x):
    if isinstance(x, C):
        return sqrt(add(mul(x.re, x.re), mul(x.im, x.im)))
    if x is NAN:
        return x
    if isnum(x):
        return abs(x)
    return neg(x) if fork(t(x) < 0) else x


def atan2(y, x):
    if y is NAN or x is NAN:
        return NAN
    if zero(y):
        if isnum(x):
            return A({}, Fr(0 if x >= 0 else 1))
        return A({}, Fr(1)) if fork(t(x) < 0) else A({})
    r = sqrt(add(mul(x, x), mul(y, y)))
    return A.atom("arg%d" % len(UNITS), div(x, r), div(y, r))


def acos(x):
    if x is NAN:
        return NAN
    if isnum(x) and x in (0, 1, -1):
        return A({}, {0: Fr(1, 2), 1: Fr(0), -1: Fr(1)}[int(x)])
    return A.atom("acos%d" % len(UNITS), x, sqrt(sub(Fr(1), mul(x, x))))


def cmp(op, a, b):
    if a is NAN or b is NAN:
        return False
    for x in (a, b):
        if isinstance(x, (A, C)):
            raise Unsupported("comparison of angles or complex numbers")
    if isnum(a) and 0 < a <= TINY and not isnum(b):
        a = Fr(0)
    if isnum(b) and 0 < b <= TINY and not isnum(a):
        b = Fr(0)
    f = {"gt": lambda: t(a) > t(b), "lt": lambda: t(a) < t(b), "ge": lambda: t(a) >= t(b), "le": lambda: t(a) <= t(b),
         "eq": lambda: t(a) == t(b), "ne": lambda: t(a) != t(b)}[op]()
    return fork(f)


def smaller(a, b):
    if a is NAN or b is NAN:
        return NAN
    return a if cmp("le", a, b) else b


def larger(a, b):
    if a is NAN or b is NAN:
        return NAN
    return b if cmp("le", a, b) else a


def trig(x, which):
    if x is NAN:
        return x
    u = A.of(x).unit()
    return u.re if which == "cos" else u.im


def exp(x):
    if x is NAN:
        return x
    if isinstance(x, C):
        if isnum(x.re) and x.re == 0:
            return A.of(x.im).unit()
        raise Unsupported("exponential")
    if isnum(x) and x == 0:
        return Fr(1)
    if isinstance(x, A) and (x.i or not x.parts and x.pi == 0):
        return x.unit()
    raise Unsupported("exponential of a real number")


def part(x, which):
    if x is NAN:
        return x
    if isinstance(x, A):
        if not x.i:
            return x if which == "re" else Fr(0)
        y = A(x.parts, x.pi)
        return y if which == "im" else Fr(0)
    x = C.of(x)
    return x.re if which == "re" else x.im


def lift(a):
    """entries of a concrete array as exact values"""
    a = np.asarray(a)
    if a.dtype == object:
        return a
    out = np.empty(a.shape, dtype=object)
    for i, v in np.ndenumerate(a):
        if a.dtype.kind == "c":
            out[i] = C(Fr(float(v.real)), Fr(float(v.imag)))
        elif a.dtype.kind == "b":
            out[i] = bool(v)
        elif not np.isfinite(v):
            out[i] = NAN
        else:
            out[i] = Fr(float(v)) if a.dtype.kind == "f" else Fr(int(v))
    return out


def conj(x):
    if x is NAN:
        return x
    x = C.of(x)
    return C(x.re, neg(x.im))


def power(x, n):
    r = Fr(1)
    for _ in range(abs(n)):
        r = mul(r, x)
    return div(Fr(1), r) if n < 0 else r


def sign(x):
    if x is NAN:
        return x
    if zero(x):
        return Fr(0)
    return Fr(1) if (x > 0 if isnum(x) else fork(t(x) > 0)) else Fr(-1)


UNARY = {"neg": neg, "real": lambda x: part(x, "re"), "imag": lambda x: part(x, "im"), "conj": conj, "abs": absolute, "sqrt": sqrt,
         "exp": exp, "cos": lambda x: trig(x, "cos"), "sin": lambda x: trig(x, "sin"), "acos": acos, "square": lambda x: mul(x, x),
         "sign": sign, "copy": lambda x: x, "stop_gradient": lambda x: x, "asin": lambda x: sub(A({}, Fr(1, 2)), acos(x))}
BINARY = {"add": add, "add_any": add, "sub": sub, "mul": mul, "div": div, "atan2": atan2, "min": smaller, "max": larger,
          "complex": lambda a, b: C(a, b)}
STRUCT = {"slice", "squeeze", "broadcast_in_dim", "reshape", "concatenate", "transpose", "gather", "scatter", "dynamic_slice",
          "dynamic_update_slice", "rev", "expand_dims", "pad", "split", "copy_p"}


def elementwise(f, *args):
    args = np.broadcast_arrays(*[lift(a) for a in args])
    out = np.empty(args[0].shape, dtype=object)
    for i in np.ndindex(*args[0].shape):
        out[i] = f(*[a[i] for a in args])
    return out


def symbolic(a):
    return isinstance(a, np.ndarray) and a.dtype == object


def bools(out):
    """an array of plain truth values is concrete"""
    if out.size and all(isinstance(v, (bool, np.bool_)) for v in out.flat):
        return out.astype(bool)
    return out


def sub_jaxpr(p):
    for k in ("jaxpr", "call_jaxpr"):
        if k in p:
            j = p[k]
            return (j.jaxpr, j.consts) if hasattr(j, "consts") else (j, [])
    return None


def eqn(e, ins):
    n = e.primitive.name
    p = e.params
    if n == "cond":
        i = ins[0]
        if symbolic(i):
            i = np.asarray([int(v) for v in i.flat])[0]
        b = p["branches"][int(np.asarray(i))]
        return run(b.jaxpr, b.consts, ins[1:])
    sj = sub_jaxpr(p)
    if sj is not None and n not in ("scan", "while"):
        return run(sj[0], sj[1], ins)
    if n == "scan":
        j = p["jaxpr"]
        nc, nk = p["num_consts"], p["num_carry"]
        consts, carry, xs = ins[:nc], list(ins[nc:nc + nk]), ins[nc + nk:]
        order = range(p["length"])
        ys = []
        for i in (reversed(order) if p["reverse"] else order):
            res = run(j.jaxpr, j.consts, list(consts) + carry + [x[i] if symbolic(x) else np.asarray(x)[i] for x in xs])
            carry = list(res[:nk])
            ys.append(res[nk:])
        if p["reverse"]:
            ys.reverse()
        stacked = [np.stack([np.asarray(lift(y[k])) for y in ys]) for k in range(len(ys[0]))] if ys else []
        return carry + stacked
    if not any(symbolic(x) for x in ins):
        sub, bind = e.primitive.get_bind_params(p)
        r = e.primitive.bind(*sub, *[jnp().asarray(x) for x in ins], **bind)
        return [np.asarray(x) for x in (r if e.primitive.multiple_results else [r])]
    if n in UNARY:
        return [elementwise(UNARY[n], ins[0])]
    if n in BINARY:
        return [elementwise(BINARY[n], *ins)]
    if n in ("gt", "lt", "ge", "le", "eq", "ne"):
        return [bools(elementwise(lambda a, b: cmp(n, a, b), *ins))]
    if n == "convert_element_type":
        k = np.dtype(p["new_dtype"]).kind
        a = ins[0]
        if k in "fc":
            return [elementwise(lambda x: Fr(int(x)) if isinstance(x, (bool, np.bool_)) else (part(x, "re") if k == "f" else x), a)]
        raise Unsupported("conversion of a symbolic number to %s" % p["new_dtype"])
    if n == "integer_pow":
        return [elementwise(lambda x: power(x, p["y"]), ins[0])]
    if n == "pow" and not symbolic(ins[1]):
        return [elementwise(lambda x, y: sqrt(x) if y == Fr(1, 2) else power(x, int(y)), *ins)]
    if n in ("reduce_sum", "reduce_prod", "cumsum", "dot_general", "reduce_max", "reduce_min"):
        f = {"reduce_sum": add, "cumsum": add, "dot_general": add, "reduce_prod": mul, "reduce_max": larger, "reduce_min": smaller}[n]
        if n == "dot_general":
            ((ca, cb), (ba, bb)) = p["dimension_numbers"]
            a, b = lift(ins[0]), lift(ins[1])
            if ba or bb or len(ca) != 1:
                raise Unsupported("dot_general")
            a, b = np.moveaxis(a, ca[0], -1), np.moveaxis(b, cb[0], -1)
            out = np.empty(a.shape[:-1] + b.shape[:-1], dtype=object)
            for i in np.ndindex(*a.shape[:-1]):
                for k in np.ndindex(*b.shape[:-1]):
                    s = Fr(0)
                    for q in range(a.shape[-1]):
                        s = add(s, mul(a[i + (q,)], b[k + (q,)]))
                    out[i + k] = s
            return [out]
        a = ins[0]
        if n == "cumsum":
            a = np.moveaxis(a, p["axis"], 0)
            rows = list(a)
            if p["reverse"]:
                rows = rows[::-1]
            acc, outs = None, []
            for r in rows:
                acc = r if acc is None else elementwise(f, acc, r)
                outs.append(np.asarray(acc, dtype=object))
            if p["reverse"]:
                outs = outs[::-1]
            return [np.moveaxis(np.stack(outs), 0, p["axis"])]
        for ax in sorted(p["axes"], reverse=True):
            rows = list(np.moveaxis(a, ax, 0))
            acc = rows[0]
            for r in rows[1:]:
                acc = elementwise(f, acc, r)
            a = acc if isinstance(acc, np.ndarray) else wrap(acc)
        return [a]
    if n in ("argmax", "argmin"):
        a = np.moveaxis(ins[0], p["axes"][0], 0)
        out = np.zeros(a.shape[1:], dtype=np.dtype(p["index_dtype"]))
        for i in np.ndindex(*out.shape):
            for k in range(1, a.shape[0]):
                if cmp("gt" if n == "argmax" else "lt", a[(k,) + i], a[(int(out[i]),) + i]):
                    out[i] = k
        return [out]
    if n == "select_n":
        which = ins[0]
        if symbolic(which):
            which = bools(which)
            if symbolic(which):
                raise Unsupported("selection by a symbolic index")
        cases = [lift(x) for x in ins[1:]]
        which = np.broadcast_to(which, cases[0].shape)
        out = np.empty(cases[0].shape, dtype=object)
        for i in np.ndindex(*out.shape):
            out[i] = cases[int(which[i])][i]
        return [out]
    if n in ("and", "or", "not"):
        raise Unsupported(n)
    if n in STRUCT:
        return struct(e, ins)
    raise Unsupported("primitive " + n)


def wrap(v):
    out = np.empty((), dtype=object)
    out[()] = v
    return out


def jnp():
    import jax.numpy as j
    return j


def struct(e, ins):
    """run a structural primitive on entry numbers"""
    n = e.primitive.name
    data = {"dynamic_update_slice": 2, "scatter": None, "pad": 2}.get(n, 1)
    which = [0, 2] if n == "scatter" else list(range(len(ins))) if n in ("concatenate",) else list(range(data))
    table, conv = [], []
    for k, x in enumerate(ins):
        if k in which:
            x = lift(x)
            ids = np.arange(len(table), len(table) + x.size).reshape(x.shape)
            table += list(x.flat)
            conv.append(jnp().asarray(ids.astype(np.int64)))
        else:
            if symbolic(x):
                raise Unsupported("symbolic index")
            conv.append(jnp().asarray(x))
    p = dict(e.params)
    sub, bind = e.primitive.get_bind_params(p)
    r = e.primitive.bind(*sub, *conv, **bind)
    outs = []
    for x in (r if e.primitive.multiple_results else [r]):
        x = np.asarray(x)
        out = np.empty(x.shape, dtype=object)
        for i in np.ndindex(*x.shape):
            out[i] = table[int(x[i])] if 0 <= x[i] < len(table) else NAN
        outs.append(bools(out))
    return outs


def run(jaxpr, consts, args):
    from jax.extend.core import Literal
    env = {}
    for v, c in zip(jaxpr.constvars, consts):
        env[v] = np.asarray(c)
    for v, a in zip(jaxpr.invars, args):
        env[v] = a

    def get(v):
        return np.asarray(v.val) if isinstance(v, Literal) else env[v]
    for e in jaxpr.eqns:
        for v, x in zip(e.outvars, eqn(e, [get(v) for v in e.invars])):
            env[v] = x if isinstance(x, np.ndarray) else (wrap(x) if isinstance(x, (C, A, NaN, z3.ExprRef, Fr)) else np.asarray(x))
    return [get(v) for v in jaxpr.outvars]
