"""Symbolic execution of scalar Python code that uses jax.numpy.

The function under test is executed on jax tracers that stand for its numeric
arguments; every arithmetic operation is recorded by jax as a jaxpr.  Python
branches on such a value, uses as an index and conversions by int()/float()
fork: the function is re-executed once per outcome and the condition is recorded.
Each path gives a jaxpr whose outputs are the path conditions and the result;
jaxbv turns it into solver terms (64-bit integers, IEEE doubles).
"""
import sys

import jax
import jax.numpy as jnp
import numpy as np
from jax._src.interpreters import partial_eval as pe

from .smt import z3, check
from .pathsum import Unsupported, Undecided
from . import jaxbv

TR = pe.DynamicJaxprTracer


class _Meta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, cls._py)


def _number(py, dt):
    class num(metaclass=_Meta):
        _py = py

        def __new__(cls, x=0, *a, **k):
            if isinstance(x, TR):
                return x.astype(dt)
            return py(x, *a, **k)
    num.__name__ = py.__name__
    return num


INT = _number(int, jnp.int64)
FLOAT = _number(float, jnp.float64)


class TooMany(Exception):
    pass


class Raised:
    def __init__(self, e):
        self.e = e


class Paths:
    """path exploration of fn(*tracers); result of a path: Python object, Raised, or tracers"""

    def __init__(self, modules=(), static=True, max_paths=3000, index_limit=300, strings=False):
        self.strings = strings
        self.modules = modules
        self.static = static
        self.max_paths = max_paths
        self.index_limit = index_limit

    def _decide(self, cond):
        v = self.prefix[self.pos] if self.pos < len(self.prefix) else False
        self.pos += 1
        self.taken.append(v)
        self.cond.append(cond)
        return v

    def _patch(self):
        saved = []

        def put(o, k, v):
            saved.append((o, k, o.__dict__.get(k, self)))
            setattr(o, k, v)

        def b(t):
            return self._decide(t if t.dtype == bool else t != 0)

        def idx(t):
            if id(t) in self.pinned:
                return self.pinned[id(t)][0]
            for v in range(self.index_limit):
                if self._decide(t == v):
                    self.pinned[id(t)] = (v, t)
                    return v
            raise TooMany("index of more than %d values" % self.index_limit)
        orig = TR.astype

        def astype(t, d):
            return orig.fget(t)(getattr(d, "_py", d)) if isinstance(orig, property) else orig(t, getattr(d, "_py", d))
        put(TR, "astype", astype)
        put(TR, "__bool__", b)
        put(TR, "__index__", idx)
        if self.strings:
            put(TR, "__str__", lambda t: str(idx(t)))
            put(TR, "__format__", lambda t, f: format(idx(t), f))
        for m in self.modules:
            put(m, "int", INT)
            put(m, "float", FLOAT)
        if self.static:
            for name, m in list(sys.modules.items()):
                if name.startswith("qrisp") and "check_for_tracing_mode" in getattr(m, "__dict__", {}):
                    put(m, "check_for_tracing_mode", lambda: False)
        return saved

    def _unpatch(self, saved):
        for o, k, v in reversed(saved):
            if v is self:
                delattr(o, k)
            else:
                setattr(o, k, v)

    def run(self, fn, avals):
        stack = [[]]
        n = 0
        while stack:
            prefix = stack.pop()
            self.prefix, self.pos, self.taken, self.cond, self.pinned = prefix, 0, [], [], {}
            box = {}

            def traced(*args):
                saved = self._patch()
                try:
                    try:
                        r = fn(*args)
                    except (Unsupported, Undecided):
                        raise
                    except Exception as e:
                        r = Raised(e)
                finally:
                    self._unpatch(saved)
                outs = []
                if isinstance(r, (tuple, list)):
                    box["r"] = [("t", len(outs) + i) for i, _ in enumerate(r)]
                    outs = [jnp.asarray(x) for x in r]
                elif isinstance(r, (TR, jax.Array, np.generic)):
                    box["r"] = [("t", 0)]
                    outs = [jnp.asarray(r)]
                else:
                    box["r"] = r
                return list(self.cond) + outs
            closed = jax.make_jaxpr(traced)(*avals)
            n += 1
            if n > self.max_paths:
                raise Unsupported("more than %d paths" % self.max_paths)
            yield closed, list(self.taken), box["r"]
            for i in range(len(prefix), len(self.taken)):
                if self.taken[i] is False:
                    stack.append(self.taken[:i] + [True])

    def terms(self, fn, avals, args, assume=()):
        """yields (path condition, result); result: list of solver terms, or ('py', object), or Raised"""
        for closed, taken, r in self.run(fn, avals):
            ex = jaxbv.Exec(assume=list(assume))
            for pc, outs in ex.run(closed, args):
                cond = list(pc)
                dead = False
                for v, t in zip(outs, taken):
                    if isinstance(v, (bool, np.bool_)):
                        dead |= bool(v) != t
                    else:
                        v = ex.bl(v)
                        cond.append(v if t else z3.Not(v))
                if dead:
                    continue
                if check(*(list(assume) + cond))[0] == "unsat":
                    continue
                if isinstance(r, list):
                    yield cond, outs[len(taken):]
                elif isinstance(r, Raised) and isinstance(r.e, TooMany):
                    raise Unsupported(str(r.e))
                elif isinstance(r, Raised):
                    yield cond, r
                else:
                    yield cond, ("py", r)
