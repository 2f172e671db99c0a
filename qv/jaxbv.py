"""Symbolic execution of jaxprs over SMT bit vectors.

The functions under test are traced with jax.make_jaxpr (the intermediate
representation the library itself executes) and interpreted here with symbolic
integers: concrete Python ints wherever the value is known, z3 bit vectors
otherwise.  Loops and index values that depend on symbolic data fork; only
feasible paths are followed (the solver decides).  Data conditionals whose
branches need no fork are merged with if-then-else.

A word size w other than 32 interprets uint32 as w bits and uint64 as 2w bits
and rewrites the literals 32, 2^31, 2^32-1 and 2^32 accordingly.
"""
import itertools

import numpy as np

from .smt import z3, check
from .pathsum import Unsupported, Undecided


F64 = z3.Float64()
RNE = z3.RNE()


class NeedFork(Exception):
    pass


class Exec:
    def __init__(self, w=32, assume=(), max_paths=4000, mulhook=None, timeout=60000, int_width=None, loose=False):
        self.loose = loose
        self.w = w
        self.int_width = int_width
        self.assume = list(assume)
        self.max_paths = max_paths
        self.mulhook = mulhook
        self.timeout = timeout
        self.paths = 0
        self.nofork = 0

    # -------------------------------------------------------------- exploration
    def run(self, closed, args):
        """yields (path condition, outputs)"""
        stack = [[]]
        while stack:
            self.prefix = stack.pop()
            self.pos = 0
            self.taken = []
            self.alts = []
            self.cond = []
            self.nofork = 0
            self.solver = z3.Solver()
            for a in self.assume:
                self.solver.add(a)
            out = self.closed(closed, args)
            self.paths += 1
            if self.paths > self.max_paths:
                raise Unsupported("more than %d paths" % self.max_paths)
            yield list(self.cond), out
            stack.extend(self.alts)

    def feasible(self, c):
        r, _ = check(c, solver=self.solver.translate(self.solver.ctx) if False else self._pushed(), timeout=self.timeout)
        return r == "sat"

    def _pushed(self):
        s = z3.Solver()
        s.add(self.solver.assertions())
        return s

    def decide(self, c):
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.nofork:
            raise NeedFork()
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
        else:
            t = self.feasible(c)
            f = self.feasible(z3.Not(c))
            if t and f:
                v = True
                self.alts.append(self.taken + [False])
            else:
                v = t
        self.pos += 1
        self.taken.append(v)
        cc = c if v else z3.Not(c)
        self.cond.append(cc)
        self.solver.add(cc)
        return v

    def concrete(self, x, signed):
        """value of an index, forking over the feasible values"""
        if isinstance(x, (int, bool, np.integer)):
            return int(x)
        x = z3.simplify(x)
        if z3.is_bv_value(x):
            return x.as_signed_long() if signed else x.as_long()
        if self.nofork:
            raise NeedFork()
        while True:
            # a deterministic value: the smallest feasible one keeps re-execution stable
            if self.pos < len(self.prefix):
                v = self.prefix[self.pos]
                if isinstance(v, tuple):
                    self.pos += 1
                    self.taken.append(v)
                    kind, val = v
                    c = x == val
                    if kind == "ne":
                        c = z3.Not(c)
                        self.cond.append(c)
                        self.solver.add(c)
                        continue
                    self.cond.append(c)
                    self.solver.add(c)
                    return val
            r, m = check(solver=self._pushed(), timeout=self.timeout)
            if r != "sat":
                raise Unsupported("infeasible path")
            mv = m.eval(x, model_completion=True)
            val = mv.as_signed_long() if signed else mv.as_long()
            if self.feasible(x != val):
                self.alts.append(self.taken + [("ne", val)])
            self.pos += 1
            self.taken.append(("eq", val))
            c = x == val
            self.cond.append(c)
            self.solver.add(c)
            return val

    # -------------------------------------------------------------- values
    def width(self, dt):
        dt = np.dtype(dt)
        if dt == np.uint32:
            return self.w
        if dt == np.uint64:
            return 2 * self.w
        if dt.kind == "i" and self.int_width:
            return self.int_width
        if dt.kind in "iu":
            return dt.itemsize * 8
        raise Unsupported("values of type %s" % dt)

    def wrap(self, v, dt):
        """canonical concrete value"""
        dt = np.dtype(dt)
        if dt.kind == "b":
            return bool(v)
        n = self.width(dt)
        v = int(v) & ((1 << n) - 1)
        if dt.kind == "i" and v >> (n - 1):
            v -= 1 << n
        return v

    def const(self, val, dt):
        dt = np.dtype(dt)
        if dt.kind == "b":
            return bool(val)
        if dt.kind == "f":
            return float(val)
        v = int(val)
        if self.w != 32:
            v = {32: self.w, 2 ** 31: 2 ** (self.w - 1), 2 ** 32: 2 ** self.w, 2 ** 32 - 1: 2 ** self.w - 1}.get(v, v)
        return self.wrap(v, dt)

    def lit(self, val, aval):
        dt = np.dtype(aval.dtype)
        arr = np.asarray(val)
        if arr.ndim == 0:
            return self.const(arr.item(), dt)
        out = np.empty(arr.shape, dtype=object)
        for i in np.ndindex(arr.shape):
            out[i] = self.const(arr[i], dt)
        return out

    def bv(self, x, dt):
        if isinstance(x, z3.BitVecRef):
            return x
        if isinstance(x, z3.BoolRef):
            raise Unsupported("bool used as number")
        return z3.BitVecVal(int(x), self.width(dt))

    def bl(self, x):
        if isinstance(x, z3.BoolRef):
            return x
        return z3.BoolVal(bool(x))

    # -------------------------------------------------------------- jaxprs
    def closed(self, cj, args):
        return self.jaxpr(cj.jaxpr, [self.lit(c, v.aval) for c, v in zip(cj.consts, cj.jaxpr.constvars)], args)

    def jaxpr(self, j, consts, args):
        env = {}
        for v, x in zip(j.constvars, consts):
            env[v] = x
        if len(j.invars) != len(args):
            raise Unsupported("argument number")
        for v, x in zip(j.invars, args):
            env[v] = x

        def read(a):
            return self.lit(a.val, a.aval) if hasattr(a, "val") else env[a]
        for e in j.eqns:
            ins = [read(a) for a in e.invars]
            outs = self.eqn(e, ins)
            if not e.primitive.multiple_results:
                outs = [outs]
            for v, x in zip(e.outvars, outs):
                env[v] = x
        return [read(a) for a in j.outvars]

    def eqn(self, e, ins):
        p = e.primitive.name
        f = getattr(self, "p_" + p, None)
        if f is not None:
            return f(e, ins)
        if p in ELEM:
            dts = [np.dtype(a.aval.dtype) for a in e.invars]
            odt = np.dtype(e.outvars[0].aval.dtype)
            return self.elementwise(lambda *xs: self.scalar(p, e, xs, dts, odt), ins)
        raise Unsupported("primitive %s" % p)

    def p_device_put(self, e, ins):
        return list(ins)

    def elementwise(self, f, ins):
        arrs = [x for x in ins if isinstance(x, np.ndarray)]
        if not arrs:
            return f(*ins)
        shape = arrs[0].shape
        out = np.empty(shape, dtype=object)
        for i in np.ndindex(shape):
            out[i] = f(*[x[i] if isinstance(x, np.ndarray) else x for x in ins])
        return out

    # -------------------------------------------------------------- scalars
    def scalar(self, p, e, xs, dts, odt):
        if p == "convert_element_type":
            return self.convert(xs[0], dts[0], odt)
        if p in ("copy", "stop_gradient", "device_put"):
            return xs[0]
        if p == "select_n":
            w = xs[0]
            if isinstance(w, (bool, int, np.bool_)):
                return xs[1 + int(w)]
            if len(xs) != 3:
                raise Unsupported("select_n")
            return self.ite(self.bl(w) if dts[0].kind == "b" else self.bv(w, dts[0]) != 0, xs[2], xs[1], odt)
        dt = dts[0]
        if any(d.kind == "f" for d in dts):
            return self.floating(p, e, xs, dts, odt)
        if all(not isinstance(x, z3.ExprRef) for x in xs):
            return self.conc(p, [x for x in xs], dt, odt)
        if dt.kind == "b":
            a = [self.bl(x) for x in xs]
            return {"and": lambda: z3.And(*a), "or": lambda: z3.Or(*a), "xor": lambda: z3.Xor(*a), "not": lambda: z3.Not(a[0]), "eq": lambda: a[0] == a[1],
                    "ne": lambda: z3.Xor(*a)}[p]()
        s = dt.kind == "i"
        a = [self.bv(x, d) for x, d in zip(xs, dts)]
        if p == "add":
            return a[0] + a[1]
        if p == "sub":
            return a[0] - a[1]
        if p == "neg":
            return -a[0]
        if p == "mul":
            if self.mulhook is not None and isinstance(xs[0], z3.ExprRef) and isinstance(xs[1], z3.ExprRef):
                return self.mulhook(a[0], a[1])
            return a[0] * a[1]
        if p == "div":
            return a[0] / a[1] if s else z3.UDiv(*a)
        if p == "rem":
            return z3.SRem(*a) if s else z3.URem(*a)
        if p == "and":
            return a[0] & a[1]
        if p == "or":
            return a[0] | a[1]
        if p == "xor":
            return a[0] ^ a[1]
        if p == "not":
            return ~a[0]
        if p == "shift_left":
            return a[0] << a[1]
        if p == "shift_right_logical":
            return z3.LShR(*a)
        if p == "shift_right_arithmetic":
            return a[0] >> a[1]
        if p == "eq":
            return a[0] == a[1]
        if p == "ne":
            return a[0] != a[1]
        if p == "lt":
            return a[0] < a[1] if s else z3.ULT(*a)
        if p == "le":
            return a[0] <= a[1] if s else z3.ULE(*a)
        if p == "gt":
            return a[0] > a[1] if s else z3.UGT(*a)
        if p == "ge":
            return a[0] >= a[1] if s else z3.UGE(*a)
        if p in ("max", "min"):
            lt = a[0] < a[1] if s else z3.ULT(*a)
            return z3.If(lt, a[1], a[0]) if p == "max" else z3.If(lt, a[0], a[1])
        if p == "sign":
            n = self.width(dt)
            if not s:
                return z3.If(a[0] == 0, z3.BitVecVal(0, n), z3.BitVecVal(1, n))
            return z3.If(a[0] == 0, z3.BitVecVal(0, n), z3.If(a[0] < 0, z3.BitVecVal(-1, n), z3.BitVecVal(1, n)))
        if p == "abs":
            return z3.If(a[0] < 0, -a[0], a[0]) if s else a[0]
        if p == "clz":
            n = self.width(dt)
            r = z3.BitVecVal(n, n)
            for i in range(n):
                r = z3.If(z3.Extract(i, i, a[0]) == 1, z3.BitVecVal(n - 1 - i, n), r)
            return r
        if p == "population_count":
            n = self.width(dt)
            r = z3.BitVecVal(0, n)
            for i in range(n):
                r = r + z3.ZeroExt(n - 1, z3.Extract(i, i, a[0]))
            return r
        raise Unsupported("primitive %s on symbolic values" % p)

    def fp(self, x):
        return x if isinstance(x, z3.FPRef) else z3.FPVal(float(x), F64)

    def floating(self, p, e, xs, dts, odt):
        if self.loose and p == "pow" and odt.kind == "f" and any(isinstance(x, z3.ExprRef) for x in xs):
            return z3.FreshConst(F64, "any")  # any value: over-approximation
        if any(d.kind == "f" and d.itemsize != 8 for d in dts):
            raise Unsupported("single precision")
        if p == "integer_pow":
            y = e.params["y"]
            xs, p = [xs[0], float(y)], "pow"
        if all(not isinstance(x, z3.ExprRef) for x in xs):
            a = np.float64(xs[0])
            b = np.float64(xs[1]) if len(xs) > 1 else None
            r = {"add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * b, "div": lambda: a / b, "pow": lambda: a ** b, "neg": lambda: -a, "abs": lambda: abs(a),
                 "max": lambda: max(a, b), "min": lambda: min(a, b), "floor": lambda: np.floor(a), "ceil": lambda: np.ceil(a), "sqrt": lambda: np.sqrt(a), "sign": lambda: np.sign(a),
                 "round": lambda: np.round(a), "exp2": lambda: np.exp2(a), "log": lambda: np.log(a), "eq": lambda: a == b, "ne": lambda: a != b, "lt": lambda: a < b,
                 "le": lambda: a <= b, "gt": lambda: a > b, "ge": lambda: a >= b, "is_finite": lambda: np.isfinite(a)}
            if p not in r or p == "round" and int(e.params["rounding_method"]) != 1:
                raise Unsupported("floating point %s" % p)
            v = r[p]()
            return bool(v) if odt.kind == "b" else float(v)
        a = [self.fp(x) for x in xs]
        if p in ("add", "sub", "mul", "div"):
            return {"add": z3.fpAdd, "sub": z3.fpSub, "mul": z3.fpMul, "div": z3.fpDiv}[p](RNE, *a)
        if p in ("eq", "lt", "le", "gt", "ge"):
            return {"eq": z3.fpEQ, "lt": z3.fpLT, "le": z3.fpLEQ, "gt": z3.fpGT, "ge": z3.fpGEQ}[p](*a)
        if p == "ne":
            return z3.Not(z3.fpEQ(*a))
        if p in ("neg", "abs"):
            return {"neg": z3.fpNeg, "abs": z3.fpAbs}[p](a[0])
        if p in ("floor", "ceil", "round"):
            if p == "round" and int(e.params["rounding_method"]) != 1:
                return z3.fpRoundToIntegral(z3.RNA(), a[0])
            return z3.fpRoundToIntegral({"floor": z3.RTN(), "ceil": z3.RTP(), "round": RNE}[p], a[0])
        if p in ("max", "min"):
            c = z3.fpGEQ(a[0], a[1]) if p == "max" else z3.fpLEQ(a[0], a[1])
            return z3.If(c, a[0], a[1])
        if p == "sign":
            return z3.If(z3.fpIsZero(a[0]), a[0], z3.If(z3.fpIsNegative(a[0]), z3.FPVal(-1.0, F64), z3.FPVal(1.0, F64)))
        raise Unsupported("floating point %s" % p)

    def conc(self, p, xs, dt, odt):
        n = None if dt.kind == "b" else self.width(dt)
        s = dt.kind == "i"
        a = xs[0]
        b = xs[1] if len(xs) > 1 else None
        if p in ("eq", "ne", "lt", "le", "gt", "ge"):
            return {"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[p]
        if dt.kind == "b":
            return {"and": lambda: a and b, "or": lambda: a or b, "xor": lambda: a != b, "not": lambda: not a}[p]()
        if p == "div":
            if b == 0:
                r = -1
            else:
                r = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
        elif p == "rem":
            r = a if b == 0 else (abs(a) % abs(b)) * (-1 if a < 0 else 1)
        elif p in ("shift_left", "shift_right_logical", "shift_right_arithmetic"):
            big = b < 0 or b >= n
            if p == "shift_left":
                r = 0 if big else a << b
            elif p == "shift_right_logical":
                r = 0 if big else (a & ((1 << n) - 1)) >> b
            else:
                r = a >> (n - 1 if big else b) if s else (0 if big else a >> b)
        elif p == "clz":
            r = n - (a & ((1 << n) - 1)).bit_length()
        elif p == "population_count":
            r = bin(a & ((1 << n) - 1)).count("1")
        elif p == "integer_pow":
            raise Unsupported("integer_pow")
        else:
            r = {"add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * b, "neg": lambda: -a, "and": lambda: a & b, "or": lambda: a | b, "xor": lambda: a ^ b,
                 "not": lambda: ~a, "max": lambda: max(a, b), "min": lambda: min(a, b), "sign": lambda: (a > 0) - (a < 0), "abs": lambda: abs(a)}[p]()
        return self.wrap(r, odt)

    def convert(self, x, src, dst):
        if src == dst:
            return x
        if dst.kind == "f" or src.kind == "f":
            if not isinstance(x, z3.ExprRef):
                return float(x) if dst.kind == "f" else self.wrap(int(x), dst)
            if self.w != 32 or self.int_width:
                raise Unsupported("conversion %s to %s" % (src, dst))
            if dst.kind == "f":
                if dst.itemsize != 8:
                    raise Unsupported("single precision")
                if src.kind == "f":
                    return x
                if src.kind == "b":
                    return z3.If(x, z3.FPVal(1.0, F64), z3.FPVal(0.0, F64))
                return (z3.fpSignedToFP if src.kind == "i" else z3.fpUnsignedToFP)(RNE, x, F64)
            if dst.kind == "b":
                return z3.Not(z3.fpIsZero(x))
            # values outside the range of the integer type are excluded by the assumptions of the caller
            return (z3.fpToSBV if dst.kind == "i" else z3.fpToUBV)(z3.RTZ(), x, z3.BitVecSort(self.width(dst)))
        if not isinstance(x, z3.ExprRef):
            return (x != 0) if dst.kind == "b" else self.wrap(int(x), dst)
        if src.kind == "b":
            return z3.If(x, z3.BitVecVal(1, self.width(dst)), z3.BitVecVal(0, self.width(dst)))
        if dst.kind == "b":
            return x != 0
        a, b = self.width(src), self.width(dst)
        if a == b:
            return x
        if a > b:
            return z3.Extract(b - 1, 0, x)
        return z3.SignExt(b - a, x) if src.kind == "i" else z3.ZeroExt(b - a, x)

    def ite(self, c, a, b, dt):
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            out = np.empty(a.shape, dtype=object)
            for i in np.ndindex(a.shape):
                out[i] = self.ite(c, a[i], b[i], dt)
            return out
        if not isinstance(a, z3.ExprRef) and not isinstance(b, z3.ExprRef) and a == b:
            return a
        if np.dtype(dt).kind == "b":
            return z3.If(c, self.bl(a), self.bl(b))
        if np.dtype(dt).kind == "f":
            return z3.If(c, self.fp(a), self.fp(b))
        return z3.If(c, self.bv(a, dt), self.bv(b, dt))

    # -------------------------------------------------------------- structured primitives
    def p_jit(self, e, ins):
        return self.closed(e.params["jaxpr"], ins)

    p_pjit = p_jit
    p_closed_call = p_jit

    def p_custom_jvp_call(self, e, ins):
        return self.closed(e.params["call_jaxpr"], ins)

    def p_cond(self, e, ins):
        idx, args = ins[0], ins[1:]
        br = e.params["branches"]
        dt = np.dtype(e.invars[0].aval.dtype)
        if not isinstance(idx, z3.ExprRef):
            return self.closed(br[min(max(int(idx), 0), len(br) - 1)], args)
        sidx = z3.simplify(idx)
        if z3.is_bv_value(sidx):
            v = sidx.as_signed_long()
            return self.closed(br[min(max(v, 0), len(br) - 1)], args)
        if len(br) == 2:
            self.nofork += 1
            try:
                outs = [self.closed(b, args) for b in br]
                c = self.bv(idx, dt) != 0
                return [self.ite(c, o1, o0, v.aval.dtype) for o0, o1, v in zip(outs[0], outs[1], e.outvars)]
            except NeedFork:
                pass
            finally:
                self.nofork -= 1
            if self.nofork:
                raise NeedFork()
            t = self.decide(self.bv(idx, dt) != 0)
            return self.closed(br[int(t)], args)
        v = self.concrete(idx, dt.kind == "i")
        return self.closed(br[min(max(v, 0), len(br) - 1)], args)

    def p_while(self, e, ins):
        cn, bn = e.params["cond_nconsts"], e.params["body_nconsts"]
        cc, bc, st = ins[:cn], ins[cn:cn + bn], ins[cn + bn:]
        for k in itertools.count():
            if k > 400:
                raise Unsupported("loop with more than 400 iterations")
            c = self.closed(e.params["cond_jaxpr"], list(cc) + list(st))[0]
            if isinstance(c, z3.ExprRef):
                c = self.decide(c)
            if not c:
                return st
            st = self.closed(e.params["body_jaxpr"], list(bc) + list(st))

    def p_scan(self, e, ins):
        nc, nk = e.params["num_consts"], e.params["num_carry"]
        consts, carry, xs = ins[:nc], ins[nc:nc + nk], ins[nc + nk:]
        n = e.params["length"]
        ys = []
        order = range(n - 1, -1, -1) if e.params["reverse"] else range(n)
        for i in order:
            o = self.closed(e.params["jaxpr"], list(consts) + list(carry) + [self.item(x, i) for x in xs])
            carry = o[:nk]
            ys.append(o[nk:])
        if e.params["reverse"]:
            ys = ys[::-1]
        outs = list(carry)
        for q, v in enumerate(e.outvars[nk:]):
            arr = np.empty(v.aval.shape, dtype=object)
            for i in range(n):
                arr[i] = ys[i][q]
            outs.append(arr)
        return outs

    @staticmethod
    def item(x, i):
        r = x[i]
        return r

    def p_broadcast_in_dim(self, e, ins):
        shape = e.params["shape"]
        x = ins[0]
        out = np.empty(shape, dtype=object)
        if not isinstance(x, np.ndarray):
            out.fill(x)
            return out if shape else x
        bd = e.params["broadcast_dimensions"]
        for i in np.ndindex(tuple(shape)):
            out[i] = x[tuple(i[d] if x.shape[k] != 1 else 0 for k, d in enumerate(bd))]
        return out

    def p_squeeze(self, e, ins):
        x = ins[0]
        r = np.squeeze(x, axis=tuple(e.params["dimensions"]))
        return r.item() if r.ndim == 0 else r

    def p_reshape(self, e, ins):
        x = ins[0]
        sh = e.params["new_sizes"]
        if not isinstance(x, np.ndarray):
            if sh == ():
                return x
            out = np.empty(sh, dtype=object)
            out.fill(x)
            return out
        r = x.reshape(sh)
        return r.item() if r.ndim == 0 else r

    def p_expand_dims(self, e, ins):
        return self.p_reshape(e, ins)

    def p_slice(self, e, ins):
        st = e.params["strides"] or (1,) * len(e.params["start_indices"])
        return ins[0][tuple(slice(a, b, c) for a, b, c in zip(e.params["start_indices"], e.params["limit_indices"], st))]

    def p_rev(self, e, ins):
        return np.flip(ins[0], e.params["dimensions"])

    def p_concatenate(self, e, ins):
        return np.concatenate([np.asarray(x, dtype=object) for x in ins], axis=e.params["dimension"])

    def p_iota(self, e, ins):
        dt, sh, d = np.dtype(e.params["dtype"]), e.params["shape"], e.params["dimension"]
        out = np.empty(sh, dtype=object)
        for i in np.ndindex(tuple(sh)):
            out[i] = self.wrap(i[d], dt)
        return out

    def p_dynamic_slice(self, e, ins):
        x, idx = ins[0], ins[1:]
        sz = e.params["slice_sizes"]
        if len(idx) == 1 and sz == (1,) and isinstance(idx[0], z3.ExprRef):
            dt = np.dtype(e.invars[1].aval.dtype)
            i = z3.simplify(idx[0])
            if not z3.is_bv_value(i) and self.nofork == 0:
                v = self.concrete(i, dt.kind == "i")
                idx = [v]
            elif z3.is_bv_value(i):
                idx = [i.as_signed_long() if dt.kind == "i" else i.as_long()]
            else:
                raise NeedFork()
        st = []
        for k, (i, s, d) in enumerate(zip(idx, sz, x.shape)):
            v = self.concrete(i, np.dtype(e.invars[1 + k].aval.dtype).kind == "i")
            st.append(min(max(v, 0), d - s))
        return x[tuple(slice(a, a + s) for a, s in zip(st, sz))]

    def p_dynamic_update_slice(self, e, ins):
        x, u, idx = ins[0], ins[1], ins[2:]
        out = x.copy()
        st = []
        for k, (i, s, d) in enumerate(zip(idx, u.shape, x.shape)):
            v = self.concrete(i, np.dtype(e.invars[2 + k].aval.dtype).kind == "i")
            st.append(min(max(v, 0), d - s))
        out[tuple(slice(a, a + s) for a, s in zip(st, u.shape))] = u
        return out

    def p_scatter(self, e, ins):
        x, idx, u = ins
        dn = e.params["dimension_numbers"]
        if dn.update_window_dims != () or dn.inserted_window_dims != (0,) or not isinstance(x, np.ndarray) or x.ndim != 1:
            raise Unsupported("scatter")
        out = x.copy()
        if idx.ndim == 1:
            idx, us = [idx], [u]
        else:
            idx = idx.reshape(-1, idx.shape[-1])
            us = list(u.flat)
        for k, v in zip(idx, us):
            i = self.concrete(k[0], True)
            if 0 <= i < len(x):
                out[i] = v
        return out

    def p_gather(self, e, ins):
        x, idx = ins
        dn = e.params["dimension_numbers"]
        if dn.offset_dims != () or dn.collapsed_slice_dims != (0,) or not isinstance(x, np.ndarray) or x.ndim != 1:
            raise Unsupported("gather")
        mode = str(e.params["mode"])
        shape = idx.shape[:-1]
        out = np.empty(shape, dtype=object)
        for j in np.ndindex(shape):
            i = self.concrete(idx[j][0], True)
            if not 0 <= i < len(x):
                if "FILL" in mode:
                    out[j] = self.wrap(-2 ** 63, np.dtype(e.outvars[0].aval.dtype))
                    continue
                i = min(max(i, 0), len(x) - 1)
            out[j] = x[i]
        return out[()] if shape == () else out

    def p_debug_callback(self, e, ins):
        return []

    def p_random_seed(self, e, ins):
        return 0

    def p_random_wrap(self, e, ins):
        return 0

    def p_random_unwrap(self, e, ins):
        return np.array([0, 0], dtype=object)

    def p_reduce_max(self, e, ins):
        return self.extremum(e, ins, "max")

    def p_reduce_min(self, e, ins):
        return self.extremum(e, ins, "min")

    def extremum(self, e, ins, which):
        dt = np.dtype(e.outvars[0].aval.dtype)
        if e.outvars[0].aval.shape != ():
            raise Unsupported("reduction of one axis")
        xs = list(ins[0].flat)
        r = xs[0]
        for v in xs[1:]:
            r = self.scalar(which, e, [r, v], [dt, dt], dt)
        return r

    def p_reduce_and(self, e, ins):
        if all(not isinstance(v, z3.ExprRef) for v in ins[0].flat):
            return all(ins[0].flat)
        return z3.And(*[self.bl(v) for v in ins[0].flat])

    def p_reduce_or(self, e, ins):
        if all(not isinstance(v, z3.ExprRef) for v in ins[0].flat):
            return any(ins[0].flat)
        return z3.Or(*[self.bl(v) for v in ins[0].flat])

    def p_reduce_sum(self, e, ins):
        dt = np.dtype(e.outvars[0].aval.dtype)
        xs = list(ins[0].flat)
        if all(not isinstance(v, z3.ExprRef) for v in xs):
            return self.wrap(sum(xs), dt)
        r = self.bv(xs[0], dt)
        for v in xs[1:]:
            r = r + self.bv(v, dt)
        return r

    def p_clamp(self, e, ins):
        lo, x, hi = ins
        dt = np.dtype(e.outvars[0].aval.dtype)

        def one(v, l, h):
            return self.scalar("min", e, [self.scalar("max", e, [v, l], [dt, dt], dt), h], [dt, dt], dt)
        if isinstance(x, np.ndarray):
            return self.elementwise(lambda v, l, h: one(v, l, h), [x, lo, hi])
        return one(x, lo, hi)


ELEM = {"integer_pow", "pow", "floor", "ceil", "round", "exp2", "log", "sqrt", "is_finite", "add", "sub", "mul", "div", "rem", "neg", "and", "or", "xor", "not", "shift_left", "shift_right_logical", "shift_right_arithmetic", "eq", "ne", "lt", "le", "gt", "ge",
        "max", "min", "sign", "abs", "select_n", "convert_element_type", "copy", "device_put", "clz", "population_count", "stop_gradient"}
