"""C24: quantum arrays address and process the same elements as the equivalent numpy array."""
import itertools

import numpy as np

from ..prog import Spec, Violation, bits_to_bv, invec, inbit, sym_input, verify_circuit
from ..smt import z3

LEVEL = "bounded"
TECH = "symbolic execution (path sums) of the generated circuits with every array element a symbolic register, decided by an SMT solver"
FUNCTIONS = ["qrisp.core.quantum_array.QuantumArray.{__init__, __getitem__, __setitem__, encode, reshape, flatten, ravel, transpose, swapaxes, concatenate, duplicate, delete, measure, __iter__, __len__}",
             "QuantumArray.{__add__, __sub__, __mul__, __eq__, __ne__, __gt__, __ge__, __lt__, __le__, __and__, __or__, __xor__, all, any, __iadd__, __isub__, __imul__, __matmul__, __rmatmul__, __lshift__}",
             "quantum_array.manipulate_array, QuantumArrayIterator, flatten_qa, unflatten_qa", "alg_primitives.arithmetic.matrix_multiplication.{dot, tensordot, q_matmul, semi_classic_matmul}"]
BOUNDS = ("Arrays of up to 12 elements and 4 dimensions, elements of 1 to 3 qubits (QuantumFloat, QuantumBool, QuantumModulus, QuantumVariable); the views listed in qv/checks/c24.py and all compositions of two of them; "
          "quantum index tuples over power of two shapes (all index values) and other shapes (all valid index values); traced variants with run-time indices 0..5.")
OUTSIDE = "larger arrays; numpy features beyond the listed index expressions (boolean masks); array decoding, covered by C08"
HOW = ("Every element of the array gets a symbolic register, the operation is applied by the code under test, the elements of the result are copied to fresh registers and overwritten; the solver decides for all element values "
       "(and all values of quantum indices) that copies and array hold what numpy semantics prescribe")
TRUSTED = "z3; path-sum interpreter; numpy as the meaning of index expressions"

W = 2


def views():
    """(name, shape needed or None, function applicable to arrays)"""
    V = []

    def add(name, f, *shapes):
        V.append((name, f, shapes))
    add("id", lambda a: a, (3,), (2, 3), (2, 1, 2))
    add("head", lambda a: a[:2], (3,), (4, 2))
    add("tail", lambda a: a[1:], (3,), (3, 2))
    add("last", lambda a: a[-1], (3,), (2, 3), (2, 2, 2))
    add("neg", lambda a: a[-2:], (3,), (3, 2))
    add("step", lambda a: a[::2], (5,), (3, 2))
    add("rev", lambda a: a[::-1], (3,), (3, 2))
    add("row", lambda a: a[1], (2, 3), (2, 2, 2), (3,))
    add("col", lambda a: a[:, 1], (2, 3), (2, 2, 2))
    add("elem", lambda a: a[1, 0], (2, 3), (2, 2, 2))
    add("elem3", lambda a: a[1, 0, 1], (2, 2, 2))
    add("block", lambda a: a[0:2, 1:], (2, 3), (3, 2))
    add("ellipsis", lambda a: a[..., 1], (2, 3), (2, 2, 2))
    add("newaxis", lambda a: a[:, None], (3,), (2, 2))
    add("fancy", lambda a: a[np.array([2, 0])], (3,), (3, 2))
    add("fancy2", lambda a: a[np.array([1, 0]), np.array([2, 1])], (2, 3))
    add("mixed", lambda a: a[0, ::-1], (2, 3), (2, 2, 2))
    add("resh", lambda a: a.reshape(a.size // 2, 2), (4,), (2, 3), (2, 2, 2))
    add("resh-t", lambda a: a.reshape((2, a.size // 2)), (4,), (2, 3), (3, 2))
    add("resh-auto", lambda a: a.reshape((2, -1)), (4,), (2, 3), (3, 2))
    add("resh-list", lambda a: a.reshape([a.size]), (2, 3), (3, 2))
    add("flat", lambda a: a.flatten(), (3,), (2, 3), (2, 2, 2))
    add("ravel", lambda a: a.ravel(), (2, 3), (2, 2, 2))
    add("T", lambda a: a.transpose(), (3,), (2, 3), (2, 1, 3))
    add("T-axes", lambda a: a.transpose(1, 2, 0), (2, 1, 3), (2, 3, 1))
    add("T-tuple", lambda a: a.transpose((2, 0, 1)), (2, 1, 3), (1, 3, 2))
    add("T2", lambda a: a.transpose(1, 0), (2, 3), (3, 2))
    add("swap", lambda a: a.swapaxes(0, 1), (2, 3), (2, 1, 3))
    add("swap-neg", lambda a: a.swapaxes(0, -1), (2, 3), (2, 1, 3))
    return V


def elements(qa):
    """elements of an array or single variable in C order"""
    from qrisp import QuantumArray
    if isinstance(qa, QuantumArray):
        return [qa[pos] for pos in np.ndindex(qa.shape)], tuple(qa.shape)
    return [qa], ()


def new(shape, w=W, name="a", typ=None, **kw):
    from qrisp import QuantumArray, QuantumFloat
    qa = QuantumArray(typ() if typ else QuantumFloat(w), shape, **kw)
    names = []
    for k, qv in enumerate(qa.qv_list):
        sym_input(qv.reg, "%s%d" % (name, k))
        names.append("%s%d" % (name, k))
    return qa, np.array(range(len(names))).reshape(shape), names


def probe(qa, R, base, names, w, tag, extra=()):
    """copy the elements of the view, overwrite them, and decide where copies and changes ended"""
    from qrisp import QuantumVariable, cx, x, merge
    els, shape = elements(qa)
    if shape != tuple(np.shape(R)):
        raise Violation("%s: shape %s instead of %s" % (tag, shape, np.shape(R)))
    flat = [int(v) for v in np.ravel(R)]
    sp = Spec()
    masks = {}
    for n, (el, k) in enumerate(zip(els, flat)):
        out = QuantumVariable(w, qs=el.qs)
        cx(el, out)
        sp.reg(out.reg, invec(names[k], w), "copy of element %d" % n)
        sp.expect.update({q: z3.Xor(sp.expect[q], z3.BoolVal(bool(masks.get(k, 0) >> i & 1))) for i, q in enumerate(out.reg)})
        mask = (n + 1) % 2 ** w
        for i in range(w):
            if mask >> i & 1:
                x(el[i])
        masks[k] = masks.get(k, 0) ^ mask
    if isinstance(qa, QuantumVariable) is False and len(els) != np.size(R):
        raise Violation("%s: %d elements" % (tag, len(els)))
    for k, qv in enumerate(base):
        sp.reg(qv.reg, invec(names[k], w) ^ masks.get(k, 0), "array element %d" % k)
    return verify_circuit(base[0].qs.compile(), sp, tag=tag)


def view_case(shape, fs, tag):
    def run():
        qa, A, names = new(shape)
        base = list(qa.qv_list)
        v, R = qa, A
        for f in fs:
            v, R = f(v), f(R)
        r = probe(v, R, base, names, W, tag)
        return r
    return run


def applicable(f, A):
    try:
        r = f(A)
    except Exception:
        return None
    return r if isinstance(r, (np.ndarray, np.integer)) and np.size(r) else None


def iteration(shape):
    def run():
        qa, A, names = new(shape)
        v, R = qa.transpose(), A.transpose()
        got = list(v)
        if len(got) != R.size or len(v) != len(R):
            raise Violation("iterating a transposed %s array gives %d elements, len %d" % (shape, len(got), len(v)))
        from qrisp import QuantumVariable, cx
        sp = Spec()
        for n, (el, k) in enumerate(zip(got, R.ravel())):
            out = QuantumVariable(W, qs=el.qs)
            cx(el, out)
            sp.reg(out.reg, invec(names[k], W), "element %d" % n)
        for k, qv in enumerate(qa.qv_list):
            sp.reg(qv.reg, invec(names[k], W), "array element %d" % k)
        return verify_circuit(qa.qs.compile(), sp, tag="iteration over transposed %s" % (shape,))
    return run


def concat(s1, f1, s2, f2, axis, tag):
    def run():
        a, A, na = new(s1, name="a")
        b, B, nb = new(s2, name="b")
        base = list(a.qv_list) + list(b.qv_list)
        v = f1(a).concatenate(f2(b), axis) if axis is not None else f1(a).concatenate(f2(b))
        R = np.concatenate((f1(A), f2(B + A.size)), axis or 0)
        return probe(v, R, base, na + nb, W, "concatenate %s" % tag)
    return run


def duplicate(shape, f, init, tag):
    def run():
        from qrisp import QuantumVariable, cx, merge
        qa, A, names = new(shape)
        v, R = f(qa), f(A)
        d = v.duplicate(init=init) if init is not None else v.duplicate()
        els, sh = elements(d)
        if sh != R.shape:
            raise Violation("duplicate %s: shape %s instead of %s" % (tag, sh, R.shape))
        merge([qa.qs, d.qs])
        sp = Spec()
        for n, (el, k) in enumerate(zip(els, R.ravel())):
            if el.reg[0] in [q for qv in qa.qv_list for q in qv.reg]:
                raise Violation("duplicate %s shares qubits with the original" % tag)
            sp.reg(el.reg, invec(names[k], W) if init else z3.BitVecVal(0, W), "duplicated element %d" % n)
        if len({q for el in els for q in el.reg}) != W * R.size:
            raise Violation("duplicate %s: elements share qubits" % tag)
        for k, qv in enumerate(qa.qv_list):
            sp.reg(qv.reg, invec(names[k], W), "array element %d" % k)
        return verify_circuit(qa.qs.compile(), sp, tag="duplicate %s" % tag)
    return run


def delete(shape, f, tag):
    """delete of a view deallocates exactly the elements of the view"""
    def run():
        from qrisp import QuantumArray, QuantumFloat, cx
        qa = QuantumArray(QuantumFloat(W), shape)
        base = list(qa.qv_list)
        A = np.arange(len(base)).reshape(shape)
        R = f(A)
        hit = {int(k) for k in np.ravel(R)}
        names = ["a%d" % k for k in range(len(base))]
        for k, qv in enumerate(base):
            if k not in hit:
                sym_input(qv.reg, names[k])
        f(qa).delete()
        sp = Spec()
        for k, qv in enumerate(base):
            alive = not qv.is_deleted()
            if alive == (k in hit):
                raise Violation("delete of the view %s: element %d is %s" % (tag, k, "still allocated" if alive else "deleted although not part of the view"))
            if alive:
                sp.reg(qv.reg, invec(names[k], W), "array element %d" % k)
        if len(hit) == len(base):
            return {"queries": 0}
        return verify_circuit(qa.qs.compile(), sp, tag="delete %s" % tag)
    return run


def encode(shape, f, kind, tag, typ="float"):
    def run():
        from qrisp import QuantumArray, QuantumFloat, QuantumBool, QuantumChar, QuantumModulus, cx
        import jax.numpy as jnp
        qt = {"float": lambda: QuantumFloat(2, -1, signed=True), "bool": QuantumBool, "char": QuantumChar, "mod": lambda: QuantumModulus(5)}[typ]()
        qa = QuantumArray(qt, shape)
        base = list(qa.qv_list)
        w = base[0].size
        A = np.arange(len(base)).reshape(shape)
        R = f(A)
        lab = {"float": [0.5, -1.5, 1.0, -0.5, 1.5, 0, -2.0, -1.0], "bool": [True, False, True, True], "char": list("adex y"), "mod": [4, 2, 0, 1, 3]}[typ]
        code = {"float": lambda v: int(v * 2) % 8, "bool": int, "char": lambda c: [i for i in range(2 ** w) if base[0].decoder(i) == c][0],
                "mod": lambda v: [i for i in range(2 ** w) if i < 5 and base[0].decoder(i) == v][0]}[typ]
        vals = np.array([lab[(3 * n) % len(lab)] for n in range(R.size)], dtype=None if typ != "char" else object).reshape(R.shape)
        arg = {"np": lambda: vals, "list": lambda: vals.tolist(), "jnp": lambda: jnp.array(vals)}[kind]()
        hit = {int(k): vals.ravel()[n] for n, k in enumerate(R.ravel())}
        for k, qv in enumerate(base):
            if k not in hit:
                sym_input(qv.reg, "a%d" % k)
        v = f(qa)
        if tag.startswith("set"):
            qa[SLICES[tag[4:]]] = arg
        else:
            v[:] = arg
        sp = Spec()
        for k, qv in enumerate(base):
            sp.reg(qv.reg, z3.BitVecVal(code(hit[k]), w) if k in hit else invec("a%d" % k, w), "element %d" % k)
        return verify_circuit(qa.qs.compile(), sp, tag="encode %s %s" % (tag, kind))
    return run


SLICES = {"row": 1, "col": (slice(None), 1), "head": slice(0, 2), "block": (slice(0, 2), slice(1, None)), "rev": slice(None, None, -1), "pos": (slice(1, 2), slice(0, 1))}


# ------------------------------------------------------------------ quantum indices
def qindex(shape, f, tag, action="copy", single=False):
    """with array[i, j] as e: for all i, j"""
    def run():
        from qrisp import QuantumFloat, QuantumVariable, cx, x, merge
        qa, A, names = new(shape)
        v, R = f(qa), f(A)
        base = list(qa.qv_list)
        bits = [max(1, (d - 1).bit_length()) for d in R.shape]
        idx = [QuantumFloat(b, name="i%d" % n) for n, b in enumerate(bits)]
        I = []
        for n, q in enumerate(idx):
            sym_input(q.reg, "i%d" % n)
            I.append(invec("i%d" % n, bits[n]))
        out = QuantumVariable(W)
        key = idx[0] if single else tuple(idx)
        try:
            with v[key] as e:
                cx(e, out)
                if action == "add":
                    e += 1
                elif action == "flip":
                    x(e)
        except Exception as err:
            if "mismatching sized" in str(err) and 2 ** sum(bits) != R.size:
                return {"refused": 1}   # documented restriction of demux
            raise
        sp = Spec()
        valid = []
        for n, d in enumerate(R.shape):
            if d < 2 ** bits[n]:
                valid.append(z3.ULT(I[n], d))
        sp.assume += valid
        sel = z3.BitVecVal(0, W)
        new_ = {k: invec(names[k], W) for k in range(len(base))}
        for pos in np.ndindex(R.shape):
            k = int(R[pos])
            here = z3.And(*[i == p for i, p in zip(I, pos)])
            sel = z3.If(here, invec(names[k], W), sel)
            a = invec(names[k], W)
            if action == "add":
                new_[k] = z3.If(here, a + 1, new_[k])
            elif action == "flip":
                new_[k] = z3.If(here, ~a, new_[k])
        sp.reg(out.reg, sel, "value read")
        for n, q in enumerate(idx):
            sp.reg(q.reg, I[n], "index %d" % n)
        for k, qv in enumerate(base):
            sp.reg(qv.reg, new_[k], "array element %d" % k)
        return verify_circuit(out.qs.compile(), sp, tag="quantum index %s %s" % (tag, action))
    return run


# ------------------------------------------------------------------ elementwise operations
OPS = {"add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: a * b, "eq": lambda a, b: a == b, "ne": lambda a, b: a != b, "gt": lambda a, b: a > b, "ge": lambda a, b: a >= b,
       "lt": lambda a, b: a < b, "le": lambda a, b: a <= b, "and": lambda a, b: a & b, "or": lambda a, b: a | b, "xor": lambda a, b: a ^ b}
WIDE = 16


def value(name, n, e, signed, unit):
    """value of a register in units of 2^unit"""
    t = invec(name, n, WIDE, signed)
    return t << (e - unit)


def elementwise(op, ta, other, shape=(2, 2), view=None, tag="", inplace=False):
    """ta = (n, e, signed); other: ('array', tb, view) | ('var', tb) | ('np', values) | ('jnp', values) | ('scalar', value)"""
    def run():
        from qrisp import QuantumFloat, QuantumArray, merge
        import jax.numpy as jnp
        n, e, sg = ta
        w = n + sg
        qa, A, names = new(shape, typ=lambda: QuantumFloat(n, e, signed=bool(sg)))
        base = list(qa.qv_list)
        v, R = (view(qa), view(A)) if view else (qa, A)
        unit = e
        sp = Spec()
        kind = other[0]
        if kind in ("array", "var"):
            unit = min(e, other[1][1])
        elif op != "mul" and not inplace:
            unit = min(e, -3)
        if kind == "array":
            nb, eb, sb = other[1]
            vb, B, bn = new(other[2][0] if len(other) > 2 else R.shape, name="b", typ=lambda: QuantumFloat(nb, eb, signed=bool(sb)))
            bbase = list(vb.qv_list)
            if len(other) > 2:
                vb, B = other[2][1](vb), other[2][1](B)
            rhs = [value(bn[int(k)], nb + sb, eb, sb, unit) for k in B.ravel()]
            arg = vb
            for k, qv in enumerate(bbase):
                sp.reg(qv.reg, invec(bn[k], nb + sb), "b%d" % k)
        elif kind == "var":
            nb, eb, sb = other[1]
            arg = QuantumFloat(nb, eb, signed=bool(sb), name="v")
            sym_input(arg.reg, "v")
            sp.reg(arg.reg, invec("v", nb + sb), "v")
            rhs = [value("v", nb + sb, eb, sb, unit)] * R.size
        else:
            if kind == "scalar":
                arg = other[1]
                cl = [other[1]] * R.size
            else:
                arg = np.array(other[1]) if kind == "np" else jnp.array(other[1])
                cl = np.array(other[1]).ravel()
            s = 2.0 ** -unit if not (op == "mul") else 1
            rhs = [z3.BitVecVal(int(c * s), WIDE) for c in cl]
        lhs = [value(names[int(k)], w, e, sg, unit) for k in R.ravel()]
        if inplace:
            if op == "add":
                v += arg
            elif op == "sub":
                v -= arg
            else:
                v *= arg
            res = v
        else:
            res = OPS[op](v, arg)
        els, sh = elements(res)
        if sh != R.shape:
            raise Violation("%s: result has shape %s" % (tag, sh))
        want = {}
        for pos, (el, l, r) in enumerate(zip(els, lhs, rhs)):
            if op in ("eq", "ne", "gt", "ge", "lt", "le"):
                b = OPS[op](l, r)
                if el.size != 1:
                    raise Violation("%s: comparison result of %d qubits" % (tag, el.size))
                sp.reg(el.reg, [b], "result %d" % pos)
                continue
            t = OPS[op](l, r)
            u = unit + (other[1][1] + e - 2 * unit if op == "mul" and not inplace and kind in ("array", "var") else 0)
            if op == "mul" and not inplace and kind in ("array", "var"):
                # product of the values: units multiply
                t = OPS[op](invec(names[int(R.ravel()[pos])], w, WIDE, sg), (invec(bn[int(B.ravel()[pos])], nb + sb, WIDE, sb) if kind == "array" else invec("v", nb + sb, WIDE, sb)))
                u = e + other[1][1]
            if el.exponent > u:
                # the result register is coarser: only exact results are compared
                sp.assume.append(z3.URem(t, 2 ** (el.exponent - u)) == 0)
                t = t >> (el.exponent - u)
            else:
                t = t << (u - el.exponent)
            sp.reg(el.reg, z3.Extract(el.size - 1, 0, t), "result %d" % pos)
            if not inplace and not (kind in ("np", "jnp", "scalar")):
                # the chosen output type holds every result
                full = z3.SignExt(WIDE - el.size, z3.Extract(el.size - 1, 0, t)) if el.signed else z3.ZeroExt(WIDE - el.size, z3.Extract(el.size - 1, 0, t))
                sp.post.append(lambda outs, f=full, t=t: f == t)
        for k, qv in enumerate(base):
            if not inplace:
                sp.reg(qv.reg, invec(names[k], w), "array element %d" % k)
            elif qv.reg[0] not in sp.expect:
                sp.reg(qv.reg, invec(names[k], w), "array element %d outside the view" % k)
        return verify_circuit(base[0].qs.compile(), sp, tag=tag)
    return run


def boolean(op, shape, kind, view=None, tag=""):
    def run():
        from qrisp import QuantumBool
        qa, A, na = new(shape, typ=QuantumBool)
        base = list(qa.qv_list)
        v, R = (view(qa), view(A)) if view else (qa, A)
        sp = Spec()
        if kind == "array":
            qb, B, nb = new(R.shape, typ=QuantumBool, name="b")
            arg = qb
            rhs = [inbit("%s[0]" % nb[int(k)]) for k in B.ravel()]
            for k, qv in enumerate(qb.qv_list):
                sp.reg(qv.reg, invec(nb[k], 1), "b%d" % k)
        else:
            arg = QuantumBool(name="v")
            sym_input(arg.reg, "v")
            sp.reg(arg.reg, invec("v", 1), "v")
            rhs = [inbit("v[0]")] * R.size
        res = OPS[op](v, arg)
        els, sh = elements(res)
        if sh != R.shape:
            raise Violation("%s: result has shape %s" % (tag, sh))
        for pos, (el, k, r) in enumerate(zip(els, R.ravel(), rhs)):
            a = inbit("%s[0]" % na[int(k)])
            sp.reg(el.reg, [{"and": z3.And, "or": z3.Or, "xor": z3.Xor}[op](a, r)], "result %d" % pos)
        for k, qv in enumerate(base):
            sp.reg(qv.reg, invec(na[k], 1), "a%d" % k)
        return verify_circuit(base[0].qs.compile(), sp, tag=tag)
    return run


def reduction(op, shape, axis, view=None, tag=""):
    def run():
        from qrisp import QuantumBool, merge
        qa, A, na = new(shape, typ=QuantumBool)
        base = list(qa.qv_list)
        v, R = (view(qa), view(A)) if view else (qa, A)
        res = getattr(v, op)(axis=axis) if axis != "default" else getattr(v, op)()
        ax = None if axis == "default" else axis
        ref = np.empty(R.shape, dtype=object)
        for pos in np.ndindex(R.shape):
            ref[pos] = [inbit("%s[0]" % na[int(R[pos])])]
        axes = tuple(range(R.ndim)) if ax is None else tuple(a % R.ndim for a in (ax if isinstance(ax, tuple) else (ax,)))
        keep = [d for d in range(R.ndim) if d not in axes]
        groups = {}
        for pos in np.ndindex(R.shape):
            groups.setdefault(tuple(pos[d] for d in keep), []).extend(ref[pos])
        els, sh = elements(res)
        want = tuple(R.shape[d] for d in keep)
        if sh != want:
            raise Violation("%s: shape %s instead of %s" % (tag, sh, want))
        merge([qa.qs, res.qs])
        sp = Spec()
        for el, pos in zip(els, np.ndindex(want) if want else [()]):
            g = groups[tuple(pos)]
            sp.reg(el.reg, [z3.And(*g) if op == "all" else z3.Or(*g)], "result %s" % (pos,))
        for k, qv in enumerate(base):
            sp.reg(qv.reg, invec(na[k], 1), "a%d" % k)
        return verify_circuit(base[0].qs.compile(), sp, tag=tag)
    return run


# ------------------------------------------------------------------ matrix products
def matprod(kind, sa, sb, n, va=None, vb=None, signed=False, cl=None, tag=""):
    def run():
        from qrisp import QuantumFloat, QuantumArray, dot, tensordot
        typ = lambda: QuantumFloat(n, signed=signed)
        w = n + signed
        qa, A, na = new(sa, typ=typ)
        base = list(qa.qv_list)
        v, R = (va(qa), va(A)) if va else (qa, A)
        sp = Spec()
        X = np.empty(R.shape, dtype=object)
        for pos in np.ndindex(R.shape):
            X[pos] = invec(na[int(R[pos])], w, WIDE, signed)
        if cl is None:
            qb, B, nb = new(sb, typ=typ, name="b")
            u, S = (vb(qb), vb(B)) if vb else (qb, B)
            Y = np.empty(S.shape, dtype=object)
            for pos in np.ndindex(S.shape):
                Y[pos] = invec(nb[int(S[pos])], w, WIDE, signed)
            for k, qv in enumerate(qb.qv_list):
                sp.reg(qv.reg, invec(nb[k], w), "b%d" % k)
        else:
            u = np.array(cl)
            Y = np.empty(u.shape, dtype=object)
            for pos in np.ndindex(u.shape):
                Y[pos] = z3.BitVecVal(int(u[pos]), WIDE)
        if kind == "matmul":
            res, ref = v @ u, X.dot(Y)
        elif kind == "rmatmul":
            res, ref = u @ v, Y.dot(X)
        elif kind == "dot":
            res, ref = dot(v, u), X.dot(Y)
        else:
            res, ref = tensordot(v, u, kind), np.tensordot(X, Y, kind)
        els, sh = elements(res)
        if sh != np.shape(ref):
            raise Violation("%s: shape %s instead of %s" % (tag, sh, np.shape(ref)))
        for el, t in zip(els, np.ravel(ref) if np.shape(ref) else [ref.item() if isinstance(ref, np.ndarray) else ref]):
            sp.reg(el.reg, z3.Extract(el.size - 1, 0, t), "result")
        for k, qv in enumerate(base):
            sp.reg(qv.reg, invec(na[k], w), "a%d" % k)
        return verify_circuit(base[0].qs.compile(), sp, tag=tag)
    return run


# ------------------------------------------------------------------ traced programs
def traced_case(body, shape, values, tag):
    """body(array of registers, i, helper) in tracing mode; reference in numpy"""
    def run():
        from ..jaspq import traced, mark, inputs
        from qrisp import QuantumArray, QuantumFloat, QuantumVariable, cx, x
        tot = {}
        size = int(np.prod(shape))
        for val in values:
            A = np.arange(size).reshape(shape)
            R = body(A, val)
            sh = np.shape(R)

            def f(i):
                qa = QuantumArray(QuantumFloat(W), shape)
                flat = qa.flatten()
                for k in range(size):
                    mark(flat[k], "a%d" % k, W)
                v = body(qa, i)
                if tuple(getattr(v, "shape", ()) if isinstance(v, QuantumArray) else ()) != sh:
                    raise Violation("%s: traced shape %s instead of %s" % (tag, v.shape, sh))
                out = QuantumVariable(max(1, int(np.size(R))) * W)
                for n, pos in enumerate(np.ndindex(sh)):
                    el = v[pos] if sh else v
                    for b in range(W):
                        cx(el[b], out[n * W + b])
                    if (n + 1) & 1:
                        x(el[0])
                    if (n + 1) & 2:
                        x(el[1])
                return out
            regs, qc = traced(f, val)
            ins = inputs(qc)
            sp = Spec()
            masks = {}
            for n, k in enumerate(np.ravel(R)):
                k = int(k)
                sp.reg(regs[0][n * W:(n + 1) * W], invec("a%d" % k, W) ^ masks.get(k, 0), "copy %d" % n)
                masks[k] = masks.get(k, 0) ^ ((n + 1) & 3)
            for k in range(size):
                sp.reg([ins["a%d[%d]" % (k, b)] for b in range(W)], invec("a%d" % k, W) ^ masks.get(k, 0), "array element %d" % k)
            r = verify_circuit(qc, sp, tag="%s with run-time value %d" % (tag, val))
            for a, b in r.items():
                if isinstance(b, (int, float)):
                    tot[a] = tot.get(a, 0) + b
        return tot
    return run


def traced_loop(shape, tag, kind):
    """loops with run-time index over the array"""
    def run():
        from ..jaspq import traced, mark, inputs
        from qrisp import QuantumArray, QuantumFloat, QuantumVariable, cx, x
        from qrisp.jasp import jrange
        import jax.numpy as jnp
        tot = {}
        size = int(np.prod(shape))
        A = np.arange(size).reshape(shape)
        for val in range(0, shape[0] + 1):
            def f(i):
                qa = QuantumArray(QuantumFloat(W), shape)
                flat = qa.flatten()
                for k in range(size):
                    mark(flat[k], "a%d" % k, W)
                out = QuantumVariable(W)
                if kind == "rows":
                    for r in jrange(i):
                        for c in range(shape[1]):
                            cx(qa[r, c], out)
                            x(qa[r, c][c % 2])
                elif kind == "transposed":
                    t = qa.transpose()
                    for r in jrange(i):
                        cx(t[1, r], out)
                        x(t[0, r])
                elif kind == "reversed":
                    t = qa[::-1]
                    for r in jrange(i):
                        cx(t[r, 0], out)
                        x(t[r, 1])
                elif kind == "encode":
                    d = QuantumArray(QuantumFloat(W), (2, 2))
                    d[:] = jnp.array([[i % 4, 1], [2, (i + 1) % 4]])
                    for r in jrange(2):
                        cx(d[r, 1], out)
                elif kind == "iadd":
                    qa += i
                    d = qa.duplicate()
                    cx(qa[0, 1], d[0, 1])
                    cx(d[0, 1], out)
                elif kind == "concat":
                    b = QuantumArray(QuantumFloat(W), (1, shape[1]))
                    x(b[0, 0])
                    c = qa[:1].concatenate(b)
                    for r in jrange(2):
                        cx(c[r, 0], out)
                    x(c[1, 1][0])
                    cx(b[0, 1], out)
                return out
            regs, qc = traced(f, val)
            ins = inputs(qc)
            want = {k: invec("a%d" % k, W) for k in range(size)}
            acc = z3.BitVecVal(0, W)
            if kind == "rows":
                for r in range(val):
                    for c in range(shape[1]):
                        acc = acc ^ want[int(A[r, c])]
                        want[int(A[r, c])] = want[int(A[r, c])] ^ (1 << (c % 2))
            elif kind == "transposed":
                for r in range(val):
                    acc = acc ^ want[int(A.T[1, r])]
                    want[int(A.T[0, r])] = ~want[int(A.T[0, r])]
            elif kind == "reversed":
                for r in range(val):
                    acc = acc ^ want[int(A[::-1][r, 0])]
                    want[int(A[::-1][r, 1])] = ~want[int(A[::-1][r, 1])]
            elif kind == "encode":
                acc = z3.BitVecVal(1 ^ ((val + 1) % 4), W)
            elif kind == "iadd":
                want = {k: t + val for k, t in want.items()}
                acc = want[int(A[0, 1])]
            elif kind == "concat":
                acc = want[0] ^ 3 ^ 1
            sp = Spec()
            sp.rest_zero = kind not in ("encode", "iadd", "concat")
            if kind == "encode":
                sp.phase = "free"
            sp.reg(regs[0], acc, "result")
            for k in range(size):
                sp.reg([ins["a%d[%d]" % (k, b)] for b in range(W)], want[k], "array element %d" % k)
            r = verify_circuit(qc, sp, tag="%s with run-time value %d" % (tag, val))
            for a, b in r.items():
                if isinstance(b, (int, float)):
                    tot[a] = tot.get(a, 0) + b
        return tot
    return run


def cases(tier):
    big = tier == "thorough"
    out = []
    V = views()
    for name, f, shapes in V:
        for sh in shapes:
            tag = "%s of %s" % (name, "x".join(map(str, sh)))
            out.append(("view/%s/%s" % (name, "x".join(map(str, sh))), view_case(sh, [f], tag)))
    seen = 0
    for (n1, f1, s1), (n2, f2, s2) in itertools.product(V, V):
        if "id" in (n1, n2):
            continue
        for sh in s1 if big else s1[-1:]:
            A = np.arange(int(np.prod(sh))).reshape(sh)
            r = applicable(f1, A)
            if r is None or np.ndim(r) == 0:
                continue
            r = applicable(f2, r)
            if r is None:
                continue
            seen += 1
            if not big and seen % 3:
                continue
            out.append(("view2/%s-%s/%s" % (n1, n2, "x".join(map(str, sh))), view_case(sh, [f1, f2], "%s, %s of %s" % (n1, n2, sh))))
    for sh in ((3,), (2, 3), (2, 1, 2)):
        out.append(("iter/%s" % "x".join(map(str, sh)), iteration(sh)))
    I = lambda a: a
    CC = [("plain", (2,), I, (3,), I, None), ("axis1", (2, 1), I, (2, 2), I, 1), ("axis0", (1, 2), I, (2, 2), I, 0), ("neg-axis", (2, 2), I, (2, 1), I, -1), ("T", (2, 3), lambda a: a.transpose(), (1, 2), I, 0),
          ("slice-left", (4,), lambda a: a[:2], (2,), I, 0), ("slice-right", (2,), I, (4,), lambda a: a[2:], 0), ("slice-both", (3, 2), lambda a: a[1:], (2, 2), lambda a: a[::-1], 0), ("row", (2, 3), lambda a: a[1], (2,), I, 0)]
    for n, s1, f1, s2, f2, ax in CC:
        out.append(("concat/%s" % n, concat(s1, f1, s2, f2, ax, n)))
    DD = [("plain", (3,), I), ("matrix", (2, 2), I), ("T", (2, 3), lambda a: a.transpose()), ("tail", (4,), lambda a: a[2:]), ("rev", (3,), lambda a: a[::-1]), ("row", (2, 2), lambda a: a[1]), ("head", (4,), lambda a: a[:2]),
          ("resh", (2, 3), lambda a: a.reshape(3, 2))]
    for n, sh, f in DD:
        for init in (None, False, True):
            out.append(("duplicate/%s/%s" % (n, init), duplicate(sh, f, init, n)))
        out.append(("delete/%s" % n, delete(sh, f, n)))
    EE = [("whole", (2, 2), I), ("T", (2, 3), lambda a: a.transpose()), ("row", (2, 2), lambda a: a[1]), ("tail", (4,), lambda a: a[2:]), ("rev", (3,), lambda a: a[::-1]), ("flat", (2, 2), lambda a: a.flatten()), ("cube", (2, 1, 2), I)]
    for n, sh, f in EE:
        for kind in ("np", "list", "jnp"):
            out.append(("encode/%s/%s" % (n, kind), encode(sh, f, kind, n)))
    for n, sl in SLICES.items():
        out.append(("encode/set-%s" % n, encode((3, 2), lambda a, sl=sl: a[sl], "np", "set-" + n)))
    for typ in ("bool", "char", "mod"):
        out.append(("encode/type-%s" % typ, encode((3,), I, "np", "type " + typ, typ=typ)))
    QI = [("2x2", (2, 2), I), ("2x4", (2, 4), I), ("4x2", (4, 2), I), ("2x2x2", (2, 2, 2), I), ("T4x2", (4, 2), lambda a: a.transpose()), ("T2x2", (2, 2), lambda a: a.transpose()), ("rev", (2, 2), lambda a: a[::-1]),
          ("resh", (8,), lambda a: a.reshape(4, 2)), ("slice", (3, 2), lambda a: a[1:]), ("slice4", (4, 2), lambda a: a[::2]), ("tuple1", (4,), I), ("swap", (2, 2, 2), lambda a: a.swapaxes(0, 2)), ("1d-rev", (4,), lambda a: a[::-1]),
          ("3x2", (3, 2), I), ("2x3", (2, 3), I), ("3", (3,), I), ("5", (5,), I)]
    for n, sh, f in QI:
        for act in ("copy", "flip") + (("add",) if n in ("2x2", "T2x2") or big else ()):
            out.append(("qindex/%s/%s" % (n, act), qindex(sh, f, n, act)))
    for n, sh, f in (("4", (4,), I), ("rev", (4,), lambda a: a[::-1]), ("slice", (6,), lambda a: a[2:]), ("step", (8,), lambda a: a[::2])):
        for act in ("copy", "flip"):
            out.append(("qindex1/%s/%s" % (n, act), qindex(sh, f, n, act, single=True)))
    T = lambda a: a.transpose()
    for op in ("add", "sub", "mul", "eq", "ne", "gt", "ge", "lt", "le"):
        for nm, ta, tb in (("u", (2, 0, 0), (2, 0, 0)), ("s", (1, 0, 1), (1, 0, 1)), ("mix", (2, -1, 0), (1, 0, 1)), ("exp", (1, 1, 0), (2, 0, 0))):
            if op == "mul" and nm == "s" and not big:
                continue
            out.append(("elem/%s/array/%s" % (op, nm), elementwise(op, ta, ("array", tb), shape=(2,), tag="array %s array %s" % (op, nm))))
            out.append(("elem/%s/var/%s" % (op, nm), elementwise(op, ta, ("var", tb), shape=(2,), tag="array %s variable %s" % (op, nm))))
        out.append(("elem/%s/viewT" % op, elementwise(op, (1, 0, 0), ("array", (1, 0, 0)), shape=(2, 2), view=T, tag="transposed array %s array" % op)))
        out.append(("elem/%s/viewT2" % op, elementwise(op, (1, 0, 0), ("array", (1, 0, 0), ((2, 2), T)), shape=(2, 2), tag="array %s transposed array" % op)))
        out.append(("elem/%s/slice" % op, elementwise(op, (1, 0, 0), ("array", (1, 0, 0), ((3,), lambda a: a[1:])), shape=(4,), view=lambda a: a[::2], tag="sliced array %s sliced array" % op)))
        if op != "mul":
            for kind in ("np", "jnp"):
                out.append(("elem/%s/%s" % (op, kind), elementwise(op, (2, 0, 0), (kind, [[0, 1], [2, 3]]), tag="array %s %s" % (op, kind))))
                out.append(("elem/%s/%s-T" % (op, kind), elementwise(op, (2, 0, 0), (kind, [[0, 1], [2, 3], [1, 1]]), shape=(2, 3), view=T, tag="transposed array %s %s" % (op, kind))))
            out.append(("elem/%s/scalar" % op, elementwise(op, (2, 0, 0), ("scalar", 2), tag="array %s scalar" % op)))
            out.append(("elem/%s/scalar-f" % op, elementwise(op, (2, -1, 0), ("scalar", 0.5), tag="array %s 0.5" % op)))
    for op in ("add", "sub"):
        for nm, ta, tb in (("u", (2, 0, 0), (2, 0, 0)), ("s", (1, 0, 1), (1, 0, 1)), ("mix", (3, -1, 0), (1, 0, 0))):
            out.append(("inpl/%s/array/%s" % (op, nm), elementwise(op, ta, ("array", tb), shape=(2,), tag="in-place %s array %s" % (op, nm), inplace=True)))
            out.append(("inpl/%s/var/%s" % (op, nm), elementwise(op, ta, ("var", tb), shape=(2,), tag="in-place %s variable %s" % (op, nm), inplace=True)))
        out.append(("inpl/%s/T" % op, elementwise(op, (1, 0, 0), ("array", (1, 0, 0)), shape=(2, 3), view=T, tag="in-place transposed %s" % op, inplace=True)))
        out.append(("inpl/%s/slice" % op, elementwise(op, (2, 0, 0), ("array", (2, 0, 0), ((3,), lambda a: a[1:])), shape=(4,), view=lambda a: a[::2], tag="in-place sliced %s" % op, inplace=True)))
        for kind in ("np", "jnp"):
            out.append(("inpl/%s/%s" % (op, kind), elementwise(op, (2, 0, 0), (kind, [[0, 1], [2, 3]]), tag="in-place %s %s" % (op, kind), inplace=True)))
        out.append(("inpl/%s/scalar" % op, elementwise(op, (2, 0, 1), ("scalar", 3), tag="in-place %s scalar" % op, inplace=True)))
    for c in ([[1, 3], [5, 7]], [[-1, 3], [1, -3]]):
        out.append(("inpl/mul/np%s" % c[0][0], elementwise("mul", (2, 0, 1 if c[0][0] < 0 else 0), ("np", c), tag="in-place multiplication by array", inplace=True)))
    out.append(("inpl/mul/scalar", elementwise("mul", (3, 0, 0), ("scalar", 3), shape=(2,), tag="in-place multiplication", inplace=True)))
    for op in ("and", "or", "xor"):
        for kind in ("array", "var"):
            out.append(("bool/%s/%s" % (op, kind), boolean(op, (2, 2), kind, tag="bool %s %s" % (op, kind))))
            out.append(("bool/%s/%s-T" % (op, kind), boolean(op, (2, 3), kind, T, tag="transposed bool %s %s" % (op, kind))))
    for op in ("all", "any"):
        for sh in ((3,), (2, 3), (2, 2, 2)):
            axes = ["default", None, 0, -1] + ([1, (0, 1), (1, 0)] if len(sh) > 1 else []) + ([2, (0, 2), (2, 0), (1, -1)] if len(sh) > 2 else [])
            for ax in axes:
                out.append(("reduce/%s/%s/%s" % (op, "x".join(map(str, sh)), ax), reduction(op, sh, ax, tag="%s over %s of %s" % (op, ax, sh))))
        out.append(("reduce/%s/T" % op, reduction(op, (2, 3), 0, T, tag="%s of a transposed array" % op)))
    MM = [("1x2", (1, 2), (2, 1)), ("2x1", (2, 1), (1, 2)), ("2x2", (2, 2), (2, 1)), ("2x2r", (1, 2), (2, 2))]
    for n, sa, sb in MM:
        out.append(("matmul/q/%s" % n, matprod("matmul", sa, sb, 1 if n.startswith("2x2") else 2, tag="matrix product %s" % n)))
    out.append(("matmul/q/T", matprod("matmul", (2, 1), (2, 2), 1, va=T, tag="matrix product with transposed factor")))
    out.append(("matmul/q/T2", matprod("matmul", (1, 2), (1, 2), 2, vb=T, tag="matrix product with transposed second factor")))
    out.append(("matmul/cl", matprod("matmul", (2, 2), None, 2, cl=[[1, 2], [3, 0]], tag="product with a classical matrix")))
    out.append(("matmul/cl-s", matprod("matmul", (2, 2), None, 1, cl=[[1, -2], [3, 0]], signed=True, tag="product with a classical matrix, signed")))
    out.append(("matmul/cl-rect", matprod("matmul", (1, 2), None, 2, cl=[[1, 2, 1], [3, 0, 1]], tag="product with a rectangular classical matrix")))
    out.append(("matmul/rcl", matprod("rmatmul", (2, 2), None, 2, cl=[[1, 2], [3, 1]], tag="classical matrix times array")))
    out.append(("matmul/rcl-rect", matprod("rmatmul", (2, 1), None, 2, cl=[[1, 2], [3, 1], [0, 1]], tag="rectangular classical matrix times array")))
    out.append(("dot/vec", matprod("dot", (2,), (2,), 2, tag="dot of vectors")))
    out.append(("dot/mat", matprod("dot", (2, 2), (2, 1), 1, tag="dot of matrices")))
    out.append(("dot/matvec", matprod("dot", (2, 2), (2,), 1, tag="dot of matrix and vector")))
    out.append(("dot/matvec-rect", matprod("dot", (3, 2), (2,), 1, tag="dot of rectangular matrix and vector")))
    out.append(("dot/vecmat", matprod("dot", (2,), (2, 3), 1, tag="dot of vector and matrix")))
    out.append(("dot/cubevec", matprod("dot", (1, 2, 2), (2,), 1, tag="dot of cube and vector")))
    out.append(("dot/matcube", matprod("dot", (1, 2), (2, 2, 1), 1, tag="dot of matrix and cube")))
    out.append(("dot/4d", matprod("dot", (2,), (2, 1, 2, 1), 1, tag="dot of vector and 4-d array")))
    out.append(("dot/cl", matprod("dot", (2,), None, 2, cl=[[1, 2], [3, 1]], tag="dot of vector and classical matrix")))
    out.append(("tensordot/1", matprod(1, (1, 2), (2, 1), 1, tag="tensordot")))
    out.append(("tensordot/axes", matprod(((0,), (1,)), (2, 1), (2, 2), 1, tag="tensordot over axes")))
    out.append(("tensordot/2", matprod(2, (1, 2), (1, 2), 1, tag="tensordot over two axes")))
    out.append(("tensordot/neg", matprod(((-1,), (-2,)), (1, 2), (2, 2), 1, tag="tensordot over negative axes")))
    out.append(("tensordot/pair", matprod((0, 1), (2, 1), (1, 2), 1, tag="tensordot over a pair of axes")))
    out.append(("tensordot/cube", matprod(((1, 0), (0, 2)), (2, 2), (2, 1, 2), 1, tag="tensordot over two pairs of axes")))
    TT = [("elem", lambda a, i: a[i], (4,), range(4)), ("elem-neg", lambda a, i: a[-1 - i], (4,), range(3)), ("row", lambda a, i: a[i], (3, 2), range(3)), ("col", lambda a, i: a[:, i], (2, 3), range(3)),
          ("pos", lambda a, i: a[i, 1 - i], (2, 2), range(2)), ("T", lambda a, i: a.transpose()[i], (2, 3), range(3)), ("resh", lambda a, i: a.reshape(3, 2)[i, 1], (2, 3), range(3)), ("slice", lambda a, i: a[1:][i], (4,), range(3)),
          ("step", lambda a, i: a[::2][i], (4,), range(2)), ("rev", lambda a, i: a[::-1][i], (3, 2), range(3)), ("swap", lambda a, i: a.swapaxes(0, 1)[i], (2, 3), range(3)), ("flat", lambda a, i: a.flatten()[i], (2, 2), range(4)),
          ("whole", lambda a, i: a, (2, 2), range(1)), ("rowT", lambda a, i: a[i].transpose(), (2, 2, 2), range(2)), ("ravel", lambda a, i: a[1:].ravel()[i], (3, 2), range(4))]
    for n, f, sh, vals in TT:
        out.append(("traced/%s" % n, traced_case(f, sh, list(vals), "traced " + n)))
    for kind in ("rows", "transposed", "reversed", "encode", "iadd", "concat"):
        out.append(("traced-loop/%s" % kind, traced_loop((3, 2), "traced loop " + kind, kind)))
    return out
