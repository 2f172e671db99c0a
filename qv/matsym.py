"""Exact symbolic-angle unitaries.

An amplitude is a finite sum  sum_j  q_j * zeta^{k_j} * exp(i * <e_j, theta>)  with rational q_j, zeta a primitive
2^P-th root of unity and e_j a vector of rational multiples of the symbolic angles.  Distinct exponent vectors are
linearly independent functions of the angles and 1, zeta, .., zeta^(2^(P-1)-1) are linearly independent over the
rationals, so two amplitudes agree for all angles iff all coordinates agree.  The coordinates are handed to z3.
"""
from fractions import Fraction
import cmath
import math

from .pathsum import Unsupported, Undecided, full_turn
from .smt import z3, check
from .interp import SYM_PREFIX

P = 8                      # 256-th roots of unity
N = 1 << P
H = N // 2

# term key: (k, exps) with 0 <= k < H and exps a sorted tuple of (symbol, Fraction)


def norm(d):
    return {t: c for t, c in d.items() if c}


def padd(a, b):
    if not a:
        return b
    if not b:
        return a
    if len(a) < len(b):
        a, b = b, a
    r = dict(a)
    for t, c in b.items():
        v = r.get(t, 0) + c
        if v:
            r[t] = v
        else:
            r.pop(t, None)
    return r


def _expadd(x, y):
    if not x:
        return y
    if not y:
        return x
    d = dict(x)
    for s, q in y:
        v = d.get(s, 0) + q
        if v:
            d[s] = v
        else:
            d.pop(s, None)
    return tuple(sorted(d.items()))


def pmul(a, b):
    r = {}
    for (k, e), c in a.items():
        for (l, f), d in b.items():
            m = k + l
            v = c * d
            if m >= H:
                m -= H
                v = -v
            t = (m, _expadd(e, f))
            w = r.get(t, 0) + v
            if w:
                r[t] = w
            else:
                r.pop(t, None)
    return r


ONE = {(0, ()): Fraction(1)}
ZERO = {}


def root(turns):
    """exp(2 pi i turns) for a dyadic fraction of a turn"""
    n = turns * N
    if n.denominator != 1:
        raise Unsupported("angle %s finer than 2pi/%d" % (turns, N))
    k = int(n) % N
    if k >= H:
        return {(k - H, ()): Fraction(-1)}
    return {(k, ()): Fraction(1)}


def scale(a, q):
    return {t: c * q for t, c in a.items()}


SQ2INV = padd(scale(root(Fraction(1, 8)), Fraction(1, 2)), scale(root(Fraction(-1, 8)), Fraction(1, 2)))


def conj(a):
    r = {}
    for (k, e), c in a.items():
        if k:
            k2, c2 = H - k, -c
        else:
            k2, c2 = 0, c
        r[(k2, tuple((s, -q) for s, q in e))] = c2
    return r


def angle(a):
    """radian angle -> (Fraction turns unreduced, ((symbol, Fraction),...)); exact"""
    import sympy
    if isinstance(a, sympy.Basic) and not a.is_number:
        e = sympy.expand(a)
        syms = {}
        const = 0
        for term in sympy.Add.make_args(e):
            fs = term.free_symbols
            if not fs:
                const = const + term
                continue
            if len(fs) != 1:
                raise Unsupported("nonlinear angle %s" % a)
            s = next(iter(fs))
            co = sympy.simplify(term / s)
            if co.free_symbols:
                raise Unsupported("nonlinear angle %s" % a)
            fr = Fraction(float(co)).limit_denominator(4096)
            if abs(float(fr) - float(co)) > 1e-9:
                raise Unsupported("irrational multiple in %s" % a)
            syms[str(s)] = syms.get(str(s), 0) + fr
        return _numturn(float(const)), tuple(sorted((s, q) for s, q in syms.items() if q))
    return _numturn(float(a)), ()


def _numturn(x):
    t = x / (2 * math.pi)
    n = t * N * 4
    r = round(n)
    if abs(n - r) > 1e-4:
        raise Unsupported("angle %r is not a dyadic fraction of a turn" % x)
    return Fraction(r, N * 4)


def expi(ang, f=Fraction(1)):
    """exp(i * f * angle)"""
    t, e = ang
    r = root(t * f)
    if e:
        ee = tuple((s, q * f) for s, q in e)
        return pmul(r, {(0, ee): Fraction(1)})
    return r


def cos_half(ang):
    h = Fraction(1, 2)
    return padd(scale(expi(ang, h), h), scale(expi(ang, -h), h))


def sin_half(ang):
    h = Fraction(1, 2)
    mi = root(Fraction(-1, 4))   # -i
    return pmul(mi, padd(scale(expi(ang, h), h), scale(expi(ang, -h), -h)))


I_ = root(Fraction(1, 4))
MI = root(Fraction(-1, 4))
M1 = {(0, ()): Fraction(-1)}


def gate2(name, params):
    """2x2 matrix of a named single qubit gate"""
    if name == "x":
        return [[ZERO, ONE], [ONE, ZERO]]
    if name == "y":
        return [[ZERO, MI], [I_, ZERO]]
    if name == "z":
        return [[ONE, ZERO], [ZERO, M1]]
    if name == "h":
        return [[SQ2INV, SQ2INV], [SQ2INV, scale(SQ2INV, -1)]]
    if name in ("s", "s_dg", "t", "t_dg"):
        return [[ONE, ZERO], [ZERO, root({"s": Fraction(1, 4), "s_dg": Fraction(-1, 4), "t": Fraction(1, 8),
                                          "t_dg": Fraction(-1, 8)}[name])]]
    if name == "p":
        return [[ONE, ZERO], [ZERO, expi(angle(full_turn(params[0])))]]
    if name in ("rz", "u1"):        # u1 is documented as rz in this code base
        a = angle(params[0])
        return [[expi(a, Fraction(-1, 2)), ZERO], [ZERO, expi(a, Fraction(1, 2))]]
    if name == "rx" or name in ("sx", "sx_dg"):
        a = angle(params[0]) if name == "rx" else (Fraction(1, 4) if name == "sx" else Fraction(-1, 4), ())
        c, s = cos_half(a), pmul(MI, sin_half(a))
        return [[c, s], [s, c]]
    if name == "ry":
        a = angle(params[0])
        c, s = cos_half(a), sin_half(a)
        return [[c, scale(s, -1)], [s, c]]
    if name == "u3":
        th, ph, la = [angle(x) for x in params[:3]]
        c, s = cos_half(th), sin_half(th)
        return [[c, scale(pmul(expi(la), s), -1)], [pmul(expi(ph), s), pmul(pmul(expi(ph), expi(la)), c)]]
    if name in ("id", "id_dg"):
        return [[ONE, ZERO], [ZERO, ONE]]
    if name == "gphase":
        g = expi(angle(full_turn(params[0])))
        return [[g, ZERO], [ZERO, g]]
    return None


LEAF = ("x", "y", "z", "h", "s", "s_dg", "t", "t_dg", "p", "rz", "u1", "rx", "sx", "sx_dg", "ry", "u3", "id", "id_dg", "gphase",
        "cx", "cy", "cz", "swap")


def u3(th, ph, la, gp=0):
    m = gate2("u3", [th, ph, la])
    g = expi(angle(gp))
    return [[pmul(x, g) for x in row] for row in m]


class Mat:
    """columns: basis input -> {basis output: amplitude}; little endian in the qubit order given"""

    def __init__(self, qubits, inputs=None):
        self.pos = {q: i for i, q in enumerate(qubits)}
        self.n = len(qubits)
        ins = range(1 << self.n) if inputs is None else inputs
        self.cols = {j: {j: ONE} for j in ins}
        self.gates = 0

    def run(self, qc, qmap=None):
        for ins in qc.data:
            qs = ins.qubits if qmap is None else [qmap[q] for q in ins.qubits]
            self.apply(ins.op, qs)
        return self

    def apply(self, op, qs):
        name = op.name
        if name in ("barrier", "qb_alloc", "qb_dealloc"):
            return
        if op.definition is not None:
            d = op.definition
            self.run(d, dict(zip(d.qubits, qs)))
            return
        if name in LEAF or not hasattr(op, "theta"):
            self.named(name, op.params, qs)
        else:
            self.gates += 1
            self.gate(u3(op.theta, op.phi, op.lam, op.global_phase), self.pos[qs[0]])
        if name == "u3" and op.global_phase != 0:
            self.gate(gate2("gphase", [op.global_phase]), self.pos[qs[0]])

    def named(self, name, params, qs, ctrl=()):
        self.gates += 1
        if name in ("cx", "cy", "cz"):
            self.gate(gate2(name[1:], ()), self.pos[qs[1]], ((self.pos[qs[0]], 1),) + tuple(ctrl))
            return
        if name == "swap":
            a, b = self.pos[qs[0]], self.pos[qs[1]]
            X = gate2("x", ())
            self.gate(X, a, ((b, 1),) + tuple(ctrl))
            self.gate(X, b, ((a, 1),) + tuple(ctrl))
            self.gate(X, a, ((b, 1),) + tuple(ctrl))
            return
        m = gate2(name, params)
        if m is None:
            raise Unsupported("no matrix for gate %s" % name)
        self.gate(m, self.pos[qs[0]], tuple(ctrl))

    def gate(self, m, t, ctrl=()):
        b = 1 << t
        cm = cv = 0
        for c, v in ctrl:
            cm |= 1 << c
            cv |= v << c
        for j, col in self.cols.items():
            out = {}
            for k, a in col.items():
                if k & cm != cv:
                    out[k] = padd(out[k], a) if k in out else a
                    continue
                v = 1 if k & b else 0
                for w in (0, 1):
                    f = m[w][v]
                    if f:
                        kk = (k | b) if w else (k & ~b)
                        r = pmul(a, f)
                        out[kk] = padd(out[kk], r) if kk in out else r
            self.cols[j] = {k: a for k, a in out.items() if a}


def compare(A, B, timeout=60000, up_to_phase=False, inputs=None):
    """None if the column dictionaries agree for all angles, else (col, row) of a differing entry.

    up_to_phase: B = phase * A with one phase factor (an element of the same ring of modulus 1) is accepted.
    """
    lin = {}

    def mono(t):
        if t not in lin:
            lin[t] = z3.Real("m%d" % len(lin))
        return lin[t]

    if up_to_phase:
        ph = find_phase(A, B)
        if ph is not None:
            A = {j: {k: pmul(a, ph) for k, a in col.items()} for j, col in A.items()}
    diffs = []
    where = []
    for j in A:
        for k in set(A[j]) | set(B[j]):
            a, b = A[j].get(k, ZERO), B[j].get(k, ZERO)
            # coordinatewise over the root-of-unity basis
            coords = {}
            for (r, e), c in a.items():
                coords.setdefault(r, []).append((e, c))
            for (r, e), c in b.items():
                coords.setdefault(r, []).append((e, -c))
            for r, lst in coords.items():
                tot = z3.Sum([z3.RealVal(str(c)) * mono(e) for e, c in lst])
                diffs.append(tot != 0)
                where.append((j, k))
    s, m = check(z3.Or(*diffs) if diffs else z3.BoolVal(False), timeout=timeout)
    if s == "unsat":
        return None
    for d, w in zip(diffs, where):
        if z3.is_true(m.eval(d, model_completion=True)):
            return w
    return where[0]


def find_phase(A, B):
    """unit-modulus monomial u with B = u*A if one exists (monomial phases only)"""
    for j in A:
        for k in A[j]:
            a, b = A[j][k], B.get(j, {}).get(k)
            if not b:
                return None
            if len(a) != len(b):
                return None
            # pick leading terms; try all pairings of the first term
            (k0, e0), c0 = next(iter(a.items()))
            for (k1, e1), c1 in b.items():
                if abs(c1) != abs(c0):
                    continue
                u = {(0, _expadd(e1, tuple((s, -q) for s, q in e0))): Fraction(1)}
                r = root(Fraction(k1 - k0, N))
                u = pmul(u, r)
                if c1 != c0:
                    u = scale(u, -1)
                if pmul(a, u) == b:
                    return u
            return None
    return None


def evaluate(a, subs):
    z = 0j
    for (k, e), c in a.items():
        z += float(c) * cmath.exp(2j * math.pi * k / N) * cmath.exp(1j * sum(float(q) * subs[s] for s, q in e))
    return z


# ------------------------------------------------------------------ matrices reported by the code (sympy / numpy)
def fourier(x):
    """number or sympy expression in exponentials / sines / cosines of linear forms -> {exponents: complex}"""
    import sympy
    if not isinstance(x, sympy.Basic):
        x = complex(x)
        return {(): x} if x else {}
    if x.is_number:
        c = complex(x)
        return {(): c} if c else {}
    if x.is_Add:
        r = {}
        for a in x.args:
            for e, c in fourier(a).items():
                r[e] = r.get(e, 0) + c
        return r
    if x.is_Mul:
        r = {(): 1}
        for a in x.args:
            r = _fmul(r, fourier(a))
        return r
    if isinstance(x, sympy.exp) or (x.is_Pow and x.base == sympy.E):
        return _fexp(x.args[0] if isinstance(x, sympy.exp) else x.exp)
    if x.is_Pow and x.exp.is_Integer and x.exp > 0:
        r = {(): 1}
        b = fourier(x.base)
        for _ in range(int(x.exp)):
            r = _fmul(r, b)
        return r
    if isinstance(x, (sympy.cos, sympy.sin)):
        p, m = _fexp(sympy.I * x.args[0]), _fexp(-sympy.I * x.args[0])
        f, g = (0.5, 0.5) if isinstance(x, sympy.cos) else (-0.5j, 0.5j)
        r = {e: c * f for e, c in p.items()}
        for e, c in m.items():
            r[e] = r.get(e, 0) + c * g
        return r
    raise Unsupported("cannot read %s in a reported matrix" % type(x).__name__)


def _fmul(a, b):
    r = {}
    for e, c in a.items():
        for f, d in b.items():
            t = _expadd(e, f)
            r[t] = r.get(t, 0) + c * d
    return r


def _fexp(z):
    """exp(z) with z a linear form with imaginary coefficients"""
    import sympy
    z = sympy.expand(z)
    co = 0
    ex = {}
    for t in sympy.Add.make_args(z):
        fs = t.free_symbols
        if not fs:
            co += complex(t)
            continue
        if len(fs) != 1:
            raise Unsupported("nonlinear exponent")
        s = next(iter(fs))
        q = complex(sympy.simplify(t / s))
        fr = Fraction(q.imag).limit_denominator(4096)
        if abs(q - 1j * float(fr)) > 1e-5:
            raise Unsupported("exponent %s" % t)
        ex[str(s)] = ex.get(str(s), 0) + fr
    return {tuple(sorted((s, q) for s, q in ex.items() if q)): cmath.exp(co)}


def compare_reported(ref, n, U, tol=1e-4, timeout=60000):
    """ref: columns of a Mat (little endian in qubit order), U: matrix reported by the code (first qubit most significant).
    Decides that all Fourier coefficients agree up to tol (the code computes in single precision)."""
    vs = []
    where = []
    one = z3.Real("unit")
    for j in ref:
        jj = int(format(j, "0%db" % n)[::-1], 2)
        for k in range(1 << n):
            kk = int(format(k, "0%db" % n)[::-1], 2)
            f = fourier(U[kk, jj])
            g = {}
            for (r, e), c in ref[j].get(k, ZERO).items():
                g[e] = g.get(e, 0) + float(c) * cmath.exp(2j * math.pi * r / N)
            for e in set(f) | set(g):
                d = f.get(e, 0) - g.get(e, 0)
                if d == 0:
                    continue
                for x in (d.real, d.imag):
                    x = Fraction(x).limit_denominator(10 ** 9)
                    t = z3.RealVal(str(x)) * one
                    vs.append(z3.Or(t > z3.RealVal(str(tol)), t < z3.RealVal(str(-tol))))
                    where.append((j, k))
    s, m = check(one == 1, z3.Or(*vs) if vs else z3.BoolVal(False), timeout=timeout)
    if s == "unsat":
        return None
    for d, w in zip(vs, where):
        if z3.is_true(m.eval(d, model_completion=True)):
            return w
    return where[0]
