"""Program harness: run a Qrisp program on symbolic basis-state inputs and decide its spec."""
import itertools
import math
import cmath
import time

from .smt import z3, Encoder, check, STATS
from .pathsum import PathState, Undecided, Unsupported, MOD, HALF, ONE, ZERO, parse_angle, neg_angle
from .interp import Runner, SYM_PREFIX
from .sparse import simulate


class Violation(Exception):
    """a property violation that was reproduced on the real code"""

    def __init__(self, msg, replay=None):
        Exception.__init__(self, msg)
        self.replay = replay or {}


class ReplayMismatch(Exception):
    """solver found a counterexample that the replay does not confirm: machinery error"""


def inbit(name):
    return z3.Bool("in!" + name)


def b2v(b, w=1):
    one = z3.BitVecVal(1, w)
    zero = z3.BitVecVal(0, w)
    return z3.If(b, one, zero)


def bits_to_bv(bits, width=None, signed=False):
    """little endian Bool list -> bit vector, extended to width"""
    if not bits:
        return z3.BitVecVal(0, width or 1)
    t = b2v(bits[0]) if len(bits) == 1 else z3.Concat(*[b2v(b) for b in bits[::-1]])
    if width is not None and width > len(bits):
        t = z3.SignExt(width - len(bits), t) if signed else z3.ZeroExt(width - len(bits), t)
    elif width is not None and width < len(bits):
        t = z3.Extract(width - 1, 0, t)
    return t


def invec(name, n, width=None, signed=False):
    return bits_to_bv([inbit("%s[%d]" % (name, i)) for i in range(n)], width, signed)


def bv_to_bits(t, n=None):
    n = n or t.size()
    return [z3.Extract(i, i, t) == 1 for i in range(n)]


def symin_op(name):
    from qrisp.circuit import Operation
    op = Operation(SYM_PREFIX + name, num_qubits=1)
    op.permeability = {0: False}
    op.is_qfree = False
    return op


def sym_input(reg, name):
    """turn the qubits of reg into symbolic basis-state inputs name[0..]"""
    out = []
    for i, q in enumerate(reg):
        q.qs().append(symin_op("%s[%d]" % (name, i)), [q])
        out.append("%s[%d]" % (name, i))
    return out


def sym_h(q, name):
    """Hadamard gate on q whose path variable is the input h:name[0], an opaque gate for the code under test"""
    q.qs().append(symin_op("h:%s[0]" % name), [q])


class Spec:
    """expected final values: {qubit: z3 Bool}; phases; assumptions"""

    def __init__(self):
        self.expect = {}
        self.label = {}
        self.assume = []
        self.phase = "relative"     # 'relative' | 'exact' | 'free'
        self.phase_terms = []       # [(angle radians, (bit names))] expected phase
        self.clexpect = {}          # clbit -> z3 Bool
        self.rest_zero = True
        self.free = set()           # qubits whose final value is unconstrained
        self.allow_env = False      # input dependent measurements allowed
        self.post = []              # callables (outs: qubit->Bool) -> z3 formula that must hold

    def reg(self, qubits, bits, label):
        qubits = list(qubits)
        if not isinstance(bits, (list, tuple)):
            bits = bv_to_bits(bits, len(qubits))
        assert len(bits) == len(qubits), (label, len(bits), len(qubits))
        for i, (q, b) in enumerate(zip(qubits, bits)):
            self.expect[q] = b
            self.label[q] = "%s[%d]" % (label, i)


def verify_circuit(qc, spec, init=None, timeout=120000, tag="", symsubs=None):
    """decide spec for circuit qc over all symbolic inputs; raises Violation / Undecided

    If the symbolic run gives no answer, solver-chosen candidate inputs are replayed concretely: a
    reproduced counterexample is reported, otherwise the case stays undecided.
    """
    try:
        # the presentation of the polynomials decides whether all path variables can be eliminated
        for kw in (dict(), dict(entry=3), dict(compact=12, entry=2), dict(compact=96, expand_limit=6000)):
            try:
                return _verify(qc, spec, init, timeout, tag, symsubs, **kw)
            except Undecided as e:
                last = e
        raise last
    except (Undecided, Unsupported) as e:
        _probe(qc, spec, init, tag, symsubs)
        raise e


def _inputs_of(qc, acc, seen):
    if id(qc) in seen:
        return
    seen.add(id(qc))
    for ins in qc.data:
        if ins.op.name.startswith(SYM_PREFIX):
            acc.append(ins.op.name[len(SYM_PREFIX):])
        elif ins.op.definition is not None:
            _inputs_of(ins.op.definition, acc, seen)


def _probe(qc, spec, init, tag, symsubs, tries=24):
    names = list(init.values()) if init else []
    _inputs_of(qc, names, set())
    names = list(dict.fromkeys(names))
    s = z3.Solver()
    s.set("timeout", 20000)
    s.add(*spec.assume)
    ref = None
    import random
    rnd = random.Random(7)
    start = time.time()
    for t in range(tries):
        if time.time() - start > 60:
            return
        s.push()
        for n in names:
            if t and s.check(lit := (inbit(n) if rnd.random() < 0.5 else z3.Not(inbit(n)))) == z3.sat:
                s.add(lit)
        if s.check() != z3.sat:
            s.pop()
            return
        m = s.model()
        s.pop()
        inp = {n: bool(z3.is_true(m.eval(inbit(n), model_completion=True))) for n in names}
        try:
            problems, phases, sim = _run_concrete(qc, spec, inp, init, symsubs)
        except Exception:
            return
        if not problems and spec.phase == "exact":
            problems = ["phase of the output is %s instead of 1" % a for a in phases.values()
                        if a is None or abs(a - 1) > 1e-6]
        if not problems and spec.phase == "relative":
            if ref is not None:
                for k in set(phases) & set(ref[1]):
                    a, b = phases[k], ref[1][k]
                    if a is None or b is None or abs(a / b - 1) > 1e-6:
                        problems.append("relative phase between inputs %s and %s differs" % (
                            fmt_inputs(inp), fmt_inputs(ref[0])))
            else:
                ref = (inp, phases)
        if problems:
            raise Violation("%s: input %s: %s" % (tag, fmt_inputs(inp), "; ".join(problems[:4])),
                            {"inputs": fmt_inputs(inp), "problems": problems[:10]})


def _verify(qc, spec, init, timeout, tag, symsubs, **kw):
    r = Runner(PathState(**kw))
    if init:
        for q, name in init.items():
            r.st.val[q] = r.sym_input(name)
    r.run(qc)
    st = r.st
    st.try_eliminate()
    for ang, names in spec.phase_terms:
        f = ONE
        for n in names:
            f = st.mul(f, r.sym_input(n))
        st.add_phase(neg_angle(parse_angle(ang)), f)
    enc = Encoder(st)
    info = {"gates": st.stats["gates"], "paths": st.stats["paths"], "queries": 0}
    assume = list(spec.assume)
    if assume:
        s, _ = check(*assume, timeout=timeout)
        if s != "sat":
            raise Exception("vacuous harness: assumptions unsatisfiable")
    env_base = 0
    for f in st.env:
        env_base |= st.base_support(f)
    rem = [v for v in st.remaining_paths() if not env_base >> v & 1]
    if rem:
        if len(rem) > 8 or st.sym or st.fl:
            raise Undecided("path variables left after reduction: %d" % len(rem))
        return _verify_amplitude(qc, r, enc, spec, rem, timeout, tag, info, init, symsubs)
    outs = {q: enc.anf(f) for q, f in st.val.items()}
    viol = []
    for q, f in st.val.items():
        if q in spec.expect:
            viol.append((spec.label[q], z3.Xor(outs[q], spec.expect[q])))
        elif isinstance(q, tuple):
            continue
        elif spec.rest_zero and q not in spec.free:
            viol.append(("ancilla " + str(q), outs[q]))
    for c, e in spec.clexpect.items():
        viol.append(("clbit " + str(c), z3.Xor(enc.anf(st.clval[c]), e)))
    for lab, key in r.dealloc:
        viol.append(("dealloc " + lab, outs[key]))
    for f in spec.post:
        viol.append(("post", z3.Not(f(outs))))
    s, m = check(*assume, z3.Or(*[v for _, v in viol]) if viol else z3.BoolVal(False), timeout=timeout)
    info["queries"] += 1
    if s == "sat":
        bad = [l for l, v in viol if z3.is_true(m.eval(v, model_completion=True))]
        _replay(qc, r, spec, m, bad, init, tag, symsubs)
    # decoherence: traced-out values must not depend on the inputs
    ins = [enc.var(v) for v in range(st.nvars) if st.kind[v] == "in"]
    zero_in = [(t, z3.BoolVal(False)) for t in ins]
    alt = [(t, z3.Bool(str(t) + "!alt")) for t in ins]
    if not spec.allow_env:
        es = []
        for f in st.env:
            if any(st.kind[v] == "in" and st.base_support(f) >> v & 1 for v in range(st.nvars)):
                t = enc.anf(f)
                es.append(z3.Xor(t, z3.substitute(t, *alt)))
        if es:
            s, m = check(*assume, *[z3.substitute(a, *alt) for a in assume], z3.Or(*es), timeout=timeout)
            info["queries"] += 1
            if s == "sat":
                _replay(qc, r, spec, m, ["measured/reset value depends on the input"], init, tag, symsubs)
    # phases
    if spec.phase != "free":
        fs = []
        if spec.phase == "exact":
            t = enc.phase_neq(st.ph)
            if t is not None:
                fs.append(t)
            for s_, d in st.sym.items():
                t = enc.lin_neq(d)
                if t is not None:
                    fs.append(t)
            t = enc.float_neq(st.fl)
            if t is not None:
                fs.append(t)
        else:
            fs = _relative_phase(st, enc, alt)
        if fs:
            al = [z3.substitute(a, *alt) for a in assume] if spec.phase != "exact" else []
            s, m = check(*assume, *al, z3.Or(*fs), timeout=timeout)
            info["queries"] += 1
            if s == "sat":
                _replay(qc, r, spec, m, ["phase"], init, tag, symsubs)
        else:
            check(z3.BoolVal(False))
            info["queries"] += 1
    info["stats"] = st.stats
    return info


def _relative_phase(st, enc, alt):
    """formulas stating that the phase differs between two inputs with the same outcomes"""
    fs = []

    def diff_int(items):
        p = 0
        dy = True
        for _, k in items:
            d, kk = 0, k % MOD
            while kk and d <= 25:
                kk = 2 * kk % MOD
                d += 1
            if kk:
                dy = False
            p = max(p, d)
        if dy:
            unit = MOD >> p
            if p == 1:
                t = z3.BoolVal(False)
                for m, _ in items:
                    t = z3.Xor(t, enc.mono(m))
                return z3.Xor(t, z3.substitute(t, *alt))
            tot = z3.BitVecVal(0, p)
            for m, k in items:
                tot = tot + z3.If(enc.mono(m), z3.BitVecVal(k // unit, p), z3.BitVecVal(0, p))
            return tot != z3.substitute(tot, *alt)
        tot = z3.IntVal(0)
        for m, k in items:
            tot = tot + z3.If(enc.mono(m), z3.IntVal(k), z3.IntVal(0))
        return (tot - z3.substitute(tot, *alt)) % MOD != 0

    items = [(m, k) for m, k in st.ph.items() if m]
    if items:
        fs.append(diff_int(items))
    for s_, d in st.sym.items():
        items = [(m, c) for m, c in d.items() if m]
        if items:
            tot = z3.RealVal(0)
            for m, c in items:
                tot = tot + z3.If(enc.mono(m), z3.RealVal(str(c)), z3.RealVal(0))
            fs.append(tot != z3.substitute(tot, *alt))
    items = [(m, c) for m, c in st.fl.items() if m]
    if items:
        tot = z3.RealVal(0)
        for m, c in items:
            tot = tot + z3.If(enc.mono(m), z3.RealVal("%.15f" % c), z3.RealVal(0))
        dlt = tot - z3.substitute(tot, *alt)
        k = z3.FreshInt("wrap")
        fs.append(z3.And(dlt > z3.ToReal(k) + z3.RealVal("0.000001"), dlt < z3.ToReal(k) + 1 - z3.RealVal("0.000001")))
    return fs


def _verify_amplitude(qc, r, enc, spec, rem, timeout, tag, info, init, symsubs):
    """complete fallback: sum the remaining paths explicitly, inputs stay symbolic.

    correct  <=>  amplitude of the specified basis state is exp(i*phase0) * 1
    """
    st = r.st
    if st.env and any(st.base_support(f) for f in st.env):
        raise Undecided("path variables left in a circuit with measurements")
    p = 3
    for k in st.ph.values():
        d, kk = 0, k % MOD
        while kk and d <= 25:
            kk = 2 * kk % MOD
            d += 1
        if kk:
            raise Undecided("non dyadic phase with path variables left")
        p = max(p, d)
    if p > 6:
        raise Undecided("phase precision too high for amplitude summation")
    unit = MOD >> p
    W = len(rem) + 4
    half = 1 << (p - 1)
    coef = [z3.BitVecVal(0, W) for _ in range(half)]
    tot = z3.BitVecVal(0, p)
    for m, k in st.ph.items():
        tot = tot + z3.If(enc.mono(m), z3.BitVecVal(k // unit, p), z3.BitVecVal(0, p))
    match = []
    for q, f in st.val.items():
        if q in spec.expect:
            match.append(enc.anf(f) == spec.expect[q])
        elif spec.rest_zero and q not in spec.free or isinstance(q, tuple):
            match.append(z3.Not(enc.anf(f)))
        else:
            raise Undecided("free output with path variables left")
    cond = z3.And(*match)
    yv = [enc.var(v) for v in rem]
    for bits in itertools.product([False, True], repeat=len(rem)):
        sub = [(y, z3.BoolVal(b)) for y, b in zip(yv, bits)]
        c = z3.substitute(cond, *sub)
        ph = z3.substitute(tot, *sub)
        for j in range(half):
            coef[j] = coef[j] + z3.If(z3.And(c, ph == j), z3.BitVecVal(1, W), z3.BitVecVal(0, W)) \
                - z3.If(z3.And(c, ph == j + half), z3.BitVecVal(1, W), z3.BitVecVal(0, W))
    # |amp| = 1  <=>  sum = 2^(halfpow/2) * unit root;  allowed roots depend on the phase mode
    hp = st.halfpow

    def target(root):
        e = [0] * half

        def add(idx, n):
            idx %= 2 * half
            if idx >= half:
                idx -= half
                n = -n
            e[idx] += n
        if hp % 2 == 0:
            add(root, 2 ** (hp // 2))
        else:
            eighth = (2 * half) // 8
            add(root + eighth, 2 ** ((hp - 1) // 2))
            add(root - eighth, 2 ** ((hp - 1) // 2))
        return z3.And(*[coef[j] == z3.BitVecVal(e[j], W) for j in range(half)])

    ins = [enc.var(v) for v in range(st.nvars) if st.kind[v] == "in"]
    if spec.phase == "exact":
        ok = target(0)
        formula = z3.Not(ok)
    else:
        roots = [target(k) for k in range(2 * half)]
        if spec.phase == "free":
            formula = z3.Not(z3.Or(*roots))
        else:
            # same root for every input: compare with an alternative input
            alt = [(t, z3.Bool(str(t) + "!alt")) for t in ins]
            formula = z3.And(*[z3.Not(z3.And(rt, z3.substitute(rt, *alt))) for rt in roots])
            formula = z3.And(formula, *[z3.substitute(a, *alt) for a in spec.assume])
    s, m = check(*spec.assume, formula, timeout=timeout)
    info["queries"] += 1
    info["amplitude_fallback"] = 1
    if s == "sat":
        _replay(qc, r, spec, m, ["amplitude of the specified result is not 1 (or phase)"], init, tag, symsubs)
    info["stats"] = st.stats
    return info


def concrete_inputs(r, m, suffix=""):
    out = {}
    for name in r.inputs:
        v = m.eval(z3.Bool("in!" + name + suffix), model_completion=True)
        out[name] = bool(z3.is_true(v))
    return out


def _run_concrete(qc, spec, inputs, init, symsubs):
    """run the circuit on one basis state; list of problems and branch phases"""
    ini = {q: inputs.get(n, False) for q, n in init.items()} if init else None
    subs = {}
    if symsubs:
        subs = symsubs
    else:
        import sympy
        syms = set()
        _collect_syms(qc, syms)
        for i, s in enumerate(sorted(syms, key=str)):
            subs[s] = 0.731 + 0.4177 * i
    sim = simulate(qc, inputs, subs, ini)
    sub = [(inbit(n), z3.BoolVal(b)) for n, b in inputs.items()]
    problems = []
    for q, w in sim.dealloc_dirty:
        problems.append("qubit %s deallocated with weight %.3f on |1>" % (q, w))
    phases = {}
    wants = {q: z3.is_true(z3.simplify(z3.substitute(spec.expect[q], *sub) if sub else spec.expect[q]))
             for q in sim.idx if q in spec.expect}
    for br in sim.branches:
        for q in list(sim.idx):
            if q in spec.expect:
                want = wants[q]
                lab = spec.label[q]
            elif spec.rest_zero and q not in spec.free:
                want, lab = False, "ancilla " + str(q)
            else:
                continue
            w = sum(abs(a) ** 2 for k, a in br.amps.items() if bool(k >> sim.idx[q] & 1) != want)
            if w > 1e-7:
                problems.append("%s: expected %d, wrong with probability %.4f" % (lab, want, w))
        for c, e in spec.clexpect.items():
            ee = z3.simplify(z3.substitute(e, *sub) if sub else e)
            if bool(br.cl.get(c, 0)) != z3.is_true(ee):
                problems.append("clbit %s wrong" % (c,))
        # rounded angles leave residues of tiny weight beside the basis state
        k = max(br.amps, key=lambda k: abs(br.amps[k]))
        if abs(br.amps[k]) ** 2 > 1 - 1e-6:
            phases[br.record] = br.amps[k] / abs(br.amps[k])
        else:
            phases[br.record] = None
    if spec.phase_terms:
        f = 1
        for ang, names in spec.phase_terms:
            if all(inputs.get(n, False) for n in names):
                v = float(ang.subs(subs)) if hasattr(ang, "subs") else float(ang)
                f *= cmath.exp(-1j * v)
        phases = {k: (a * f if a is not None else None) for k, a in phases.items()}
    return problems, phases, sim


def _collect_syms(qc, acc, seen=None):
    seen = seen if seen is not None else set()
    if id(qc) in seen:
        return
    seen.add(id(qc))
    for ins in qc.data:
        for p in ins.op.params:
            if hasattr(p, "free_symbols"):
                acc |= p.free_symbols
        if ins.op.definition is not None:
            _collect_syms(ins.op.definition, acc, seen)
        if hasattr(ins.op, "base_op"):
            for p in ins.op.base_op.params:
                if hasattr(p, "free_symbols"):
                    acc |= p.free_symbols


def _replay(qc, r, spec, m, bad, init, tag, symsubs):
    inp = concrete_inputs(r, m)
    alt = concrete_inputs(r, m, "!alt")
    problems, phases, sim = _run_concrete(qc, spec, inp, init, symsubs)
    if spec.post and not problems:
        # evaluate post conditions on the concrete outputs
        for br in sim.branches:
            if len(br.amps) == 1:
                (k, _), = br.amps.items()
                outs = {q: z3.BoolVal(bool(k >> i & 1)) for q, i in sim.idx.items()}
                for f in spec.post:
                    t = z3.simplify(z3.substitute(f(outs), *[(inbit(n), z3.BoolVal(b)) for n, b in inp.items()]))
                    if z3.is_false(t):
                        problems.append("post condition violated")
    if not problems and spec.phase == "exact":
        for k, a in phases.items():
            if a is None or abs(a - 1) > 1e-6:
                problems.append("phase of the output is %s instead of 1" % a)
    if not problems:
        p2, ph2, sim2 = _run_concrete(qc, spec, alt, init, symsubs)
        problems += p2
        zero = {n: False for n in inp}
        for other, oph in ((alt, ph2),):
            if set(phases) != set(oph):
                problems.append("measurement statistics depend on the input: %s vs %s" % (inp, other))
            for k in set(phases) & set(oph):
                a, b = phases[k], oph[k]
                if a is None or b is None or abs(a / b - 1) > 1e-6:
                    problems.append("relative phase between inputs %s and %s is %s" % (
                        fmt_inputs(inp), fmt_inputs(other), None if a is None or b is None else cmath.phase(a / b)))
    if not problems:
        raise ReplayMismatch("counterexample %s (%s) not reproduced [%s]" % (inp, bad, tag))
    raise Violation("%s: input %s: %s" % (tag, fmt_inputs(inp), "; ".join(problems[:4])),
                    {"inputs": fmt_inputs(inp), "problems": problems[:10], "solver": bad[:10]})


def fmt_inputs(inp):
    regs = {}
    for n, b in inp.items():
        base, _, i = n.rpartition("[")
        regs.setdefault(base, {})[int(i[:-1])] = b
    return {k: sum(int(b) << i for i, b in v.items()) for k, v in regs.items()}
