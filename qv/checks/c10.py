"""C10: automatic uncomputation."""
import itertools
import math

from ..prog import sym_input, sym_h, Violation
from ..equiv import twin, RawCircuit, RawInstr

LEVEL = "translation_validation"
TECH = ("symbolic execution of programs with and without uncomputation on the same symbolic inputs; an SMT solver decides that the uncomputed qubits are |0> and that "
        "values and phases of everything else agree")
FUNCTIONS = ["qrisp.QuantumVariable.uncompute", "qrisp.permeability.uncomputation.{uncompute, auto_uncompute}", "qrisp.permeability.qc_transformations.unqomp.{uncompute_qc, uncompute_node}",
             "qrisp.permeability.permeability_dag.{PermeabilityGraph, dag_from_qc}", "qrisp.permeability.type_checker.{is_qfree, is_permeable}"]
BOUNDS = ("two 2-qubit input registers (all basis states, hence by linearity all states), one or two uncomputed variables of up to 2 qubits; every program of one computing gate and one further gate, "
          "a fixed part of the programs with up to 5 gates out of 44 (13 computing, 31 further ones including Hadamard and input modifications); variables of library arithmetic, comparisons, conditions, "
          "recomputation, delayed uncomputation, gate wraps.  thorough: all programs of three gates.")
OUTSIDE = "phases contributed by gates on the uncomputed variable that carry a phase of their own (y, cy, phase tolerant gates): these are undone together with the value; measurements before uncomputation; rotations about x/y on the kept variables (the path semantics of the reference covers Hadamard only)"
HOW = ("each program runs on the real session; its circuit and the circuit of the same program without the uncompute call (complex conjugated, on twin qubits) are executed on the same symbolic inputs; "
       "z3 decides the equality of the outputs and of the phase polynomials.  An exception of uncompute counts as refusal.")

PI = math.pi


class Ctx:
    def __init__(self, extra=False):
        from qrisp import QuantumVariable
        self.a = QuantumVariable(2, name="a")
        self.o = QuantumVariable(2, name="o")
        sym_input(self.a.reg, "a")
        sym_input(self.o.reg, "o")
        from qrisp import merge
        merge(self.a, self.o)
        self.t = QuantumVariable(2, name="t", qs=self.a.qs)
        self.nh = 0

    def h(self, q):
        sym_h(q, "s%d" % self.nh)
        self.nh += 1


def compute():
    import qrisp as Q
    from qrisp.circuit import XGate, YGate, PGate, SwapGate
    V = {
        "cx_a0t0": lambda c: Q.cx(c.a[0], c.t[0]),
        "cx_a1t1": lambda c: Q.cx(c.a[1], c.t[1]),
        "ccx_t0": lambda c: Q.mcx([c.a[0], c.a[1]], c.t[0]),
        "ccx_o_t1": lambda c: Q.mcx([c.o[0], c.a[1]], c.t[1]),
        "x_t0": lambda c: Q.x(c.t[0]),
        "y_t1": lambda c: Q.y(c.t[1]),
        "cx_t0t1": lambda c: Q.cx(c.t[0], c.t[1]),
        "swap_t": lambda c: Q.swap(c.t[0], c.t[1]),
        "ocx_t0": lambda c: c.a.qs.append(XGate().control(2, ctrl_state="01"), [c.a[0], c.o[1], c.t[0]]),
        "pt_t0": lambda c: Q.mcx([c.a[0], c.a[1]], c.t[0], method="gray_pt"),
        "ccx3_t0": lambda c: Q.mcx([c.a[0], c.a[1], c.o[0]], c.t[0], ctrl_state="101"),
        "cy_t0": lambda c: c.a.qs.append(YGate().control(1), [c.a[0], c.t[0]]),
        "fredkin_t": lambda c: c.a.qs.append(SwapGate().control(1), [c.a[1], c.t[0], c.t[1]]),
    }
    return V


def further():
    import qrisp as Q
    from qrisp.circuit import XGate, YGate, PGate, SwapGate, RXGate, ZGate
    V = dict(compute())
    V.update({
        "cx_t0o0": lambda c: Q.cx(c.t[0], c.o[0]),
        "ccx_to": lambda c: Q.mcx([c.t[0], c.t[1]], c.o[0]),
        "cx_t1a0": lambda c: Q.cx(c.t[1], c.a[0]),
        "cz_t0o1": lambda c: Q.cz(c.t[0], c.o[1]),
        "cp_t0a0": lambda c: Q.cp(PI / 4, c.t[0], c.a[0]),
        "z_t1": lambda c: Q.z(c.t[1]),
        "t_t0": lambda c: Q.t(c.t[0]),
        "rz_t0": lambda c: Q.rz(PI / 4, c.t[0]),
        "p_a0": lambda c: Q.p(PI / 8, c.a[0]),
        "x_a0": lambda c: Q.x(c.a[0]),
        "cx_o1a0": lambda c: Q.cx(c.o[1], c.a[0]),
        "cx_a1a0": lambda c: Q.cx(c.a[1], c.a[0]),
        "swap_a0o0": lambda c: Q.swap(c.a[0], c.o[0]),
        "h_a0": lambda c: c.h(c.a[0]),
        "h_o0": lambda c: c.h(c.o[0]),
        "h_a1": lambda c: c.h(c.a[1]),
        "HT": lambda c: Q.h(c.t[0]),
        "rx_t1": lambda c: Q.rx(PI / 2, c.t[1]),
        "swap_t0o0": lambda c: Q.swap(c.t[0], c.o[0]),
        "cx_o0a1": lambda c: Q.cx(c.o[0], c.a[1]),
        "fredkin_o": lambda c: c.a.qs.append(SwapGate().control(1), [c.t[0], c.o[0], c.o[1]]),
        "cy_t0o1": lambda c: c.a.qs.append(YGate().control(1), [c.t[0], c.o[1]]),
        "crz_t0o0": lambda c: Q.crz(PI / 2, c.t[0], c.o[0]),
        "ocz": lambda c: c.a.qs.append(ZGate().control(2, ctrl_state="00"), [c.a[0], c.t[1], c.o[0]]),
        "gw_at": lambda c: gw(c.a, c.t),
        "gw_to": lambda c: gw2(c.t, c.o),
        "env_t": lambda c: env(c),
        "env_to": lambda c: env2(c),
        "rzz_to": lambda c: Q.rzz(PI / 4, c.t[0], c.o[1]),
        "gphase": lambda c: Q.gphase(PI / 4, c.t[0]),
        "barrier": lambda c: Q.barrier([c.t[0], c.a[0]]),
    })
    return V


def gw(a, t):
    from qrisp import gate_wrap, cx, mcx, x

    @gate_wrap
    def wrapped(a, t):
        cx(a[0], t[0])
        mcx([a[0], t[0]], t[1])
        x(t[0])
    wrapped(a, t)


def gw2(t, o):
    from qrisp import gate_wrap, cx, cp

    @gate_wrap
    def wrapped2(t, o):
        cx(t[0], o[0])
        cp(PI / 4, t[1], o[0])
        cx(t[1], o[1])
    wrapped2(t, o)


def env(c):
    from qrisp import control, x, cx
    with control(c.a[1]):
        x(c.t[0])
        cx(c.o[0], c.t[1])


def env2(c):
    from qrisp import control, x, cx, cz
    with control(c.t[0]):
        x(c.o[0])
        cz(c.o[0], c.o[1])


def raw(qs):
    qc = qs.copy()
    r = RawCircuit(qc.qubits, qc.clbits)
    r.data += [RawInstr(i.op, i.qubits, i.clbits) for i in qc.data]
    return r


REFUSAL = ("ncomputation failed", "yclic dependency", "non-qfree", "not created within", "Could not uncompute")


def refused(e):
    return any(s in str(e) for s in REFUSAL)


def program(names, compiled, recompute=False, after=()):
    V = further()
    ref = Ctx()
    for n in names:
        V[n](ref)
    for n in after:
        V[n](ref)
    c = Ctx()
    for n in names:
        V[n](c)
    tq = list(c.t.reg)
    rq = list(ref.t.reg)
    try:
        c.t.uncompute(recompute=recompute)
    except Exception as e:
        if refused(e):
            return None
        raise
    for n in after:
        V[n](c)
    qc = c.a.qs.compile() if compiled else raw(c.a.qs)
    keep = list(c.a.reg) + list(c.o.reg)
    bmap = dict(zip(keep, list(ref.a.reg) + list(ref.o.reg)))
    return twin(qc, raw(ref.a.qs), keep, [q for q in tq if q in qc.qubits], tag="uncompute t after %s%s%s" % (" ".join(names), " then " + " ".join(after) if after else "", " (compiled)" if compiled else ""), bmap=bmap,
                phase="free" if set(PHASED) & set(tuple(names) + tuple(after)) else "exact")


# gates on t that carry a phase of their own: undoing them undoes the phase, so only values are compared
PHASED = ("y_t1", "cy_t0", "pt_t0")


def run_many(todo, compiled=False, need=1):
    def run():
        cnt = ref = q = g = 0
        bad = []
        for names in todo:
            try:
                r = program(*names) if isinstance(names[0], tuple) else program(names, compiled)
            except Violation as v:
                bad.append(v)
                continue
            if r is None:
                ref += 1
            else:
                cnt += 1
                q += r.get("queries", 0)
                g += r.get("gates", 0)
        if bad:
            raise Violation("%s%s" % (bad[0], " (and %d more programs)" % (len(bad) - 1) if len(bad) > 1 else ""), bad[0].replay)
        return {"programs": cnt, "refused": ref, "queries": q, "gates": g}
    return run


def mix(seed, n, size):
    """fixed pseudo random programs"""
    comp, furt = sorted(compute_names), sorted(further_names)
    x = seed * 2654435761 % 2 ** 31 or 1
    out = []
    for _ in range(n):
        p = []
        for k in range(size):
            x = (1103515245 * x + 12345) % 2 ** 31
            src = comp if k == 0 or (x >> 5) % 5 < 2 else furt
            p.append(src[(x >> 9) % len(src)])
        out.append(tuple(p))
    return out


compute_names = ["cx_a0t0", "cx_a1t1", "ccx_t0", "ccx_o_t1", "x_t0", "y_t1", "cx_t0t1", "swap_t", "ocx_t0", "pt_t0", "ccx3_t0", "cy_t0", "fredkin_t"]
further_names = compute_names + ["cx_t0o0", "ccx_to", "cx_t1a0", "cz_t0o1", "cp_t0a0", "z_t1", "t_t0", "rz_t0", "p_a0", "x_a0", "cx_o1a0", "cx_a1a0", "swap_a0o0", "h_a0", "h_o0", "h_a1", "HT",
                                 "rx_t1", "swap_t0o0", "cx_o0a1", "fredkin_o", "cy_t0o1", "crz_t0o0", "ocz", "gw_at", "gw_to", "env_t", "env_to", "rzz_to", "gphase", "barrier"]


# ------------------------------------------------------------------ two variables, library functions
def two_vars(kind, order):
    """u depends on t"""
    def build(unc):
        import qrisp as Q
        c = Ctx()
        c.u = Q.QuantumVariable(1, name="u", qs=c.a.qs)
        Q.mcx([c.a[0], c.a[1]], c.t[0])
        Q.cx(c.a[1], c.t[1])
        Q.mcx([c.t[0], c.o[0]], c.u[0])
        if kind == "phase":
            Q.cp(PI / 4, c.u[0], c.o[1])
        elif kind == "h":
            Q.cz(c.u[0], c.o[1])
            c.h(c.o[1])
        elif kind == "useboth":
            Q.mcx([c.t[1], c.u[0]], c.o[1])
        elif kind == "modify":
            Q.cz(c.u[0], c.o[1])
            Q.x(c.a[0])
        elif kind == "hin":
            Q.cz(c.u[0], c.o[1])
            c.h(c.a[0])
        tq, uq = list(c.t.reg), list(c.u.reg)
        if unc:
            if order == "ut":
                c.u.uncompute()
                c.t.uncompute()
            elif order == "both":
                c.u.uncompute(do_it=False)
                c.t.uncompute()
            elif order == "both2":
                c.t.uncompute(do_it=False)
                c.u.uncompute()
            elif order == "rec":
                c.t.uncompute(recompute=True)
                c.u.uncompute()
            elif order == "tonly":
                c.t.uncompute()
            elif order == "uonly":
                c.u.uncompute()
        return c, tq, uq

    def run():
        ref, _, _ = build(False)
        try:
            c, tq, uq = build(True)
        except Exception as e:
            if refused(e):
                return {"refused": 1}
            raise
        n = 0
        for compiled in (False, True):
            qc = c.a.qs.compile() if compiled else raw(c.a.qs)
            keep = list(c.a.reg) + list(c.o.reg)
            kr = list(ref.a.reg) + list(ref.o.reg)
            zero = tq + uq
            if order == "tonly":
                keep, kr, zero = keep + uq, kr + list(ref.u.reg), tq
            if order == "uonly":
                keep, kr, zero = keep + tq, kr + list(ref.t.reg), uq
            r = twin(qc, raw(ref.a.qs), keep, [q for q in zero if q in qc.qubits], tag="two variables %s %s%s" % (kind, order, " compiled" if compiled else ""), bmap=dict(zip(keep, kr)))
            n += r.get("queries", 0)
        return {"programs": 2, "queries": n}
    return run


def library(kind, how):
    def build(unc):
        import qrisp as Q
        a = Q.QuantumFloat(3, name="a")
        b = Q.QuantumFloat(2, -1, signed=False, name="b") if kind in ("lt",) else Q.QuantumFloat(2, name="b")
        o = Q.QuantumBool(name="o")
        for v, n in ((a, "a"), (b, "b"), (o, "o")):
            sym_input(v.reg, n)
        Q.merge(a, b, o)
        if kind == "mul":
            t = a * b
        elif kind == "add":
            t = a + b
        elif kind == "sub":
            t = a - 3
        elif kind == "lt":
            t = a < b
        elif kind == "eq":
            t = a == 5
        elif kind == "ge":
            t = a >= b
        elif kind == "and":
            t = (a == 2) & (b == 1)
        elif kind == "dict":
            d = Q.QuantumDictionary({i: (3 * i + 1) % 4 for i in range(8)}, return_type=b)
            t = d[a]
        elif kind == "not":
            t = ~(a != b)
        Q.cz(t[0], o[0])
        if len(t.reg) > 1:
            Q.mcx([t[0], t[1]], o[0])
        tq = list(t.reg)
        if how == "h":
            sym_h(o[0], "z")
        if how == "mod":
            Q.x(a[1])
        if how == "hin":
            sym_h(a[2], "z")
        if unc:
            t.uncompute()
        return a, b, o, tq, a.qs

    def run():
        ref = build(False)
        try:
            c = build(True)
        except Exception as e:
            if refused(e):
                return {"refused": 1}
            raise
        n = 0
        for compiled in (False, True):
            qc = c[4].compile() if compiled else raw(c[4])
            keep = [q for v in c[:3] for q in v.reg]
            kr = [q for v in ref[:3] for q in v.reg]
            # temporaries of the expression stay alive
            live = [q for v in c[4].qv_list for q in v.reg if q not in keep]
            r = twin(qc, raw(ref[4]), keep, [q for q in c[3] if q in qc.qubits], free=live, tag="uncompute the result of %s (%s)%s" % (kind, how, " compiled" if compiled else ""), bmap=dict(zip(keep, kr)))
            n += r.get("queries", 0)
        return {"programs": 2, "queries": n}
    return run


def decorated(kind):
    """auto_uncompute: temporaries of a function"""
    def run():
        import qrisp as Q

        def body(a, o):
            t = Q.QuantumVariable(2, name="t")
            r = Q.QuantumBool(name="r")
            Q.mcx([a[0], a[1]], t[0])
            Q.cx(a[1], t[1])
            if kind == "chain":
                Q.cx(t[0], t[1])
            Q.mcx([t[0], t[1]], r[0])
            if kind == "phase":
                Q.cp(PI / 4, t[1], o[0])
            if kind == "use":
                Q.cx(t[1], o[1])
            return r
        outs = []
        for deco in (False, True):
            a = Q.QuantumVariable(2, name="a")
            o = Q.QuantumVariable(2, name="o")
            sym_input(a.reg, "a")
            sym_input(o.reg, "o")
            Q.merge(a, o)
            r = (Q.auto_uncompute(body) if deco else body)(a, o)
            outs.append((a, o, r))
        ref, c = outs
        n = 0
        for compiled in (False, True):
            qc = c[0].qs.compile() if compiled else raw(c[0].qs)
            keep = [q for v in c for q in v.reg]
            kr = [q for v in ref for q in v.reg]
            r = twin(qc, raw(ref[0].qs), keep, [], tag="auto_uncompute %s%s" % (kind, " compiled" if compiled else ""), bmap=dict(zip(keep, kr)))
            n += r.get("queries", 0)
        return {"programs": 2, "queries": n}
    return run


def cases(tier):
    T = tier == "thorough"
    out = []
    for c1 in compute_names:
        out.append(("pair-%s" % c1, run_many([(c1, f) for f in further_names] + [(c1,)])))
        out.append(("pairc-%s" % c1, run_many([(c1, f) for f in further_names], True)))
        if T:
            for f in further_names:
                out.append(("triple-%s-%s" % (c1, f), run_many([(c1, f, g) for g in further_names])))
    for s in range(100 if not T else 400):
        out.append(("mix3-%d" % s, run_many(mix(s + 1, 24, 3), s % 2 == 1)))
        out.append(("mix5-%d" % s, run_many(mix(s + 901, 16, 5), s % 2 == 1)))
    for s in range(6 if not T else 30):
        out.append(("after-%d" % s, run_many([(p[:3], s % 2 == 1, False, p[3:]) for p in mix(s + 7001, 20, 5) if not any("t" in x.split("_")[-1] or "_t" in x or x in ("HT", "barrier", "gphase", "ocz", "ccx_to", "fredkin_o", "env_to", "gw_to") for x in p[3:])])))
        out.append(("recompute-%d" % s, run_many([(p, s % 2 == 1, True) for p in mix(s + 8001, 16, 3)])))
    for k in ("phase", "h", "useboth", "modify", "hin"):
        for o in ("ut", "both", "both2", "rec", "tonly", "uonly"):
            out.append(("two-%s-%s" % (k, o), two_vars(k, o)))
    for k in ("mul", "add", "sub", "lt", "eq", "ge", "and", "dict", "not"):
        for h in ("plain", "h", "mod", "hin"):
            out.append(("lib-%s-%s" % (k, h), library(k, h)))
    for k in ("plain", "chain", "phase", "use"):
        out.append(("auto-%s" % k, decorated(k)))
    return out
