"""C12: circuit passes, pass manager pipelines and transpilation."""
import itertools
import math

from ..prog import Violation, ReplayMismatch
from ..matsym import Mat, compare as mcompare, evaluate
from ..pathsum import Unsupported
from .. import linstate

LEVEL = "translation_validation"
TECH = ("symbolic execution of circuits before and after each pass, with symbolic angles or symbolic input states, decided by an SMT solver")
FUNCTIONS = ["qrisp.circuit.pass_management.passes.*", "qrisp.circuit.pass_management.pass_manager.PassManager.run",
             "qrisp.circuit.transpiler.{transpile, transpile_inner, extend}", "qrisp.circuit.quantum_circuit.QuantumCircuit.{transpile, append, to_gate, extend, compose, copy}"]
BOUNDS = ("quick: every ordered pair of 58 instructions (gates with symbolic angles on 3 qubits, control states, composite gates) and every ordered pair of 32 instructions "
          "with measurements, resets, conditions and allocation markers (2 qubits, 2 classical bits) through every pass; 60 fixed longer circuits per pass.  "
          "thorough: additionally every triple of a reduced vocabulary and 400 longer circuits.")
OUTSIDE = "more than 3 qubits; longer circuits than the listed ones; transpilation through qiskit basis gates; visualisation"
HOW = ("a pass is run on the circuit; both circuits are executed symbolically.  Symbolic angles: z3 decides that all entries of the difference of both matrices vanish for all angles "
       "(or that they agree on all preparations, for passes that may rely on fresh qubits).  Circuits with numeric angles or classical bits: the input state is symbolic and z3 decides "
       "that no input distinguishes the two instruments by more than 1e-5.")

VAL = {"a0": 0.73, "b0": 1.21, "c0": -0.57, "a1": 2.31, "b1": -1.47, "c1": 0.39, "a2": 1.93, "b2": 0.11, "c2": -2.2, "p0": 0.41, "p1": 1.37, "p2": -0.83, "l0": 0.9, "l1": -0.3, "l2": 1.8}


class Ang:
    """angles by name: symbols or numbers"""

    def __init__(self, symbolic):
        self.symbolic = symbolic

    def __call__(self, n):
        import sympy
        return sympy.Symbol(n, real=True) if self.symbolic else VAL[n]


def one(name):
    return lambda qc, A, i, q: getattr(qc, name)(q)


def rot(name):
    return lambda qc, A, i, q: getattr(qc, name)(A("a%d" % i), q)


def bell():
    from qrisp.circuit import QuantumCircuit
    qc = QuantumCircuit(2)
    qc.h(0)
    qc.cx(0, 1)
    qc.t(1)
    return qc.to_gate("bell")


def nested():
    from qrisp.circuit import QuantumCircuit
    qc = QuantumCircuit(2)
    qc.append(bell(), [1, 0])
    qc.s(0)
    qc.append(bell().inverse(), [0, 1])
    return qc.to_gate("nested")


def unitary_vocab():
    """name -> f(qc, A, i, qubits)"""
    from qrisp.circuit import XGate, ZGate, PGate, HGate, RZGate, SGate, YGate, RYGate
    V = {}
    for n in ("x", "y", "z", "h", "s", "t", "s_dg", "t_dg", "sx", "sx_dg"):
        V[n + "0"] = (lambda n: lambda qc, A, i, q: getattr(qc, n)(q[0]))(n)
    for n in ("x", "z", "h", "s"):
        V[n + "1"] = (lambda n: lambda qc, A, i, q: getattr(qc, n)(q[1]))(n)
    for n in ("p", "rz", "rx", "ry", "gphase"):
        V[n + "0"] = (lambda n: lambda qc, A, i, q: getattr(qc, n)(A("a%d" % i), q[0]))(n)
    for n in ("p", "rz", "gphase"):
        V[n + "1"] = (lambda n: lambda qc, A, i, q: getattr(qc, n)(A("a%d" % i), q[1]))(n)
    V["p_neg0"] = lambda qc, A, i, q: qc.p(-A("a0"), q[0])
    V["rz_neg0"] = lambda qc, A, i, q: qc.rz(-A("a0"), q[0])
    V["p_pi0"] = lambda qc, A, i, q: qc.p(math.pi, q[0])
    V["rz_pi0"] = lambda qc, A, i, q: qc.rz(math.pi, q[0])
    V["rx_2pi0"] = lambda qc, A, i, q: qc.rx(2 * math.pi, q[0])
    V["u30"] = lambda qc, A, i, q: qc.u3(A("a%d" % i), A("b%d" % i), A("c%d" % i), q[0])
    V["cx01"] = lambda qc, A, i, q: qc.cx(q[0], q[1])
    V["cx10"] = lambda qc, A, i, q: qc.cx(q[1], q[0])
    V["cx12"] = lambda qc, A, i, q: qc.cx(q[1], q[2])
    V["cy01"] = lambda qc, A, i, q: qc.cy(q[0], q[1])
    V["cz01"] = lambda qc, A, i, q: qc.cz(q[0], q[1])
    V["cz10"] = lambda qc, A, i, q: qc.cz(q[1], q[0])
    V["cp01"] = lambda qc, A, i, q: qc.cp(A("a%d" % i), q[0], q[1])
    V["cp10"] = lambda qc, A, i, q: qc.cp(A("a%d" % i), q[1], q[0])
    V["crz01"] = lambda qc, A, i, q: qc.crz(A("a%d" % i), q[0], q[1]) if hasattr(qc, "crz") else qc.append(RZGate(A("a%d" % i)).control(1), [q[0], q[1]])
    V["rzz01"] = lambda qc, A, i, q: qc.rzz(A("a%d" % i), q[0], q[1])
    V["rxx10"] = lambda qc, A, i, q: qc.rxx(A("a%d" % i), q[1], q[0])
    V["xxyy01"] = lambda qc, A, i, q: qc.xxyy(A("a%d" % i), A("b%d" % i), q[0], q[1])
    V["xxyy10"] = lambda qc, A, i, q: qc.xxyy(A("a%d" % i), A("b%d" % i), q[1], q[0])
    V["swap01"] = lambda qc, A, i, q: qc.swap(q[0], q[1])
    V["swap12"] = lambda qc, A, i, q: qc.swap(q[1], q[2])
    V["ocx01"] = lambda qc, A, i, q: qc.append(XGate().control(1, ctrl_state="0"), [q[0], q[1]])
    V["ocz01"] = lambda qc, A, i, q: qc.append(ZGate().control(1, ctrl_state="0"), [q[0], q[1]])
    V["ocz10"] = lambda qc, A, i, q: qc.append(ZGate().control(1, ctrl_state="0"), [q[1], q[0]])
    V["ocy01"] = lambda qc, A, i, q: qc.append(YGate().control(1, ctrl_state="0"), [q[0], q[1]])
    V["ocp01"] = lambda qc, A, i, q: qc.append(PGate(A("a%d" % i)).control(1, ctrl_state="0"), [q[0], q[1]])
    V["ocp10"] = lambda qc, A, i, q: qc.append(PGate(A("a%d" % i)).control(1, ctrl_state="0"), [q[1], q[0]])
    V["cp_neg01"] = lambda qc, A, i, q: qc.cp(-A("a0"), q[0], q[1])
    V["ch01"] = lambda qc, A, i, q: qc.append(HGate().control(1), [q[0], q[1]])
    V["cry01"] = lambda qc, A, i, q: qc.append(RYGate(A("a%d" % i)).control(1), [q[0], q[1]])
    V["cs01"] = lambda qc, A, i, q: qc.append(SGate().control(1), [q[0], q[1]])
    V["csd10"] = lambda qc, A, i, q: qc.append(SGate().inverse().control(1), [q[1], q[0]])
    V["ccx"] = lambda qc, A, i, q: qc.mcx([q[0], q[1]], q[2])
    V["ccx2"] = lambda qc, A, i, q: qc.mcx([q[2], q[0]], q[1])
    V["ccx_auto"] = lambda qc, A, i, q: qc.append(XGate().control(2, method="auto"), [q[1], q[0], q[2]])
    V["occx"] = lambda qc, A, i, q: qc.append(XGate().control(2, ctrl_state="01"), [q[0], q[1], q[2]])
    V["ooccx"] = lambda qc, A, i, q: qc.append(XGate().control(2, ctrl_state="00"), [q[1], q[0], q[2]])
    V["ccz"] = lambda qc, A, i, q: qc.append(ZGate().control(2), [q[0], q[1], q[2]])
    V["ccp"] = lambda qc, A, i, q: qc.append(PGate(A("a%d" % i)).control(2, ctrl_state="10"), [q[0], q[1], q[2]])
    V["ccx_pt"] = lambda qc, A, i, q: qc.append(XGate().control(2, method="gray_pt"), [q[0], q[1], q[2]])
    V["ccx_pti"] = lambda qc, A, i, q: qc.append(XGate().control(2, method="gray_pt_inv"), [q[0], q[1], q[2]])
    V["bell01"] = lambda qc, A, i, q: qc.append(bell(), [q[0], q[1]])
    V["belli01"] = lambda qc, A, i, q: qc.append(bell().inverse(), [q[0], q[1]])
    V["belli10"] = lambda qc, A, i, q: qc.append(bell().inverse(), [q[1], q[0]])
    V["nested02"] = lambda qc, A, i, q: qc.append(nested(), [q[0], q[2]])
    V["barrier"] = lambda qc, A, i, q: qc.barrier([q[0], q[1]])
    V["barrier1"] = lambda qc, A, i, q: qc.barrier([q[1]])
    return V


def dynamic_vocab():
    from qrisp.circuit import XGate, ZGate, HGate, QubitAlloc, QubitDealloc, CXGate, SwapGate, RYGate
    V = {}
    for n in ("x", "h", "z", "t"):
        V[n + "0"] = (lambda n: lambda qc, A, i, q: getattr(qc, n)(q[0]))(n)
    V["h1"] = lambda qc, A, i, q: qc.h(q[1])
    V["ry0"] = lambda qc, A, i, q: qc.ry(A("a%d" % i), q[0])
    V["ry1"] = lambda qc, A, i, q: qc.ry(A("a%d" % i), q[1])
    V["p0"] = lambda qc, A, i, q: qc.p(A("a%d" % i), q[0])
    V["cx01"] = lambda qc, A, i, q: qc.cx(q[0], q[1])
    V["cx10"] = lambda qc, A, i, q: qc.cx(q[1], q[0])
    V["cz01"] = lambda qc, A, i, q: qc.cz(q[0], q[1])
    V["swap01"] = lambda qc, A, i, q: qc.swap(q[0], q[1])
    V["bell01"] = lambda qc, A, i, q: qc.append(bell(), [q[0], q[1]])
    V["m00"] = lambda qc, A, i, q: qc.measure(q[0], qc.clbits[0])
    V["m01"] = lambda qc, A, i, q: qc.measure(q[0], qc.clbits[1])
    V["m10"] = lambda qc, A, i, q: qc.measure(q[1], qc.clbits[0])
    V["m11"] = lambda qc, A, i, q: qc.measure(q[1], qc.clbits[1])
    V["reset0"] = lambda qc, A, i, q: qc.reset(q[0])
    V["reset1"] = lambda qc, A, i, q: qc.reset(q[1])

    def cif(op, qs, cs, state):
        return lambda qc, A, i, q: qc.append(op().c_if(len(cs), state), [q[k] for k in qs], [qc.clbits[k] for k in cs])
    V["ifx0"] = cif(XGate, [0], [0], "1")
    V["ifx1"] = cif(XGate, [1], [0], "1")
    V["nifx1"] = cif(XGate, [1], [0], "0")
    V["ifz0c1"] = cif(ZGate, [0], [1], "1")
    V["ifh0"] = cif(HGate, [0], [0], "1")
    V["ifry0"] = cif(lambda: RYGate(0.6), [0], [0], "1")
    V["ifcx01"] = cif(CXGate, [0, 1], [0], "1")
    V["ifswap"] = cif(SwapGate, [0, 1], [0], "1")
    V["if2x0"] = cif(XGate, [0], [0, 1], "10")
    V["ifbell"] = cif(bell, [0, 1], [1], "1")
    V["barrier"] = lambda qc, A, i, q: qc.barrier([q[0], q[1]])
    V["alloc1"] = lambda qc, A, i, q: qc.append(QubitAlloc(), [q[1]])
    V["gphase0"] = lambda qc, A, i, q: qc.gphase(A("a%d" % i), q[0])
    return V


def build(V, toks, A, n, ncl=0, prep=()):
    from qrisp.circuit import QuantumCircuit
    qc = QuantumCircuit(n, ncl)
    for k in prep:
        qc.ry(A("p%d" % k), qc.qubits[k])
        qc.rz(A("l%d" % k), qc.qubits[k])
    for i, t in enumerate(toks):
        V[t](qc, A, i % 3, qc.qubits)
    return qc


# ------------------------------------------------------------------ passes
def passes():
    import qrisp
    from qrisp.circuit.pass_management import passes as P
    from qrisp import PassManager
    from qrisp.circuit import QuantumCircuit
    T = {}
    T["fuse"] = (P.fuse_adjacents, {"sym"})
    T["combine"] = (P.combine_single_qubit_gates, set())
    T["commute"] = (P.commute_swaps, {"sym"})
    T["resolve"] = (P.resolve_swaps, {"sym", "perm"})
    T["arrange"] = (P.arrange_swaps, {"sym", "zero"})
    T["cancel0"] = (P.cancel_zero_controls, {"sym", "zero"})
    T["cx"] = (P.convert_to_cx(), {"sym"})
    T["cz"] = (P.convert_to_cz(), {"sym"})
    T["prx"] = (P.convert_to_prx, {"flat"})
    T["decomp"] = (P.decompose(), {"sym"})
    T["decomp1"] = (P.decompose(level=1), {"sym"})
    T["decompg"] = (P.decompose(collect_gphases=True), {"sym"})
    T["decompp"] = (P.decompose(decompose_predicate=lambda op: op.name != "bell"), {"sym"})
    T["toffoli"] = (P.gray_synth_toffoli, {"sym"})
    T["layout"] = (P.manual_layout([2, 0, 1]), {"sym", "layout"})
    T["layout5"] = (P.manual_layout([4, 1, 3]), {"sym", "layout"})
    T["barriers"] = (P.remove_barriers, {"sym"})
    T["parallel"] = (P.reverse_parallelize, {"sym"})
    for lv in (1, 2, 3):
        T["transpile%d" % lv] = ((lambda lv: lambda qc: qc.transpile(lv))(lv), {"sym"})
    T["transpile"] = (lambda qc: qc.transpile(), {"sym"})
    pm = PassManager()
    for p in (P.decompose(), P.fuse_adjacents, P.convert_to_cx(), P.fuse_adjacents, P.reverse_parallelize):
        pm += p
    T["pm-basic"] = (pm.run, {"sym"})
    pm2 = PassManager()
    for p in (P.remove_barriers, P.commute_swaps, P.gray_synth_toffoli, P.decompose(), P.convert_to_cz(), P.combine_single_qubit_gates):
        pm2 += p
    T["pm-cz"] = (pm2.run, set())
    pm3 = PassManager.from_list([P.decompose(), P.convert_to_cz(), P.combine_single_qubit_gates, P.convert_to_prx])
    T["pm-prx"] = (pm3.run, set())
    T["copy"] = (lambda qc: qc.copy(), {"sym"})

    def gate(qc):
        r = qc.clearcopy()
        r.append(qc.to_gate("whole"), r.qubits, r.clbits)
        return r
    T["to_gate"] = (gate, {"sym", "unitary"})

    def ext(qc):
        r = qc.clearcopy()
        r.extend(qc)
        return r
    T["extend"] = (ext, {"sym"})

    def doubleinv(qc):
        return qc.inverse().inverse()
    T["inverse2"] = (doubleinv, {"sym", "unitary"})
    return T


def swap_perm(qc):
    perm = {q: q for q in qc.qubits}
    for ins in qc.data:
        if ins.op.name == "swap":
            a, b = ins.qubits
            perm[a], perm[b] = perm[b], perm[a]
    return perm


def one_check(pname, fn, flags, V, toks, n, ncl, symbolic, prep=None, zero=False):
    """True if compared"""
    A = Ang(symbolic)
    try:
        qc = build(V, toks, A, n, ncl, prep or ())
    except Exception as e:
        raise AssertionError("harness cannot build %s: %r" % (toks, e))
    before = [(i.op, list(i.qubits), list(i.clbits)) for i in qc.data]
    qubits0 = list(qc.qubits)
    tag = "pass %s on %s%s" % (pname, " ".join(toks), " after preparing %s" % (prep,) if prep else "")
    try:
        out = fn(qc)
    except Exception as e:
        raise Violation("%s: raised %s: %s" % (tag, type(e).__name__, e), {"circuit": list(toks)})
    if len(before) != len(qc.data) or any(a is not b.op or q != list(b.qubits) for (a, q, _), b in zip(before, qc.data)) or qubits0 != list(qc.qubits):
        raise Violation("%s: modifies its input circuit" % tag, {"circuit": list(toks)})
    end = swap_perm(qc) if "perm" in flags else {q: q for q in qc.qubits}
    allq = list(qubits0) + [q for q in out.qubits if q not in qubits0]
    if "layout" in flags:
        m = [2, 0, 1] if pname == "layout" else [4, 1, 3]
        for i, q in enumerate(qubits0):
            if out.qubits[m[i]] is not q:
                raise Violation("%s: logical qubit %d is not at place %d" % (tag, i, m[i]), {"circuit": list(toks)})
        allq = list(qubits0)
    cl = list(qc.clbits)
    if list(out.clbits) != cl:
        raise Violation("%s: classical bits changed" % tag, {"circuit": list(toks)})
    if symbolic:
        ins = [0] if zero else None
        ma, mb = Mat(allq, ins), Mat(allq, ins)
        ma.run(qc)
        mb.run(out)
        B = mb.cols
        if any(end[q] is not q for q in qubits0):
            src = [allq.index(end[q]) if q in end else allq.index(q) for q in allq]

            def tr(k):
                return sum(((k >> s) & 1) << i for i, s in enumerate(src))
            B = {j: {tr(k): v for k, v in col.items()} for j, col in B.items()}
        w = mcompare(ma.cols, B)
        if w is None:
            return ma.gates + mb.gates
        why = "matrix entry (column %d, row %d) differs" % w
        symbolic_vals = {s: VAL[s] for s in VAL}
        da = evaluate(ma.cols[w[0]].get(w[1], {}), symbolic_vals)
        db = evaluate(B[w[0]].get(w[1], {}), symbolic_vals)
        if abs(da - db) < 1e-7:
            raise ReplayMismatch(tag)
        # replay with numbers, on the circuit the pass gives for them
        qn = build(V, toks, Ang(False), n, ncl, prep or ())
        on = fn(qn)
        nq = list(qn.qubits) + [q for q in on.qubits if q not in qn.qubits]
        end2 = swap_perm(qn) if "perm" in flags else {}
        emap = {q: end2.get(q, q) for q in nq}
        r, _ = linstate.compare(qn, on, nq, (), bmap=({q: q for q in nq}, emap), columns=[0] if zero else None)
        if r is None:
            return ma.gates + mb.gates if False else _mismatch(tag)
        raise Violation("%s: %s at angles %s (before %.4f%+.4fi, after %.4f%+.4fi)" % (tag, why, {k: v for k, v in VAL.items() if any(k in str(i.op.params) for i in qc.data)},
                                                                                    da.real, da.imag, db.real, db.imag), {"circuit": list(toks), "angles": VAL})
    emap = {q: end.get(q, q) for q in allq}
    r, g = linstate.compare(qc, out, allq, cl, "free" if cl else "exact", bmap=({q: q for q in allq}, emap), columns=[0] if zero else None)
    if r is not None:
        raise Violation("%s: %s" % (tag, r), {"circuit": list(toks)})
    return g


def _mismatch(tag):
    raise ReplayMismatch(tag)


def run_many(pname, todo, dyn=False):
    """todo: function returning a list of token tuples"""
    def run():
        fn, flags = passes()[pname]
        V = dynamic_vocab() if dyn else unitary_vocab()
        if dyn and "unitary" in flags:
            return {"circuits": 0}
        sym = "sym" in flags and not dyn
        n, ncl = (2, 2) if dyn else (3, 0)
        if dyn and "layout" in flags:
            return {"circuits": 0}
        zero = "zero" in flags
        cnt = g = fixed = 0
        bad = []
        for toks in todo(V):
            if pname == "decompg" and all(t.startswith("gph") for t in toks):
                continue            # documented (and tested): nowhere to put the collected phase
            preps = [None]
            if zero:
                preps = [()] + [tuple(k for k in range(n) if s >> k & 1) for s in range(1, 1 << n) if ALLPREPS or bin(s).count("1") == 1]
            for pr in preps:
                if zero and "alloc1" in toks and (toks[0] != "alloc1" or toks.count("alloc1") > 1 or 1 in (pr or ())):
                    continue        # allocating a qubit in use is no legal circuit
                try:
                    try:
                        g += one_check(pname, fn, flags, V, toks, n, ncl, sym, pr, zero)
                    except Unsupported:
                        # angles outside the exact ring: fixed angles, symbolic input state
                        g += one_check(pname, fn, flags, V, toks, n, ncl, False, pr, zero)
                        fixed += 1
                except Violation as v:
                    bad.append(v)
                cnt += 1
        if bad:
            raise Violation("%s%s" % (bad[0], " (and %d more circuits)" % (len(bad) - 1) if len(bad) > 1 else ""), bad[0].replay)
        return {"circuits": cnt, "gates": g, "fixed_angle_circuits": fixed}
    return run


def pairs(first):
    return lambda V: [(first, t) for t in V] + [(first,)]


def long_circuits(seed, count, length):
    def gen(V):
        names = sorted(V)
        x = seed * 2654435761 % 2 ** 32 or 1
        out = []
        for _ in range(count):
            c = []
            for _ in range(length):
                x = (1103515245 * x + 12345) % 2 ** 31
                c.append(names[(x >> 8) % len(names)])
            out.append(tuple(c))
        return out
    return gen


ALLPREPS = False

CONTEXT = ["swap01", "cx01", "cz01", "cp01", "rzz01", "x0", "p0", "rz0", "h0", "barrier", "ccx", "ocp01", "bell01"]


def cases(tier):
    global ALLPREPS
    T = ALLPREPS = tier == "thorough"
    out = []
    for p, (fn, flags) in passes().items():
        light = {"copy", "extend", "decomp1", "decompp", "layout5", "transpile1", "transpile2", "transpile3", "barriers", "inverse2", "pm-basic", "pm-cz"}
        uv = list(unitary_vocab())
        dv = list(dynamic_vocab())
        groups = [tuple(uv[i:i + 6]) for i in range(0, len(uv), 6)]
        for k, grp in enumerate(groups):
            if p in light and not T:
                out.append(("%s-single-%d" % (p, k), run_many(p, (lambda grp: lambda V: [(t,) for t in grp] + [(t, u) for t in grp for u in ("swap01", "cx01", "p0")])(grp))))
            else:
                out.append(("%s-pairs-%d" % (p, k), run_many(p, (lambda grp: lambda V: [x for f in grp for x in pairs(f)(V)])(grp))))
        if "layout" not in flags and "unitary" not in flags:
            groups = [tuple(dv[i:i + 5]) for i in range(0, len(dv), 5)]
            for k, grp in enumerate(groups):
                out.append(("%s-dyn-pairs-%d" % (p, k), run_many(p, (lambda grp: lambda V: [x for f in grp for x in pairs(f)(V)])(grp), True)))
                # measurement in front so that conditions see something
                out.append(("%s-dyn-meas-%d" % (p, k), run_many(p, (lambda grp: lambda V: [("ry0", "m00", f, t) for f in grp for t in V])(grp), True)))
            for s in range(4 if not T else 12):
                out.append(("%s-dyn-long-%d" % (p, s), run_many(p, long_circuits(100 + s, 10 if not T else 30, 6), True)))
        for s in range(4 if not T else 12):
            out.append(("%s-long-%d" % (p, s), run_many(p, long_circuits(s + 1, (10 if "zero" not in flags else 3) if not T else 30, 5))))
        if T:
            for a in CONTEXT:
                for b in CONTEXT:
                    out.append(("%s-triple-%s-%s" % (p, a, b), run_many(p, (lambda a, b: lambda V: [(a, b, c) for c in CONTEXT])(a, b))))
    return out
