"""C22: conversion to and from other frameworks."""
import math
import re

from ..prog import Violation
from ..pathsum import Unsupported
from ..matsym import Mat, compare, evaluate
from .. import foreign, linstate

LEVEL = "translation_validation"
TECH = "symbolic execution of the converted circuit with symbolic angles, matrix entries compared by an SMT solver"
FUNCTIONS = ["qrisp.interface.converter.qiskit_converter.{convert_to_qiskit, create_qiskit_instruction, convert_from_qiskit}",
             "qrisp.interface.converter.pytket_converter.{pytket_converter, create_tket_instruction}",
             "qrisp.interface.converter.pennylane_converter.{qml_converter, _process_qrisp_circuit, _create_qml_instruction}",
             "qrisp.interface.converter.cirq_converter.{convert_to_cirq, convert_from_cirq}",
             "qrisp.interface.converter.stim_converter.qrisp_to_stim",
             "qrisp.circuit.QuantumCircuit.{to_qiskit, from_qiskit, to_pytket, to_pennylane, to_cirq, from_cirq, to_stim, to_qasm2, qasm, from_qasm_str}"]
BOUNDS = ("quick: every standard gate with symbolic angles, 0..2 controls with every control state, inverses, composite and controlled "
          "composite gates, three qubit positions, circuits with measurement, reset and classical control.  thorough: 3 controls and all positions.")
OUTSIDE = ("qulacs (not installed); qasm3 and latex output; noise gates; matrix (unitary) gates; global phase of the whole circuit; "
           "angles in formats that only accept numbers (qasm, cirq global phase) are fixed dyadic values")
HOW = ("The converter runs on circuits whose angles are symbols. The resulting object of the other framework is read through its data "
       "model and expanded by a table of that framework's gate definitions into exact exponential polynomials; z3 decides that every "
       "matrix entry equals that of the source circuit for all angles, up to one global phase. Circuits with measurements are compared as "
       "instruments with a symbolic input state.")
TRUSTED = ["gate tables in qv/foreign.py (compared with the installed frameworks' matrices in the case 'tables')"]

NUM = {"a": 2 * math.pi * 5 / 32, "b": 2 * math.pi * 11 / 32, "c": 2 * math.pi * 7 / 32}

# conversions that the converter documents as not available (it raises)
HONEST = re.compile("could not convert|not supported|could not be decomposed|only the full|only supports", re.I)
# gates a converter refuses with a clear message: (gate, controlled)
REFUSED = {
    "pytket": [("gphase", 0), ("r", 0), ("prx", 0), ("comp", 0), ("nest", 0), ("rzz", 0), ("rxx", 0)],
    "pennylane": [("comp", 1), ("nest", 1), ("xxyy", 1), ("prx", 0), ("prx", 1)],
    "cirq": [("cy", 0), ("prx", 0), ("r", 0), ("u1", 0), ("u3", 0), ("y", 1)],
}
REFUSED["cirqback"] = REFUSED["cirq"]


def gates():
    """name -> (constructor, number of angle parameters, qubits)"""
    from qrisp import circuit as C
    t = {}
    for n in ("x", "y", "z", "h", "s", "t", "swap", "cx", "cy", "cz"):
        nq = 2 if n in ("swap", "cx", "cy", "cz") else 1
        cls = "SwapGate" if n == "swap" else n.upper() + "Gate"
        t[n] = (getattr(C, cls), 0, nq)
    t["sx"] = (C.SXGate, 0, 1)
    t["sx_dg"] = (C.SXDGGate, 0, 1)
    t["s_dg"] = (lambda: C.SGate().inverse(), 0, 1)
    t["t_dg"] = (lambda: C.TGate().inverse(), 0, 1)
    for n in ("p", "rx", "ry", "rz"):
        t[n] = (getattr(C, n.upper() + "Gate"), 1, 1)
    t["u1"] = (C.U1Gate, 1, 1)
    t["gphase"] = (C.GPhaseGate, 1, 1)
    t["u3"] = (C.u3Gate, 3, 1)
    t["id"] = (C.IDGate, 0, 1)
    t["cp"] = (C.CPGate, 1, 2)
    t["rzz"] = (C.RZZGate, 1, 2)
    t["rxx"] = (C.RXXGate, 1, 2)
    t["xxyy"] = (C.XXYYGate, 2, 2)
    t["r"] = (C.RGate, 2, 1)
    t["prx"] = (C.PRXGate, 2, 1)

    def comp(x, y):
        qc = C.QuantumCircuit(2)
        qc.h(0)
        qc.rz(x, 0)
        qc.cx(0, 1)
        qc.p(y, 1)
        qc.gphase(x, 0)
        qc.sx(1)
        return qc.to_gate("comp")
    t["comp"] = (comp, 2, 2)

    def nest(x, y):
        qc = C.QuantumCircuit(2)
        qc.append(comp(x, y), [1, 0])
        qc.append(comp(y, x).control(1, ctrl_state="0").inverse() if False else C.RYGate(x).control(1, ctrl_state="0"), [1, 0])
        return qc.to_gate("nest")
    t["nest"] = (nest, 2, 2)
    return t


def build(name, state, inv, pos, num):
    """circuit on 4 qubits with the gate on qubits pos"""
    import sympy
    from qrisp import QuantumCircuit
    ctor, npar, nq = gates()[name]
    par = [NUM[s] if num else sympy.Symbol(s, real=True) for s in "abc"[:npar]]
    op = ctor(*par)
    if inv:
        op = op.inverse()
    if state:
        op = op.control(len(state), ctrl_state=state)
    n = max(3, len(pos))
    qc = QuantumCircuit(n)
    qc.append(op, [qc.qubits[p] for p in pos])
    return qc


def to_foreign(fw, qc):
    n = len(qc.qubits)
    if fw == "qiskit":
        return foreign.from_qiskit(qc.to_qiskit())
    if fw == "pytket":
        return foreign.from_pytket(qc.to_pytket())
    if fw == "pennylane":
        import pennylane as qml
        fn = qc.to_pennylane()
        with qml.tape.QuantumTape() as tape:
            fn(wires=list(range(n)))
        return foreign.from_pennylane(tape.operations, n)
    if fw == "cirq":
        import cirq
        return foreign.from_cirq(qc.to_cirq(), cirq.LineQubit.range(n))
    if fw == "qasm":
        from qiskit import qasm2
        s = qc.to_qasm2()
        return foreign.from_qiskit(qasm2.loads(s, custom_instructions=qasm2.LEGACY_CUSTOM_INSTRUCTIONS))
    if fw == "roundtrip":
        from qrisp import QuantumCircuit
        return QuantumCircuit.from_qiskit(qc.to_qiskit())
    if fw == "cirqback":
        from qrisp import QuantumCircuit
        return QuantumCircuit.from_cirq(qc.to_cirq())
    raise KeyError(fw)


def rnd(z):
    return complex(round(z.real, 4), round(z.imag, 4))


def decide(ref, flat, what, key, repl):
    if hasattr(flat, "items"):
        B = flat.mat()
    else:
        B = Mat(flat.qubits).run(flat)
    A = Mat(ref.qubits).run(ref)
    w = compare(A.cols, B.cols, up_to_phase=True)
    if w is not None:
        j, k = w
        subs = dict(NUM)
        za = rnd(evaluate(A.cols[j].get(k, {}), subs))
        zb = rnd(evaluate(B.cols[j].get(k, {}), subs))
        raise Violation("%s: entry <%d|U|%d> is %s in the source circuit and %s after conversion (angles a=5/32, b=11/32, c=7/32 turns; up to a global phase)"
                        % (what, k, j, za, zb), dict(repl, kind="python"))
    return {"gates": A.gates + B.gates}


def conv(fw, name, state, inv, pos):
    def f():
        num = fw == "qasm"
        what = "%s of %s%s%s on qubits %s" % (fw, name, "^-1" if inv else "", " controlled on " + state if state else "", list(pos))
        r = REFUSED.get(fw, ())
        for attempt in (num, True):
            qc = build(name, state, inv, pos, attempt)
            if fw == "cirqback":
                # a cirq circuit has no idle qubits
                for q in qc.qubits:
                    qc.z(q)
            try:
                fl = to_foreign(fw, qc)
                break
            except Unsupported:
                raise
            except Exception as e:
                if not attempt:
                    continue
                if (name, int(bool(state))) in r and HONEST.search(str(e)):
                    return {"refused": 1}
                raise Violation("%s: conversion raised %s: %s" % (what, type(e).__name__, str(e)[:200]), {"what": what})
        c = decide(qc, fl, what, None, {"what": what})
        c["angles"] = "fixed" if attempt else "symbolic"
        return {k: v for k, v in c.items() if k != "angles"} | ({"fixed_angle": 1} if attempt and gates()[name][1] else {})
    return f


# ------------------------------------------------------------------ from other frameworks
def from_qiskit_cases():
    from qiskit import QuantumCircuit as QK, QuantumRegister, ClassicalRegister
    from qiskit.circuit import Parameter
    import qiskit.circuit.library as lib
    a, b, c = Parameter("a"), Parameter("b"), Parameter("c")
    out = []
    G = [("x", lib.XGate()), ("y", lib.YGate()), ("z", lib.ZGate()), ("h", lib.HGate()), ("s", lib.SGate()), ("sdg", lib.SdgGate()),
         ("t", lib.TGate()), ("tdg", lib.TdgGate()), ("sx", lib.SXGate()), ("sxdg", lib.SXdgGate()), ("p", lib.PhaseGate(a)),
         ("u1", lib.U1Gate(a)), ("rx", lib.RXGate(a)), ("ry", lib.RYGate(2 * a + b)), ("rz", lib.RZGate(a)), ("u3", lib.U3Gate(a, b, c)),
         ("u", lib.UGate(a, b, c)), ("r", lib.RGate(a, b)), ("id", lib.IGate()), ("swap", lib.SwapGate()), ("rxx", lib.RXXGate(a)),
         ("rzz", lib.RZZGate(a)), ("ryy", lib.RYYGate(a)), ("xxyy", lib.XXPlusYYGate(a, b)), ("iswap", lib.iSwapGate()),
         ("ecr", lib.ECRGate()), ("dcx", lib.DCXGate()), ("u2", lib.U2Gate(a, b)), ("cu", lib.CUGate(a, b, c, 0)), ("rzx", lib.RZXGate(a)),
         ("ccz", lib.CCZGate())]
    for nm, g in G:
        nq = g.num_qubits
        for k in (0, 1, 2):
            for st in ([None] if k == 0 else range(1 << k)):
                if k + nq > 4 or (nq > 2 and k):
                    continue
                out.append((nm, g, k, st))
    return out


def fromqk(nm, g, k, st):
    def f():
        from qiskit import QuantumCircuit as QK, QuantumRegister
        from qrisp import QuantumCircuit
        gate = g if k == 0 else g.control(k, ctrl_state=st, annotated=False)
        n = max(3, gate.num_qubits)
        r1, r2 = QuantumRegister(2, "u"), QuantumRegister(n - 2, "v")
        qk = QK(r1, r2)
        order = list(range(n))[::-1][:gate.num_qubits]
        qk.append(gate, [qk.qubits[i] for i in order])
        qc = QuantumCircuit.from_qiskit(qk)
        return decide2(foreign.from_qiskit(qk), qc, "from_qiskit %s, %d controls, state %s" % (nm, k, st))
    return f


def decide2(flat, qc, what):
    A = flat.mat()
    B = Mat(qc.qubits).run(qc)
    w = compare(A.cols, B.cols, up_to_phase=True)
    if w is not None:
        j, k = w
        raise Violation("%s: entry <%d|U|%d> is %s before and %s after conversion (angles a=5/32, b=11/32, c=7/32 turns; up to a global phase)"
                        % (what, k, j, rnd(evaluate(A.cols[j].get(k, {}), NUM)), rnd(evaluate(B.cols[j].get(k, {}), NUM))), {"what": what})
    return {"gates": A.gates + B.gates}


def qk_programs():
    """qiskit circuits with structure"""
    from qiskit import QuantumCircuit as QK, QuantumRegister, ClassicalRegister
    from qiskit.circuit import Parameter
    import qiskit.circuit.library as lib
    a, b = Parameter("a"), Parameter("b")
    P = {}
    q = QK(2)
    q.h(0)
    q.global_phase = math.pi / 4
    q.cp(a, 0, 1)
    sub = q.to_gate(label=None)
    sub.name = "withphase"
    m = QK(3)
    m.append(sub, [2, 0])
    m.append(sub.control(1, ctrl_state=0), [1, 0, 2])
    P["phase-sub"] = m
    m = QK(3)
    m.global_phase = math.pi / 8
    m.crx(a, 0, 2)
    m.cswap(2, 0, 1)
    m.ccx(0, 2, 1, ctrl_state=1)
    m.csx(1, 0)
    m.mcp(b, [0, 1], 2)
    P["controls"] = m
    m = QK(3)
    m.compose(lib.QFT(3) if hasattr(lib, "QFT") else QK(3), [2, 0, 1], inplace=True)
    P["qft"] = m
    i = QK(2)
    i.rx(a, 0)
    i.cx(0, 1)
    j = QK(2)
    j.append(i.to_gate(), [1, 0])
    j.append(i.to_gate().inverse(), [0, 1])
    m = QK(3)
    m.append(j.to_gate(), [1, 2])
    m.append(j.to_gate().control(1), [2, 0, 1])
    P["nested"] = m
    return P


def fromqkprog(nm):
    def f():
        from qrisp import QuantumCircuit
        m = qk_programs()[nm]
        qc = QuantumCircuit.from_qiskit(m)
        return decide2(foreign.from_qiskit(m), qc, "from_qiskit of program %s" % nm)
    return f


def fromqasm(i):
    texts = [
        'OPENQASM 2.0;\ninclude "qelib1.inc";\nqreg q[2];\nqreg r[1];\nh q[0];\ncx q[1],r[0];\nrz(pi/8) r[0];\nu3(pi/4,pi/8,pi/16) q[1];\ncu1(pi/8) q[0],r[0];\n',
        'OPENQASM 2.0;\ninclude "qelib1.inc";\ngate foo(x) a,b { rx(x) a; cx b,a; tdg b; }\nqreg q[3];\nfoo(pi/8) q[2],q[0];\nccx q[0],q[2],q[1];\nswap q[0],q[1];\nsdg q[2];\ncrz(pi/4) q[1],q[0];\n',
    ]

    def f():
        from qiskit import qasm2
        from qrisp import QuantumCircuit
        qc = QuantumCircuit.from_qasm_str(texts[i])
        fl = foreign.from_qiskit(qasm2.loads(texts[i], custom_instructions=qasm2.LEGACY_CUSTOM_INSTRUCTIONS))
        return decide2(fl, qc, "from_qasm_str text %d" % i)
    return f


def cirq_list():
    import cirq
    import sympy
    L = cirq.LineQubit.range(3)
    out = {}
    ang = NUM["a"]
    for nm, g in [("x", cirq.X), ("y", cirq.Y), ("z", cirq.Z), ("h", cirq.H), ("s", cirq.S), ("t", cirq.T), ("sdg", cirq.S**-1), ("tdg", cirq.T**-1),
                  ("x05", cirq.X**0.5), ("x-05", cirq.X**-0.5), ("x15", cirq.X**1.5), ("y05", cirq.Y**0.5), ("y-05", cirq.Y**-0.5), ("x3", cirq.X**3),
                  ("z15", cirq.Z**1.5), ("z3", cirq.Z**3.0), ("x025", cirq.X**0.25), ("z8", cirq.Z**0.125), ("z175", cirq.Z**1.75),
                  ("rx", cirq.rx(ang)), ("ry", cirq.ry(ang)), ("rz", cirq.rz(ang)), ("rx2", cirq.rx(math.pi)), ("ry2", cirq.ry(math.pi)),
                  ("rz2", cirq.rz(math.pi)), ("rz4", cirq.rz(math.pi / 2)), ("rx4", cirq.rx(math.pi / 2)), ("id", cirq.I),
                  ("xpow-shift", cirq.XPowGate(exponent=0.25, global_shift=-0.5)), ("zpow-shift", cirq.ZPowGate(exponent=0.5, global_shift=0.25))]:
        out[nm] = cirq.Circuit(cirq.I.on_each(*L), g(L[1]))
        for k, cv in ((1, [1]), (1, [0]), (2, [0, 1]), (2, [1, 0])):
            out["%s-c%s" % (nm, "".join(map(str, cv)))] = cirq.Circuit(cirq.I.on_each(*L), g.controlled(num_controls=k, control_values=cv)(*([L[2], L[0]][:k] + [L[1]])))
        out["%s-by" % nm] = cirq.Circuit(cirq.I.on_each(*L), g(L[0]).controlled_by(L[2], control_values=[0]))
    out["cx"] = cirq.Circuit(cirq.I.on_each(*L), cirq.CNOT(L[2], L[0]), cirq.CZ(L[1], L[0]), cirq.SWAP(L[0], L[2]))
    out["cswap"] = cirq.Circuit(cirq.I.on_each(*L), cirq.SWAP(L[2], L[0]).controlled_by(L[1], control_values=[0]))
    out["gphase-ctrl"] = cirq.Circuit(cirq.I.on_each(*L), cirq.ControlledGate(cirq.GlobalPhaseGate(1j))(L[1]), cirq.H(L[1]))
    out["gphase"] = cirq.Circuit(cirq.I.on_each(*L), cirq.GlobalPhaseGate(1j)(), cirq.H(L[1]))
    out["moments"] = cirq.Circuit(cirq.H(L[2]), cirq.CNOT(L[2], L[1]), cirq.T(L[2]), cirq.X(L[0])**0.5, cirq.CNOT(L[1], L[0]))
    return out, L


# powers the converter refuses or that are outside its documented gate set
def fromcirq(nm):
    def f():
        from qrisp import QuantumCircuit
        d, L = cirq_list()
        try:
            qc = QuantumCircuit.from_cirq(d[nm])
        except ValueError as e:
            if CIRQ_REFUSED.match(nm) and HONEST.search(str(e)):
                return {"refused": 1}
            raise Violation("from_cirq of %s raised %s" % (nm, str(e)[:200]), {"what": nm})
        return decide2(foreign.from_cirq(d[nm], L), qc, "from_cirq of %s" % nm)
    return f


CIRQ_REFUSED = re.compile(r"(s|sdg|t|tdg|z15|z175|z8|x05|x-05|x15|x025)-(c1|c01)$|gphase-ctrl$")


# ------------------------------------------------------------------ measurements, resets, classical control
def dyn_programs():
    import qrisp
    from qrisp import QuantumCircuit
    from qrisp import circuit as C
    P = {}

    def mk(n, m, steps):
        qc = QuantumCircuit(n, m)
        for s in steps:
            s(qc)
        return qc

    P["meas-perm"] = mk(3, 3, [lambda q: q.h(0), lambda q: q.cx(0, 2), lambda q: q.measure(q.qubits[2], q.clbits[0]), lambda q: q.measure(q.qubits[0], q.clbits[2]),
                               lambda q: q.measure(q.qubits[1], q.clbits[1])])
    P["mid"] = mk(2, 3, [lambda q: q.h(0), lambda q: q.measure(q.qubits[0], q.clbits[1]), lambda q: q.x(0), lambda q: q.cx(0, 1),
                         lambda q: q.measure(q.qubits[0], q.clbits[0]), lambda q: q.measure(q.qubits[1], q.clbits[2])])
    P["reset"] = mk(2, 1, [lambda q: q.h(0), lambda q: q.cx(0, 1), lambda q: q.reset(q.qubits[0]), lambda q: q.h(0), lambda q: q.measure(q.qubits[1], q.clbits[0])])

    def cif(gate, qs, cb, state=1):
        def s(q):
            q.append(gate.c_if(len(cb), state), [q.qubits[i] for i in qs], [q.clbits[i] for i in cb])
        return s
    m0 = [lambda q: q.h(0), lambda q: q.measure(q.qubits[0], q.clbits[1])]
    m1 = m0 + [lambda q: q.h(1), lambda q: q.measure(q.qubits[1], q.clbits[0])]
    P["cif-x"] = mk(3, 2, m0 + [cif(C.XGate(), [2], [1])])
    P["cif-z"] = mk(3, 2, m0 + [cif(C.ZGate(), [2], [1])])
    P["cif-y"] = mk(3, 2, m0 + [cif(C.YGate(), [2], [1])])
    P["cif-x0"] = mk(3, 2, m0 + [cif(C.XGate(), [2], [1], 0)])
    P["cif-cx"] = mk(3, 2, m0 + [cif(C.CXGate(), [2, 1], [1])])
    P["cif-rx"] = mk(3, 2, m0 + [cif(C.RXGate(NUM["a"]), [2], [1])])
    P["cif-mcx"] = mk(3, 2, m0 + [cif(C.XGate().control(2, ctrl_state="01"), [2, 0, 1], [1])])
    P["cif2-11"] = mk(3, 2, m1 + [cif(C.XGate(), [2], [1, 0], "11")])
    P["cif2-10"] = mk(3, 2, m1 + [cif(C.XGate(), [2], [1, 0], "10")])
    P["cif2-01"] = mk(3, 2, m1 + [cif(C.HGate(), [2], [1, 0], "01")])

    def subg(q):
        s = QuantumCircuit(2)
        s.h(0)
        s.cx(0, 1)
        s.t(1)
        q.append(s.to_gate("sub").c_if(1, 1), [q.qubits[2], q.qubits[1]], [q.clbits[1]])
    P["cif-sub"] = mk(3, 2, m0 + [subg])

    def subm(q):
        s = QuantumCircuit(2, 1)
        s.h(0)
        s.measure(s.qubits[1], s.clbits[0])
        q.append(s.to_op("subm"), [q.qubits[2], q.qubits[0]], [q.clbits[1]])
    P["sub-meas"] = mk(3, 2, [lambda q: q.h(0), subm, lambda q: q.measure(q.qubits[2], q.clbits[0])])
    return P


CLIFF = ("x", "y", "z", "h", "s", "s_dg", "sx", "sx_dg", "cx", "cy", "cz", "swap", "id")

_CIF = ["cif-x", "cif-y", "cif-z", "cif-x0", "cif-cx", "cif-rx", "cif-mcx", "cif-sub", "cif2-11", "cif2-10", "cif2-01"]
DYN_REFUSED = {
    "pytket": _CIF + ["reset"],
    "cirq": _CIF,
    "stim": ["cif-cx", "cif-rx", "cif-mcx", "cif-sub", "cif2-11", "cif2-10", "cif2-01"],
    "roundtrip": ["cif2-11", "cif2-10", "cif2-01"],
}


def dyn(fw, nm):
    def f():
        qc = dyn_programs()[nm]
        n, m = len(qc.qubits), len(qc.clbits)
        try:
            if fw == "qiskit":
                fl = foreign.from_qiskit(qc.to_qiskit())
                cm = None
            elif fw == "pytket":
                fl = foreign.from_pytket(qc.to_pytket())
                cm = None
            elif fw == "stim":
                st, mp = qc.to_stim(return_measurement_map=True)
                fl = foreign.from_stim(st, n)
                cm = {c: i for c, i in mp.items()}
            elif fw == "cirq":
                import cirq
                fl = foreign.from_cirq(qc.to_cirq(), cirq.LineQubit.range(n))
                cm = "order"
            elif fw == "roundtrip":
                from qrisp import QuantumCircuit
                back = QuantumCircuit.from_qiskit(qc.to_qiskit())
                fl = None
        except Exception as e:
            if nm in DYN_REFUSED.get(fw, ()) and HONEST.search(str(e)):
                return {"refused": 1}
            raise Violation("%s of circuit %s raised %s: %s" % (fw, nm, type(e).__name__, str(e)[:200]), {"what": nm})
        A = linstate.Lin(qc.qubits, qc.clbits).run(qc)
        ra = A.records(qc.clbits)
        if fw == "roundtrip":
            B = linstate.Lin(back.qubits, back.clbits).run(back)
            rb = B.records(back.clbits)
        else:
            B = fl.lin()
            if cm is None:
                rb = B.records(list(range(m)))
            elif cm == "order":
                # cirq keys a measurement by its qubit
                at, seen, inv, cnt = {}, {}, {}, {}
                for i in qc.transpile().data:
                    if i.op.name == "measure":
                        q = qc.qubits.index(i.qubits[0])
                        seen[q] = seen.get(q, 0) + 1
                        at[qc.clbits.index(i.clbits[0])] = (q, seen[q])
                for it in fl.items:
                    if it[0] == "measure":
                        cnt[it[1]] = cnt.get(it[1], 0) + 1
                        inv[it[1], cnt[it[1]]] = it[2]
                rb = B.records([inv[at[k]] if k in at else -1 for k in range(m)])
            else:
                rb = B.records([cm.get(c, -1) for c in qc.clbits])
        d = linstate.differ(ra, rb, "free")
        if d is not None:
            raise Violation("%s of circuit %s: %s" % (fw, nm, d), {"what": nm})
        return {"gates": A.gates + B.gates}
    return f


def stimgate(name, state, inv, pos):
    def f():
        import math as _m
        qc = build(name, state, inv, pos, False)
        n = len(qc.qubits)
        what = "to_stim of %s%s%s" % (name, "^-1" if inv else "", " controlled on " + state if state else "")
        try:
            st = qc.to_stim()
        except (NotImplementedError, ValueError):
            return {"refused": 1}
        return decide(qc, foreign.from_stim(st, n), what, None, {"what": what})
    return f


def stimangles(name, k):
    """parametrised gates at Clifford angles have to be refused or right"""
    def f():
        from qrisp import QuantumCircuit
        from qrisp import circuit as C
        qc = QuantumCircuit(2)
        qc.h(0)
        op = getattr(C, name.upper() + "Gate")(math.pi / 2 * k)
        qc.append(op, [qc.qubits[0]] if op.num_qubits == 1 else qc.qubits)
        try:
            st = qc.to_stim()
        except (NotImplementedError, ValueError):
            return {"refused": 1}
        return decide(qc, foreign.from_stim(st, 2), "to_stim of %s(%d pi/2)" % (name, k), None, {"what": name})
    return f


def tables():
    """the gate tables against the matrices the frameworks report (numeric, default angles)"""
    import numpy as np
    from ..linstate import Lin
    import qiskit.circuit.library as lib
    from qiskit import QuantumCircuit as QK
    from qiskit.quantum_info import Operator
    a, b, c = NUM["a"], NUM["b"], NUM["c"]
    n = 0

    def full(fl):
        L = fl.lin()
        return L.br[0].m

    def chk(U, V, what):
        nonlocal n
        n += 1
        if abs(U - V).max() > 1e-6:
            raise RuntimeError("gate table disagrees with the framework for %s" % what)
    for g in (lib.XGate(), lib.YGate(), lib.ZGate(), lib.HGate(), lib.SGate(), lib.SdgGate(), lib.TGate(), lib.TdgGate(), lib.SXGate(), lib.SXdgGate(),
              lib.PhaseGate(a), lib.U1Gate(a), lib.RXGate(a), lib.RYGate(a), lib.RZGate(a), lib.U3Gate(a, b, c), lib.UGate(a, b, c), lib.RGate(a, b),
              lib.SwapGate(), lib.RXXGate(a), lib.RYYGate(a), lib.RZZGate(a), lib.XXPlusYYGate(a, b), lib.CXGate(ctrl_state=0), lib.CPhaseGate(a),
              lib.RYGate(a).control(2, ctrl_state=1, annotated=False), lib.RXXGate(a).control(1, ctrl_state=0, annotated=False),
              lib.XXPlusYYGate(a, b).control(1, annotated=False)):
        q = QK(g.num_qubits)
        q.append(g, range(g.num_qubits))
        chk(full(foreign.from_qiskit(q)), Operator(q).data, "qiskit " + g.name)
    from pytket import Circuit, OpType as O
    for t, k, par in [(O.X, 1, []), (O.SX, 1, []), (O.SXdg, 1, []), (O.Rx, 1, [a]), (O.Ry, 1, [a]), (O.Rz, 1, [a]), (O.U1, 1, [a]), (O.U3, 1, [a, b, c]),
                      (O.XXPhase, 2, [a]), (O.YYPhase, 2, [a]), (O.ZZPhase, 2, [a]), (O.CRz, 2, [a]), (O.CU1, 2, [a]), (O.CX, 2, []), (O.CY, 2, []), (O.CZ, 2, []),
                      (O.SWAP, 2, []), (O.PhasedX, 1, [a, b]), (O.S, 1, []), (O.Tdg, 1, [])]:
        tk = Circuit(k)
        tk.add_gate(t, [p / math.pi for p in par], list(range(k)))
        U = full(foreign.from_pytket(tk))
        V = tk.get_unitary()
        if k == 2:
            pm = [0, 2, 1, 3]
            V = V[np.ix_(pm, pm)]
        chk(U, V, "pytket %s" % t)
    import pennylane as qml
    for o in (qml.RX(a, 0), qml.RY(a, 0), qml.RZ(a, 0), qml.PhaseShift(a, 0), qml.U3(a, b, c, 0), qml.IsingXX(a, [1, 0]), qml.IsingYY(a, [1, 0]), qml.IsingZZ(a, [1, 0]),
              qml.S(0), qml.T(0), qml.adjoint(qml.T(0)), qml.GlobalPhase(a, 0), qml.Rot(a, b, c, 0), qml.SX(0), qml.CNOT([1, 0]), qml.ctrl(qml.RX(a, 0), [1], control_values=[0]),
              qml.adjoint(qml.U3(a, b, c, 0)), qml.adjoint(qml.Rot(a, b, c, 0)), qml.ctrl(qml.SWAP([0, 1]), [2], control_values=[0]), qml.ctrl(qml.GlobalPhase(a), [0]), qml.CRZ(a, [1, 0])):
        k = max(o.wires) + 1 if len(o.wires) else 1
        V = qml.matrix(o, wire_order=list(range(k))[::-1])
        chk(full(foreign.from_pennylane([o], k)), V, "pennylane %s" % o)
    import cirq
    L = cirq.LineQubit.range(3)
    for o in (cirq.X(L[0])**0.25, cirq.Y(L[0])**0.25, cirq.Z(L[0])**0.25, cirq.rx(a)(L[0]), cirq.ry(a)(L[0]), cirq.rz(a)(L[0]), cirq.S(L[0])**-1, cirq.CNOT(L[0], L[1]),
              cirq.ControlledGate(cirq.X**0.5, control_values=[0])(L[1], L[0]), cirq.ZPowGate(exponent=0.25, global_shift=0.25)(L[0]), cirq.SWAP(L[0], L[1]).controlled_by(L[2], control_values=[0])):
        k = max(q.x for q in o.qubits) + 1
        V = cirq.Circuit(o).unitary(qubit_order=L[:k][::-1])
        chk(full(foreign.from_cirq(cirq.Circuit(o), L[:k])), V, "cirq %s" % o)
    return {"tables": n}


def cases(tier):
    out = [("tables", tables)]
    G = gates()
    for fw in ("qiskit", "pytket", "pennylane", "cirq", "qasm", "roundtrip", "cirqback"):
        for name, (_, npar, nq) in G.items():
            kmax = 2 if tier == "quick" else 3
            for k in range(kmax + 1):
                if fw in ("qasm",) and k > 1 and tier == "quick":
                    continue
                if k + nq > 4:
                    continue
                for st in ([""] if k == 0 else [bin(i)[2:].zfill(k) for i in range(1 << k)]):
                    for inv in (False, True):
                        if inv and (k > 1 or name in ("s_dg", "t_dg", "x", "y", "z", "h", "swap", "cx", "cy", "cz", "id", "sx_dg")):
                            continue
                        base = list(range(max(3, nq + k)))
                        poss = [base[::-1][:nq + k]]
                        if tier != "quick" or k == 0:
                            poss.append((base[1:] + base[:1])[:nq + k])
                        for pi, pos in enumerate(poss):
                            out.append(("to/%s/%s/%s%s/%d" % (fw, name, st or "-", "/inv" if inv else "", pi), conv(fw, name, st, inv, pos)))
    for nm, g, k, st in from_qiskit_cases():
        out.append(("from/qiskit/%s/%d-%s" % (nm, k, st), fromqk(nm, g, k, st)))
    for nm in qk_programs():
        out.append(("from/qiskit/prog/%s" % nm, fromqkprog(nm)))
    for i in range(2):
        out.append(("from/qasm/%d" % i, fromqasm(i)))
    for nm in cirq_list()[0]:
        out.append(("from/cirq/%s" % nm, fromcirq(nm)))
    for fw in ("qiskit", "pytket", "stim", "cirq", "roundtrip"):
        for nm in dyn_programs():
            out.append(("dyn/%s/%s" % (fw, nm), dyn(fw, nm)))
    for name, (_, npar, nq) in G.items():
        if npar:
            continue
        for st in ("", "1", "0"):
            for inv in (False, True):
                pos = [2, 1, 0][:nq + len(st)]
                out.append(("to/stim/%s/%s%s" % (name, st or "-", "/inv" if inv else ""), stimgate(name, st, inv, pos)))
    for nm in ("p", "rx", "ry", "rz", "cp", "rzz", "rxx", "u1"):
        for k in range(4):
            out.append(("to/stim/angle/%s/%d" % (nm, k), stimangles(nm, k)))
    return out
