"""Meaning of circuits of other frameworks, as flat lists of elementary gates.

Every framework object is read through its public data model only (gate class, parameters, controls, wires) and expanded by the
tables below, which follow the framework's own gate documentation; `selftest` compares the tables with the matrices the installed
framework reports.

item: ("g", name, params, targets, controls [(qubit, value)], condition [(clbit, value)]) | ("measure", q, c, cond) | ("reset", q, cond)
Qubits and clbits are positions.
"""
import math

import numpy as np

from .pathsum import Unsupported

PI = math.pi


def _num(p):
    """framework parameter -> sympy expression or float"""
    import sympy
    if isinstance(p, sympy.Basic):
        return p
    if hasattr(p, "sympify"):              # qiskit ParameterExpression
        return sympy.sympify(p.sympify())
    if isinstance(p, complex):
        if abs(p.imag) > 1e-12:
            raise Unsupported("complex parameter %r" % p)
        p = p.real
    return float(p)


class Flat:
    def __init__(self, n, c=0):
        self.n = n
        self.c = c
        self.items = []

    def g(self, name, params, qs, ctrl=(), cond=()):
        if name == "gphase" and ctrl and any(q in qs for q, _ in ctrl):
            # the phase is placed on one of its own controls
            (q, v), rest = tuple(ctrl)[-1], tuple(ctrl)[:-1]
            flip = [] if v else [("g", "x", (), (q,), (), tuple(cond))]
            self.items += flip + [("g", "p", tuple(params), (q,), rest, tuple(cond))] + flip
            return
        self.items.append(("g", name, tuple(params), tuple(qs), tuple(ctrl), tuple(cond)))

    def emit(self, name, par, qs, ctrl, cond):
        """composite reference gates"""
        g = self.g
        if name == "sxq":                  # square root of X with eigenvalue 1 on |+>
            g("rx", (PI / 2,), qs, ctrl, cond)
            g("gphase", (PI / 4,), qs, ctrl, cond)
        elif name == "sxq_dg":
            g("rx", (-PI / 2,), qs, ctrl, cond)
            g("gphase", (-PI / 4,), qs, ctrl, cond)
        elif name == "r":                  # rotation around cos(phi) X + sin(phi) Y
            th, ph = par
            g("rz", (-ph,), qs, ctrl, cond)
            g("rx", (th,), qs, ctrl, cond)
            g("rz", (ph,), qs, ctrl, cond)
        elif name in ("rzz", "rxx", "ryy"):
            a, b = qs
            pre = {"rzz": [], "rxx": [("h", ())], "ryy": [("rx", (PI / 2,))]}[name]
            post = {"rzz": [], "rxx": [("h", ())], "ryy": [("rx", (-PI / 2,))]}[name]
            for q in qs:
                for nm, p in pre:
                    g(nm, p, (q,), (), cond)
            g("x", (), (b,), ((a, 1),), cond)
            g("rz", par, (b,), ctrl, cond)
            g("x", (), (b,), ((a, 1),), cond)
            for q in qs:
                for nm, p in post:
                    g(nm, p, (q,), (), cond)
        elif name == "xxyy":               # qiskit XXPlusYY(theta, beta): acts on span{|01>,|10>}, qubit 0 least significant
            th, be = par
            a, b = qs
            # exp(-i th/4 (XX+YY)) conjugated by Rz(beta) on the first qubit
            g("rz", (be,), (a,), (), cond)
            self.emit("rxx", (th / 2,), qs, ctrl, cond)
            self.emit("ryy", (th / 2,), qs, ctrl, cond)
            g("rz", (-be,), (a,), (), cond)
        else:
            g(name, par, qs, ctrl, cond)

    # ---- execution in the two engines
    def mat(self, inputs=None):
        from .matsym import Mat
        M = Mat(list(range(self.n)), inputs)
        for it in self.items:
            if it[0] != "g" or it[5]:
                raise Unsupported("measurement in a unitary comparison")
            M.named(it[1], it[2], list(it[3]), tuple((q, v) for q, v in it[4]))
        return M

    def lin(self, columns=None):
        from .linstate import Lin, gate2
        L = Lin(list(range(self.n)), list(range(self.c)), columns)
        X = gate2("x", ())

        class Op:
            definition = None
        for it in self.items:
            if it[0] != "g":
                o = Op()
                o.name = it[0]
                L.apply(o, [it[1]], [it[2]] if it[0] == "measure" else [], it[-1])
                continue
            _, name, par, qs, ctrl, cond = it
            zero = [q for q, v in ctrl if not v]
            cs = [q for q, _ in ctrl]
            for q in zero:
                L.gate(X, q, [], ())
            if name == "swap":
                for a, b in ((0, 1), (1, 0), (0, 1)):
                    L.gate(X, qs[b], [qs[a]] + cs, cond)
            else:
                L.gate(gate2(name, par), qs[0], cs, cond)
            for q in zero:
                L.gate(X, q, [], ())
            L.gates += 1
        return L


# ------------------------------------------------------------------ qiskit
QISKIT = {"x": "x", "y": "y", "z": "z", "h": "h", "s": "s", "sdg": "s_dg", "t": "t", "tdg": "t_dg", "sx": "sxq", "sxdg": "sxq_dg",
          "p": "p", "u1": "p", "rx": "rx", "ry": "ry", "rz": "rz", "u3": "u3", "u": "u3", "r": "r", "rxx": "rxx", "ryy": "ryy",
          "rzz": "rzz", "swap": "swap", "id": "id", "xx_plus_yy": "xxyy"}
QISKIT_CLS = {"XGate": "x", "YGate": "y", "ZGate": "z", "HGate": "h", "SGate": "s", "SdgGate": "sdg", "TGate": "t", "TdgGate": "tdg",
              "SXGate": "sx", "SXdgGate": "sxdg", "PhaseGate": "p", "U1Gate": "u1", "RXGate": "rx", "RYGate": "ry", "RZGate": "rz",
              "U3Gate": "u3", "UGate": "u", "RGate": "r", "RXXGate": "rxx", "RYYGate": "ryy", "RZZGate": "rzz", "SwapGate": "swap",
              "IGate": "id", "XXPlusYYGate": "xx_plus_yy"}


def from_qiskit(qc):
    f = Flat(qc.num_qubits, qc.num_clbits)
    _qiskit(f, qc, list(range(qc.num_qubits)), list(range(qc.num_clbits)), (), ())
    return f


def _qiskit(f, qc, qs, cs, ctrl, cond):
    gp = _num(qc.global_phase)
    if gp != 0:
        if qs:
            f.g("gphase", (gp,), (qs[0],), ctrl, cond)
        elif ctrl:
            raise Unsupported("controlled phase of a circuit without qubits")
    qi = {q: qs[i] for i, q in enumerate(qc.qubits)}
    ci = {c: cs[i] for i, c in enumerate(qc.clbits)}
    for ins in qc.data:
        _qiskit_op(f, ins.operation, [qi[q] for q in ins.qubits], [ci[c] for c in ins.clbits], ctrl, cond, ci)


def _literals(e, val=1):
    """conjunction of classical bits as [(bit, value)]"""
    from qiskit.circuit.classical import expr as X
    if isinstance(e, X.Value) and bool(e.value) and val:
        return []
    if isinstance(e, X.Var):
        return [(e.var, val)]
    if isinstance(e, X.Unary) and e.op in (X.Unary.Op.BIT_NOT, X.Unary.Op.LOGIC_NOT):
        return _literals(e.operand, 1 - val)
    if isinstance(e, X.Binary) and val and e.op in (X.Binary.Op.BIT_AND, X.Binary.Op.LOGIC_AND):
        return _literals(e.left) + _literals(e.right)
    raise Unsupported("condition %s" % e)


def _qiskit_op(f, op, q, c, ctrl, cond, ci):
    from qiskit.circuit import ControlledGate, IfElseOp, Gate
    name = op.name
    if name == "barrier":
        return
    if name == "measure":
        f.items.append(("measure", q[0], c[0], tuple(cond)))
        return
    if name == "reset":
        f.items.append(("reset", q[0], tuple(cond)))
        return
    if isinstance(op, IfElseOp):
        if not isinstance(op.condition, tuple):
            lits = _literals(op.condition)
        else:
            bit, val = op.condition
            from qiskit.circuit import Clbit
            bits = [bit] if isinstance(bit, Clbit) else list(bit)
            lits = [(b, (int(val) >> i) & 1) for i, b in enumerate(bits)]
        body, other = op.blocks[0], (op.blocks[1] if len(op.blocks) > 1 else None)
        if other is not None and len(other.data):
            raise Unsupported("else branch")
        extra = tuple((ci[b], v) for b, v in lits)
        if not {x for x, _ in extra} <= set(c):
            raise ValueError("condition bit of %s is not among its classical bits" % name)
        _qiskit(f, body, q, c, ctrl, tuple(cond) + extra)
        return
    if isinstance(op, ControlledGate):
        k = op.num_ctrl_qubits
        st = op.ctrl_state
        base = op.base_gate
        # base_gate of the library's cx/cp/... carries the parameters
        _qiskit_op(f, base, q[k:], c, tuple(ctrl) + tuple((q[i], (st >> i) & 1) for i in range(k)), cond, ci)
        return
    cls = type(op).__name__
    for b in type(op).__mro__:
        if b.__name__ in QISKIT_CLS:
            cls = b.__name__
            break
    if cls in QISKIT_CLS:
        f.emit(QISKIT[QISKIT_CLS[cls]], [_num(p) for p in op.params], q, ctrl, cond)
        return
    if cls == "UnitaryGate":
        raise Unsupported("matrix gate")
    if op.definition is None:
        raise Unsupported("qiskit gate %s" % name)
    _qiskit(f, op.definition, q, c, ctrl, cond)


# ------------------------------------------------------------------ pytket
def from_pytket(tk, index=None):
    """index: function tket qubit -> position"""
    if index is None:
        def index(q):
            return q.index[0]
    f = Flat(tk.n_qubits, tk.n_bits)
    bits = {b: i for i, b in enumerate(tk.bits)}
    _pytket(f, tk, {q: index(q) for q in tk.qubits}, bits, (), ())
    return f


def _pytket(f, tk, qm, bm, ctrl, cond):
    import sympy
    from pytket import OpType as O
    leaf = {O.X: "x", O.Y: "y", O.Z: "z", O.H: "h", O.S: "s", O.Sdg: "s_dg", O.T: "t", O.Tdg: "t_dg", O.SX: "sxq", O.SXdg: "sxq_dg",
            O.Rx: "rx", O.Ry: "ry", O.Rz: "rz", O.U1: "p", O.U3: "u3", O.XXPhase: "rxx", O.YYPhase: "ryy", O.ZZPhase: "rzz",
            O.SWAP: "swap", O.noop: "id", O.PhasedX: "r"}
    cleaf = {O.CX: "x", O.CY: "y", O.CZ: "z", O.CH: "h", O.CRx: "rx", O.CRy: "ry", O.CRz: "rz", O.CU1: "p", O.CU3: "u3", O.CSX: "sxq",
             O.CSXdg: "sxq_dg", O.CSWAP: "swap", O.CnX: "x", O.CnY: "y", O.CnZ: "z", O.CCX: "x", O.CS: "s", O.CSdg: "s_dg"}
    ph = sympy.sympify(tk.phase)
    if ph != 0:
        q0 = next(iter(qm.values()), None)
        if q0 is not None:
            f.g("gphase", (ph * PI if ph.free_symbols else float(ph) * PI,), (q0,), ctrl, cond)
    for cmd in tk.get_commands():
        op = cmd.op
        t = op.type
        qs = [qm[q] for q in cmd.qubits]
        _pytket_op(f, op, t, qs, [bm[b] for b in cmd.bits], ctrl, cond, leaf, cleaf)


def _pytket_op(f, op, t, qs, bs, ctrl, cond, leaf, cleaf):
    import sympy
    from pytket import OpType as O

    def par():
        r = []
        for p in op.params:
            p = sympy.sympify(p)
            r.append(sympy.expand(p * sympy.pi) if p.free_symbols else float(p) * PI)
        return r
    if t == O.Barrier:
        return
    if t == O.Measure:
        f.items.append(("measure", qs[0], bs[0], tuple(cond)))
    elif t == O.Reset:
        f.items.append(("reset", qs[0], tuple(cond)))
    elif t in leaf:
        f.emit(leaf[t], par(), qs, ctrl, cond)
    elif t in cleaf:
        k = len(qs) - (2 if t == O.CSWAP else 1)
        f.emit(cleaf[t], par(), qs[k:], tuple(ctrl) + tuple((q, 1) for q in qs[:k]), cond)
    elif t == O.Phase:
        f.g("gphase", par(), (0,), ctrl, cond)
    elif t == O.CircBox:
        sub = op.get_circuit()
        _pytket(f, sub, {q: qs[i] for i, q in enumerate(sub.qubits)}, {b: bs[i] for i, b in enumerate(sub.bits)}, ctrl, cond)
    elif t == O.QControlBox:
        k = op.get_n_controls()
        st = op.get_control_state_bits()
        inner = op.get_op()
        _pytket_op(f, inner, inner.type, qs[k:], bs, tuple(ctrl) + tuple((q, int(v)) for q, v in zip(qs[:k], st)), cond, leaf, cleaf)
    elif t == O.Conditional:
        k = op.width
        v = op.value
        _pytket_op(f, op.op, op.op.type, qs, bs[k:], ctrl, tuple(cond) + tuple((b, (v >> i) & 1) for i, b in enumerate(bs[:k])), leaf, cleaf)
    else:
        raise Unsupported("pytket gate %s" % t)


# ------------------------------------------------------------------ pennylane
PL = {"PauliX": "x", "PauliY": "y", "PauliZ": "z", "X": "x", "Y": "y", "Z": "z", "Hadamard": "h", "RX": "rx", "RY": "ry", "RZ": "rz",
      "PhaseShift": "p", "U3": "u3", "IsingXX": "rxx", "IsingYY": "ryy", "IsingZZ": "rzz", "SWAP": "swap", "S": "s", "T": "t",
      "Identity": "id", "SX": "sxq"}
PLC = {"CNOT": ("x", 1), "CZ": ("z", 1), "CY": ("y", 1), "CH": ("h", 1), "Toffoli": ("x", 2), "CCZ": ("z", 2), "CRX": ("rx", 1),
       "CRY": ("ry", 1), "CRZ": ("rz", 1), "ControlledPhaseShift": ("p", 1), "CSWAP": ("swap", 1)}


def from_pennylane(ops, n):
    f = Flat(n)
    for o in ops:
        _pl(f, o, (), False)
    return f


def _pl(f, o, ctrl, adj):
    import pennylane as qml
    cls = type(o).__name__
    if isinstance(o, qml.ops.Adjoint):
        return _pl(f, o.base, ctrl, not adj)
    if cls in PLC:
        nm, k = PLC[cls]
        w = list(o.wires)
        return _pl_leaf(f, nm, [_num(p) for p in o.parameters], w[k:], tuple(ctrl) + tuple((q, 1) for q in w[:k]), adj)
    if cls == "MultiControlledX":
        w = list(o.wires)
        return _pl_leaf(f, "x", [], w[-1:], tuple(ctrl) + tuple((q, int(v)) for q, v in zip(w[:-1], o.control_values)), adj)
    if isinstance(o, qml.ops.Controlled):
        return _pl(f, o.base, tuple(ctrl) + tuple((q, int(v)) for q, v in zip(o.control_wires, o.control_values)), adj)
    if cls == "GlobalPhase":                        # exp(-i phi)
        p = _num(o.parameters[0])
        f.g("gphase", (p if adj else -p,), (0,), ctrl)
        return
    if cls == "Rot":                                # RZ(omega) RY(theta) RZ(phi)
        ph, th, om = [_num(p) for p in o.parameters]
        seq = [("rz", ph), ("ry", th), ("rz", om)]
        if adj:
            seq = [(n, -p) for n, p in reversed(seq)]
        for nm, p in seq:
            f.g(nm, (p,), tuple(o.wires), ctrl)
        return
    if cls in PL:
        return _pl_leaf(f, PL[cls], [_num(p) for p in o.parameters], list(o.wires), ctrl, adj)
    raise Unsupported("pennylane gate %s" % cls)


def _pl_leaf(f, nm, par, qs, ctrl, adj):
    if adj:
        if nm in ("s", "t", "sxq"):
            nm += "_dg"
        elif nm == "u3":
            par = [-par[0], -par[2], -par[1]]
        else:
            par = [-p for p in par]
    f.emit(nm, par, qs, ctrl, ())


# ------------------------------------------------------------------ cirq
def from_cirq(circ, qubits, clkeys=None):
    """clkeys: list that receives the measurement keys in order"""
    import cirq
    pos = {q: i for i, q in enumerate(qubits)}
    ops = list(circ.all_operations())
    f = Flat(len(qubits))
    for o in ops:
        _cirq(f, o, pos, clkeys)
    return f


def _cirq(f, o, pos, clkeys):
    import cirq
    if isinstance(o, cirq.ControlledOperation):
        cv = [v[0] for v in o.control_values]
        ctrl = tuple((pos[q], v) for q, v in zip(o.controls, cv))
        return _cirq_gate(f, o.sub_operation.gate, [pos[q] for q in o.sub_operation.qubits], ctrl)
    g = o.gate
    if isinstance(g, cirq.MeasurementGate):
        for q in o.qubits:
            f.items.append(("measure", pos[q], f.c, ()))
            f.c += 1
            if clkeys is not None:
                clkeys.append((g.key, q))
        return
    if isinstance(g, cirq.ResetChannel):
        f.items.append(("reset", pos[o.qubits[0]], ()))
        return
    _cirq_gate(f, g, [pos[q] for q in o.qubits], ())


def _cirq_gate(f, g, qs, ctrl):
    import cirq
    if isinstance(g, cirq.ControlledGate):
        k = g.num_controls()
        cv = [v[0] for v in g.control_values]
        return _cirq_gate(f, g.sub_gate, qs[k:], tuple(ctrl) + tuple(zip(qs[:k], cv)))
    if isinstance(g, cirq.GlobalPhaseGate):
        f.g("gphase", (float(np.angle(complex(g.coefficient))),), (0,), ctrl)
        return
    if isinstance(g, cirq.IdentityGate):
        return
    ax = {cirq.XPowGate: "rx", cirq.YPowGate: "ry", cirq.ZPowGate: "rz"}
    for c, nm in ax.items():
        if isinstance(g, c):
            e = _num(g.exponent) * PI
            f.g(nm, (e,), qs, ctrl)
            sh = _num(g.exponent) * PI * (g.global_shift + 0.5)
            if sh != 0:
                f.g("gphase", (sh,), (qs[0],), ctrl)
            return
    full = {cirq.HPowGate: ("h", 0), cirq.CXPowGate: ("x", 1), cirq.CZPowGate: ("z", 1), cirq.SwapPowGate: ("swap", 0), cirq.CCXPowGate: ("x", 2)}
    for c, (nm, k) in full.items():
        if isinstance(g, c):
            if g.exponent % 2 != 1 or g.global_shift != 0:
                raise Unsupported("fractional power %s" % g)
            f.g(nm, (), qs[k:], tuple(ctrl) + tuple((q, 1) for q in qs[:k]))
            return
    raise Unsupported("cirq gate %s" % g)


# ------------------------------------------------------------------ stim
STIM = {"H": "h", "X": "x", "Y": "y", "Z": "z", "S": "s", "S_DAG": "s_dg", "SQRT_X": "sxq", "SQRT_X_DAG": "sxq_dg", "I": "id", "SWAP": "swap"}


def from_stim(circ, n):
    f = Flat(n)
    for ins in circ:
        nm = ins.name
        ts = ins.targets_copy()
        if nm == "TICK":
            continue
        if nm in ("M", "MZ"):
            for t in ts:
                f.items.append(("measure", t.value, f.c, ()))
                f.c += 1
        elif nm in ("R", "RZ"):
            for t in ts:
                f.items.append(("reset", t.value, ()))
        elif nm in ("SQRT_Y", "SQRT_Y_DAG"):
            for t in ts:
                f.g("ry", (PI / 2 if nm == "SQRT_Y" else -PI / 2,), (t.value,))
        elif nm == "SWAP":
            for a, b in zip(ts[::2], ts[1::2]):
                f.g("swap", (), (a.value, b.value))
        elif nm in STIM:
            for t in ts:
                f.emit(STIM[nm], (), (t.value,), (), ())
        elif nm in ("CX", "CY", "CZ"):
            for a, b in zip(ts[::2], ts[1::2]):
                if a.is_measurement_record_target:
                    f.g(nm[1].lower(), (), (b.value,), (), ((f.c + a.value, 1),))
                else:
                    f.g(nm[1].lower(), (), (b.value,), ((a.value, 1),))
        elif nm in ("DETECTOR", "OBSERVABLE_INCLUDE"):
            continue
        else:
            raise Unsupported("stim instruction %s" % nm)
    return f
