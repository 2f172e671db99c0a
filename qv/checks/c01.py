"""C01: controlled gates."""
import itertools
from fractions import Fraction

from ..prog import Violation, z3
from .. import matsym
from ..matsym import Mat, compare, compare_reported, evaluate

LEVEL = "translation_validation"
TECH = "symbolic execution of gate decompositions with symbolic angles, matrix entries compared by an SMT solver"
FUNCTIONS = ["qrisp.circuit.operation.{Operation.control, PTControlledOperation, ControlledOperation, U3Gate, bind_parameters}",
             "qrisp.circuit.controlled_operations.{multi_controlled_circuit, multi_controlled_u3_circ, fredkin_qc}",
             "qrisp.circuit.standard_operations.*", "qrisp.alg_primitives.logic_synthesis.gray_synthesis (phase synthesis)",
             "qrisp.simulator.unitary_management.{u3matrix, controlled_unitary}"]
BOUNDS = ("quick: 20 base gates with symbolic angles, 1..3 controls with every control state, 4 controls with three states, methods gray and auto, "
          "nested control calls, bound parameters.  thorough: 1..4 controls with every control state, 5 controls with three.")
OUTSIDE = "more controls; pulse-level or framework specific gates; phase tolerant methods are only checked up to diagonal phases"
HOW = ("Every entry of the matrix of the decomposition is computed as an exact exponential polynomial in the angles; z3 decides that all "
       "coordinates equal those of the reference controlled gate, hence equality for all angles. The matrix reported by get_unitary is compared coefficientwise (1e-4, single precision).")

A = ("a", "b", "c")


def base_table():
    """name -> (constructor with symbols, reference program on target qubits: list of (gate, params, qubits, inner controls), n)"""
    import numpy as np
    import sympy
    from qrisp import circuit as C
    import qrisp
    a, b, c = sympy.symbols("a b c", real=True)
    t = {}
    for n in ("x", "y", "z", "h", "s", "t"):
        t[n] = (getattr(C, n.upper() + "Gate"), (), [(n, (), (0,), ())], 1)
    t["sx"] = (C.SXGate, (), [("sx", (), (0,), ())], 1)
    t["sx_dg"] = (C.SXDGGate, (), [("sx_dg", (), (0,), ())], 1)
    t["s_dg"] = (lambda: C.SGate().inverse(), (), [("s_dg", (), (0,), ())], 1)
    t["t_dg"] = (lambda: C.TGate().inverse(), (), [("t_dg", (), (0,), ())], 1)
    for n in ("p", "rx", "ry", "rz"):
        t[n] = (getattr(C, n.upper() + "Gate"), (a,), [(n, (a,), (0,), ())], 1)
    t["u1"] = (C.U1Gate, (a,), [("rz", (a,), (0,), ())], 1)
    t["gphase"] = (C.GPhaseGate, (a,), [("gphase", (a,), (0,), ())], 1)
    t["u3"] = (C.u3Gate, (a, b, c), [("u3", (a, b, c), (0,), ())], 1)
    t["u3ph"] = (lambda th, ph, gp: C.U3Gate(th, ph, 0, global_phase=gp), (a, b, c),
                 [("u3", (a, b, 0), (0,), ()), ("gphase", (c,), (0,), ())], 1)
    t["id"] = (C.IDGate, (), [], 1)
    t["swap"] = (C.SwapGate, (), [("swap", (), (0, 1), ())], 2)
    t["cp"] = (C.CPGate, (a,), [("p", (a,), (1,), ((0, 1),))], 2)
    t["cx"] = (C.CXGate, (), [("x", (), (1,), ((0, 1),))], 2)
    t["cy"] = (C.CYGate, (), [("y", (), (1,), ((0, 1),))], 2)
    t["cz"] = (C.CZGate, (), [("z", (), (1,), ((0, 1),))], 2)
    cx = ("x", (), (1,), ((0, 1),))
    t["rzz"] = (C.RZZGate, (a,), [cx, ("rz", (a,), (1,), ()), cx], 2)
    t["rxx"] = (C.RXXGate, (a,), [("h", (), (0,), ()), ("h", (), (1,), ()), cx, ("rz", (a,), (1,), ()), cx,
                                  ("h", (), (0,), ()), ("h", (), (1,), ())], 2)
    t["xxyy"] = (C.XXYYGate, (a, b), None, 2)

    def comp(x, y):
        qc = C.QuantumCircuit(2)
        qc.h(0)
        qc.rz(x, 0)
        qc.cx(0, 1)
        qc.ry(y, 1)
        qc.append(C.YGate().control(1, ctrl_state=0), [qc.qubits[1], qc.qubits[0]])
        qc.t_dg(1)
        return qc.to_gate("comp")
    t["composite"] = (comp, (a, b), [("h", (), (0,), ()), ("rz", (a,), (0,), ()), ("x", (), (1,), ((0, 1),)),
                                     ("ry", (b,), (1,), ()), ("y", (), (0,), ((1, 0),)), ("t_dg", (), (1,), ())], 2)
    return t


def xxyy_cols(m, off, ctrl, a, b):
    """documented XX+YY interaction on qubits off, off+1"""
    from ..matsym import expi, angle, cos_half, sin_half, pmul, scale, ONE, MI, padd
    import sympy
    cs = cos_half(angle(a))
    isn = pmul(MI, sin_half(angle(a)))
    b0, b1 = 1 << off, 2 << off
    cm = sum(1 << q for q, _ in ctrl)
    cv = sum(v << q for q, v in ctrl)
    for j, col in m.cols.items():
        out = {}
        for k, am in col.items():
            x0, x1 = bool(k & b0), bool(k & b1)
            if k & cm != cv or x0 == x1:
                out[k] = padd(out.get(k, {}), am)
                continue
            kk = k ^ b0 ^ b1
            out[k] = padd(out.get(k, {}), pmul(am, cs))
            # basis |q0 q1>: element <01|U|10> carries exp(-+ i beta)
            ph = expi(angle(b), Fraction(-1 if x1 else 1))
            out[kk] = padd(out.get(kk, {}), pmul(am, pmul(isn, ph)))
        m.cols[j] = {k: v for k, v in out.items() if v}


def reference(spec, nc, state, args=None):
    ctor, params, prog, n = spec
    m = Mat(list(range(nc + n)))
    ctrl = tuple((i, int(s)) for i, s in enumerate(state))
    if prog is None:
        xxyy_cols(m, nc, ctrl, *params)
        return m
    for name, ps, qs, inner in prog:
        m.named(name, ps, [nc + q for q in qs], ctrl + tuple((nc + q, v) for q, v in inner))
    return m


def of_op(op):
    m = Mat(list(range(op.num_qubits)))
    m.apply(op, list(range(op.num_qubits)))
    return m


VALS = {"a": 0.7316, "b": 1.9123, "c": -2.3371}


def numeric(cols, n):
    import numpy as np
    U = np.zeros((1 << n, 1 << n), dtype=complex)
    for j, col in cols.items():
        for k, a in col.items():
            U[int(format(k, "0%db" % n)[::-1], 2), int(format(j, "0%db" % n)[::-1], 2)] = evaluate(a, VALS)
    return U


def concrete_unitary(op):
    """matrix of the decomposition at numeric angles by plain numpy (independent of the symbolic engine)"""
    import numpy as np
    from ..sparse import op_matrix
    return op_matrix(op)


def replay_or_raise(make, params, ref, n, what, tag, where):
    """rebuild with numeric angles and confirm the deviation"""
    import numpy as np
    vals = [VALS[p.name] if hasattr(p, "name") else p for p in params]
    op = make(*vals)
    R = numeric(ref.cols, n)
    G = np.array(op.get_unitary(), dtype=complex) if what == "matrix" else concrete_unitary(op)
    d = float(np.max(np.abs(G - R)))
    if d < 1e-4:
        from ..prog import ReplayMismatch
        raise ReplayMismatch("%s: symbolic difference in entry %s not reproduced at numeric angles" % (tag, where))
    raise Violation("%s: %s differs from the reference controlled gate (entry column %s row %s; max deviation %.3g at angles %s)" % (
        tag, "reported matrix" if what == "matrix" else "decomposition", where[0], where[1], d, vals),
        {"angles": vals, "reported_or_synthesised": str(np.round(G, 4).tolist())[:3000], "expected": str(np.round(R, 4).tolist())[:3000]})


def case(g, nc, state, method, mode="plain", check_matrix=True, as_int=False):
    def run():
        spec = base_table()[g]
        ctor, params, prog, n = spec
        st = int(state[::-1], 2) if as_int else state

        def make(*ps):
            base = ctor(*ps)
            if mode == "plain":
                return base.control(nc, ctrl_state=st, method=method)
            if mode == "nested":
                return base.control(nc - 1, ctrl_state=state[1:], method=method).control(1, ctrl_state=state[0], method=method)
            if mode == "inv":        # control of the inverse, inverted: same gate
                return base.inverse().control(nc, ctrl_state=st, method=method).inverse()
            if mode == "circ":       # via circuit to_gate
                from qrisp import QuantumCircuit
                qc = QuantumCircuit(n)
                qc.append(base, qc.qubits)
                return qc.to_gate().control(nc, ctrl_state=st, method=method)
        op = make(*params)
        N = nc + n
        ref = reference(spec, nc, state)
        tag = "%s.control(%d, ctrl_state=%r, method=%r) [%s]" % (g, nc, st, method, mode)
        got = of_op(op)
        w = compare(got.cols, ref.cols)
        if w is not None:
            replay_or_raise(make, params, ref, N, "definition", tag, w)
        if check_matrix:
            w = compare_reported(ref.cols, N, op.get_unitary())
            if w is not None:
                replay_or_raise(make, params, ref, N, "matrix", tag, w)
        return {"gates": got.gates, "entries": 4 ** N}
    return run


def bind_case(g, nc, state, method):
    """parameters bound after construction: numeric angle kept symbolic through a second symbol"""
    def run():
        import sympy
        spec = base_table()[g]
        ctor, params, prog, n = spec
        ren = {p: sympy.Symbol("z" + str(p), real=True) for p in params}
        op0 = ctor(*[ren[p] for p in params]).control(nc, ctrl_state=state, method=method)
        op0.get_unitary()          # a cached matrix must not survive the binding
        make = lambda *ps: op0.bind_parameters({ren[p]: v for p, v in zip(params, ps)})
        op = make(*params)
        ref = reference(spec, nc, state)
        tag = "%s.control(%d, %r, %r).bind_parameters" % (g, nc, state, method)
        w = compare(of_op(op).cols, ref.cols)
        if w is not None:
            replay_or_raise(make, params, ref, nc + n, "definition", tag, w)
        w = compare_reported(ref.cols, nc + n, op.get_unitary())
        if w is not None:
            replay_or_raise(make, params, ref, nc + n, "matrix", tag, w)
        return {"entries": 4 ** (nc + n)}
    return run


def cases(tier):
    T = tier == "thorough"
    names = ["x", "y", "z", "h", "s", "t", "sx", "sx_dg", "s_dg", "t_dg", "p", "rx", "ry", "rz", "u1", "gphase", "u3", "u3ph", "id",
             "swap", "cp", "cx", "cy", "cz", "rzz", "rxx", "xxyy", "composite"]
    two = ("swap", "cp", "cx", "cy", "cz", "rzz", "rxx", "xxyy", "composite")
    slowmat = ("rxx", "xxyy", "rzz", "composite")
    out = []
    for g in names:
        full = (4 if T else 3) - (1 if g in two else 0)
        for nc in range(1, full + 2):
            if nc <= full:
                states = ["".join(s) for s in itertools.product("01", repeat=nc)]
            else:
                states = ["1" * nc, "0" + "1" * (nc - 1), "1" * (nc - 2) + "01"]
            for st in states:
                for me in ("gray", "auto"):
                    out.append(("%s-%s-%s" % (g, st, me), case(g, nc, st, me, check_matrix=(g not in slowmat or nc == 1))))
                if nc <= 2:
                    out.append(("%s-%s-int" % (g, st), case(g, nc, st, "gray", as_int=True, check_matrix=g not in slowmat)))
                    out.append(("%s-%s-inv" % (g, st), case(g, nc, st, "gray", mode="inv", check_matrix=g not in slowmat)))
                    if g != "id":
                        out.append(("%s-%s-circ" % (g, st), case(g, nc, st, "gray", mode="circ", check_matrix=g not in slowmat)))
                if nc in (2, 3):
                    out.append(("%s-%s-nested" % (g, st), case(g, nc, st, "gray", mode="nested", check_matrix=g not in slowmat)))
        if g in ("p", "rx", "ry", "rz", "u3", "cp", "gphase", "u1"):
            for nc, st in ((1, "1"), (1, "0"), (2, "10")):
                out.append(("%s-%s-bind" % (g, st), bind_case(g, nc, st, "gray")))
    return out
