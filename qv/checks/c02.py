"""C02: inverses."""
import itertools

from ..prog import Violation, ReplayMismatch, z3, sym_input, inbit, invec, Spec, verify_circuit
from ..matsym import Mat, compare, compare_reported, conj
from .c01 import base_table, reference, of_op, numeric, VALS, concrete_unitary

LEVEL = "translation_validation"
TECH = "symbolic execution of operations followed by their inverse, with symbolic angles or symbolic basis states, decided by an SMT solver"
FUNCTIONS = ["qrisp.circuit.operation.{Operation.inverse, U3Gate.inverse, PauliGate.inverse, PTControlledOperation.inverse, ControlledOperation.inverse}",
             "qrisp.circuit.quantum_circuit.QuantumCircuit.inverse", "custom inverse methods (GraySynthGate, QuasiRZZ, swap, logic synthesis gates)"]
BOUNDS = ("quick: 28 gates with symbolic angles, 0..2 controls with every control state (3 controls: three states), methods gray, auto, gray_pt, gray_pt_inv; "
          "13 generated circuits of up to 12 qubits on symbolic basis states.  thorough: 0..3 controls, larger circuits.")
OUTSIDE = "more controls; measurement based gates, which are not unitary"
HOW = ("op followed by op.inverse() is executed symbolically; z3 decides that every matrix entry equals the identity for all angles, and that the matrix "
       "reported by the inverse is the adjoint of the reference. Generated circuits: every basis state is mapped to itself with phase exactly 1.")


def adjoint(cols):
    out = {}
    for j, col in cols.items():
        for k, a in col.items():
            out.setdefault(k, {})[j] = conj(a)
    return out


def ident(n):
    return Mat(list(range(n))).cols


def case(g, nc, state, method, twice=False, matrix=True):
    def run():
        import numpy as np
        spec = base_table()[g]
        ctor, params, prog, n = spec
        N = nc + n

        def make(*ps):
            op = ctor(*ps)
            return op.control(nc, ctrl_state=state, method=method) if nc else op
        op = make(*params)
        inv = op.inverse()
        tag = "%s controls=%r method=%s" % (g, state, method)
        seqs = [("inverse after", (op, inv)), ("inverse before", (inv, op))]
        if twice:
            seqs.append(("inverse of inverse", (inv.inverse(), inv)))
        for what, seq in seqs:
            m = Mat(list(range(N)))
            for o in seq:
                m.apply(o, list(range(N)))
            w = compare(m.cols, ident(N))
            if w is not None:
                vals = [VALS[p.name] for p in params]
                o = make(*vals)
                ops = {"inverse after": (o, o.inverse()), "inverse before": (o.inverse(), o), "inverse of inverse": (o.inverse().inverse(), o.inverse())}[what]
                U = concrete_unitary(ops[1]) @ concrete_unitary(ops[0])
                d = float(np.max(np.abs(U - np.eye(1 << N))))
                if d < 1e-6:
                    raise ReplayMismatch(tag)
                raise Violation("%s: %s does not give the identity (column %s row %s, deviation %.3g at angles %s)" % (tag, what, w[0], w[1], d, vals),
                                {"angles": vals, "product": str(np.round(U, 4).tolist())[:3000]})
        if matrix and "pt" not in method:
            ref = adjoint(reference(spec, nc, state).cols)
            w = compare_reported(ref, N, inv.get_unitary())
            if w is not None:
                vals = [VALS[p.name] for p in params]
                o = make(*vals).inverse()
                U = np.array(o.get_unitary(), dtype=complex)
                R = numeric(ref, N)
                d = float(np.max(np.abs(U - R)))
                if d < 1e-4:
                    raise ReplayMismatch(tag)
                raise Violation("%s: matrix reported by the inverse is not the adjoint (deviation %.3g)" % (tag, d), {"angles": vals})
            # parameters of the inverse gate must describe it as well
        return {"entries": 4 ** N}
    return run


def circ_case(name, build):
    """build() -> (circuit, clean qubits); checks circuit followed by inverse on all basis states"""
    def run():
        qc = build()
        # registers carry arbitrary states, so their allocation markers are left out
        qc.data = [ins for ins in qc.data if ins.op.name != "qb_alloc"]
        both = qc.copy()
        inv = qc.inverse()
        for ins in inv.data:
            both.append(ins.op, ins.qubits, ins.clbits)
        sp = Spec()
        sp.phase = "exact"
        init = {}
        for i, q in enumerate(both.qubits):
            init[q] = "q[%d]" % i
            sp.expect[q] = inbit("q[%d]" % i)
            sp.label[q] = "q[%d]" % i
        return verify_circuit(both, sp, init=init, tag="circuit %s followed by its inverse" % name)
    return run


def env_case(name, body, n):
    """forward body then the same body below `with invert()` on a session"""
    def run():
        from qrisp import QuantumFloat, invert
        q = QuantumFloat(n, name="q")
        sym_input(q.reg, "q")
        body(q)
        with invert():
            body(q)
        sp = Spec()
        sp.phase = "exact"
        sp.reg(q.reg, invec("q", n), "q")
        return verify_circuit(q.qs.compile(), sp, tag="%s then inverted" % name)
    return run


def circuits(T):
    import numpy as np

    def mcx(n, method):
        def b():
            from qrisp.circuit import XGate, QuantumCircuit
            qc = QuantumCircuit(n + 1)
            qc.append(XGate().control(n, method=method, ctrl_state="1" * (n - 1) + "0"), qc.qubits)
            return qc
        return b

    def tt(rows, method):
        def b():
            from qrisp import TruthTable, QuantumVariable
            t = TruthTable(rows)
            n = int(np.log2(len(rows[0])))
            a = QuantumVariable(n)
            c = QuantumVariable(len(rows), qs=a.qs)
            t.q_synth(a, c, method=method)
            return a.qs.copy()
        return b

    def graysynth():
        from qrisp.alg_primitives.logic_synthesis.gray_synthesis import GraySynthGate
        from qrisp import QuantumCircuit
        qc = QuantumCircuit(3)
        qc.append(GraySynthGate([np.pi * k / 16 for k in (0, 3, 5, 2, 7, 11, 1, 13)]), qc.qubits)
        return qc

    def prog(f, n):
        def b():
            from qrisp import QuantumFloat
            q = QuantumFloat(n, name="q")
            f(q)
            return q.qs.copy()
        return b

    out = [("mcx-%d-%s" % (n, m), mcx(n, m)) for n in ((3, 4, 5) if not T else (3, 4, 5, 6, 7)) for m in ("gray", "auto", "gray_pt")]
    out += [("tt-gray", tt(["01101001", "11100010"], "gray")), ("tt-best", tt(["01101001"], "best")),
            ("tt-gray_pt", tt(["0111011111010010"], "gray_pt")), ("tt-pprm", tt(["0110100111100010"], "pprm")), ("graysynth", graysynth)]

    def f1(q):
        from qrisp import QFT, h, cp, rz, t, swap, cx
        QFT(q, exec_swap=True)

    def f2(q):
        from qrisp import h, cp, rz, ry, t, swap, cx, x, y, sx, s, rzz, crz
        import numpy as np
        h(q[0])
        t(q[0])
        swap(q[0], q[1])
        cp(np.pi / 8, q[1], q[2])
        rzz(np.pi / 4, q[0], q[2])
        rz(np.pi / 4, q[1])
        crz(np.pi / 4, q[0], q[1])
        y(q[1])
        s(q[2])
    out += [("qft-3", prog(f1, 3)), ("mixed", prog(f2, 3))]
    return out


def bodies(T):
    def cadd(k):
        def f(q):
            q += k
        return f

    def inpl(q):
        from qrisp import gidney_adder
        gidney_adder(q[:2], q[2:])

    def fadd(q):
        from qrisp import fourier_adder
        fourier_adder(5, q)

    def cmult(q):
        from qrisp import mcx, cx, swap, z, s, t
        mcx([q[0], q[1]], q[2])
        s(q[1])
        t(q[2])
        swap(q[0], q[3])
        mcx([q[2], q[3]], q[0], ctrl_state="01")

    def conj_env(q):
        from qrisp import conjugate, cx, h, x, mcx, control

        def v(q):
            cx(q[0], q[1])
            mcx([q[1], q[0]], q[2])
        with conjugate(v)(q):
            with control(q[2]):
                x(q[3])
    return [("iadd-3", cadd(3), 4), ("iadd-1", cadd(1), 3), ("gidney", inpl, 4), ("fourier", fadd, 3), ("gates", cmult, 4),
            ("conjugate", conj_env, 4)]


def cases(tier):
    T = tier == "thorough"
    names = ["x", "y", "z", "h", "s", "t", "sx", "sx_dg", "s_dg", "t_dg", "p", "rx", "ry", "rz", "u1", "gphase", "u3", "u3ph", "id",
             "swap", "cp", "cx", "cy", "cz", "rzz", "rxx", "xxyy", "composite"]
    two = ("swap", "cp", "cx", "cy", "cz", "rzz", "rxx", "xxyy", "composite")
    slowmat = ("rxx", "xxyy", "rzz", "composite")
    out = []
    for g in names:
        out.append(("%s" % g, case(g, 0, "", "gray", twice=True)))
        top = (3 if T else 2) - (1 if g in two and not T else 0)
        for nc in range(1, top + 2):
            states = ["".join(s) for s in itertools.product("01", repeat=nc)] if nc <= top else ["1" * nc, "0" + "1" * (nc - 1), "1" * (nc - 1) + "0"]
            for st in states:
                for me in ("gray", "auto", "gray_pt", "gray_pt_inv"):
                    if me.startswith("gray_pt") and (nc < 2 or g in ("swap",)):
                        continue
                    out.append(("%s-%s-%s" % (g, st, me), case(g, nc, st, me, twice=nc < 3, matrix=g not in slowmat)))
    for n, b in circuits(T):
        out.append(("circuit-" + n, circ_case(n, b)))
    for n, b, k in bodies(T):
        out.append(("invert-" + n, env_case(n, b, k)))
    return out
