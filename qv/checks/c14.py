"""C14: the built-in simulator returns the true state, probabilities and outcomes."""
import random

import numpy as np

from ..intsym import Run, pick
from ..linstate import Lin, differ
from ..pathsum import Unsupported
from ..prog import Violation

LEVEL = "bounded"
TECH = "execution of the real simulator on symbolic amplitudes and on inputs entangled with a reference register; its output map compared with the matrix product of the gates on a symbolic state by an SMT solver"
FUNCTIONS = ["qrisp.simulator.{run, statevector_sim, advance_quantum_state}", "circuit_preprocessor, group_qc, reorder_circuit, count_measurements_and_treat_alloc, insert_multiverse_measurements, insert_disentangling",
             "QuantumState.{apply_operation, eval, copy, measure, multi_measure, disentangle, add_qubit}", "TensorFactor.{swap, apply_matrix, entangle, measure, multi_measure, unravel, disentangle}",
             "SparseBiArray / DenseBiArray contraction, axis permutation, splitting, measurement; tensordot", "BufferedQuantumState.{append, measure, reset, multi_measure, copy}"]
BOUNDS = ("All input states (symbolic amplitudes) of 1 to 4 qubits for every circuit of the listed and generated family (up to 16 instructions; gates of every kind, measurement, reset, classical control, allocation), wide sparse circuits of 12 to 15 qubits with all states of 2 or 3 input qubits; "
          "every outcome sequence of internal measurements; agreement to 2e-4 (the simulator works in single precision and rounds probabilities).")
OUTSIDE = "circuits outside the family, more than 15 qubits, sampling with a finite number of shots, the numerical thresholds themselves, threads (arrays above the multithreading threshold)"
HOW = ("Each input qubit is entangled with a reference qubit, so one run of the real simulator yields its action on every input state; the solver looks for an input state on which an amplitude (or, with measurements, the probability of an outcome) differs from the "
       "product of the gate matrices.  Preprocessing passes are compared as instruments on a symbolic input state.  The array code is also run on amplitudes that are linear forms of unknowns.  Random choices of measurements are free choices explored by the solver.")
TRUSTED = "z3; gate matrices of qv/linstate.py"
TOL = 2e-4


def snap(a, b):
    """b with entries replaced by those of a where they agree within the tolerance"""
    return np.where(np.abs(a - b) < TOL, a, b)


# ---------------------------------------------------------------- circuits

def build(n, m, prog):
    from qrisp import QuantumCircuit
    import qrisp.circuit as C
    qc = QuantumCircuit(n, m)
    q, c = qc.qubits, qc.clbits
    for name, args in prog:
        if name == "measure":
            qc.measure(q[args[0]], c[args[1]])
        elif name == "reset":
            qc.reset(q[args[0]])
        elif name == "if":
            g, qs, cs, state = args
            qc.append(gate(g).c_if(len(cs), state), [q[i] for i in qs], [c[i] for i in cs])
        elif name == "alloc":
            qc.append(C.QubitAlloc(), [q[args[0]]])
        elif name == "dealloc":
            qc.append(C.QubitDealloc(), [q[args[0]]])
        elif name == "barrier":
            qc.barrier([q[i] for i in args])
        else:
            qc.append(gate(name), [q[i] for i in args])
    return qc


def gate(name):
    import qrisp.circuit as C
    from qrisp import QuantumCircuit
    if name == "blk":
        d = QuantumCircuit(2)
        d.h(d.qubits[1])
        d.cx(d.qubits[1], d.qubits[0])
        d.t(d.qubits[0])
        d.p(0.4, d.qubits[1])
        return d.to_gate("blk")
    if name == "blk3":
        d = QuantumCircuit(3)
        d.cx(d.qubits[2], d.qubits[0])
        d.append(C.XGate().control(2, ctrl_state="01"), d.qubits)
        d.ry(0.9, d.qubits[1])
        return d.to_gate("blk3")
    t = {"x": C.XGate, "y": C.YGate, "z": C.ZGate, "h": C.HGate, "s": C.SGate, "t": C.TGate, "cx": C.CXGate, "cz": C.CZGate, "cy": C.CYGate, "swap": C.SwapGate, "sx": C.SXGate,
         "ry": lambda: C.RYGate(0.7), "rx": lambda: C.RXGate(-1.1), "rz": lambda: C.RZGate(0.5), "p": lambda: C.PGate(1.3), "u": lambda: C.u3Gate(0.4, -0.8, 1.9), "cp": lambda: C.CPGate(0.6), "rzz": lambda: C.RZZGate(0.3),
         "ccx": lambda: C.XGate().control(2), "ocx": lambda: C.XGate().control(2, ctrl_state="10"), "ch": lambda: C.HGate().control(1), "cu": lambda: C.u3Gate(0.4, -0.8, 1.9).control(1, ctrl_state="0"),
         "gp": lambda: C.GPhaseGate(0.77), "xxyy": lambda: C.XXYYGate(0.4, 0.9), "ccz": lambda: C.ZGate().control(2), "cccx": lambda: C.XGate().control(3)}
    return t[name]()


ONE = ["x", "y", "z", "h", "s", "t", "sx", "ry", "rx", "rz", "p", "u", "gp"]
TWO = ["cx", "cz", "cy", "swap", "cp", "rzz", "ch", "cu", "xxyy", "blk"]
THREE = ["ccx", "ocx", "ccz", "blk3"]


def unitary_prog(rng, n, length, one=ONE, two=TWO, three=THREE):
    out = []
    for _ in range(length):
        k = rng.choice([1, 1, 2, 2, 2, 3] if n > 2 else [1, 2] if n > 1 else [1])
        out.append((rng.choice({1: one, 2: two, 3: three}[k]), tuple(rng.sample(range(n), k))))
    return out


def dynamic_prog(rng, n, m, length):
    out, measured = [], set()
    for _ in range(length):
        r = rng.random()
        if r < 0.2:
            c = rng.randrange(m)
            out.append(("measure", (rng.randrange(n), c)))
            measured.add(c)
        elif r < 0.32:
            out.append(("reset", (rng.randrange(n),)))
        elif r < 0.47 and measured:
            k = rng.choice([1, 1, 2])
            cs = rng.sample(range(m), min(k, m))
            g = rng.choice(["x", "z", "cx", "h", "ry"])
            qs = rng.sample(range(n), 2 if g == "cx" else 1)
            out.append(("if", (g, tuple(qs), tuple(cs), "".join(rng.choice("01") for _ in cs))))
        else:
            out += unitary_prog(rng, n, 1, ONE[:-1], TWO, THREE)
    out.append(("measure", (rng.randrange(n), rng.randrange(m))))
    return out


DIRECTED = {
    "reset-then-measure": (1, 1, [("reset", (0,)), ("measure", (0, 0))]),
    "reset-permeable-measure": (2, 1, [("reset", (0,)), ("cz", (0, 1)), ("measure", (0, 0))]),
    "reset-as-control": (2, 1, [("reset", (0,)), ("cx", (0, 1)), ("measure", (1, 0))]),
    "reset-twice": (2, 2, [("reset", (0,)), ("x", (0,)), ("reset", (0,)), ("cx", (0, 1)), ("measure", (1, 0)), ("measure", (0, 1))]),
    "measure-use-reset": (2, 2, [("measure", (0, 0)), ("cx", (0, 1)), ("reset", (0,)), ("measure", (1, 1))]),
    "measure-reset-use": (2, 2, [("measure", (0, 0)), ("reset", (0,)), ("cx", (0, 1)), ("measure", (1, 1))]),
    "measure-reset-measure": (1, 2, [("measure", (0, 0)), ("reset", (0,)), ("measure", (0, 1))]),
    "overwrite": (1, 1, [("measure", (0, 0)), ("x", (0,)), ("measure", (0, 0))]),
    "overwrite-two": (2, 2, [("measure", (0, 0)), ("measure", (1, 0)), ("h", (0,)), ("measure", (0, 1))]),
    "measure-twice": (1, 2, [("measure", (0, 0)), ("measure", (0, 1))]),
    "measure-h-measure": (1, 2, [("measure", (0, 0)), ("h", (0,)), ("measure", (0, 1))]),
    "order-of-bits": (3, 3, [("measure", (0, 2)), ("measure", (1, 0)), ("measure", (2, 1))]),
    "gap": (3, 3, [("measure", (2, 0)), ("measure", (0, 2))]),
    "if-one": (2, 2, [("measure", (0, 0)), ("if", ("x", (1,), (0,), "1")), ("measure", (1, 1))]),
    "if-zero": (2, 2, [("measure", (0, 0)), ("if", ("x", (1,), (0,), "0")), ("measure", (1, 1))]),
    "if-unwritten": (2, 2, [("if", ("x", (1,), (1,), "0")), ("if", ("x", (0,), (1,), "1")), ("measure", (1, 0)), ("measure", (0, 1))]),
    "if-two": (3, 3, [("measure", (0, 0)), ("measure", (1, 1)), ("if", ("x", (2,), (0, 1), "01")), ("measure", (2, 2))]),
    "if-rewritten": (2, 2, [("measure", (0, 0)), ("x", (0,)), ("measure", (0, 0)), ("if", ("x", (1,), (0,), "1")), ("measure", (1, 1))]),
    "if-before-rewrite": (2, 2, [("measure", (0, 0)), ("if", ("x", (1,), (0,), "1")), ("h", (0,)), ("measure", (0, 0)), ("measure", (1, 1))]),
    "if-superposed": (2, 2, [("h", (0,)), ("measure", (0, 0)), ("h", (0,)), ("if", ("z", (0,), (0,), "1")), ("h", (0,)), ("measure", (0, 1))]),
    "teleport": (3, 3, [("h", (1,)), ("cx", (1, 2)), ("cx", (0, 1)), ("h", (0,)), ("measure", (0, 0)), ("measure", (1, 1)), ("if", ("x", (2,), (1,), "1")), ("if", ("z", (2,), (0,), "1")), ("measure", (2, 2))]),
    "barrier": (2, 1, [("h", (0,)), ("barrier", (0, 1)), ("cx", (0, 1)), ("barrier", (1,)), ("measure", (1, 0))]),
    "gates-after": (2, 1, [("measure", (0, 0)), ("x", (0,)), ("cx", (0, 1))]),
    "dealloc": (3, 2, [("cx", (0, 2)), ("cx", (0, 2)), ("dealloc", (2,)), ("measure", (0, 0)), ("measure", (1, 1))]),
}


def text(prog):
    return "; ".join("%s%s" % (a, b) for a, b in prog)


# ---------------------------------------------------------------- comparisons

def povm(lin, bits):
    out = {}
    for k, ms in lin.records(bits).items():
        out[k] = sum(m.conj().T @ m for m in ms)
    return out


def compare_povm(what, prog, A, B):
    d = next(iter(A.values())).shape[0]
    zero = np.zeros((d, d), complex)
    a, b = {}, {}
    for k in set(A) | set(B):
        x, y = A.get(k, zero), B.get(k, zero)
        a[k], b[k] = [x.reshape(1, -1)], [snap(x, y).reshape(1, -1)]
    r = differ(a, b)
    if r is not None:
        raise Violation("%s of %s: probabilities: %s" % (what, text(prog), r), {"case": what, "circuit": text(prog)})
    return len(a)


def passes_case(n, m, prog, which):
    """a preprocessing pass keeps the joint distribution of all classical bits for every input state"""
    def run():
        import qrisp.simulator.circuit_preprocessing as P
        from qrisp.circuit import fast_append
        qc = build(n, m, prog)
        ref = Lin(qc.qubits, qc.clbits).run(qc)
        bits = [c for c in qc.clbits if any(i.op.name == "measure" and i.clbits[0] == c for i in qc.data)]
        with fast_append(2):
            new = qc.copy().transpile()
            P.count_measurements_and_treat_alloc(new)
            if which == "disentangling":
                new = P.insert_disentangling(new)
            new = P.circuit_preprocessor(new)
            mes = []
            if which == "multiverse":
                new, mes = P.insert_multiverse_measurements(new)
        extra = [q for q in new.qubits if q not in qc.qubits]
        cols = [k for k in range(1 << n)]
        lin = Lin(list(qc.qubits) + extra, list(qc.clbits), cols)
        lin.run(new)
        for i in mes:
            lin.apply(i.op, i.qubits, i.clbits)
        k = compare_povm(which, prog, povm(ref, bits), povm(lin, bits))
        return {"records": k, "gates": ref.gates + lin.gates}
    return run


def run_case(n, m, prog, inputs=None, bases="zxy"):
    """QuantumCircuit.run on inputs entangled with a reference register, read out in the computational basis and in rotated bases"""
    def run():
        total = 0
        inp = list(range(n)) if inputs is None else inputs
        w = len(inp)
        for basis in bases:
            qc = build(n, m, prog)
            bits = [c for c in qc.clbits if any(i.op.name == "measure" and i.clbits[0] == c for i in qc.data)]
            ref = [qc.add_qubit() for _ in inp]
            cref = [qc.add_clbit() for _ in inp]
            full = qc.clearcopy()
            for a, i in zip(ref, inp):
                full.h(a)
                full.cx(a, full.qubits[i])
            full.data += list(qc.data)
            for a, c in zip(ref, cref):
                if basis == "x":
                    full.h(a)
                elif basis == "y":
                    full.s_dg(a)
                    full.h(a)
                full.measure(a, c)
            lin = Lin(full.qubits, full.clbits, [0]).run(full)
            want = {}
            for k, ms in lin.records(bits + cref).items():
                want[k] = sum(np.vdot(x, x).real for x in ms)
            got = full.run(shots=None)
            order = sorted(bits + cref, key=lambda c: -full.clbits.index(c))
            have = {}
            for s, p in got.items():
                if len(s) != len(order):
                    raise Violation("run of %s: outcome %r has %d bits, %d classical bits are written" % (text(prog), s, len(s), len(order)), {"circuit": text(prog)})
                v = dict(zip(order, s))
                k = tuple(int(v[c]) for c in bits + cref)
                have[k] = have.get(k, 0) + p
            # for every outcome: rows = probabilities over the reference outcomes, as a linear form of the reference effects
            A, B = {}, {}
            for k in {k[:len(bits)] for k in set(want) | set(have)}:
                rows = [np.array([d.get(k + tuple(j >> i & 1 for i in range(w)), 0) for j in range(1 << w)]) for d in (want, have)]
                A[k], B[k] = [rows[0].reshape(1, -1).astype(complex)], [snap(rows[0], rows[1]).reshape(1, -1).astype(complex)]
            r = differ(A, B)
            if r is not None:
                raise Violation("run of %s, inputs read in basis %s: %s" % (text(prog), basis, r), {"circuit": text(prog)})
            total += len(want)
        return {"outcomes": total}
    return run


def statevector_case(n, prog, inputs, copyit=False):
    """statevector on inputs (list of qubits) entangled with reference qubits"""
    def run():
        qc = build(n, 0, prog)
        ref = [qc.add_qubit() for _ in inputs]
        full = qc.clearcopy()
        for a, i in zip(ref, inputs):
            full.h(a)
            full.cx(a, full.qubits[i])
        full.data += list(qc.data)
        got = np.asarray(full.statevector_array()).reshape(-1)
        N = n + len(inputs)
        if got.shape[0] != 1 << N:
            raise Violation("statevector of %s has %d entries for %d qubits" % (text(prog), got.shape[0], N))
        cols = [sum((k >> j & 1) << i for j, i in enumerate(inputs)) for k in range(1 << len(inputs))]
        lin = Lin(qc.qubits[:n], (), cols).run(qc)
        want = lin.br[0].m / 2 ** (len(inputs) / 2)
        # entry index: first qubit most significant
        g = got.reshape([2] * N).transpose(list(range(n))[::-1] + list(range(n, N))[::-1]).reshape(1 << n, 1 << len(inputs))
        r = differ({(): [want]}, {(): [snap(want, g)]})
        if r is not None:
            raise Violation("statevector of %s: %s" % (text(prog), r), {"circuit": text(prog)})
        return {"gates": lin.gates, "amplitudes": int(got.size)}
    return run


class Form:
    """linear form of unknown amplitudes; entries of numpy object arrays"""
    __array_priority__ = 1000

    def __init__(self, v):
        self.v = v

    def __mul__(self, k):
        if isinstance(k, Form):
            raise Unsupported("product of symbolic amplitudes")
        return Form(self.v * complex(k))

    __rmul__ = __mul__

    def __add__(self, o):
        if isinstance(o, Form):
            return Form(self.v + o.v)
        if complex(o) == 0:
            return self
        raise Unsupported("sum of an amplitude and a number")

    __radd__ = __add__

    def __bool__(self):
        return True


def object_case(n, prog, order, split=None):
    """the array classes on symbolic amplitudes: one factor of all qubits in the given internal order"""
    def run():
        from qrisp.simulator.quantum_state import QuantumState
        from qrisp.simulator.tensor_factor import TensorFactor
        from qrisp.simulator.bi_arrays import DenseBiArray
        k = len(order)
        dim = 1 << k
        data = np.empty(dim, dtype=object)
        for i in range(dim):
            e = np.zeros(dim, complex)
            e[i] = 1
            data[i] = Form(e)
        qs = QuantumState(n)
        tf = TensorFactor(list(order), DenseBiArray(data))
        for q in order:
            qs.tensor_factors[q] = tf
        qc = build(n, 0, prog)
        for ins in qc.data:
            qs.apply_operation(ins.op, [qc.qubits.index(b) for b in ins.qubits])
        if split:
            qs = qs.copy()
        out = qs.eval().tensor_array.to_array().reshape(-1)
        got = np.zeros((1 << n, dim), complex)
        for i, f in enumerate(out):
            bits = [i >> (n - 1 - j) & 1 for j in range(n)]
            row = sum(b << j for j, b in enumerate(bits))
            if isinstance(f, Form):
                got[row] = f.v
            elif complex(f) != 0:
                raise Violation("amplitude %d of %s is the number %s" % (i, text(prog), f))
        cols = [sum((x >> (k - 1 - j) & 1) << q for j, q in enumerate(order)) for x in range(dim)]
        lin = Lin(qc.qubits, (), cols).run(qc)
        want = lin.br[0].m
        r = differ({(): [want]}, {(): [snap(want, got)]})
        if r is not None:
            raise Violation("state after %s with internal qubit order %s: %s" % (text(prog), order, r), {"circuit": text(prog), "order": list(order)})
        return {"amplitudes": dim, "gates": lin.gates}
    return run


class Rnd:
    """random number of a measurement: every comparison is a free choice"""

    def __init__(self):
        self.k = None

    def __lt__(self, p):
        p = float(np.asarray(p).reshape(-1)[0])
        box = Rnd.log
        v = pick("outcome%d" % len(box), 2) == 0
        box.append(p if v else 1 - p)
        return v


def single_case(n, prog, inputs):
    """BufferedQuantumState: gate by gate with measurement, reset and classical control, all outcomes"""
    def run():
        import qrisp.simulator.quantum_state as QS
        from qrisp.jasp.evaluation_tools.buffered_quantum_state import BufferedQuantumState
        qc0 = build(n, 8, prog)

        class Fake:
            class random:
                @staticmethod
                def random(*a):
                    return Rnd()

            def __getattr__(self, k):
                return getattr(np, k)
        stats = {"paths": 0}
        lin = Lin(qc0.qubits, qc0.clbits, [sum((k >> j & 1) << i for j, i in enumerate(inputs)) for k in range(1 << len(inputs))]).run(qc0)
        norm = 2 ** (len(inputs) / 2)
        total = {}

        def body():
            Rnd.log = []
            b = BufferedQuantumState()
            q = [b.add_qubit() for _ in range(n)]
            r = [b.add_qubit() for _ in inputs]
            for a, i in zip(r, inputs):
                b.append(gate("h"), [a])
                b.append(gate("cx"), [a, q[i]])
            cl = [0] * 8
            pos = {x: i for i, x in enumerate(qc0.qubits)}
            for ins in qc0.data:
                qs = [q[pos[x]] for x in ins.qubits]
                cs = [qc0.clbits.index(c) for c in ins.clbits]
                if ins.op.name == "measure":
                    cl[cs[0]] = int(bool(b.measure(qs)))
                elif ins.op.name == "reset":
                    b.reset(qs)
                elif ins.op.name.startswith("c_if"):
                    if all(cl[c] == int(v) for c, v in zip(cs, ins.op.ctrl_state)):
                        b.append(ins.op.base_op, qs)
                else:
                    b.append(ins.op, qs)
                if len(b.buffer_qc.data) == 3:
                    b = b.copy()
            b.apply_buffer()
            st = np.asarray(b.quantum_state.eval().tensor_array.to_array()).reshape(-1)
            p = float(np.prod(Rnd.log)) if Rnd.log else 1.0
            return tuple(cl), p, st
        old = QS.np
        QS.np = Fake()
        try:
            run_ = Run()
            N = n + len(inputs)
            for cond, (cl, p, st) in run_.explore(body):
                stats["paths"] += 1
                g = st.reshape([2] * N).transpose(list(range(n))[::-1] + list(range(n, N))[::-1]).reshape(1 << n, 1 << len(inputs))
                total.setdefault(cl, []).append(g * np.sqrt(p))
        finally:
            QS.np = old
        A = {}
        for k, ms in lin.records(qc0.clbits).items():
            A[k] = [m / norm for m in ms]
        # as completely positive maps (several histories may share a record)
        d1, d2 = 1 << n, 1 << len(inputs)
        for k in set(A) | set(total):
            sup = [sum((np.kron(x, x.conj()) for x in D.get(k, [])), np.zeros((d1 * d1, d2 * d2), complex)) for D in (A, total)]
            r = differ({k: [sup[0]]}, {k: [snap(sup[0], sup[1])]})
            if r is not None:
                raise Violation("step by step simulation of %s, record %s: %s" % (text(prog), k, r), {"circuit": text(prog)})
        return stats
    return run


def wide(rng, n, inputs, length):
    """sparse circuit on many qubits: copies and permutations of few superposed inputs"""
    out = []
    for _ in range(length):
        k = rng.choice([1, 2, 2, 2, 3])
        if k == 1:
            out.append((rng.choice(["x", "z", "s", "t", "p", "rz"]), (rng.randrange(n),)))
        elif k == 2:
            out.append((rng.choice(["cx", "swap", "cz", "cx"]), tuple(rng.sample(range(n), 2))))
        else:
            out.append((rng.choice(["ccx", "ocx"]), tuple(rng.sample(range(n), 3))))
    for q in inputs[:2]:
        out.insert(rng.randrange(len(out)), ("h", (q,)))
    return out


def cases(tier):
    out = []
    quick = tier == "quick"
    for name, (n, m, prog) in DIRECTED.items():
        for which in ("preprocess", "multiverse", "disentangling"):
            out.append(("%s/%s" % (which, name), passes_case(n, m, prog, which)))
        out.append(("run/%s" % name, run_case(n, m, prog)))
        if not any(p[0] in ("dealloc", "barrier") for p in prog):
            out.append(("single/%s" % name, single_case(n, prog, list(range(n)))))
    rng = random.Random(11)
    for i in range(24 if quick else 100):
        n, m = rng.choice([(2, 2), (3, 2), (3, 3)])
        prog = dynamic_prog(rng, n, m, rng.randrange(4, 11))
        for which in ("preprocess", "multiverse", "disentangling"):
            out.append(("%s/gen%d" % (which, i), passes_case(n, m, prog, which)))
        out.append(("run/gen%d" % i, run_case(n, m, prog)))
        if i < (12 if quick else 60):
            out.append(("single/gen%d" % i, single_case(n, prog, list(range(min(n, 2))))))
    for g in ONE:
        out.append(("state/%s" % g, statevector_case(1, [(g, (0,))], [0])))
    for g in TWO:
        for qs in ((0, 1), (1, 0), (2, 0)):
            out.append(("state/%s-%s" % (g, qs), statevector_case(3, [(g, qs)], [0, 1, 2])))
    for g in THREE:
        for qs in ((0, 1, 2), (2, 0, 1), (1, 0, 2), (3, 1, 0)):
            out.append(("state/%s-%s" % (g, qs), statevector_case(4, [(g, qs)], [0, 1, 2, 3])))
    for i in range(16 if quick else 80):
        n = rng.choice([3, 4, 4])
        prog = unitary_prog(rng, n, rng.randrange(6, 17))
        out.append(("state/gen%d" % i, statevector_case(n, prog, list(range(n)))))
        order = rng.sample(range(n), rng.choice([n, n, n - 1]))
        out.append(("object/gen%d" % i, object_case(n, prog, order, split=bool(i % 2))))
    for i in range(6 if quick else 30):
        n = rng.choice([10, 11, 12])
        inputs = rng.sample(range(n), 3 if i % 2 else 2)
        out.append(("wide/gen%d" % i, statevector_case(n, wide(rng, n, inputs, rng.randrange(14, 26)), inputs)))
        prog = wide(rng, n, inputs, rng.randrange(12, 20))
        prog += [("measure", (q, k)) for k, q in enumerate(rng.sample(range(n), 4))]
        prog.insert(rng.randrange(6, 12), ("measure", (inputs[0], 4)))
        prog.insert(rng.randrange(6, 12), ("reset", (rng.randrange(n),)))
        out.append(("wide-run/gen%d" % i, run_case(n, 5, prog, inputs, "zx")))
    return out
