"""C09: quantum environments."""
import itertools
import math

from ..prog import sym_input, inbit, Spec, verify_circuit, Violation
from ..equiv import RawCircuit, RawInstr, RawOp, strip, SELF, PAIR, NEG

LEVEL = "translation_validation"
TECH = "symbolic execution of the circuits the environments compile to, followed by the inverse of a reference built from the program text, decided by an SMT solver over all inputs"
FUNCTIONS = ["qrisp.environments.{ControlEnvironment, InversionEnvironment, ConjugationEnvironment, ConditionEnvironment, GateWrapEnvironment, IterationEnvironment, "
             "custom_control, QuantumEnvironment}", "qrisp.core.quantum_session.QuantumSession.compile"]
BOUNDS = ("quick: every nesting of up to two and a fixed third of the nestings of three environments out of 16 kinds around 6 bodies (gates with symbolic angles, arithmetic, "
          "allocation inside the body, custom control), compiled and uncompiled.  thorough: every nesting of three, all bodies.")
OUTSIDE = "deeper nesting; bodies that change the operands of an enclosing condition; GMS environment"
HOW = ("a program is generated from a syntax tree; the same tree gives a reference list of gates with explicit control patterns, written in the harness.  The session's circuit followed by the "
       "inverse of the reference is executed on symbolic inputs; z3 decides that every basis state returns with phase 1 and no other qubit is left dirty.")

PI = math.pi


# ------------------------------------------------------------------ reference
class Ref:
    """gates as (name, params, targets, controls)"""

    def __init__(self, env, v):
        self.env = env      # logical qubit -> Qubit
        self.v = v

    def block(self, stmts):
        out = []
        for s in stmts:
            out += self.stmt(s)
        return out

    def stmt(self, s):
        k = s[0]
        if k == "g":
            _, name, ang, qs = s
            if name == "cp":
                return [("p", [ang], [qs[1]], ((qs[0], 1),))]
            if name in ("cx", "cz", "cy"):
                return [(name[1:], [], [qs[1]], ((qs[0], 1),))]
            if name == "mcx":
                return [("x", [], [qs[-1]], tuple((q, 1) for q in qs[:-1]))]
            return [(name, [] if ang is None else [ang], list(qs), ())]
        if k == "add":
            _, c, reg = s
            out = []
            n = len(reg)
            for i in range(n):
                if c >> i & 1:
                    for j in range(n - 1, i - 1, -1):
                        out.append(("x", [], [reg[j]], tuple((reg[t], 1) for t in range(i, j))))
            return out
        if k == "temp":          # t = q0 xor q1; cz(t, q2); uncompute
            a, b, c = s[1]
            return [("z", [], [c], ((a, 1),)), ("z", [], [c], ((b, 1),))]
        if k == "cc":            # custom controlled function
            a, b, c = s[1]
            return [("x", [], [b], ((a, 1),)), ("p", [s[2]], [c], ((b, 1),)), ("y", [], [a], ())]
        if k == "env":
            _, kind, lv, body = s
            inner = self.block(body)
            return self.wrap(kind, lv, inner)
        raise ValueError(k)

    def wrap(self, kind, lv, inner):
        c = ["c%d" % (2 * lv), "c%d" % (2 * lv + 1)]
        ctl = {"C1": ((c[0], 1),), "C0": ((c[1], 0),), "C2": ((c[0], 0), (c[1], 1)), "CI": ((c[0], 0),), "CI0": ((c[0], 1),), "CB": (("b%d" % lv, 1),),
               "EQ": (("k%d0" % lv, 0), ("k%d1" % lv, 1)), "QB": (("b%d" % lv, 1),), "CM": ((c[0], 1), (c[1], 1)), "CN": ((c[1], 1), (c[0], 0))}.get(kind)
        if ctl is not None:
            return [ctrl(g, ctl) for g in inner]
        if kind in ("GW", "QE"):
            return inner
        if kind == "NEQ":        # identity on pattern 2, so body minus controlled inverse body: split over the bits
            return [ctrl(g, (("k%d1" % lv, 0),)) for g in inner] + [ctrl(g, (("k%d0" % lv, 1), ("k%d1" % lv, 1))) for g in inner]
        if kind in ("IT", "ITP"):
            return inner + inner
        if kind == "INV":
            return dag(inner)
        if kind == "CONJ":
            v = [Conj(g) for g in self.block(self.v)]
            return v + inner + dag(v)
        raise ValueError(kind)


class Conj(tuple):
    """gate of a conjugation; V and its inverse surround every body, so controlling the body suffices"""


def ctrl(g, ctl):
    if isinstance(g, Conj):
        return g
    n, p, t, x = g
    return (n, p, t, tuple(x) + ctl)


VBODY = [("g", "h", None, ("q0",)), ("g", "cx", None, ("q0", "q2")), ("g", "s", None, ("q1",)), ("g", "cx", None, ("q1", "q0"))]

VPERM = [("g", "x", None, ("q2",)), ("g", "cx", None, ("q0", "q2")), ("g", "t", None, ("q1",)), ("g", "cx", None, ("q1", "q0")), ("g", "cz", None, ("q2", "q0"))]


def dag(lst):
    out = []
    for g in reversed(lst):
        n, p, t, x = g
        if n in SELF:
            r = (n, p, t, x)
        elif n in PAIR:
            r = (PAIR[n], p, t, x)
        else:
            assert n in NEG, n
            r = (n, [-p[0]], t, x)
        out.append(Conj(r) if isinstance(g, Conj) else r)
    return out


# ------------------------------------------------------------------ program
class Prog:
    def __init__(self, levels, kinds, v=True):
        from qrisp import QuantumFloat, QuantumVariable, QuantumBool
        self.q = QuantumFloat(3, name="q")
        # path variables of the Hadamard gate survive in some combinations, there V is a permutation with phases
        self.v = VBODY if v else VPERM
        self.ctl = QuantumVariable(2 * levels, name="c")
        self.env = {"q%d" % i: self.q[i] for i in range(3)}
        self.env.update({"c%d" % i: self.ctl[i] for i in range(2 * levels)})
        sym_input(self.q.reg, "q")
        sym_input(self.ctl.reg, "c")
        self.b, self.k = {}, {}
        for lv, kd in enumerate(kinds):
            if kd in ("CB", "QB"):
                self.b[lv] = QuantumBool(name="b%d" % lv)
                sym_input(self.b[lv].reg, "b%d" % lv)
                self.env["b%d" % lv] = self.b[lv][0]
            if kd in ("EQ", "NEQ"):
                self.k[lv] = QuantumFloat(2, name="k%d" % lv)
                sym_input(self.k[lv].reg, "k%d" % lv)
                for i in range(2):
                    self.env["k%d%d" % (lv, i)] = self.k[lv][i]

    def block(self, stmts):
        for s in stmts:
            self.stmt(s)

    def stmt(self, s):
        import qrisp
        E = self.env
        k = s[0]
        if k == "g":
            _, name, ang, qs = s
            a = [E[q] for q in qs]
            if name == "cp":
                qrisp.cp(ang, a[0], a[1])
            elif name == "mcx":
                qrisp.mcx(a[:-1], a[-1])
            elif ang is not None:
                getattr(qrisp, name)(ang, *a)
            else:
                getattr(qrisp, name)(*a)
        elif k == "add":
            self.q += s[1]
        elif k == "temp":
            a, b, c = [E[x] for x in s[1]]
            t = qrisp.QuantumBool(name="t*")
            qrisp.cx(a, t[0])
            qrisp.cx(b, t[0])
            qrisp.cz(t[0], c)
            t.uncompute()
        elif k == "cc":
            custom()(self.q, s[2])
        elif k == "env":
            self.enter(*s[1:])
        else:
            raise ValueError(k)

    def enter(self, kind, lv, body):
        from qrisp import control, invert, conjugate, GateWrapEnvironment, IterationEnvironment, QuantumEnvironment
        c0, c1 = self.ctl[2 * lv], self.ctl[2 * lv + 1]
        if kind == "C1":
            with control(c0):
                self.block(body)
        elif kind == "C0":
            with control(c1, ctrl_state="0"):
                self.block(body)
        elif kind == "C2":
            with control([c0, c1], ctrl_state="01"):
                self.block(body)
        elif kind == "CM":
            with control([c0, c1]):
                self.block(body)
        elif kind == "CN":
            with control([c1, c0], ctrl_state=1):
                self.block(body)
        elif kind == "CI":
            with control(c0, invert=True):
                self.block(body)
        elif kind == "CI0":
            with control(c0, ctrl_state="0", invert=True):
                self.block(body)
        elif kind == "CB":
            with control(self.b[lv]):
                self.block(body)
        elif kind == "QB":
            with self.b[lv]:
                self.block(body)
        elif kind == "EQ":
            with self.k[lv] == 2:
                self.block(body)
        elif kind == "NEQ":
            with self.k[lv] != 2:
                self.block(body)
        elif kind == "INV":
            with invert():
                self.block(body)
        elif kind == "CONJ":
            def V(q):
                self.block(self.v)
            with conjugate(V)(self.q):
                self.block(body)
        elif kind == "GW":
            with GateWrapEnvironment("gw%d" % lv):
                self.block(body)
        elif kind == "QE":
            with QuantumEnvironment():
                self.block(body)
        elif kind == "IT":
            with IterationEnvironment(self.q.qs, 2):
                self.block(body)
        elif kind == "ITP":
            with IterationEnvironment(self.q.qs, 2, precompile=True):
                self.block(body)
        else:
            raise ValueError(kind)


def custom():
    from qrisp import custom_control, cx, mcx, cp, y, cy, control

    @custom_control
    def fun(q, ang, ctrl=None):
        if ctrl is None:
            cx(q[0], q[1])
            cp(ang, q[1], q[2])
            y(q[0])
        else:
            mcx([ctrl, q[0]], q[1])
            cp(ang, q[1], q[2])
            # control only what is needed: undo the phase if the control is 0
            from qrisp.circuit import PGate
            q.qs.append(PGate(-ang).control(2, ctrl_state="01"), [ctrl, q[1], q[2]])
            cy(ctrl, q[0])
    return fun


def bodies():
    import sympy
    th = sympy.Symbol("th", real=True)
    return {
        "gates": [("g", "x", None, ("q0",)), ("g", "p", th, ("q1",)), ("g", "cx", None, ("q1", "q2")), ("g", "t", None, ("q2",))],
        "rot": [("g", "rz", th, ("q2",)), ("g", "swap", None, ("q0", "q1")), ("g", "cp", PI / 4, ("q0", "q2")), ("g", "y", None, ("q1",))],
        "add": [("add", 3, ("q0", "q1", "q2")), ("g", "s", None, ("q0",))],
        "temp": [("temp", ("q0", "q1", "q2")), ("g", "x", None, ("q1",)), ("g", "mcx", None, ("q0", "q2", "q1"))],
        "cc": [("cc", ("q0", "q1", "q2"), PI / 8), ("g", "cz", None, ("q0", "q2"))],
        "gphase": [("g", "gphase", th, ("q0",)), ("g", "cx", None, ("q0", "q1")), ("g", "gphase", PI / 4, ("q2",))],
    }


PRE = {0: ("g", "cx", None, ("q2", "q0")), 1: ("g", "t_dg", None, ("q1",)), 2: ("g", "x", None, ("q2",))}
POST = {0: ("g", "s", None, ("q0",)), 1: ("g", "cx", None, ("q0", "q1")), 2: ("g", "p", PI / 8, ("q2",))}


def program(kinds, body):
    tree = body
    for lv in range(len(kinds) - 1, -1, -1):
        tree = [("env", kinds[lv], lv, tree)]
        if lv:
            tree = [PRE[lv - 1]] + tree + [POST[lv - 1]]
    return [PRE[2]] + tree + [POST[2]]


def check(kinds, bname, compiled=True):
    def run():
        tree = program(kinds, bodies()[bname])
        P = Prog(len(kinds), kinds, not ("NEQ" in kinds or bname == "rot" and len(kinds) > 2))
        P.block(tree)
        qc = P.q.qs.compile() if compiled else P.q.qs.copy()
        ref = dag(Ref(P.env, P.v).block(tree))
        A = RawCircuit(qc.qubits, qc.clbits)
        A.data += [RawInstr(i.op, i.qubits, i.clbits) for i in qc.data]
        for n, p, t, x in ref:
            op = RawOp(n, p, len(t) + len(x))
            op.rawctrl = [v for _, v in x]
            A.data.append(RawInstr(op, [P.env[q] for q, _ in x] + [P.env[q] for q in t]))
        sp = Spec()
        sp.phase = "exact"
        for reg, name in [(P.q, "q"), (P.ctl, "c")] + [(v, "b%d" % k) for k, v in P.b.items()] + [(v, "k%d" % k) for k, v in P.k.items()]:
            for i, q in enumerate(reg.reg):
                sp.expect[q] = inbit("%s[%d]" % (name, i))
                sp.label[q] = "%s[%d]" % (name, i)
        return verify_circuit(A, sp, tag="environments %s around %s%s" % (" > ".join(kinds), bname, "" if compiled else " (not compiled)"))
    return run


def flip_case(kind, n):
    """condition flipped and phased inside the environment"""
    def run():
        from qrisp import QuantumFloat, QuantumBool, x, p, z
        a = QuantumFloat(2, name="k")
        t = QuantumFloat(2, name="t")
        sym_input(a.reg, "k")
        sym_input(t.reg, "t")
        if kind == "eq":
            with a == 2 as b:
                x(t[0])
                b.flip()
                x(t[1])
                p(PI / 4, b)
        else:
            with a != 2 as b:
                x(t[1])
                b.flip()
                x(t[0])
                b.flip()
                p(PI / 4, b)
        qc = a.qs.compile()
        sp = Spec()
        sp.phase = "exact"
        from ..prog import z3
        is2 = z3.And(z3.Not(inbit("k[0]")), inbit("k[1]"))
        sp.expect[a[0]] = inbit("k[0]")
        sp.expect[a[1]] = inbit("k[1]")
        sp.expect[t[0]] = z3.Xor(inbit("t[0]"), is2)
        sp.expect[t[1]] = z3.Xor(inbit("t[1]"), z3.Not(is2))
        sp.label = {q: str(q) for q in sp.expect}
        A = RawCircuit(qc.qubits, qc.clbits)
        A.data += [RawInstr(i.op, i.qubits, i.clbits) for i in qc.data]
        # undo the phase on the branch where the condition (after the flips) holds: not equal 2
        for pat in ((0, 0), (1, 0), (1, 1)):
            op = RawOp("gphase", [-PI / 4], 3)
            op.rawctrl = list(pat)
            A.data.append(RawInstr(op, [a[0], a[1], t[0]]))
        return verify_circuit(A, sp, tag="condition with flips %s" % kind)
    return run


KINDS = ["C1", "C0", "C2", "CM", "CN", "CI", "CI0", "CB", "EQ", "NEQ", "QB", "INV", "CONJ", "GW", "QE", "IT", "ITP"]
CTRL = ("C1", "C0", "C2", "CM", "CN", "CI", "CI0", "CB", "EQ", "NEQ", "QB")


def legal(kinds, b):
    # the harness' reference for NEQ repeats the body, which is only right if nothing in it undoes the condition (never the case here)
    if b == "temp" and any(k in ("IT", "ITP") for k in kinds):
        return False         # documented: no variables may be created in an iteration environment
    it = [i for i, k in enumerate(kinds) if k in ("IT", "ITP")]
    if it and any(k in CTRL for k in kinds[it[0] + 1:]):
        return False         # raises: control environments create variables
    return True


def cases(tier):
    T = tier == "thorough"
    out = []
    bs = ["gates", "rot", "add", "temp", "cc", "gphase"]
    for k in KINDS:
        for b in bs:
            if legal([k], b):
                for c in (True, False):
                    out.append(("%s-%s%s" % (k, b, "" if c else "-raw"), check([k], b, c)))
    for i, (k1, k2) in enumerate(itertools.product(KINDS, KINDS)):
        for j, b in enumerate(bs):
            if legal([k1, k2], b) and (T or (i + j) % 2 == 0):
                out.append(("%s-%s-%s" % (k1, k2, b), check([k1, k2], b)))
    n = 0
    core = ["C1", "C0", "C2", "CI", "EQ", "NEQ", "INV", "CONJ", "GW", "IT"]
    for ks in itertools.product(core, core, core):
        n += 1
        for j, b in enumerate(bs):
            if legal(list(ks), b) and (T or (n * 7 + j) % 12 == 0):
                out.append(("%s-%s" % ("-".join(ks), b), check(list(ks), b)))
    for k in ("eq", "neq"):
        out.append(("flip-%s" % k, flip_case(k, 2)))
    return out
