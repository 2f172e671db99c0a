"""Symbolic execution of Qrisp circuit IR on the path-sum state.

Gates without a definition are given their textbook meaning by name; everything
else is executed through the definition circuit the Qrisp source produced.
"""
import math

from .pathsum import PathState, Unsupported, ONE, ZERO, HALF, QUART, EIGHTH, MOD, parse_angle, full_turn

SYM_PREFIX = "symin:"

_Z = (HALF, None, 0.0)
_S = (QUART, None, 0.0)
_SDG = (MOD - QUART, None, 0.0)
_T = (EIGHTH, None, 0.0)
_TDG = (MOD - EIGHTH, None, 0.0)

IGNORED = {"barrier", "id", "qb_alloc_noop"}


def leaf(st, name, params, qs, g=ONE):
    """apply a leaf gate controlled on the Boolean polynomial g; False if unknown"""
    q = qs[0] if qs else None
    if name == "x":
        st.x(q, g)
    elif name == "y":            # Y = i X Z
        st.phase(_Z, q, g)
        st.x(q, g)
        st.gphase(_S, g)
    elif name == "z":
        st.phase(_Z, q, g)
    elif name == "h":
        st.h(q, g)
    elif name == "s":
        st.phase(_S, q, g)
    elif name == "s_dg":
        st.phase(_SDG, q, g)
    elif name == "t":
        st.phase(_T, q, g)
    elif name == "t_dg":
        st.phase(_TDG, q, g)
    elif name == "p":
        st.phase(parse_angle(full_turn(params[0])), q, g)
    elif name in ("rz", "u1"):      # u1 is documented as rz in this code base
        st.rz(params[0], q, g)
    elif name == "rx":
        st.rx(params[0], q, g)
    elif name == "ry":
        st.ry(params[0], q, g)
    elif name == "u3":
        st.u3(params[0], params[1], params[2], q, g)
    elif name == "sx":           # Qrisp: sx is rx(pi/2)
        st.rx(math.pi / 2, q, g)
    elif name == "sx_dg":
        st.rx(-math.pi / 2, q, g)
    elif name == "gphase":
        st.gphase(parse_angle(full_turn(params[0])), g)
    elif name in ("id", "id_dg"):
        pass
    elif name == "cx":
        st.x(qs[1], st.mul(st.val[qs[0]], g))
    elif name == "cz":
        st.phase(_Z, qs[1], st.mul(st.val[qs[0]], g))
    elif name == "cy":
        c = st.mul(st.val[qs[0]], g)
        st.phase(_Z, qs[1], c)
        st.x(qs[1], c)
        st.gphase(_S, c)
    elif name == "swap":
        if g == ONE:
            st.val[qs[0]], st.val[qs[1]] = st.val[qs[1]], st.val[qs[0]]
        else:
            st.x(qs[0], st.val[qs[1]])
            st.x(qs[1], st.mul(st.val[qs[0]], g))
            st.x(qs[0], st.val[qs[1]])
    else:
        return False
    return True


class Runner:
    """executes a circuit; records dealloc values, resets and measurements"""

    def __init__(self, st=None, inputs=None, alloc_zero=True, sym_wildcards=None):
        self.st = st or PathState()
        self.inputs = inputs if inputs is not None else {}   # symbolic input name -> anf
        self.dealloc = []         # (label, key into st.val): values that were not syntactically 0 at deallocation
        self.resets = []
        self.live = set()
        self.alloc_zero = alloc_zero
        self.ops_seen = {}

    def sym_input(self, name):
        if name not in self.inputs:
            self.inputs[name] = self.st.input_var(name)
        return self.inputs[name]

    def _drop(self, label, f):
        """remember the value a qubit had when it was given up (it must be 0)"""
        if f:
            key = ("dropped", len(self.dealloc), label)
            self.st.val[key] = f
            self.dealloc.append((label, key))

    def run(self, qc, qmap=None, cmap=None, g=ONE):
        st = self.st
        if qmap is None:
            for q in qc.qubits:
                st.val.setdefault(q, ZERO)
            for c in qc.clbits:
                st.clval.setdefault(c, ZERO)
        for instr in qc.data:
            op = instr.op
            if qmap is None:
                qs = instr.qubits
                cs = instr.clbits
            else:
                qs = [qmap[q] for q in instr.qubits]
                cs = [cmap[c] for c in instr.clbits]
            self.apply(op, qs, cs, g)

    def apply(self, op, qs, cs, g=ONE):
        st = self.st
        name = op.name
        st.stats["gates"] += 1
        if name.startswith(SYM_PREFIX):
            f = self.sym_input(name[len(SYM_PREFIX):])
            if name[len(SYM_PREFIX):].startswith("h:"):      # Hadamard whose path variable is a named input
                st.add_phase(_Z, st.mul(st.val[qs[0]], f))
                st.val[qs[0]] = f
                return
            self._drop("symin:" + name, st.val[qs[0]])
            st.val[qs[0]] = f
            return
        if getattr(op, "rawctrl", None):        # reference gate: leading qubits are controls with these values
            k = len(op.rawctrl)
            for c, v in zip(qs[:k], op.rawctrl):
                g = st.mul(g, st.val[c] if v else st.val[c] ^ ONE)
            if not leaf(st, name, op.params, qs[k:], g):
                raise Unsupported("no semantics for gate %s" % name)
            return
        if name == "qb_alloc":
            if qs[0] not in st.val:
                st.val[qs[0]] = ZERO
            self.live.add(qs[0])
            return
        if name == "qb_dealloc":
            self._drop(str(getattr(qs[0], "identifier", qs[0])), st.val[qs[0]])
            st.val[qs[0]] = ZERO
            self.live.discard(qs[0])
            return
        if name == "barrier":
            return
        if name == "measure":
            if g != ONE:
                raise Unsupported("controlled measurement")
            st.clval[cs[0]] = st.val[qs[0]]
            # a later overwrite of either must not forget the record
            st.env.append(st.val[qs[0]])
            return
        if name == "reset":
            if g != ONE:
                raise Unsupported("controlled reset")
            st.env.append(st.val[qs[0]])
            self.resets.append(st.val[qs[0]])
            st.val[qs[0]] = ZERO
            return
        if name.startswith("c_if_") and hasattr(op, "base_op"):
            k = op.num_control
            cond = g
            for c, b in zip(cs[:k], op.ctrl_state):
                v = st.clval[c]
                if b == "0":
                    v = v ^ ONE
                cond = st.mul(cond, v)
            self.apply(op.base_op, qs, cs[k:], cond)
            return
        if op.definition is not None:
            d = op.definition
            if name in ("swap",) and g == ONE:
                pass
            qmap = dict(zip(d.qubits, qs))
            cmap = dict(zip(d.clbits, cs))
            # keep composite gate inputs small so that identities inside cancel
            lim = st.entry
            for q in qs:
                if len(st.val[q]) > lim:
                    st.val[q] = st.small(st.val[q], lim)
            self.run(d, qmap, cmap, g)
            return
        if not leaf(st, name, op.params, qs, g):
            if all(hasattr(op, a) for a in ("theta", "phi", "lam", "global_phase")):
                # single qubit gate under a name of its own
                st.u3(op.theta, op.phi, op.lam, qs[0], g)
                st.gphase(parse_angle(full_turn(op.global_phase)), g)
                return
            raise Unsupported("no semantics for gate %s" % name)
        if name == "u3" and getattr(op, "global_phase", 0):
            st.gphase(parse_angle(full_turn(op.global_phase)), g)


def run_circuit(qc, init=None, inputs=None, **kw):
    """symbolically run qc.  init: qubit -> anf (default 0)"""
    r = Runner(inputs=inputs, **kw)
    if init:
        r.st.val.update(init)
    r.run(qc)
    r.st.try_eliminate()
    return r
