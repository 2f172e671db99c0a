"""C25: Fourier transform and phase estimation."""
import math

from ..prog import sym_input, inbit, invec, Spec, verify_circuit, z3, Violation
from ..equiv import RawCircuit, same, strip

LEVEL = "translation_validation"
TECH = "symbolic execution of the circuits the code generates followed by a reference inverse, decided by an SMT solver over all inputs"
FUNCTIONS = ["qrisp.alg_primitives.qft.{QFT,QFT_inner}", "qrisp.alg_primitives.qpe.QPE", "qrisp.core.quantum_session.QuantumSession.compile (QFT cancellation)"]
BOUNDS = ("quick: registers of 1..7 qubits with every combination of inverse, swap, bit order, odd multipliers 1,3,5,-3, adder supported variant up to 3 qubits; phase estimation with precision 1..5, "
          "iter_spec on and off.  thorough: up to 10 qubits, precision up to 7.  Basis states and eigenphase bits symbolic.")
OUTSIDE = "larger registers; GMS compilation (gate without a decomposition); eigenphases that are not multiples of 2^-precision"
HOW = ("the generated circuit followed by the textbook inverse of x -> 2^(-n/2) sum_y exp(2 pi i k x y / 2^n)|y> (written in the harness from H, controlled phase and relabelling) is "
       "executed symbolically; z3 decides that every basis state returns with phase 1.  Phase estimation: for every eigenphase bit pattern the result register equals it.")


def dft(qs, k=1, rev=False):
    """reference: x -> sum_y exp(2 pi i k x y/2^n)|y>; bit i of x at qs[i].

    With rev the bits of y are left in reversed places.
    """
    n = len(qs)
    c = RawCircuit(qs)
    for i in range(n - 1, -1, -1):
        c.add("h", (), qs[i])
        for j in range(i - 1, -1, -1):
            ang = k * 2 * math.pi / 2 ** (i - j + 1)
            # controlled phase
            c.add("p", (ang / 2,), qs[i])
            c.add("p", (ang / 2,), qs[j])
            c.add("cx", (), qs[i], qs[j])
            c.add("p", (-ang / 2,), qs[j])
            c.add("cx", (), qs[i], qs[j])
    # qubit i now carries bit n-1-i of y
    if not rev:
        for i in range(n // 2):
            c.add("swap", (), qs[i], qs[n - 1 - i])
    return c


def qft_case(n, inv, swap, endian, k, adder=None, compiled=True):
    def run():
        from qrisp import QuantumFloat, QFT
        import qrisp
        q = QuantumFloat(n, name="q")
        sym_input(q.reg, "q")      # keeps the compiler from assuming |0>
        kw = {}
        if adder:
            kw["inpl_adder"] = getattr(qrisp, adder)
        QFT(q, inv=inv, exec_swap=swap, qiskit_endian=endian, inplace_mult=k, **kw)
        regs = list(q.reg)
        qc = q.qs.compile() if compiled else q.qs.copy()
        qs = regs if endian else regs[::-1]
        ref = dft(qs, k, rev=not swap)
        tag = "QFT n=%d inv=%s swap=%s endian=%s mult=%s %s" % (n, inv, swap, endian, k, adder or "")
        if inv:
            # inverse transform: reference then circuit
            both = RawCircuit(regs)
            both.extend(ref)
            both.data += strip(qc).data
            for x in qc.qubits:
                if x not in both.qubits:
                    both.qubits.append(x)
            sp = Spec()
            sp.phase = "exact" if not adder else "relative"
            init = {}
            for i, x in enumerate(regs):
                init[x] = "q[%d]" % i
                sp.expect[x] = inbit("q[%d]" % i)
                sp.label[x] = "q[%d]" % i
            return verify_circuit(both, sp, init=init, tag=tag)
        return same(qc, ref, regs, phase="exact" if not adder else "relative", tag=tag)
    return run


def roundtrip(n, kw):
    """QFT followed by its inverse through a session (with and without cancellation)"""
    def run():
        from qrisp import QuantumFloat, QFT, cx
        q = QuantumFloat(n, name="q")
        sym_input(q.reg, "q")
        QFT(q, **kw)
        QFT(q, inv=True, **kw)
        sp = Spec()
        sp.phase = "exact"
        sp.reg(q.reg, invec("q", n), "q")
        return verify_circuit(q.qs.compile(), sp, tag="QFT round trip %d %s" % (n, kw))
    return run


def qpe(prec, bits, iter_spec, target, ctrl_method=None, mult=1):
    """U|s> = exp(2 pi i mult s / 2^bits)|s>: result must be mult*s*2^(prec-bits) mod 2^prec"""
    def run():
        from qrisp import QuantumFloat, QPE, p
        s = QuantumFloat(bits, name="s")
        sym_input(s.reg, "s")

        def U(arg, iter=None):
            it = 1 if iter is None else iter
            for j in range(bits):
                p(2 * math.pi * 2 ** j / 2 ** bits * mult * it, arg[j])
        kw = dict(iter_spec=iter_spec)
        if ctrl_method:
            kw["ctrl_method"] = ctrl_method
        if target:
            t = QuantumFloat(prec, -prec, name="t")
            r = QPE(s, U, target=t, **kw)
            if r is not t:
                raise Violation("QPE does not return its target", {})
        else:
            r = QPE(s, U, precision=prec, **kw)
        if (len(r), int(r.exponent), bool(r.signed)) != (prec, -prec, False):
            raise Violation("format of the estimate is %s" % ((len(r), int(r.exponent), bool(r.signed)),), {})
        sp = Spec()
        sp.reg(s.reg, invec("s", bits), "s")
        v = z3.ZeroExt(32 - bits, invec("s", bits)) * z3.BitVecVal(mult, 32)
        v = v << (prec - bits) if prec >= bits else None
        sp.reg(r.reg, z3.Extract(prec - 1, 0, v), "estimate")
        return verify_circuit(s.qs.compile(), sp, tag="QPE precision %d bits %d" % (prec, bits))
    return run


def cases(tier):
    T = tier == "thorough"
    out = []
    for n in range(1, 11 if T else 8):
        for inv in (False, True):
            for swap in (True, False):
                for endian in (True, False):
                    for k in (1, 3, 5, -3):
                        if k != 1 and n > (7 if T else 5):
                            continue
                        out.append(("qft-%d-%s%s%s-%d" % (n, "i" * inv, "s" * swap, "e" * endian, k), qft_case(n, inv, swap, endian, k)))
                    if n <= 3:
                        out.append(("qft-raw-%d-%s%s%s" % (n, "i" * inv, "s" * swap, "e" * endian), qft_case(n, inv, swap, endian, 1, compiled=False)))
        for kw in (dict(), dict(exec_swap=False), dict(qiskit_endian=False), dict(inplace_mult=3)):
            out.append(("roundtrip-%d-%s" % (n, "_".join(kw)), roundtrip(n, kw)))
    for n in (1, 2, 3):
        for ad in ("gidney_adder", "fourier_adder"):
            for inv in (False, True):
                for swap in (True, False):
                    out.append(("qft-adder-%d-%s-%s%s" % (n, ad, "i" * inv, "s" * swap), qft_case(n, inv, swap, True, 1, ad)))
    for prec in range(1, 8 if T else 6):
        for bits in range(1, prec + 1):
            for it in (False, True):
                for tg in (False, True):
                    for mult in (1, 3):
                        out.append(("qpe-%d-%d-%d%d-%d" % (prec, bits, it, tg, mult), qpe(prec, bits, it, tg, None, mult)))
    for cm in ("gray", "balauca"):
        out.append(("qpe-ctrl-%s" % cm, qpe(3, 2, False, False, cm)))
    return out
