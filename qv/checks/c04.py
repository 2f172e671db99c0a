"""C04: in-place adders."""
from ..prog import sym_input, inbit, invec, Spec, verify_circuit, z3, b2v

LEVEL = "translation_validation"
FUNCTIONS = ["qrisp.alg_primitives.arithmetic.adders.{gidney_adder, cuccaro_adder, fourier_adder, qcla, remaud_adder, thapliyal "
             "(inpl_add), incrementation}", "qrisp.environments.control (custom control)",
             "qrisp.core.quantum_session.QuantumSession.compile"]
BOUNDS = ("quick: register sizes 1..5 (all combinations |a|,|b| up to 4), all classical addends for |b|<=3 and selected ones above, "
          "carry-in / carry-out / control combinations at |b| <= 3; single larger widths up to 10.  thorough: up to 7, single widths up to 24. "
          "All register contents symbolic.")
OUTSIDE = "larger registers; the measurement based venting adder in traced mode (C18)"
HOW = "z3 decides b' = a + b + c_in mod 2^n (bit-vector arithmetic), c_out, control, ancillas 0 and absence of relative phases on the symbolically executed circuit."


def build(adder, na, nb, ca=None, cin=False, cout=False, ctrl=None, mcm=False, opts=None, ctrl_zero=False, kind="compile", lists=False):
    def run():
        import qrisp
        from qrisp import QuantumFloat, QuantumBool, QuantumVariable, control, invert
        fn = getattr(qrisp, adder)
        sp = Spec()
        b = QuantumFloat(nb, name="b")
        sym_input(b.reg, "b")
        B = invec("b", nb, nb)
        W = nb + 2
        if ca is None:
            a = QuantumFloat(na, name="a")
            sym_input(a.reg, "a")
            A = invec("a", na)
            A = z3.ZeroExt(W - nb, z3.Extract(nb - 1, 0, A)) if na > nb else z3.ZeroExt(W - na, A)
            sp.reg(a.reg, invec("a", na), "a")
            arg = a
        else:
            arg = ca
            A = z3.BitVecVal(ca % (1 << nb), W)
        kw = dict(opts or {})
        tot = z3.ZeroExt(2, B) + A
        if cin:
            ci = QuantumBool(name="ci")
            sym_input(ci.reg, "ci")
            sp.reg(ci.reg, [inbit("ci[0]")], "c_in")
            kw["c_in"] = ci
            tot = tot + b2v(inbit("ci[0]"), W)
        if cout:
            co = QuantumBool(name="co")
            kw["c_out"] = co
        act = z3.BoolVal(True)
        if ctrl:
            c = QuantumBool(name="c")
            sym_input(c.reg, "c")
            sp.reg(c.reg, [inbit("c[0]")], "control")
            act = inbit("c[0]")
            if ctrl_zero:
                act = z3.Not(act)
        if lists:
            arg = list(arg) if not isinstance(arg, int) else arg
            tgt = list(b)
        else:
            tgt = b
        if adder == "remaud_adder":
            z = QuantumFloat(1, name="z")
            args = (arg, tgt, z)
            co = z
        else:
            args = (arg, tgt)
        if ctrl == "kw":
            fn(*args, ctrl=c[0], **kw)
        elif ctrl == "env":
            with control(c[0], ctrl_state=0 if ctrl_zero else -1):
                fn(*args, **kw)
        elif ctrl == "inv":
            with control(c[0]):
                with invert():
                    fn(*args, **kw)
        elif kw.pop("invert", False):
            with invert():
                fn(*args, **kw)
        else:
            fn(*args, **kw)
        if ctrl == "inv" or (opts or {}).get("invert"):
            tot = z3.ZeroExt(2, B) - A
        sp.reg(b.reg, z3.If(act, z3.Extract(nb - 1, 0, tot), B), "b")
        if cout or adder == "remaud_adder":
            sp.reg(co.reg, [z3.And(act, z3.Extract(nb, nb, tot) == 1)], "c_out")
        if kind == "raw":
            qc = b.qs.copy()
        else:
            qc = b.qs.compile(compile_mcm=mcm)
        return verify_circuit(qc, sp, tag="%s na=%s nb=%d ca=%s cin=%d cout=%d ctrl=%s mcm=%s" % (adder, na, nb, ca, cin, cout, ctrl, mcm))
    return run


def incr(n, amount, exponent=0, signed=False):
    def run():
        from qrisp import QuantumFloat
        from qrisp.alg_primitives.arithmetic import increment
        b = QuantumFloat(n, exponent, signed=signed, name="b")
        sym_input(b.reg, "b")
        increment(b, amount)
        sp = Spec()
        N = len(b)
        B = invec("b", N)
        sp.reg(b.reg, B + z3.BitVecVal(int(round(amount / 2.0 ** exponent)), N), "b")
        return verify_circuit(b.qs.compile(), sp, tag="increment n=%d amount=%s" % (n, amount))
    return run


def linincr(n, cout, mcm):
    def run():
        from qrisp import QuantumFloat, QuantumBool
        from qrisp.alg_primitives.arithmetic.adders.incrementation import lin_incr
        b = QuantumFloat(n, name="b")
        ci = QuantumBool(name="ci")
        sym_input(b.reg, "b")
        sym_input(ci.reg, "ci")
        kw = {}
        sp = Spec()
        B = z3.ZeroExt(1, invec("b", n)) + b2v(inbit("ci[0]"), n + 1)
        if cout:
            co = QuantumBool(name="co")
            kw["c_out"] = co[0]
            sp.reg(co.reg, [z3.Extract(n, n, B) == 1], "c_out")
        lin_incr(b, c_in=ci[0], **kw)
        sp.reg(b.reg, z3.Extract(n - 1, 0, B), "b")
        sp.reg(ci.reg, [inbit("ci[0]")], "c_in")
        return verify_circuit(b.qs.compile(compile_mcm=mcm), sp, tag="lin_incr n=%d" % n)
    return run


def inpl(e1, s1, n1, e2, s2, n2):
    def run():
        from qrisp import QuantumFloat
        from qrisp import inpl_add
        a = QuantumFloat(n1, e1, signed=s1, name="a")
        b = QuantumFloat(n2, e2, signed=s2, name="b")
        sym_input(a.reg, "a")
        sym_input(b.reg, "b")
        sp = Spec()
        N1, N2 = len(a), len(b)
        W = 16
        A = invec("a", N1, W, signed=s1)
        B = invec("b", N2, W, signed=s2)
        sh = e2 - e1
        tot = A + (B << sh)
        inpl_add(a, b)
        sp.reg(a.reg, z3.Extract(N1 - 1, 0, tot), "a")
        sp.reg(b.reg, invec("b", N2), "b")
        return verify_circuit(a.qs.compile(), sp, tag="inpl_add (%d,%d,%s)+=(%d,%d,%s)" % (n1, e1, s1, n2, e2, s2))
    return run


def cases(tier):
    out = []
    T = tier != "quick"

    def add(name, *a, **k):
        out.append((name, build(*a, **k)))
    mx = 6 if T else 4
    for nb in range(1, mx + 1):
        for na in range(1, mx + 1):
            add("gidney-qq-%d-%d" % (na, nb), "gidney_adder", na, nb)
            if nb == na or nb <= 3:
                add("gidney-qq-%d-%d-mcm" % (na, nb), "gidney_adder", na, nb, mcm=True)
            add("cuccaro-qq-%d-%d" % (na, nb), "cuccaro_adder", na, nb)
            if na <= nb:
                add("fourier-qq-%d-%d" % (na, nb), "fourier_adder", na, nb)
                for rb, re_ in ((2, 1), (2, 0), (2, 2), (3, 1)):
                    for td in (True, False):
                        add("qcla-qq-%d-%d-r%d^%d-td%d" % (na, nb, rb, re_, td), "qcla", na, nb,
                            opts=dict(radix_base=rb, radix_exponent=re_, t_depth_reduction=td))
        if nb >= 2:
            add("remaud-%d" % nb, "remaud_adder", nb, nb)
            add("remaud-%d-ctrl" % nb, "remaud_adder", nb, nb, ctrl="env")
    for nb in range(1, 4 if not T else 6):
        for cin in (False, True):
            for cout in (False, True):
                for ctrl in (None, "kw", "env"):
                    for ad in ("gidney_adder", "cuccaro_adder"):
                        for mcm in ((False, True) if ad == "gidney_adder" else (False,)):
                            for na in {nb, max(1, nb - 1)}:
                                if cin or cout or ctrl:
                                    add("%s-%d-%d-cin%d-cout%d-%s-mcm%d" % (ad, na, nb, cin, cout, ctrl, mcm), ad, na, nb,
                                        cin=cin, cout=cout, ctrl=ctrl, mcm=mcm)
                            for ca in (range(1 << nb) if nb <= 2 or T else (1, 3, 6)):
                                if ca == 0 and nb > 1:
                                    continue
                                add("%s-cq%d-%d-cin%d-cout%d-%s-mcm%d" % (ad, ca, nb, cin, cout, ctrl, mcm), ad, None, nb, ca=ca,
                                    cin=cin, cout=cout, ctrl=ctrl, mcm=mcm)
    for nb in range(1, mx + 1):
        for ca in (range(1 << nb) if nb <= 3 else (1, 5, (1 << nb) - 1, 1 << (nb - 1), 6)):
            add("fourier-cq-%d-%d" % (ca, nb), "fourier_adder", None, nb, ca=ca)
            add("fourier-cq-%d-%d-ctrl" % (ca, nb), "fourier_adder", None, nb, ca=ca, ctrl="env")
            if ca:
                add("qcla-cq-%d-%d" % (ca, nb), "qcla", None, nb, ca=ca)
                add("qcla-cq-%d-%d-ctrl" % (ca, nb), "qcla", None, nb, ca=ca, ctrl="kw")
        for ad in ("fourier_adder", "qcla", "gidney_adder", "cuccaro_adder"):
            add("%s-ctrl0-%d" % (ad, nb), ad, nb, nb, ctrl="env", ctrl_zero=True)
            add("%s-ctrlinv-%d" % (ad, nb), ad, nb, nb, ctrl="inv")
            add("%s-inv-%d" % (ad, nb), ad, nb, nb, opts=dict(invert=True))
    for ad in ("gidney_adder", "qcla", "fourier_adder"):
        add("%s-lists" % ad, ad, 3, 3, lists=True)
    add("gidney-neg", "gidney_adder", None, 3, ca=-3)
    for n in (8, 10) if not T else (8, 12, 16, 24):
        add("gidney-wide-%d" % n, "gidney_adder", n, n)
        add("gidney-wide-%d-mcm" % n, "gidney_adder", n, n, mcm=True)
        add("cuccaro-wide-%d" % n, "cuccaro_adder", n, n)
        if n <= 16:
            add("qcla-wide-%d" % n, "qcla", n, n)
            add("qcla-wide-%d-td0" % n, "qcla", n, n, opts=dict(t_depth_reduction=False, radix_base=2, radix_exponent=0))
            add("qcla-cq-wide-%d" % n, "qcla", None, n, ca=0b1011001)
            add("remaud-wide-%d" % n, "remaud_adder", n, n)
    add("fourier-wide", "fourier_adder", 6 if not T else 8, 6 if not T else 8)
    for n in range(1, 5 if not T else 7):
        for cout in (False, True):
            for mcm in (False, True):
                out.append(("lin_incr-%d-cout%d-mcm%d" % (n, cout, mcm), linincr(n, cout, mcm)))
    for n in range(2, 5 if not T else 6):
        for am in range(1, 1 << n):
            out.append(("increment-%d-%d" % (n, am), incr(n, am)))
            out.append(("increment-%d-minus%d" % (n, am), incr(n, -am)))
    out.append(("increment-exp", incr(4, 1.5, -1)))
    for f in ((0, False, 4, 0, False, 3), (0, False, 4, 0, False, 4), (0, True, 3, 0, False, 3), (0, True, 4, 0, True, 3),
              (-1, False, 4, 0, False, 2), (-2, True, 4, -1, True, 2), (0, False, 3, 1, False, 2)):
        out.append(("inpl_add-%s" % "_".join(str(int(x)) for x in f), inpl(*f)))
    return out
