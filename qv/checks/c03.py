"""C03: every mcx method flips the target exactly when the controls match."""
import itertools

from ..prog import sym_input, inbit, Spec, verify_circuit, z3

LEVEL = "translation_validation"
FUNCTIONS = ["qrisp.core.gate_application_functions.mcx", "qrisp.alg_primitives.mcx_algs.*",
             "qrisp.circuit.standard_operations.MCXGate", "qrisp.circuit.controlled_operations.*",
             "qrisp.core.quantum_session.QuantumSession.compile (mcx recompilation, measurement compilation)"]
BOUNDS = ("quick: all control states for n<=3 controls and 4 representative ones above; gray/gray_pt n<=6, yong/balauca n<=9, "
          "maslov n<=4, hybrid n<=8 with 0..4 ancillas, khattar n<=9, auto n<=8 with workspace 0..4; "
          "thorough: gray n<=8, others n<=14, all control states n<=5.  Control and target values symbolic (all 2^(n+1) at once).")
OUTSIDE = "more controls than listed; jasp-traced variants (see C18)"
HOW = ("The circuit emitted (and, where stated, compiled) by the real mcx call is executed symbolically as a path sum; z3 decides "
       "target' = target xor AND(controls match), controls unchanged, ancillas 0, no relative phase.")


def cstates(n, tier):
    full = 3 if tier == "quick" else 5
    if n <= full:
        return ["".join(p) for p in itertools.product("01", repeat=n)]
    alt = "".join("01"[i % 2] for i in range(n))
    return ["1" * n, "0" * n, alt, "1" * (n - 1) + "0", "0" + "1" * (n - 1)]


def match(n, cs, name="c"):
    return z3.And(*[inbit("%s[%d]" % (name, i)) == (b == "1") for i, b in enumerate(cs)])


def case(method, n, cs, kind="compile", target_zero=False, as_int=False, num_ancilla=1, workspace=0, extra=0,
         phase="relative", mcm=False, pair=None):
    def run():
        from qrisp import QuantumVariable, QuantumBool, mcx, cz
        c = QuantumVariable(n, name="c")
        t = QuantumBool(name="t")
        cn = sym_input(c.reg, "c")
        if not target_zero:
            sym_input(t.reg, "t")
        ex = None
        if extra:
            ex = QuantumVariable(extra, name="e")
            sym_input(ex.reg, "e")
        state = cs
        if as_int:
            state = sum(int(b) << i for i, b in enumerate(cs))
            if cs == "1" * n:
                state = -1
        kw = {}
        if method == "hybrid":
            kw["num_ancilla"] = num_ancilla
        mcx(c, t, method=method, ctrl_state=state, **kw)
        t0 = z3.BoolVal(False) if target_zero else inbit("t[0]")
        hit = match(n, cs)
        if pair:
            cz(t[0], c[0])
            mcx(c, t, method=pair, ctrl_state=state)
            out = t0
        else:
            out = z3.Xor(t0, hit)
        if ex is not None:
            # keep the extra variable alive and in use so that it can only serve as a dirty ancilla
            from qrisp import x
            x(ex[0])
            x(ex[0])
        sp = Spec()
        sp.reg(c.reg, [inbit(x) for x in cn], "control")
        sp.reg(t.reg, [out], "target")
        if ex is not None:
            sp.reg(ex.reg, [inbit("e[%d]" % i) for i in range(extra)], "bystander")
        sp.phase = phase
        if pair:
            # cz between the two halves contributes (-1)^{c0 * (t xor hit)}
            sp.phase_terms = []
            return verify_pair(t.qs, sp, method, n, cs, mcm)
        qc = t.qs.compile(workspace, compile_mcm=mcm) if kind == "compile" else t.qs.copy()
        return verify_circuit(qc, sp, tag="mcx %s n=%d ctrl=%s" % (method, n, cs))
    return run


def verify_pair(qs, sp, method, n, cs, mcm):
    """mcx ; cz(target, c0) ; inverse mcx  =  phase (-1)^(c0 (t xor hit)) only"""
    qc = qs.compile(compile_mcm=mcm)
    # remove the expected phase by appending the textbook value of it as opaque phase terms
    pi = 3.141592653589793
    names = ["c[%d]" % i for i in range(n)]
    terms = []
    if any(ch == "t[0]" for ch in all_inputs(qc)):
        terms.append((pi, ("c[0]", "t[0]")))
    # c0 * AND(match): expand the product over negated controls (xor expansion, phases pi are additive mod 2pi)
    zeros = [names[i] for i in range(n) if cs[i] == "0"]
    ones = [names[i] for i in range(n) if cs[i] == "1"]
    for k in range(len(zeros) + 1):
        for sub in itertools.combinations(zeros, k):
            terms.append((pi, tuple(dict.fromkeys(["c[0]"] + ones + list(sub)))))
    sp.phase_terms = terms
    sp.phase = "exact"
    return verify_circuit(qc, sp, tag="mcx %s pair n=%d ctrl=%s" % (method, n, cs))


def all_inputs(qc):
    from ..prog import _inputs_of
    acc = []
    _inputs_of(qc, acc, set())
    return acc


def cases(tier):
    out = []

    def add(name, *a, **k):
        out.append((name, case(*a, **k)))
    T = tier != "quick"
    for n in range(1, 9 if T else 7):
        for cs in cstates(n, tier):
            add("gray-%d-%s" % (n, cs), "gray", n, cs, kind="raw", phase="exact")
    for n in range(2, 8 if T else 7):
        for cs in cstates(n, tier):
            add("gray_pt-%d-%s" % (n, cs), "gray_pt", n, cs, kind="raw", phase="free")
            add("gray_pt_inv-%d-%s" % (n, cs), "gray_pt_inv", n, cs, kind="raw", phase="free")
            add("gray_pt-pair-%d-%s" % (n, cs), "gray_pt", n, cs, pair="gray_pt_inv")
    add("gray_pt-int", "gray_pt", 3, "101", kind="raw", phase="free", as_int=True)
    big = 14 if T else 9
    for n in range(1, big + 1):
        for i, cs in enumerate(cstates(n, tier)):
            for m in ("balauca", "yong"):
                add("%s-%d-%s" % (m, n, cs), m, n, cs, as_int=(i % 2 == 0))
            if n >= 1:
                add("khattar-%d-%s" % (n, cs), "khattar", n, cs)
            if n <= 4:
                add("maslov-%d-%s" % (n, cs), "maslov", n, cs)
    for n in range(2, (12 if T else 8) + 1):
        for na in range(0, 6 if T else 5):
            for cs in cstates(n, "quick")[-2:] if n > 3 else cstates(n, tier):
                add("hybrid-%d-anc%d-%s" % (n, na, cs), "hybrid", n, cs, num_ancilla=na)
        for cs in ["1" * n, cstates(n, "quick")[-2]]:
            for w in range(0, 6 if T else 4):
                for ex in (0, 2):
                    add("auto-%d-ws%d-dirty%d-%s" % (n, w, ex, cs), "auto", n, cs, workspace=w, extra=ex)
    add("auto-1", "auto", 1, "0")
    for cs in cstates(2, tier):
        for m in ("jones", "amy"):
            for mcm in (False, True):
                add("%s-%s-mcm%d" % (m, cs, mcm), m, 2, cs, mcm=mcm)
        for mcm in (False, True):
            add("gidney-%s-mcm%d" % (cs, mcm), "gidney", 2, cs, target_zero=True, mcm=mcm)
            add("gidney-pair-%s-mcm%d" % (cs, mcm), "gidney", 2, cs, target_zero=True, mcm=mcm, pair="gidney_inv")
    return out
