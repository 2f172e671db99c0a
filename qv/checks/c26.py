"""C26: quantum indexed control structures."""
from ..prog import sym_input, inbit, invec, bits_to_bv, Spec, verify_circuit, z3, b2v, Violation

LEVEL = "translation_validation"
FUNCTIONS = ["qrisp.alg_primitives.program_control.quantum_switch._q_switch_q", "qrisp.alg_primitives.program_control.switch_case.qswitch",
             "qrisp.alg_primitives.iterable_processing.{demux,q_indexing,q_swap_into,cyclic_shift,singular_shift,permute_iterable,to_cycles}",
             "qrisp.jasp.program_control.prefix_control.q_switch"]
BOUNDS = ("quick: index registers of 1..3 qubits, 1..8 branches (also fewer than index values), methods sequential, parallel, tree, list and function branches, inverted and controlled; demultiplexers with "
          "up to 3 index qubits; shifts of up to 9 elements by every amount; all permutations of up to 4 elements and selected longer ones.  thorough: 4 index qubits, 12 elements.  "
          "Index and data values symbolic.")
OUTSIDE = "larger sizes; branches that are not reversible in-place functions; method parallel with fewer branches than index values only up to 3 index qubits"
HOW = "z3 decides for all index and data values that the selected branch acted (identity for indices without branch), everything else unchanged, ancillas 0, no relative phase."
D = 3


def branch_ops():
    """in-place functions of a register of D qubits with their bit-vector meaning"""
    from qrisp import x, cx, swap, fourier_adder, gidney_adder, mcx

    def b0(q):
        x(q[0])

    def b1(q):
        q += 3

    def b2(q):
        swap(q[0], q[2])

    def b3(q):
        pass

    def b4(q):
        cx(q[0], q[1])

    def b5(q):
        q -= 1

    def b6(q):
        mcx([q[0], q[1]], q[2])

    def b7(q):
        x(q)

    def bit(v, i):
        return z3.Extract(i, i, v)
    return [(b0, lambda v: v ^ 1, lambda v: v ^ 1), (b1, lambda v: v + 3, lambda v: v - 3),
            (b2, lambda v: z3.Concat(bit(v, 0), bit(v, 1), bit(v, 2)), lambda v: z3.Concat(bit(v, 0), bit(v, 1), bit(v, 2))), (b3, lambda v: v, lambda v: v),
            (b4, lambda v: v ^ z3.ZeroExt(2, bit(v, 0)) << 1, lambda v: v ^ z3.ZeroExt(2, bit(v, 0)) << 1), (b5, lambda v: v - 1, lambda v: v + 1),
            (b6, lambda v: v ^ z3.ZeroExt(2, bit(v, 0) & bit(v, 1)) << 2, lambda v: v ^ z3.ZeroExt(2, bit(v, 0) & bit(v, 1)) << 2), (b7, lambda v: ~v, lambda v: ~v)]


def switch(n, amount, method, mode, inv=False, ctrl=False, api="q_switch", aslist=False):
    def run():
        from qrisp import QuantumFloat, QuantumBool, q_switch, control, invert, x
        import warnings
        warnings.simplefilter("ignore")
        idx = QuantumFloat(n, name="i")
        dat = QuantumFloat(D, name="d")
        sym_input(idx.reg, "i")
        sym_input(dat.reg, "d")
        I, V = invec("i", n), invec("d", D)
        ops = branch_ops()
        order = [(3 * k + 1) % len(ops) for k in range(amount)]

        if mode == "list":
            br = [ops[k][0] for k in order]
            kw = {}
            mean = [ops[k][2 if inv else 1] for k in order]
        elif mode == "func":
            # branch i flips bit i mod D and, for odd i, adds i
            def br(i, q):
                x(q[int(i) % D])
                if int(i) % 2:
                    q += int(i)
            kw = {"branch_amount": amount} if api == "q_switch" else {"case_amount": amount}
            if amount == 2 ** n:
                kw = {}

            def mk(i):
                if inv:
                    return lambda v: (v - i if i % 2 else v) ^ (1 << (i % D))
                return lambda v: (v ^ (1 << (i % D))) + (i if i % 2 else 0)
            mean = [mk(i) for i in range(amount)]

        def call():
            ix = list(idx.reg) if aslist else idx
            if api == "q_switch":
                q_switch(ix, br, dat, method=method, **kw)
            else:
                from qrisp import qswitch
                qswitch(dat, ix, br, method=method, **kw)
        sp = Spec()
        if ctrl:
            c = QuantumBool(name="c")
            sym_input(c.reg, "c")
            with control(c):
                if inv:
                    with invert():
                        call()
                else:
                    call()
            sp.reg(c.reg, [inbit("c[0]")], "control")
        elif inv:
            with invert():
                call()
        else:
            call()
        res = V
        for k in range(amount):
            cond = I == k
            if ctrl:
                cond = z3.And(cond, inbit("c[0]"))
            res = z3.If(cond, mean[k](V), res)
        sp.reg(idx.reg, I, "index")
        sp.reg(dat.reg, res, "data")
        return verify_circuit(dat.qs.compile(), sp, tag="%s %s %s branches=%d of %d inv=%s ctrl=%s" % (api, method, mode, amount, 2 ** n, inv, ctrl))
    return run


def demux_new(n, kind, par):
    """value moved to the addressed place of a fresh array / register"""
    def run():
        from qrisp import QuantumFloat, QuantumVariable, demux, merge
        idx = QuantumFloat(n, name="i")
        sym_input(idx.reg, "i")
        I = invec("i", n)
        sp = Spec()
        sp.reg(idx.reg, I, "index")
        w = 2 if kind == "var" else 1
        a = QuantumFloat(w, name="a")
        sym_input(a.reg, "a")
        A = invec("a", w)
        if kind == "var":
            out = demux(a, idx, parallelize_qc=par)
        else:
            out = demux(a[0], idx, parallelize_qc=par)
        sp.reg(a.reg, z3.BitVecVal(0, w), "moved away")
        for k in range(2 ** n):
            reg = out[k].reg if kind == "var" else [out[k]]
            sp.reg(reg, z3.If(I == k, A, z3.BitVecVal(0, w)), "out%d" % k)
        return verify_circuit(idx.qs.compile(), sp, tag="demux %d %s" % (n, kind))
    return run


def demux_inplace(n, kind, par, size=None):
    """0-th entry ends at the addressed place"""
    def run():
        from qrisp import QuantumFloat, QuantumVariable, QuantumArray, demux
        idx = QuantumFloat(n, name="i")
        sym_input(idx.reg, "i")
        I = invec("i", n)
        sp = Spec()
        sp.reg(idx.reg, I, "index")
        N = size or 2 ** n
        if kind == "var":
            qa = QuantumArray(QuantumFloat(2), shape=(N,))
            ents = [qa[k].reg for k in range(N)]
            for k in range(N):
                sym_input(ents[k], "a%d" % k)
            w = 2
            demux(qa[0], idx, qa, parallelize_qc=par, permit_mismatching_size=size is not None)
        else:
            qv = QuantumFloat(N, name="a")
            w = 1
            ents = [[qv[k]] for k in range(N)]
            for k in range(N):
                sym_input(ents[k], "a%d" % k)
            demux(qv[0], idx, qv, parallelize_qc=par, permit_mismatching_size=size is not None)
        if size:
            sp.assume.append(z3.ULT(z3.ZeroExt(8 - n, I), N))
        for e in ents:
            sp.free.update(e)
        A = invec("a0", w)
        sp.post.append(lambda outs: z3.And(*[z3.Implies(I == k, bits_to_bv([outs[q] for q in ents[k]]) == A) for k in range(min(N, 2 ** n))]))
        return verify_circuit(idx.qs.compile(), sp, tag="in-place demux %d %s" % (n, kind))
    return run


def indexing(n, w, op):
    """array access with a quantum index: read a copy / swap an element"""
    def run():
        from qrisp import QuantumFloat, QuantumArray
        from qrisp.alg_primitives.iterable_processing import q_indexing, q_swap_into
        idx = QuantumFloat(n, name="i")
        sym_input(idx.reg, "i")
        I = invec("i", n)
        N = 2 ** n
        qa = QuantumArray(QuantumFloat(w), shape=(N,))
        ents = [qa[k].reg for k in range(N)]
        for k in range(N):
            sym_input(ents[k], "a%d" % k)
        sp = Spec()
        sp.reg(idx.reg, I, "index")
        sel = invec("a0", w)
        for k in range(1, N):
            sel = z3.If(I == k, invec("a%d" % k, w), sel)
        if op in ("read", "getitem"):
            r = q_indexing(qa, idx) if op == "read" else qa[idx]
            if op == "getitem":
                # environment: the element can be used inside
                with qa[idx] as entry:
                    pass
            for k in range(N):
                sp.reg(ents[k], invec("a%d" % k, w), "a%d" % k)
            sp.reg(r.reg, sel, "copy")
        else:
            v = QuantumFloat(w, name="v")
            sym_input(v.reg, "v")
            q_swap_into(qa, idx, v)
            for k in range(N):
                sp.reg(ents[k], z3.If(I == k, invec("v", w), invec("a%d" % k, w)), "a%d" % k)
            sp.reg(v.reg, sel, "v")
        return verify_circuit(idx.qs.compile(), sp, tag="array %s by quantum index, %d entries" % (op, N))
    return run


def entry_env(n, w, inv=False):
    """with qa[i] as e: e += 1 acts on the addressed element only"""
    def run():
        from qrisp import QuantumFloat, QuantumArray, x, cx
        idx = QuantumFloat(n, name="i")
        sym_input(idx.reg, "i")
        I = invec("i", n)
        N = 2 ** n
        qa = QuantumArray(QuantumFloat(w), shape=(N,))
        ents = [qa[k].reg for k in range(N)]
        for k in range(N):
            sym_input(ents[k], "a%d" % k)
        sp = Spec()
        sp.reg(idx.reg, I, "index")
        with qa[idx] as e:
            e += 1
        for k in range(N):
            a = invec("a%d" % k, w)
            sp.reg(ents[k], z3.If(I == k, a + 1, a), "a%d" % k)
        return verify_circuit(idx.qs.compile(), sp, tag="element environment %d entries" % N)
    return run


def shift(N, s, kind, w=1):
    def run():
        from qrisp import QuantumFloat, QuantumArray, cyclic_shift, QuantumVariable
        sp = Spec()
        if kind == "qubits":
            q = QuantumVariable(N, name="a")
            ents = [[x] for x in q.reg]
            it = q
        elif kind == "list":
            q = QuantumVariable(N, name="a")
            ents = [[x] for x in q.reg]
            it = list(q.reg)
        else:
            it = q = QuantumArray(QuantumFloat(w), shape=(N,))
            ents = [list(it[k].reg) for k in range(N)]
        for k in range(N):
            sym_input(ents[k], "a%d" % k)
        if isinstance(s, tuple):
            n, signed = s
            idx = QuantumFloat(n, signed=signed, name="s")
            sym_input(idx.reg, "s")
            S = invec("s", len(idx))
            sp.reg(idx.reg, S, "shift")
            cyclic_shift(it, idx)
            width = 8
            amount = z3.SignExt(width - len(idx), S) if signed else z3.ZeroExt(width - len(idx), S)
            am = z3.URem(amount + z3.BitVecVal(N * (64 // N), width), z3.BitVecVal(N, width))
            for k in range(N):
                v = invec("a0", w)
                for t in range(N):
                    v = z3.If(am == t, invec("a%d" % ((k - t) % N), w), v)
                sp.reg(ents[k], v, "a%d" % k)
        else:
            cyclic_shift(it, s)
            for k in range(N):
                sp.reg(ents[k], invec("a%d" % ((k - s) % N), w), "a%d" % k)
        qs = q.qs
        return verify_circuit(qs.compile(), sp, tag="cyclic shift of %d by %s" % (N, s))
    return run


def permute(perm, kind, w=1):
    N = len(perm)

    def run():
        from qrisp import QuantumFloat, QuantumArray, permute_iterable, QuantumVariable
        sp = Spec()
        if kind == "qubits":
            it = q = QuantumVariable(N, name="a")
            ents = [[x] for x in q.reg]
        else:
            it = q = QuantumArray(QuantumFloat(w), shape=(N,))
            ents = [list(it[k].reg) for k in range(N)]
        for k in range(N):
            sym_input(ents[k], "a%d" % k)
        permute_iterable(it, list(perm))
        for k in range(N):
            sp.reg(ents[k], invec("a%d" % perm[k], w), "a%d" % k)
        return verify_circuit(q.qs.compile(), sp, tag="permutation %s" % (perm,))
    return run


def reflect(n, phase, prep):
    """reflection about U|0>: U((1-e^{i phi})|0><0| - I)U^dagger, applied between U^dagger and U"""
    def run():
        from qrisp import QuantumFloat, reflection, invert, h, cx, x
        import numpy as np
        q = QuantumFloat(n, name="q")
        sym_input(q.reg, "q")

        def U(v):
            for i in range(n):
                if (i + prep) % 2:
                    x(v[i])
            if prep:
                h(v[0])
                for i in range(1, n):
                    cx(v[0], v[i])
        U(q)
        reflection(q, U, phase=phase)
        with invert():
            U(q)
        sp = Spec()
        sp.phase = "relative"
        sp.reg(q.reg, invec("q", n), "q")
        # -(e^{i phi}) on |0>, -1 elsewhere: relative phase phi on the all-zero input
        import itertools
        # phi * prod(1 - q_i) expanded into monomials
        for r in range(n + 1):
            for sub in itertools.combinations(range(n), r):
                sp.phase_terms.append(((-1) ** r * phase, tuple("q[%d]" % i for i in sub)))
        return verify_circuit(q.qs.compile(), sp, tag="reflection %d phase %s" % (n, phase))
    return run


def cases(tier):
    import itertools
    import math
    T = tier == "thorough"
    out = []
    for n in ((1, 2, 3, 4) if T else (1, 2, 3)):
        for amount in range(1, 2 ** n + 1):
            if amount > 8 and amount not in (9, 11, 15, 16):
                continue
            for method in ("sequential", "parallel", "tree", "auto"):
                if method == "auto" and (n > 2 or amount % 2):
                    continue
                if method == "parallel" and n > 3:
                    continue
                for mode in ("list", "func"):
                    for inv, ctrl in ((False, False), (True, False), (False, True), (True, True)):
                        if not T and n == 3 and (inv and ctrl):
                            continue
                        if not T and n == 3 and method == "parallel" and (inv or ctrl or amount not in (5, 8)):
                            continue
                        out.append(("switch-%d-%d-%s-%s%s%s" % (n, amount, method, mode, "-inv" * inv, "-ctrl" * ctrl), switch(n, amount, method, mode, inv, ctrl)))
                    if n <= 2 and method in ("sequential", "tree", "parallel"):
                        out.append(("qswitch-%d-%d-%s-%s" % (n, amount, method, mode), switch(n, amount, method, mode, api="qswitch")))
                    if n <= 2 and method in ("sequential", "tree"):
                        out.append(("switch-%d-%d-%s-%s-qubits" % (n, amount, method, mode), switch(n, amount, method, mode, aslist=True)))
    for n in (1, 2, 3) if not T else (1, 2, 3, 4):
        for kind in ("var", "qubit"):
            for par in (False, True):
                out.append(("demux-%d-%s-%d" % (n, kind, par), demux_new(n, kind, par)))
                out.append(("demux-in-%d-%s-%d" % (n, kind, par), demux_inplace(n, kind, par)))
    for n in (1, 2) if not T else (1, 2, 3):
        for w in (1, 2):
            for op in ("read", "swap"):
                out.append(("index-%s-%d-%d" % (op, n, w), indexing(n, w, op)))
            out.append(("element-%d-%d" % (n, w), entry_env(n, w)))
    for N in range(1, 13 if T else 10):
        for s in range(-N, N + 2):
            if not T and N > 5 and s not in (-N + 1, -2, -1, 1, 2, 3, N - 1, N, N + 1):
                continue
            out.append(("shift-%d-%d" % (N, s), shift(N, s, "qubits")))
            if N <= 4:
                out.append(("shift-list-%d-%d" % (N, s), shift(N, s, "list")))
        for s in (1, 2, -1):
            if N in (2, 3, 5):
                out.append(("shift-array-%d-%d" % (N, s), shift(N, s, "array", 2)))
        for s in ((1, False), (2, False), (1, True), (2, True)):
            if 1 < N <= 6 and 2 ** s[0] <= 64:
                out.append(("shift-q-%d-%d%s" % (N, s[0], "us"[s[1]]), shift(N, s, "qubits")))
    for N in range(1, 5):
        for p in itertools.permutations(range(N)):
            out.append(("perm-%s" % "".join(map(str, p)), permute(p, "qubits")))
    for p in ((1, 0, 3, 7, 5, 2, 6, 4), (4, 3, 2, 1, 0), (1, 2, 3, 4, 0), (2, 0, 1, 5, 3, 4), (6, 5, 0, 1, 2, 4, 3)):
        out.append(("perm-%s" % "".join(map(str, p)), permute(p, "qubits")))
        out.append(("perm-array-%s" % "".join(map(str, p)), permute(p, "array", 2)))
    for n in (1, 2, 3):
        for ph in (math.pi, math.pi / 2, math.pi / 4):
            for prep in (0, 1):
                out.append(("reflection-%d-%.2f-%d" % (n, ph, prep), reflect(n, ph, prep)))
    return out
