"""C21: logic and phase synthesis."""
import itertools
import random

from ..prog import sym_input, inbit, invec, Spec, verify_circuit, z3, Violation

LEVEL = "translation_validation"
FUNCTIONS = ["qrisp.alg_primitives.logic_synthesis.truth_tables.{TruthTable,TruthTable.q_synth,TruthTable.gate_synth,LogicSynthGate}",
             "qrisp.alg_primitives.logic_synthesis.gray_synthesis.{gray_synth_qc,GraySynthGate,gray_logic_synth,gray_phase_synth,gray_phase_synth_qb_list,gen_phase_shifts,multi_qb_traversal}",
             "qrisp.alg_primitives.logic_synthesis.pprm_synthesis.{pprm,pprm_synth}", "qrisp.core.quantum_dictionary.QuantumDictionary.{load,__getitem__}",
             "qrisp.misc.utility.{app_phase_function,as_hamiltonian,redirect_qfunction}"]
BOUNDS = ("quick: phase functions of up to 4 bits with a separate symbolic phase per input; every truth table of 1 and 2 inputs and of 3 inputs (one output) for gray, pprm and best, selected tables with "
          "several outputs and 4 inputs, phase tolerant methods and their inverses; dictionaries with integer, tuple and string keys.  thorough: phase functions of 5 bits, 200 tables of 4 inputs.  "
          "Inputs symbolic, targets start in |0>.")
OUTSIDE = "tables with more inputs; dictionary keys that are not stored"
HOW = ("z3 decides target = f(x) for all x (f as nested selection of the table rows), x unchanged, no relative phase (phase tolerant methods: any phase, but cancelled by their inverse).  Phase functions: the "
       "coefficient of each symbolic phase in the path phase must be the indicator of its input, hence equality for all phase values.")


def table_value(rows, x, n):
    """bit-vector with the outputs selected by the bits of x"""
    k = len(rows)
    v = z3.BitVecVal(0, k)
    for r in range(2 ** n):
        w = sum(int(rows[j][r]) << j for j in range(k))
        v = z3.If(x == r, z3.BitVecVal(w, k), v)
    return v


def tables(n, method, group):
    """several tables in one case"""
    def run():
        tot = {}
        for rows in group:
            from qrisp import QuantumVariable, TruthTable
            a = QuantumVariable(n, name="a")
            o = QuantumVariable(len(rows), name="o", qs=a.qs)
            sym_input(a.reg, "a")
            TruthTable(list(rows)).q_synth(a, o, method=method)
            sp = Spec()
            sp.phase = "free" if "pt" in method or method == "best" else "relative"
            sp.reg(a.reg, invec("a", n), "input")
            sp.reg(o.reg, table_value(rows, invec("a", n), n), "output")
            r = verify_circuit(a.qs.compile(), sp, tag="table %s method %s" % (rows, method))
            for k, v in (r or {}).items():
                if isinstance(v, int):
                    tot[k] = tot.get(k, 0) + v
        return tot
    return run


def pt_cancel(n, rows, m1, m2):
    """phase tolerant computation followed by its inverse leaves nothing, phases included"""
    def run():
        from qrisp import QuantumVariable, TruthTable, invert
        a = QuantumVariable(n, name="a")
        o = QuantumVariable(len(rows), name="o", qs=a.qs)
        sym_input(a.reg, "a")
        TruthTable(list(rows)).q_synth(a, o, method=m1)
        if m2 == "invert":
            with invert():
                TruthTable(list(rows)).q_synth(a, o, method=m1)
        elif m2 == "uncompute":
            o.uncompute()
        else:
            TruthTable(list(rows)).q_synth(a, o, method=m2)
        sp = Spec()
        sp.reg(a.reg, invec("a", n), "input")
        if m2 != "uncompute":
            sp.reg(o.reg, z3.BitVecVal(0, len(rows)), "output")
        return verify_circuit(a.qs.compile(), sp, tag="table %s %s then %s" % (rows, m1, m2))
    return run


def gate_case(n, rows, method, inv):
    def run():
        from qrisp import TruthTable, QuantumCircuit
        g = TruthTable(list(rows)).gate_synth(method=method, inv=inv)
        qc = QuantumCircuit(n + len(rows))
        qc.append(g, qc.qubits)
        sp = Spec()
        sp.phase = "free" if "pt" in method or method == "best" else "relative"
        init = {q: ("a[%d]" % i if i < n else "o[%d]" % (i - n)) for i, q in enumerate(qc.qubits)}
        if "pt" in method or method == "best":
            init = {q: nme for q, nme in init.items() if nme[0] == "a"}
            tgt = z3.BitVecVal(0, len(rows))
        else:
            tgt = invec("o", len(rows))
        if inv and (method == "best" or "pt" in method):
            # inverse maps f(x) back to 0
            raise Exception("not used")
        sp.reg(qc.qubits[:n], invec("a", n), "input")
        sp.reg(qc.qubits[n:], tgt ^ table_value(rows, invec("a", n), n), "output")
        return verify_circuit(qc, sp, init=init, tag="gate of table %s %s" % (rows, method))
    return run


def expr_table(s, names):
    def run():
        import sympy
        from qrisp import QuantumVariable, TruthTable
        e = sympy.sympify(s)
        n = len(names)
        a = QuantumVariable(n, name="a")
        o = QuantumVariable(1, name="o", qs=a.qs)
        sym_input(a.reg, "a")
        TruthTable(e).q_synth(a, o, method="gray")
        # symbols in alphabetical order, first one is the first qubit
        env = {nm: z3.If(inbit("a[%d]" % i), z3.IntVal(1), z3.IntVal(0)) for i, nm in enumerate(sorted(names))}
        v = eval(s, {}, env)
        sp = Spec()
        sp.reg(a.reg, invec("a", n), "input")
        sp.reg(o.reg, [v % 2 == 1], "output")
        return verify_circuit(a.qs.compile(), sp, tag="expression %s" % s)
    return run


def indicator_terms(sp, ang, x, names):
    """phase ang if the bits `names` read x, expanded into monomials"""
    n = len(names)
    pos = [names[i] for i in range(n) if x >> i & 1]
    negs = [names[i] for i in range(n) if not x >> i & 1]
    for r in range(len(negs) + 1):
        for sub in itertools.combinations(negs, r):
            sp.phase_terms.append(((-1) ** r * ang, tuple(pos) + sub))


def phase_fun(sizes, api, sparse=None, ctrl=False, t=1, inv=False):
    def run():
        import sympy
        from qrisp import QuantumFloat, as_hamiltonian, control, QuantumBool, invert
        from qrisp.misc.utility import app_phase_function
        import qrisp
        qs = [QuantumFloat(s, name="x%d" % i) for i, s in enumerate(sizes)]
        n = sum(sizes)
        names = []
        for q, s, i in zip(qs, sizes, range(len(sizes))):
            sym_input(q.reg, "x%d" % i)
            names += ["x%d[%d]" % (i, j) for j in range(s)]
        syms = {}

        def f(*labels):
            k, sh = 0, 0
            for lab, s in zip(labels, sizes):
                k |= int(lab) << sh
                sh += s
            if sparse is not None and k not in sparse:
                return 0
            return syms.setdefault(k, sympy.Symbol("ph%d" % k, real=True))

        def call():
            if api == "as_hamiltonian":
                as_hamiltonian(f)(*qs, t=t)
            elif api == "app":
                app_phase_function(qs, f, t=t)
            elif api == "gray":
                qrisp.gray_phase_synth(qs[0], [f(i) * t for i in range(2 ** n)])
        sp = Spec()
        if len(qs) > 1:
            qrisp.merge(qs)
        if ctrl:
            c = QuantumBool(name="c")
            sym_input(c.reg, "c")
            with control(c):
                call()
            sp.reg(c.reg, [inbit("c[0]")], "control")
        elif inv:
            with invert():
                call()
        else:
            call()
        for q, s, i in zip(qs, sizes, range(len(sizes))):
            sp.reg(q.reg, invec("x%d" % i, s), "x%d" % i)
        for k, s in syms.items():
            key = k
            if api == "gray":
                # gray_phase_synth reads the register with its first qubit as most significant bit
                pass
            nm = list(names)
            ang = s * t * (-1 if inv else 1)
            if ctrl:
                indicator_terms(sp, ang, key | 1 << n, nm + ["c[0]"])
            else:
                indicator_terms(sp, ang, key, nm)
        return verify_circuit(qs[0].qs.compile(), sp, tag="phase function %s of %s bits t=%s" % (api, sizes, t))
    return run


def gray_list(n):
    """gray_phase_synth_qb_list: i-th phase for the i-th state with the first listed qubit most significant"""
    def run():
        import sympy
        from qrisp import QuantumFloat, gray_phase_synth_qb_list
        q = QuantumFloat(n, name="q")
        sym_input(q.reg, "q")
        ph = [sympy.Symbol("ph%d" % i, real=True) for i in range(2 ** n)]
        gray_phase_synth_qb_list(q.qs, list(q.reg)[::-1], ph)
        sp = Spec()
        sp.reg(q.reg, invec("q", n), "q")
        for i, s in enumerate(ph):
            indicator_terms(sp, s, i, ["q[%d]" % j for j in range(n)])
        return verify_circuit(q.qs.compile(), sp, tag="gray_phase_synth_qb_list %d" % n)
    return run


def dictionary(kind, method, how):
    def run():
        from qrisp import QuantumDictionary, QuantumFloat, QuantumVariable, QuantumString, QuantumChar, merge
        from qrisp.misc.utility import custom_qv
        sp = Spec()
        rt = QuantumFloat(3, -1, signed=True)
        if kind == "int":
            d = {0: 1.5, 1: -2, 2: 0, 3: -0.5, 5: 3.5, 7: -4}
            keys = [QuantumFloat(3, name="k0")]
        elif kind == "signed":
            d = {-2: 1, -1: 0.5, 0: -3, 1: 2.5}
            keys = [QuantumFloat(1, 0, signed=True, name="k0")]
        elif kind == "tuple":
            d = {(0, 2): 3.5, (1, 2): 1, (1, 0): -4, (0, 3): -1.5, (1, 3): 0.5}
            keys = [QuantumFloat(1, name="k0"), QuantumFloat(2, name="k1")]
        elif kind == "tuple3":
            d = {(0, 1, 2): 3.5, (1, 0, 0): 1, (1, 1, 3): -4, (0, 0, 1): -1.5}
            keys = [QuantumFloat(1, name="k0"), QuantumFloat(1, name="k1"), QuantumFloat(2, name="k2")]
        elif kind == "custom":
            labels = ["red", "green", "blue"]
            d = {"red": 2, "green": -1, "blue": 0.5}
            keys = [custom_qv(labels, name="k0")]
        qd = QuantumDictionary(d, return_type=None if how == "untyped" else rt)
        for i, k in enumerate(keys):
            sym_input(k.reg, "k%d" % i)
        key = keys[0] if len(keys) == 1 else tuple(keys)
        if len(keys) > 1:
            merge(keys)
        if how == "load":
            v = rt.duplicate()
            qd.load(key, v, synth_method=method)
        else:
            v = qd[key] if method == "gray" else qd.load(key, synth_method=method)
        dom, val = [], z3.BitVecVal(0, len(v))
        for lab, res in d.items():
            labs = lab if isinstance(lab, tuple) else (lab,)
            cond = z3.And(*[invec("k%d" % i, len(k)) == k.encoder(l) for i, (k, l) in enumerate(zip(keys, labs))])
            dom.append(cond)
            # the code of the value is fixed by the documented format, or by the decoder for untyped results
            if how == "untyped":
                code = [c for c in range(2 ** len(v)) if v.decoder(c) == res][0]
            else:
                code = int(res * 2) % 16
            val = z3.If(cond, z3.BitVecVal(code, len(v)), val)
        sp.assume.append(z3.Or(*dom))
        sp.phase = "free" if "pt" in method else "relative"
        for i, k in enumerate(keys):
            sp.reg(k.reg, invec("k%d" % i, len(k)), "key%d" % i)
        sp.reg(v.reg, val, "value")
        merge(keys + [v])
        return verify_circuit(keys[0].qs.compile(), sp, tag="dictionary %s %s %s" % (kind, method, how))
    return run


def cases(tier):
    T = tier == "thorough"
    rnd = random.Random(3)
    out = []
    for m in ("gray", "gray_pt", "pprm", "pprm_pt", "best"):
        for n in (1, 2, 3):
            if n == 1 and m in ("gray", "gray_pt"):
                pass
            allr = ["".join(r) for r in itertools.product("01", repeat=2 ** n)]
            if n == 3 and m in ("gray_pt", "pprm_pt", "best") and not T:
                allr = allr[::5]
            size = 16
            for i in range(0, len(allr), size):
                out.append(("table-%s-%d-%d" % (m, n, i), tables(n, m, [(r,) for r in allr[i:i + size]])))
        for n, k, cnt in ((2, 2, 6), (2, 3, 4), (3, 2, 6), (3, 4, 3), (4, 1, 6 if not T else 200), (4, 2, 3)):
            for c in range(cnt):
                rows = tuple("".join(rnd.choice("01") for _ in range(2 ** n)) for _ in range(k))
                out.append(("multi-%s-%d-%d-%d" % (m, n, k, c), tables(n, m, [rows])))
    for n, k in ((2, 1), (3, 1), (3, 2), (4, 1)):
        for c in range(4):
            rows = tuple("".join(rnd.choice("01") for _ in range(2 ** n)) for _ in range(k))
            for m1, m2 in (("gray_pt", "invert"), ("gray_pt", "gray_pt_inv"), ("gray", "gray"), ("pprm", "pprm"), ("pprm_pt", "invert"), ("gray", "invert"), ("gray", "uncompute"), ("gray_pt", "uncompute"), ("pprm", "uncompute"),
                           ("pprm_pt", "uncompute")):
                out.append(("cancel-%d-%d-%d-%s-%s" % (n, k, c, m1, m2), pt_cancel(n, rows, m1, m2)))
            for m in ("gray", "pprm", "best", "gray_pt"):
                out.append(("gate-%d-%d-%d-%s" % (n, k, c, m), gate_case(n, rows, m, False)))
            for m in ("gray", "pprm"):
                out.append(("gate-%d-%d-%d-%s-inv" % (n, k, c, m), gate_case(n, rows, m, True)))
    for s, names in (("x*y + z", "xyz"), ("x + y + z", "xyz"), ("a*b*c + a + b", "abc"), ("x*y + y*z + x*z", "xyz"), ("x0*x1 + x2*x3", ["x0", "x1", "x2", "x3"]), ("b + 1", "b")):
        out.append(("expr-%s" % s.replace(" ", ""), expr_table(s, list(names))))
    for sizes in ((1,), (2,), (3,), (4,), (1, 1), (1, 2), (2, 1), (2, 2), (1, 1, 2)) + (((5,),) if T else ()):
        for api in ("as_hamiltonian", "app"):
            out.append(("phase-%s-%s" % (api, "_".join(map(str, sizes))), phase_fun(sizes, api)))
        n = sum(sizes)
        if n > 1:
            out.append(("phase-sparse-%s" % "_".join(map(str, sizes)), phase_fun(sizes, "app", sparse={1, 2 ** n - 2})))
        out.append(("phase-t-%s" % "_".join(map(str, sizes)), phase_fun(sizes, "as_hamiltonian", t=3)))
        out.append(("phase-inv-%s" % "_".join(map(str, sizes)), phase_fun(sizes, "as_hamiltonian", inv=True)))
        if n <= 3:
            out.append(("phase-ctrl-%s" % "_".join(map(str, sizes)), phase_fun(sizes, "as_hamiltonian", ctrl=True)))
    for n in (1, 2, 3, 4) + ((5,) if T else ()):
        out.append(("gray-list-%d" % n, gray_list(n)))
    for kind in ("int", "signed", "tuple", "tuple3", "custom"):
        for m in ("gray", "gray_pt", "pprm", "pprm_pt"):
            for how in ("getitem", "load", "untyped"):
                out.append(("dict-%s-%s-%s" % (kind, m, how), dictionary(kind, m, how)))
    return out
