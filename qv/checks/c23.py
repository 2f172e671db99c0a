"""C23: backends deliver the right counts to the right request."""
import itertools
import sys
import types
import warnings

import numpy as np

from ..intsym import Run, Num, fork, pick, term
from ..pathsum import Undecided
from ..prog import Violation, Spec, inbit, sym_input, verify_circuit
from ..smt import z3, check

LEVEL = "bounded"
TECH = "symbolic execution of the Python implementation with symbolic shot numbers, counts, failure points and operation sequences; path conditions and results decided by an SMT solver"
FUNCTIONS = ["qrisp.interface.batched_backend.BatchedBackend.{run, dispatch, _submit_chunk, clear, update_options, pending_count}", "qrisp.interface.backend.Backend.{run, _validate_shots, _validate_shots_length, _check_circuit_limit, update_options}",
             "qrisp.interface.measurement_result.{MeasurementResult, DecodedMeasurementResult, MultiMeasurementResult, _IntKeyedResult, LazyDict}", "QrispSimulatorBackend / VirtualBackend / StimBackend.run_async and their jobs",
             "QiskitJob, AQTJob, IQMJob.{result, status, cancel}", "Job._raise_for_status", "qrisp.misc.utility.{get_measurement_from_qc, multi_measurement}", "QuantumVariable.get_measurement", "QuantumArray.get_measurement"]
BOUNDS = ("All sequences of 4 operations (thorough: 5) out of {submit with / without shots, submit two circuits, dispatch, clear, change default shots}, all integer shot numbers, circuit limits none, 1, 2, a possible failure at every "
          "submission and every result; job objects of the provider backends under all sequences of 4 polls with an arbitrary remote state each time; count dictionaries with up to 8 outcomes and arbitrary non-negative counts; "
          "measurement of registers of up to 4 qubits.")
OUTSIDE = "threads, real network providers (recording stand-ins replace the remote job objects), sampling statistics of the simulator, time limits"
HOW = ("The real classes are executed with numbers that are solver terms; every branch on them is explored.  A model of the queue in this file says which request gets which counts; the solver decides equality of shot numbers and "
       "probabilities on every path.  For get_measurement the produced circuit is executed symbolically to decide which qubit each bit of the outcome string stands for.")
TRUSTED = "z3; proxy numbers of qv/intsym.py; the queue model in this file"


class Tok:
    """opaque count value"""

    def __init__(self, circ, shots):
        self.circ, self.shots = circ, shots


class Boom(Exception):
    pass


def same(a, b):
    """shot numbers equal on the current path"""
    if a is None or b is None:
        return a is None and b is None
    run = Run.current
    r, m = check(*(run.assume + run.cond + [term(a) != term(b)]))
    run.queries += 1
    if r == "unknown":
        raise Undecided("shot numbers")
    return r == "unsat"


def witness(cond):
    r, m = check(*cond)
    return {str(d): str(m[d]) for d in m} if r == "sat" else {}


def fake_backend(limit, tag):
    from qrisp.interface import Backend
    from qrisp.interface.job import Job, JobResult, JobStatus

    class FakeJob(Job):
        def __init__(self, backend, circuits, shots, n):
            super().__init__(backend=backend)
            self.args = circuits, shots, n

        def result(self, timeout=None):
            circuits, shots, n = self.args
            if fork(z3.Bool("fail_result%d" % n)):
                e = Boom("result %d" % n)
                self._backend.raised.append(e)
                raise e
            sl = shots if isinstance(shots, list) else [shots] * len(circuits)
            return JobResult([{"0": Tok(c, s)} for c, s in zip(circuits, sl)])

        def cancel(self):
            return False

        def status(self):
            return JobStatus.DONE

    class Fake(Backend):
        @classmethod
        def _default_options(cls):
            return {"shots": Num(z3.Int("default"))}

        @property
        def max_circuits(self):
            return limit

        def run_async(self, circuits, shots=None):
            n = len(self.jobs)
            self.jobs.append((list(circuits) if not hasattr(circuits, "data") else [circuits], shots))
            if fork(z3.Bool("fail_submit%d" % n)):
                e = Boom("submit %d" % n)
                self.raised.append(e)
                raise e
            return FakeJob(self, self.jobs[-1][0], shots, n)
    b = Fake()
    b.jobs = []
    b.raised = []
    return b


OPS = ["submit", "submit-shots", "submit-two", "dispatch", "clear", "options"]


def history(first, length, limit):
    def body():
        from qrisp import QuantumCircuit
        be = fake_backend(limit, "")
        bb = be.batched()
        default = Num(z3.Int("default"))
        pend, model = [], []     # model: [result, circuit, shots, state]
        names = []

        def fail(msg):
            raise Violation("operations %s, circuit limit %s: %s" % (names, limit, msg))
        for k in range(length):
            op = first[k] if k < len(first) else pick("op%d" % k, len(OPS))
            names.append(OPS[op])
            if op in (0, 1, 2):
                circs = [QuantumCircuit(1) for _ in range(2 if op == 2 else 1)]
                s = Num(z3.Int("shots%d" % k)) if op else None
                try:
                    r = bb.run(circs if op == 2 else circs[0], shots=s)
                except ValueError:
                    if s is None or not fork(term(s) <= 0):
                        fail("valid shots refused")
                    continue
                if s is not None and fork(term(s) <= 0):
                    fail("shots <= 0 accepted")
                if op == 2 and not (isinstance(r, list) and len(r) == 2) or op != 2 and isinstance(r, list):
                    fail("wrong kind of result")
                for c, x in zip(circs, r if op == 2 else [r]):
                    pend.append([x, c, s if s is not None else default, "pending"])
                    model.append(pend[-1])
            elif op == 3:
                nj = len(be.jobs)
                nr = len(be.raised)
                err = None
                try:
                    with warnings.catch_warnings():
                        warnings.simplefilter("ignore")
                        bb.dispatch()
                except Boom as e:
                    err = e
                step = limit or max(1, len(pend))
                chunks = [pend[i:i + step] for i in range(0, len(pend), step)]
                done = len(be.jobs) - nj
                if err is None and done != len(chunks):
                    fail("%d jobs instead of %d" % (done, len(chunks)))
                if err is not None and be.raised[nr:] != [err]:
                    fail("dispatch raised something else than the failure of the backend")
                if err is None and be.raised[nr:]:
                    fail("a failure of the backend is swallowed")
                for i, ch in enumerate(chunks):
                    if i < done:
                        circs, sh = be.jobs[nj + i]
                        if limit is not None and len(circs) > limit:
                            fail("job with %d circuits" % len(circs))
                    for q in ch:
                        q[3] = "ok" if err is None or i < done - 1 else err
                pend = []
            elif op == 4:
                bb.clear()
                for q in pend:
                    q[3] = "dropped"
                pend = []
            else:
                u = Num(z3.Int("option%d" % k))
                try:
                    bb.update_options(shots=u)
                except ValueError:
                    if not fork(term(u) <= 0):
                        fail("valid option refused")
                    continue
                if fork(term(u) <= 0):
                    fail("option shots <= 0 accepted")
                default = u
            if bb.pending_count != len(pend):
                fail("pending_count %s instead of %d" % (bb.pending_count, len(pend)))
        for q in model:
            res, circ, shots, state = q
            try:
                data = dict(res)
                got = "ok"
            except Boom as e:
                got = e
            except RuntimeError:
                got = "pending"
            want = "pending" if state == "dropped" else state
            if got is not want and got != want:
                fail("a request that should be %s reads as %s" % (want, got))
            if got == "ok":
                tok = data.get("0")
                if not isinstance(tok, Tok) or tok.circ is not circ:
                    fail("a request got the counts of another circuit")
                if not same(tok.shots, shots):
                    fail("a request was executed with another shot number")
        return len(model)

    def run():
        ex = Run(assume=[z3.Int("default") > 0])
        n = 0
        try:
            for cond, r in ex.explore(body):
                n += 1
        except Violation as e:
            raise Violation(str(e) + "; values %s" % witness(ex.assume + ex.cond), {"values": witness(ex.assume + ex.cond)})
        return {"paths": n, "queries": ex.queries}
    return run


def direct(kind, limit):
    """Backend.run: one circuit or a list, with or without shots"""
    def body():
        from qrisp import QuantumCircuit
        be = fake_backend(limit, "")
        circs = [QuantumCircuit(1) for _ in range(kind)]
        s = None if pick("given", 2) == 0 else Num(z3.Int("shots"))
        arg = circs if kind != 0 else QuantumCircuit(1)
        try:
            r = be.run(arg, shots=s)
        except ValueError:
            if s is not None and fork(term(s) <= 0):
                return
            if limit is not None and kind > limit:
                if be.jobs:
                    raise Violation("circuits submitted although the limit is exceeded")
                return
            raise Violation("valid request refused")
        except Boom as e:
            if be.raised != [e]:
                raise Violation("other error than that of the backend")
            return
        if be.raised:
            raise Violation("failure of the backend swallowed")
        if s is not None and fork(term(s) <= 0):
            raise Violation("shots <= 0 accepted")
        if limit is not None and kind > limit:
            raise Violation("circuit limit ignored")
        rs = r if kind != 0 else [r]
        want = circs if kind != 0 else [arg]
        if len(rs) != len(want):
            raise Violation("%d results for %d circuits" % (len(rs), len(want)))
        for x, c in zip(rs, want):
            t = dict(x)["0"]
            if t.circ is not c or not same(t.shots, s if s is not None else Num(z3.Int("default"))):
                raise Violation("wrong circuit or shot number delivered")
    return explorer(body, [z3.Int("default") > 0], "Backend.run of %s, limit %s" % (kind or "one circuit", limit))


def explorer(body, assume, tag):
    def run():
        ex = Run(assume=assume)
        n = 0
        try:
            for cond, r in ex.explore(body):
                n += 1
        except Violation as e:
            w = witness(ex.assume + ex.cond)
            raise Violation("%s: %s; values %s" % (tag, e, w), {"values": w})
        return {"paths": n, "queries": ex.queries}
    return run


def local_backend(which):
    """run_async of the simulator style backends: every circuit with its own shot number, failures reported"""
    def body():
        from qrisp import QuantumCircuit
        from qrisp.interface.job import JobFailureError
        calls = []
        err = []

        def fake_run(c, s, *a):
            n = len(calls)
            calls.append((c, s))
            if fork(z3.Bool("fail%d" % n)):
                err.append(Boom("run %d" % n))
                raise err[-1]
            return {"0": Tok(c, s)}
        if which == "qrisp":
            import qrisp.interface.simulators.qrisp_simulator_backend as mod
            old, attr = mod.default_run, "default_run"
            be = mod.QrispSimulatorBackend()
        elif which == "stim":
            import qrisp.interface.simulators.stim_backend as mod
            old, attr = mod._run_on_stim, "_run_on_stim"
            be = mod.StimBackend()
        else:
            import qrisp.interface.virtual_backend as mod
            old, attr = None, None
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                be = mod.VirtualBackend(fake_run)
        if attr:
            setattr(mod, attr, fake_run)
        try:
            n = 1 + pick("circuits", 3)
            circs = [QuantumCircuit(k + 1) for k in range(n)]
            mode = pick("mode", 4)          # default, one number, list, list of wrong length
            default = Num(z3.Int("default"))
            be.update_options(shots=default)
            sh = [None, Num(z3.Int("s")), [Num(z3.Int("s%d" % k)) for k in range(n)], [Num(z3.Int("s%d" % k)) for k in range(n + 1)]][mode]
            want = [default] * n if mode == 0 else [sh] * n if mode == 1 else sh
            try:
                job = be.run_async(circs if n > 1 else circs[0], sh)
            except ValueError:
                if mode == 3:
                    return
                raise
            if mode == 3:
                raise Violation("a list of %d shot numbers is accepted for %d circuits" % (n + 1, n))
            try:
                res = job.result().all_counts
            except JobFailureError as e:
                if not err or e.__cause__ is not err[0]:
                    raise Violation("failure reported without cause")
                if job.done() or not job.in_final_state():
                    raise Violation("status of a failed job")
                return
            if err:
                raise Violation("failure not reported")
            if not job.done():
                raise Violation("status of a finished job")
            if len(res) != n:
                raise Violation("%d results for %d circuits" % (len(res), n))
            for k in range(n):
                c = circs[k] if which != "virtual" else circs[k].qasm()
                t = res[k]["0"]
                if (t.circ is not c if which != "virtual" else t.circ != c) or not same(t.shots, want[k]):
                    raise Violation("circuit %d got the counts of another request" % k)
        finally:
            if attr:
                setattr(mod, attr, old)
    return explorer(body, [z3.Int("default") > 0], which + " backend")


# ------------------------------------------------------------------ provider jobs
STATES = ["QUEUED", "RUNNING", "DONE", "ERROR", "CANCELLED"]
CALLS = ["result", "status", "done", "cancel"]


class Remote:
    """remote job in an arbitrary state at every contact; final states stay"""

    def __init__(self, counts):
        self.state = "QUEUED"
        self.n = 0
        self.counts = counts

    def advance(self):
        if self.state not in ("DONE", "ERROR", "CANCELLED"):
            self.state = STATES[pick("remote%d" % self.n, 5)]
            self.n += 1

    def finish(self):
        """a blocking call returns in a final state"""
        if self.state not in ("DONE", "ERROR", "CANCELLED"):
            self.state = ["DONE", "ERROR", "CANCELLED"][pick("final%d" % self.n, 3)]
            self.n += 1
        if self.state != "DONE":
            raise Boom(self.state)


def provider_job(which, first):
    def body():
        from qrisp.interface.job import JobResult, JobFailureError, JobCancelledError
        counts = [{"01": Num(z3.Int("c0")), "10": Num(z3.Int("c1"))}, {"11": Num(z3.Int("c2"))}]
        rem = Remote(counts)
        if which == "qiskit":
            from qrisp.interface.provider_backends.qiskit_backend import QiskitJob

            class Reg:
                def __init__(self, c):
                    self.c = c

                def get_counts(self):
                    return dict(self.c)

            class Data:
                def __init__(self, c):
                    self.c = Reg(c)

                def __iter__(self):
                    return iter(["c"])

            class Pub:
                def __init__(self, c):
                    self.data = Data(c)

            class Q:
                def job_id(self):
                    return "id"

                def status(self):
                    rem.advance()
                    return rem.state

                def result(self, timeout=None):
                    rem.finish()
                    return [Pub(c) for c in counts]

                def cancel(self):
                    if rem.state not in ("DONE", "ERROR"):
                        rem.state = "CANCELLED"
            job = QiskitJob(None, Q(), 2)
        elif which == "aqt":
            from qrisp.interface.provider_backends.aqt_backend import AQTJob

            class Res:
                quasi_dists = [{int(k, 2): v for k, v in c.items()} for c in counts]

            class A:
                def status(self):
                    rem.advance()
                    return types.SimpleNamespace(name=rem.state)

                def result(self):
                    rem.finish()
                    return Res()
            job = AQTJob(None, A(), [2, 2])
        else:
            from qrisp.interface.provider_backends.iqm_backend import IQMJob
            names = {"QUEUED": "waiting", "RUNNING": "processing", "DONE": "completed", "ERROR": "failed", "CANCELLED": "cancelled"}

            class I:
                job_id = "id"

                @property
                def status(self):
                    return types.SimpleNamespace(value=names[rem.state])

                def update(self):
                    rem.advance()

                def wait_for_completion(self):
                    try:
                        rem.finish()
                    except Boom:
                        pass
                    return FAKE_IQM[rem.state]

                def cancel(self):
                    if rem.state not in ("DONE", "ERROR"):
                        rem.state = "CANCELLED"

            class C:
                def get_job_measurement_counts(self, j):
                    return [types.SimpleNamespace(counts={k[::-1]: v for k, v in c.items()}) for c in counts]
            mods = {}
            for m in ("iqm", "iqm.iqm_client", "iqm.iqm_client.iqm_client"):
                mods[m] = sys.modules.get(m)
                sys.modules[m] = types.ModuleType(m)
            sys.modules["iqm.iqm_client.iqm_client"].JobStatus = types.SimpleNamespace(COMPLETED=FAKE_IQM["DONE"], CANCELLED=FAKE_IQM["CANCELLED"])
            job = IQMJob(None, I(), [1, 1], C())
        names_ = []
        try:
            job.submit()
            for k in range(4):
                op = first[k] if k < len(first) else pick("call%d" % k, len(CALLS))
                names_.append(CALLS[op])
                if op == 0:
                    try:
                        r = job.result()
                    except JobCancelledError:
                        if rem.state != "CANCELLED":
                            raise Violation("%s: reported as cancelled, remote job is %s" % (names_, rem.state))
                        continue
                    except JobFailureError:
                        if rem.state not in ("ERROR", "CANCELLED"):
                            raise Violation("%s: reported as failed, remote job is %s" % (names_, rem.state))
                        continue
                    if rem.state != "DONE":
                        raise Violation("%s: result %r although the remote job is %s" % (names_, r, rem.state))
                    if not isinstance(r, JobResult):
                        raise Violation("%s: result is %r" % (names_, r))
                    got = r.all_counts
                    if len(got) != 2 or any(set(a) != set(b) for a, b in zip(got, counts)):
                        raise Violation("%s: outcomes %s" % (names_, got))
                    for a, b in zip(got, counts):
                        for key in b:
                            if not same(a[key], b[key]):
                                raise Violation("%s: wrong count for %s" % (names_, key))
                elif op == 1:
                    st = job.status()
                    want = {"QUEUED": "queued", "RUNNING": "running", "DONE": "done", "ERROR": "error", "CANCELLED": "cancelled"}[rem.state]
                    if str(st) != want or job.last_known_status != st:
                        raise Violation("%s: status %s, remote job is %s" % (names_, st, rem.state))
                elif op == 2:
                    if job.done() != (rem.state == "DONE"):
                        raise Violation("%s: done() is wrong, remote job is %s" % (names_, rem.state))
                else:
                    before = rem.state
                    c = job.cancel()
                    if c and before in ("DONE", "ERROR") and which != "iqm":
                        raise Violation("%s: cancel of a finished job reported as success" % names_)
                    if c and before not in ("DONE", "ERROR") and rem.state != "CANCELLED":
                        raise Violation("%s: cancel reported but not forwarded" % names_)
        finally:
            if which == "iqm":
                for m, v in mods.items():
                    if v is None:
                        sys.modules.pop(m, None)
                    else:
                        sys.modules[m] = v
    return explorer(body, [z3.Int("c%d" % k) >= 0 for k in range(3)], which + " job")


FAKE_IQM = {s: types.SimpleNamespace(value=s.lower()) for s in STATES}


# ------------------------------------------------------------------ decoding of counts
def inject(raw):
    from qrisp.interface.measurement_result import MeasurementResult
    r = MeasurementResult()
    r._inject(raw)
    return r


def equal(pairs, tag):
    """all pairs of terms equal on the current path; total > 0"""
    run = Run.current
    r, m = check(*(run.assume + run.cond + [z3.Not(z3.And(*[a == b for a, b in pairs]))]))
    run.queries += 1
    if r == "unknown":
        raise Undecided(tag)
    if r == "sat":
        raise Violation("%s: counts %s" % (tag, {str(d): str(m[d]) for d in m}))


def counts(keys, kind):
    sort = z3.Int if kind == "int" else z3.Real
    V = {k: sort("n_" + k.replace(" ", "_")) for k in keys}
    assume = [v >= 0 for v in V.values()]
    if kind == "prob":
        assume.append(z3.Sum(list(V.values())) == 1)
    else:
        assume.append(z3.Sum(list(V.values())) >= 1)
    return V, assume


def real(t):
    return z3.ToReal(t) if z3.is_int(t) else t


def int_keyed(keys, bits, kind):
    V, assume = counts(keys, kind)

    def body():
        from qrisp.interface.measurement_result import _IntKeyedResult
        res = _IntKeyedResult(inject({k: Num(v) for k, v in V.items()}), bits)
        ref = {}
        for k in keys:
            ref.setdefault(int(k.replace(" ", "")[:bits], 2), []).append(V[k])
        tot = z3.Sum([real(v) for v in V.values()])
        d = dict(res)
        if set(d) != set(ref):
            raise Violation("outcomes %s instead of %s" % (sorted(d), sorted(ref)))
        pairs = []
        for k in ref:
            if kind == "prob" or not fork(z3.And(tot != 1)):
                pairs.append((real(term(d[k])), z3.Sum([real(v) for v in ref[k]])))
            else:
                pairs.append((real(term(d[k])) * tot, z3.Sum([real(v) for v in ref[k]])))
        equal(pairs, "probabilities are not the normalised counts")
    return explorer(body, assume, "integer keys %s, %d bits" % (keys, bits))


def decoded(n, table, kind):
    """decoder may map several outcomes to one label"""
    keys = [format(i, "0%db" % n) for i in range(2 ** n)][:len(table)]
    V, assume = counts(keys, kind)

    def body():
        from qrisp.interface.measurement_result import _IntKeyedResult, DecodedMeasurementResult
        res = DecodedMeasurementResult(_IntKeyedResult(inject({k: Num(v) for k, v in V.items()}), n), lambda i: table[i])
        ref = {}
        for i, k in enumerate(keys):
            ref.setdefault(table[i], []).append(V[k])
        tot = z3.Sum([real(v) for v in V.values()])
        d = dict(res)
        if set(d) != set(ref):
            raise Violation("labels %s instead of %s" % (sorted(map(str, d)), sorted(map(str, ref))))
        equal([(real(term(d[k])) * tot, z3.Sum([real(v) for v in ref[k]])) for k in ref], "probabilities of the labels are not the merged counts")
        vals = [real(term(v)) for v in d.values()]
        r, m = check(*(Run.current.assume + Run.current.cond + [z3.Or(*[a < b for a, b in zip(vals, vals[1:])])]) if len(vals) > 1 else [z3.BoolVal(False)])
        if r == "sat":
            raise Violation("labels are not ordered by probability")
    return explorer(body, assume, "decoder %s" % (table,))


def multi(widths, tables, kind, keys=None):
    """MultiMeasurementResult with decoders that may merge outcomes"""
    n = sum(widths)
    keys = keys or [format(i, "0%db" % n) for i in range(2 ** n)]
    V, assume = counts(keys, kind)

    def body():
        from qrisp.interface.measurement_result import MultiMeasurementResult

        class QV:
            def __init__(self, table):
                if table is not None:
                    self.decoder = lambda i: table[i]
        qvs = [QV(t) for t in tables]
        regs = [list(range(w)) for w in widths][::-1]
        res = MultiMeasurementResult(inject({k: Num(v) for k, v in V.items()}), qvs, regs)
        ref = {}
        for k in keys:
            off = 0
            lab = []
            for w, t in zip(widths, tables):
                i = int(k.replace(" ", "")[off:off + w], 2)
                off += w
                lab.append(t[i] if t is not None else i)
            ref.setdefault(tuple(lab), []).append(V[k])
        tot = z3.Sum([real(v) for v in V.values()])
        d = dict(res)
        if set(d) != set(ref):
            raise Violation("labels %s instead of %s" % (sorted(map(str, d)), sorted(map(str, ref))))
        equal([(real(term(d[k])) * tot, z3.Sum([real(v) for v in ref[k]])) for k in ref], "probabilities of the labels are not the merged counts")
    return explorer(body, assume, "multi measurement of registers %s, decoders %s" % (widths, tables))


# ------------------------------------------------------------------ which bit is which qubit
def end_to_end(build, tag, how="get"):
    """the circuit sent to the backend, the outcome string and the returned label agree for all basis states"""
    def run():
        from qrisp import QuantumArray, multi_measurement
        from qrisp.interface import Backend
        from qrisp.interface.job import Job, JobResult, JobStatus
        got = {}

        class J_(Job):
            def result(self, timeout=None):
                return JobResult([{"0" * n: 1} for n in [len(got["qc"].clbits)]])

            def cancel(self):
                return False

            def status(self):
                return JobStatus.DONE

        class B(Backend):
            def run_async(self, circuits, shots=None):
                got["qc"] = circuits if hasattr(circuits, "data") else circuits[0]
                got["shots"] = shots
                return J_(self)
        regs, call, label = build()
        # symbolic basis state in every register
        expect = []          # (value of the register as z3, register)
        sp = Spec()
        for name, qs in regs:
            sym_input(qs, name)
        res = call(B())
        first = dict(res)
        qc = got["qc"]
        n = len(qc.clbits)
        # outcome string: last classical bit first
        bits = {}
        sp.phase = "free"
        sp.rest_zero = False
        sp.allow_env = True
        order = label([(name, len(qs)) for name, qs in regs])     # names of the input bits from the leftmost character of the string
        if len(order) != n:
            raise Violation("%s: %d classical bits for %d qubits" % (tag, n, len(order)))
        for pos, bit in enumerate(order):
            sp.clexpect[qc.clbits[n - 1 - pos]] = inbit(bit)
        for name, qs in regs:
            for q in qs:
                sp.free.add(q)
        if got["shots"] != 321:
            raise Violation("%s: %s shots requested instead of 321" % (tag, got["shots"]))
        r = verify_circuit(qc, sp, tag=tag)
        return r
    return run


def measured(tag):
    """get_measurement / multi_measurement programs: registers, call, order of the bits in the outcome string"""
    def msb(name, n):
        return ["%s[%d]" % (name, i) for i in reversed(range(n))]

    def build():
        from qrisp import QuantumVariable, QuantumFloat, QuantumBool, QuantumArray, QuantumModulus, multi_measurement, x
        if tag == "var":
            a = QuantumVariable(3)
            return [("a", a.reg)], lambda b: a.get_measurement(backend=b, shots=321), lambda r: msb("a", 3)
        if tag == "float":
            a = QuantumFloat(3, -1, signed=True)
            return [("a", a.reg)], lambda b: a.get_measurement(backend=b, shots=321), lambda r: msb("a", 4)
        if tag == "session-backend":
            a = QuantumFloat(2)

            def call(b):
                a.qs.backend = b
                return a.get_measurement(shots=321)
            return [("a", a.reg)], call, lambda r: msb("a", 2)
        if tag == "nocompile":
            a = QuantumFloat(2)
            return [("a", a.reg)], lambda b: a.get_measurement(backend=b, shots=321, compile=False), lambda r: msb("a", 2)
        if tag == "partner":
            a, c = QuantumFloat(2), QuantumFloat(2)
            from qrisp import merge
            merge([a, c])
            return [("c", c.reg), ("a", a.reg)], lambda b: a.get_measurement(backend=b, shots=321), lambda r: msb("a", 2)
        if tag in ("array", "array-T", "array-slice"):
            a = QuantumArray(QuantumFloat(2), (2, 2) if tag != "array-slice" else (3,))
            regs = [("a%d" % k, qv.reg) for k, qv in enumerate(a.qv_list)]
            v = a if tag == "array" else a.transpose() if tag == "array-T" else a[1:]
            o = [0, 1, 2, 3] if tag == "array" else [0, 2, 1, 3] if tag == "array-T" else [1, 2]
            return regs, lambda b: v.get_measurement(backend=b, shots=321), lambda r: [x_ for k in o for x_ in msb("a%d" % k, 2)]
        if tag == "multi":
            a, c, d = QuantumFloat(2), QuantumBool(), QuantumVariable(2)
            return [("a", a.reg), ("c", c.reg), ("d", d.reg)], lambda b: multi_measurement([a, c, d], shots=321, backend=b), lambda r: msb("a", 2) + msb("c", 1) + msb("d", 2)
        if tag == "multi-order":
            a, c = QuantumFloat(2), QuantumFloat(1)
            return [("a", a.reg), ("c", c.reg)], lambda b: multi_measurement([c, a], shots=321, backend=b), lambda r: msb("c", 1) + msb("a", 2)
        if tag == "multi-array":
            a = QuantumArray(QuantumFloat(1), (2, 2))
            c = QuantumFloat(2)
            regs = [("a%d" % k, qv.reg) for k, qv in enumerate(a.qv_list)] + [("c", c.reg)]
            return regs, lambda b: multi_measurement([a.transpose(), c], shots=321, backend=b), lambda r: ["a0[0]", "a2[0]", "a1[0]", "a3[0]"] + msb("c", 2)
    return build


def whole(tag, n, make, labels, kind):
    """get_measurement with arbitrary counts for every outcome string"""
    keys = [format(i, "0%db" % n) for i in ([1, 3, 4, 6] if n == 3 else range(2 ** n))]
    V, assume = counts(keys, kind)

    def body():
        from qrisp.interface import Backend
        from qrisp.interface.job import Job, JobResult, JobStatus

        class J_(Job):
            def result(self, timeout=None):
                return JobResult([{k: Num(v) for k, v in V.items()}])

            def cancel(self):
                return False

            def status(self):
                return JobStatus.DONE

        class B(Backend):
            def run_async(self, circuits, shots=None):
                return J_(self)
        be = B()
        lazy = pick("batched", 2)
        res = make(be.batched() if lazy else be)
        if lazy:
            res, bb = res
            bb.dispatch()
        else:
            res = res[0]
        ref = {}
        for k in keys:
            ref.setdefault(labels(int(k, 2)), []).append(V[k])
        tot = z3.Sum([real(v) for v in V.values()])
        d = {plain(k): v for k, v in dict(res).items()}
        if set(d) != set(ref):
            raise Violation("labels %s instead of %s" % (sorted(map(str, d)), sorted(map(str, ref))))
        equal([(real(term(d[k])) * tot, z3.Sum([real(v) for v in ref[k]])) for k in ref], "probabilities of the labels are not the merged counts")
    return explorer(body, assume, tag)


def plain(k):
    if isinstance(k, np.ndarray):
        return tuple(np.asarray(k).ravel().tolist())
    if isinstance(k, tuple):
        return tuple(plain(x) for x in k)
    return k.item() if isinstance(k, np.generic) else k


def whole_cases():
    def qf(b):
        from qrisp import QuantumFloat
        return QuantumFloat(2, -1, signed=True).get_measurement(backend=b), b

    def qb(b):
        from qrisp import QuantumBool
        return QuantumBool().get_measurement(backend=b), b

    def qs(b):
        from qrisp import QuantumVariable
        return QuantumVariable(2).get_measurement(backend=b), b

    def qa(b):
        from qrisp import QuantumArray, QuantumFloat
        return QuantumArray(QuantumFloat(1, 1), (3,)).get_measurement(backend=b), b

    def mm(b):
        from qrisp import QuantumBool, QuantumFloat, multi_measurement
        return multi_measurement([QuantumFloat(2), QuantumBool()], backend=b), b
    signed = lambda i: (i - 8 if i >= 4 else i) / 2
    return [("float", 3, qf, signed), ("bool", 1, qb, bool), ("var", 2, qs, lambda i: format(i, "02b")[::-1]),
            ("array", 3, qa, lambda i: (2 * (i >> 2), 2 * (i >> 1 & 1), 2 * (i & 1))), ("multi", 3, mm, lambda i: (i >> 1, bool(i & 1)))]


def cases(tier):
    big = tier == "thorough"
    out = []
    L = 5 if big else 4
    for limit in (None, 1, 2):
        for f in itertools.product(range(len(OPS)), repeat=2):
            if f[0] in (3, 4) and not big:
                continue       # nothing queued yet
            out.append(("history/limit-%s/%s-%s" % (limit, OPS[f[0]], OPS[f[1]]), history(list(f), L, limit)))
    for limit in (None, 1, 2):
        for kind in (0, 1, 2, 3):
            out.append(("run/limit-%s/%d" % (limit, kind), direct(kind, limit)))
    for w in ("qrisp", "virtual", "stim"):
        out.append(("local/" + w, local_backend(w)))
    for w in ("qiskit", "aqt", "iqm"):
        for a in range(len(CALLS)):
            out.append(("provider/%s/%s" % (w, CALLS[a]), provider_job(w, [a])))
    KK = [(["0", "1"], 1), (["00", "01", "11"], 2), (["0 1", "1 0", "11"], 2), (["000", "001", "101", "110"], 2), (["0100", "0101", "1111"], 3), (["01", "0 1"], 2)]
    for keys, b in KK:
        for kind in ("int", "prob"):
            out.append(("intkeys/%s/%d/%s" % ("-".join(keys).replace(" ", "_"), b, kind), int_keyed(keys, b, kind)))
    TT = [(1, [0, 1]), (2, [0.0, 0.5, 1.0, 1.5]), (2, ["a", "b", "a", "c"]), (2, [True, True, True, False]), (2, ["x", "x", "x", "x"]), (2, [(1, 2), (1, 3), (1, 2)])]
    for n, t in TT:
        for kind in ("int", "prob"):
            out.append(("decode/%s/%s" % ("-".join(map(str, t)).replace(" ", ""), kind), decoded(n, t, kind)))
    MM = [([1, 1], [[0, 1], [False, True]], None), ([2, 1], [[0, 1, 2, 3], ["a", "b"]], ["000", "011", "110", "101"]), ([1, 2], [None, [0, 1, 2, 3]], ["000", "011", "110", "101"]),
          ([2, 1], [["a", "b", "a", "b"], [0, 1]], ["000", "100", "110", "101", "001"]),
          ([2, 1], [[0, 1, 2, 3], [0, 1]], ["00 0", "10 1", "11 0"]), ([1, 1], [["s", "s"], ["t", "t"]], None)]
    for w, t, k in MM:
        for kind in ("int", "prob"):
            out.append(("multi/%s/%s" % ("-".join(map(str, w)) + "-" + "".join(str(x)[0] for y in t if y for x in y), kind), multi(w, t, kind, k)))
    for t, n, make, lab in whole_cases():
        for kind in ("int", "prob"):
            if kind == "prob" or n < 3 or big:
                out.append(("whole/%s/%s" % (t, kind), whole(t, n, make, lab, kind)))
    for t in ("var", "float", "session-backend", "nocompile", "partner", "array", "array-T", "array-slice", "multi", "multi-order", "multi-array"):
        out.append(("bits/" + t, end_to_end(measured(t), t)))
    return out
