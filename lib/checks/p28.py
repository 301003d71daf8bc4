"""P28 cloud submission: payloads rebuilt by a stand-in platform, and polling against a scripted remote on a virtual clock."""
from __future__ import annotations

import json
import time
from types import SimpleNamespace

import numpy as np
from hypothesis import strategies as st

import gen as G
import spec as S
from harness import Facet, Skip, Violation
from oracle import arr, close, expect

RULE = "distinct case: payloads with at least two gates or a parameter value; specifications with at least one tensor; polling with at least two workloads or a status change"
ASSUMPTIONS = ["the platform is a stand-in recording what it is given and answering status requests from a script on a virtual clock",
               "time only passes while the client sleeps", "refresh times are positive"]
RUNNING, STOPPED = ["PENDING", "RUNNING", "PAUSED"], ["CANCELED", "TIMED_OUT", "ERROR"]
KINDS = ["run", "sample", "expectation"]


class Remote:
    """the parts of pasqal_cloud.SDK which the client uses"""

    def __init__(self, clock=None):
        self.jobs, self.scripts, self.polls, self.clock = [], {}, [], clock

    def create_workload(self, workload_type, backend, config, wait=False):
        self.jobs.append(dict(workload_type=workload_type, backend=backend, config=config))
        return SimpleNamespace(id=f"job-{len(self.jobs) * 7919 % 1000}-{len(self.jobs)}", status="PENDING")

    def get_workload(self, id, wait=False):
        t = self.clock.now
        self.polls.append((id, t))
        steps = self.scripts[id]
        out = [o for at, o in steps if at <= t + 1e-9][-1]
        return out


class Clock:
    """replaces the time functions a client can wait with"""

    def __init__(self):
        self.now, self.slept = 0.0, []

    def sleep(self, s):
        expect(s >= 0, f"sleep({s})")
        self.slept.append(float(s))
        self.now += float(s)
        if len(self.slept) > 5000:
            raise Violation("the client never stops polling")

    def read(self, *_):
        return self.now

    def __enter__(self):
        import qadence.pasqal_cloud_connection as mod

        names = dict(sleep=self.sleep, time=self.read, monotonic=self.read, perf_counter=self.read)
        self.saved = [(o, k, getattr(o, k)) for o in (time, mod) for k in names if callable(getattr(o, k, None))]
        for o, k, _ in self.saved:
            setattr(o, k, names[k])
        return self

    def __exit__(self, *a):
        for o, k, v in self.saved:
            setattr(o, k, v)


# ------------------------------------------------------------------ payloads
@st.composite
def strat_payload(draw):
    cfg = G.Cfg(max_depth=2, hamevo=True)
    n = draw(st.integers(1, 3))
    b = G.circuit(draw, list(range(n)), cfg, 1, 4)
    o = G.hermitian(draw, list(range(n)), G.Cfg(params=("num",)), coef=("num",)) if draw(st.integers(0, 3)) else None
    vv, fn = S.names(b)
    batch = draw(st.integers(1, 3))
    over = [v for v in sorted(vv) if draw(st.booleans())]
    vals = {}
    for k in sorted(fn) + over:
        v = [G.generic(draw) + draw(st.sampled_from([0.0, 1 / 3, 1e-9, 0.1])) for _ in range(batch)]
        vals[k] = v if draw(st.integers(0, 3)) else v[0]
    kinds = draw(st.lists(st.sampled_from(KINDS if o else KINDS[:2]), min_size=1, max_size=3, unique=True))
    return dict(n=n, block=b, obs=o, vals=vals, kinds=kinds, model=draw(st.booleans()), extra=draw(st.integers(0, 1)), f32=draw(st.integers(0, 4)) == 0)


def check_payload(c):
    import torch
    from qadence import BackendName, QuantumCircuit, QuantumModel, deserialize, serialize
    from qadence.pasqal_cloud_connection import ResultType, WorkloadSpec, submit_workload, workload_spec

    b, n = c["block"], c["n"]
    if S.degenerate(b) or (c["obs"] and S.degenerate(c["obs"])):
        raise Skip
    dt = torch.float32 if c["f32"] else torch.float64
    vals = {k: torch.tensor(v, dtype=dt) for k, v in c["vals"].items()}
    exact = {k: np.asarray(v, dtype=np.float32 if c["f32"] else np.float64).astype(float) for k, v in c["vals"].items()}
    vv = S.names(b)[0]
    batch = max([v.size for v in exact.values() if v.ndim], default=1)
    es = [{**vv, **{k: float(v[i]) if v.ndim else float(v) for k, v in exact.items()}} for i in range(batch)]
    if max(S.sens(b, e) for e in es) > 3000:
        raise Skip
    circ = QuantumCircuit(n + c["extra"], S.build(b))
    N = n + c["extra"]
    obs = S.build(c["obs"]) if c["obs"] else None
    kinds = [ResultType(k) for k in c["kinds"]]
    if c["model"]:
        spec = workload_spec(QuantumModel(circ, backend=BackendName.PYQTORCH, diff_mode="ad"), kinds, vals or None, obs)
    else:
        spec = WorkloadSpec(circ, BackendName.PYQTORCH, kinds, vals or None, obs)
    remote = Remote()
    first = submit_workload(remote, spec)
    second = submit_workload(remote, spec)
    expect(first != second and len(remote.jobs) == 2, f"two submissions created {len(remote.jobs)} workloads, identifiers {first}, {second}")
    job = remote.jobs[0]
    expect(json.dumps(job, sort_keys=True) == json.dumps(remote.jobs[1], sort_keys=True), "submitting the same workload twice sends different payloads")
    expect(job["workload_type"] == "qadence_circuit", f"workload type {job['workload_type']}")
    expect(job["backend"] == "pyqtorch", f"backend {job['backend']}")
    cfg = json.loads(json.dumps(job["config"]))
    expect(cfg["result_types"] == c["kinds"], f"result types {cfg['result_types']}, requested {c['kinds']}")
    sent = json.loads(cfg["c_values"])
    expect(sent == {k: v.tolist() for k, v in exact.items()}, f"parameter values sent {sent}, given {c['vals']}")
    expect(("observable" in cfg) == (obs is not None), f"observable sent: {'observable' in cfg}, given: {obs is not None}")
    expect(json.loads(cfg['circuit']) == json.loads(json.dumps(serialize(circ))), 'the circuit sent is not the one the workload was made of')
    # what the platform does with it
    rc = deserialize(json.loads(cfg["circuit"]))
    expect(isinstance(rc, QuantumCircuit) and rc.n_qubits == N, f"the platform gets {type(rc).__name__} on {getattr(rc, 'n_qubits', None)} qubits, expected {N}")
    ro = deserialize(json.loads(cfg["observable"])) if obs is not None else None
    m = QuantumModel(rc, observable=ro, backend=job["backend"])
    rv = {k: torch.tensor(v if isinstance(v, list) else [v], dtype=torch.float64) for k, v in sent.items()}
    tol = S.tol(b, es)
    psi = np.array([S.mat(b, e, N)[:, 0] for e in es])
    got = arr(m.run(rv))
    if got.shape[0] == 1 and batch > 1:
        got = np.repeat(got, batch, 0)
    close(got, psi, "state computed by the platform", tol)
    if ro is not None:
        O = S.mat(c["obs"], {}, N)
        want = np.einsum("bi,ij,bj->b", psi.conj(), O, psi).real[:, None]
        got = arr(m.expectation(rv))
        if got.shape[0] == 1 and batch > 1:
            got = np.repeat(got, batch, 0)
        close(got, want, "expectation computed by the platform", tol, max(1.0, S.opbound(c["obs"], {})))
    return dict(nontrivial=len(S.leaves(b)) >= 2 or bool(vals))


# ------------------------------------------------------------------ validation
@st.composite
def strat_spec(draw):
    shapes = draw(st.lists(st.sampled_from([[], [], [1], [2], [2], [3], [1, 1], [2, 1], [2, 2], [1, 2, 1]]), min_size=1, max_size=4))
    return dict(shapes=shapes, kinds=draw(st.lists(st.sampled_from(KINDS), min_size=0, max_size=3, unique=True)), obs=draw(st.booleans()), model=draw(st.booleans()))


def check_spec(c):
    import torch
    from qadence import BackendName, QuantumCircuit, QuantumModel, X, Z
    from qadence.pasqal_cloud_connection import ResultType, WorkloadSpec, workload_spec

    circ = QuantumCircuit(1, X(0))
    vals = {f"p{i}": torch.rand(*s) if s else torch.rand(()) for i, s in enumerate(c["shapes"])}
    lens = {s[0] for s in c["shapes"] if len(s) == 1}
    bad = any(len(s) > 1 for s in c["shapes"]) or len(lens) > 1 or ("expectation" in c["kinds"] and not c["obs"])
    kinds = [ResultType(k) for k in c["kinds"]]
    obs = Z(0) if c["obs"] else None
    try:
        if c["model"]:
            spec = workload_spec(QuantumModel(circ, observable=Z(0)), kinds, vals, obs)
        else:
            spec = WorkloadSpec(circ, BackendName.PYQTORCH, kinds, vals, obs)
    except ValueError:
        expect(bad, f"a valid specification was refused: shapes {c['shapes']}, {c['kinds']}, observable {c['obs']}")
        return dict(nontrivial=True)
    expect(not bad, f"an invalid specification was accepted: shapes {c['shapes']}, {c['kinds']}, observable {c['obs']}")
    expect(spec.circuit == circ and list(spec.result_types) == kinds and (spec.observable is not None) == c["obs"], "the specification does not hold what it was given")
    expect(set(spec.parameter_values) == set(vals) and all(torch.equal(spec.parameter_values[k], v) for k, v in vals.items()), "the specification holds other parameter values")
    return dict(nontrivial=True)


# ------------------------------------------------------------------ polling histories
@st.composite
def strat_poll(draw):
    jobs = []
    for _ in range(draw(st.integers(1, 3))):
        steps, t = [], 0
        for _ in range(draw(st.integers(0, 3))):
            steps.append([t / 8, draw(st.sampled_from(RUNNING))])
            t += draw(st.integers(1, 40))
        end = draw(st.sampled_from(["DONE", "DONE", "DONE"] + STOPPED + ["weird", "done", ""] + RUNNING))
        jobs.append(steps + [[t / 8, end]])
    ops = []
    for _ in range(draw(st.integers(1, 4))):
        k = draw(st.integers(0, len(jobs) - 1))
        kind = draw(st.sampled_from(["check", "get", "get", "wait"]))
        r = draw(st.sampled_from([0.125, 0.25, 0.5, 1.0, 1.5, 3.0]))
        T = draw(st.sampled_from([0.0, 0.1, 0.5, 1.0, 2.0, 2.5, 4.0, 7.0, 10.0]))
        ops.append([kind, k, T, r, draw(st.integers(0, 3))])
    return dict(jobs=jobs, ops=ops)


def outcome(f):
    from qadence.pasqal_cloud_connection import WorkloadNotDoneError, WorkloadStoppedError

    try:
        return "ok", f()
    except WorkloadNotDoneError as e:
        return "notdone", e
    except WorkloadStoppedError as e:
        return "stopped", e
    except TimeoutError as e:
        return "timeout", e
    except ValueError as e:
        return "value", e


def klass(status):
    return "ok" if status == "DONE" else "notdone" if status in RUNNING else "stopped" if status in STOPPED else "value"


def check_poll(c):
    from qadence import BackendName, QuantumCircuit, X
    from qadence.pasqal_cloud_connection import ResultType, WorkloadSpec, check_status, get_result, submit_workload

    clock = Clock()
    remote = Remote(clock)
    ids = []
    for i, steps in enumerate(c["jobs"]):
        ids.append(submit_workload(remote, WorkloadSpec(QuantumCircuit(1, X(0)), BackendName.PYQTORCH, [ResultType.RUN])))
        remote.scripts[ids[-1]] = [(at, SimpleNamespace(id=ids[-1], status=s, errors=[f"failure {i}-{j}"], result=dict(job=i, step=j))) for j, (at, s) in enumerate(steps)]
    changes = 0
    with clock:
        for kind, k, T, r, how in c["ops"]:
            steps = remote.scripts[ids[k]]
            at = lambda t: [o for a, o in steps if a <= t + 1e-9][-1]  # noqa: E731
            t0, n0, s0 = clock.now, len(remote.polls), len(clock.slept)
            if kind == "wait":
                clock.now += T
                continue
            if kind == "check":
                res, val = outcome(lambda: check_status(remote, ids[k]))
                seen = at(t0)
                expect(len(clock.slept) == s0, "check_status waited")
                expect(res == klass(seen.status), f"status {seen.status!r}: check_status gave {res}, expected {klass(seen.status)}")
            else:
                kw = {} if how == 0 else dict(timeout=T, refresh_time=r)
                if how == 0:
                    T, r = 60.0, 1.0
                res, val = outcome(lambda: get_result(remote, ids[k], **kw))
                polls = [t for _, t in remote.polls[n0:]]
                expect(polls and polls[0] == t0, f"get_result (timeout {T}, refresh {r}) asked at {polls[:1]}, called at {t0}")
                expect(all(abs(b - a - r) < 1e-9 for a, b in zip(polls, polls[1:])), f"get_result asked at {polls}, refresh time {r}")
                final = [t for t in polls if klass(at(t).status) != "notdone"]
                if final:
                    seen = at(final[0])
                    expect(polls[-1] == final[0], f"get_result went on asking after {seen.status} at {final[0]}: {polls}")
                    expect(clock.now == final[0], f"get_result waited after {seen.status}")
                    expect(res == klass(seen.status), f"final status {seen.status!r}: get_result gave {res}")
                    changes += len(polls) > 1
                else:
                    seen = None
                    expect(res == "timeout", f"get_result of an unfinished workload gave {res} after {clock.now - t0}")
                    expect(T - r - 1e-9 <= clock.now - t0 <= T + r + 1e-9, f"get_result timed out after {clock.now - t0}, timeout {T}, refresh {r}")
                    # a status reached before the last interval must have been seen
                    late = [a for a, o in steps if klass(o.status) != "notdone" and a <= t0 + T - 2 * r]
                    expect(not late, f"final status reached at {late}, get_result asked at {polls} and timed out")
            expect({i for i, _ in remote.polls[n0:]} <= {ids[k]}, f"asked for workload {remote.polls[n0:]}, wanted {ids[k]}")
            if res == "ok":
                expect(val is seen, f"the result is {vars(val)}, the platform gave {vars(seen)}")
            if res == "stopped":
                expect(seen.status in str(val) and ids[k] in str(val), f"the error does not name workload and status: {val}")
                if seen.status == "ERROR":
                    expect(seen.errors[0] in str(val), f"the error does not contain the platform's errors: {val}")
    return dict(nontrivial=changes > 0 or len(ids) > 1)


FACETS = [Facet("payload", strat_payload, check_payload, quick=260, thorough=4000, shards=2),
          Facet("spec", strat_spec, check_spec, quick=400, thorough=2000),
          Facet("poll", strat_poll, check_poll, quick=500, thorough=8000)]
