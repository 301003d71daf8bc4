"""P18 measurement protocols and readout mitigation."""
from __future__ import annotations

import itertools
import math
from collections import Counter

import numpy as np
from hypothesis import strategies as st

import gen as G
import spec as S
from harness import Facet, Skip, Violation
from oracle import arr, close, expect

RULE = ("distinct case whose observable has an identity or number factor, a nested product or at least two strings, on at least two qubits "
        "(mitigation: a confusion matrix that is not the identity and a counter with at least two outcomes)")
ASSUMPTIONS = ["observables are real combinations of Pauli strings with numeric coefficients, built in any nesting of sums, products and scalings",
               "protocols are reached through a differentiation mode, as documented; without one the exact value is returned",
               "statistical comparisons have a tail probability below 1e-9 under the property (Hoeffding per string)",
               "readout mitigation: declared confusion tensors (one 2x2 stochastic matrix per qubit) or one correlated matrix, invertible with a bounded inverse"]
P = {"I": np.eye(2), "X": np.array([[0, 1], [1, 0]]), "Y": np.array([[0, -1j], [1j, 0]]), "Z": np.diag([1, -1])}


def paulis(M, n):
    """Coefficients of a matrix in the Pauli basis."""
    out = {}
    for s in itertools.product("IXYZ", repeat=n):
        Q = np.eye(1)
        for a in s:
            Q = np.kron(Q, P[a])
        c = np.trace(Q.conj().T @ M) / 2**n
        if abs(c) > 1e-12:
            out["".join(s)] = c
    return out


def obs_tree(draw, qs, factor, depth=2):
    """Hermitian observable made of commuting factors per qubit, in an arbitrary nesting."""
    k = draw(st.sampled_from(["string", "string", "add", "scale", "kronadd", "chain", "nest"])) if depth else "string"
    num = lambda: draw(st.sampled_from([1.0, -1.0, 2.0, 0.5, -1.5, 3.0, 0.25]))
    if k == "add":
        return ["add", [obs_tree(draw, qs, factor, depth - 1) for _ in range(draw(st.integers(1, 3)))]]
    if k == "scale":
        return ["scale", num(), obs_tree(draw, qs, factor, depth - 1)]
    perm = list(draw(st.permutations(qs)))
    if k == "kronadd" and len(qs) > 1:
        cut = draw(st.integers(1, len(qs) - 1))
        return ["kron", [obs_tree(draw, p, factor, depth - 1) for p in (perm[:cut], perm[cut:])]]
    if k == "chain":
        # powers of one operator stay Hermitian
        t = obs_tree(draw, qs, factor, 0)
        return ["chain", [t] * draw(st.integers(1, 3))]
    if k == "nest" and len(qs) > 1:
        return ["kron", [["kron", [factor(draw, perm[0])]], factor(draw, perm[1])]]
    sub = perm[: draw(st.integers(1, len(perm)))]
    fs = [factor(draw, q) for q in sub]
    if draw(st.integers(0, 5)) == 0:
        fs[0] = ["scale", num(), fs[0]]
    return fs[0] if len(fs) == 1 and draw(st.booleans()) else ["kron", fs]


def any_factor(draw, q):
    return [draw(st.sampled_from(["X", "Y", "Z", "X", "Y", "Z", "I", "N"])), q]


def rich(obs, n):
    return n > 1 and any(S.kinds(o) & {"add", "I", "N", "chain"} or S.depth(o) > 2 for o in obs)


def measure(c, n, obs, values, protocol, options, state=None):
    import torch
    from qadence import QuantumCircuit, QuantumModel, expectation
    from qadence.measurements import Measurements

    m = Measurements(protocol, options)
    circ = QuantumCircuit(n, S.build(c["block"]))
    built = [S.build(o) for o in obs]
    kw = {} if state is None else dict(state=torch.as_tensor(state))
    if len(str(c["block"])) % 3 == 0:
        kw["endianness"] = "Little"  # of no consequence for an expectation value
    before = ([str(b) for b in built], dict(options))
    if c["via"] == "fn":
        out = expectation(circ, built, values=values, measurement=m, diff_mode=c["mode"], **kw)
    elif c["via"] == "model":
        out = QuantumModel(circ, built, diff_mode=c["mode"]).expectation(values, measurement=m, **kw)
    else:
        out = QuantumModel(circ, built, diff_mode=c["mode"], measurement=m).expectation(values, **kw)
    expect(([str(b) for b in built], dict(options)) == before, "the protocol changed the observables or its options")
    return arr(out)


VIA = ["fn", "model", "default"]
CLIFF1 = ["H", "S", "X", "Y", "Z", "SDagger"]
CMAT = {"H": np.array([[1, 1], [1, -1]]) / math.sqrt(2), "S": np.diag([1, 1j]), "SDagger": np.diag([1, -1j]), **P}


@st.composite
def strat_eigen(draw):
    n = draw(st.integers(1, 3))
    qs = list(range(n))
    gates = []
    for _ in range(draw(st.integers(1, 3 * n))):
        if n > 1 and draw(st.integers(0, 2)) == 0:
            a, b = G.pick(draw, qs, 2)
            gates.append([draw(st.sampled_from(["CNOT", "CZ"])), a, b])
        else:
            gates.append([draw(st.sampled_from(CLIFF1)), draw(st.sampled_from(qs))])
    picks = [[draw(st.integers(0, 2**n - 1)) for _ in range(draw(st.integers(1, 3)))] for _ in range(draw(st.integers(1, 2)))]
    coefs = [[draw(st.sampled_from([1.0, -1.0, 2.0, 0.5, -1.5])) for _ in p] for p in picks]
    return dict(n=n, block=["chain", gates], picks=picks, coefs=coefs, order=draw(st.integers(0, 10**6)), pad=draw(st.booleans()), shots=draw(st.integers(1, 30)),
                via=draw(st.sampled_from(VIA)), mode=draw(st.sampled_from(["ad", "gpsr"])), bits=draw(st.one_of(st.none(), st.integers(0, 2**n - 1))),
                protocol=draw(st.sampled_from(["tomography"] * 9 + ["shadow"])))


def stabiliser_obs(c):
    """Observables whose strings all have the prepared state as eigenstate, with the values."""
    n = c["n"]
    U = S.mat(c["block"], {}, n)
    rng = np.random.default_rng(c["order"])
    obs, vals = [], []
    k0 = c["bits"] or 0
    for picks, coefs in zip(c["picks"], c["coefs"]):
        terms, val = [], 0.0
        for pk, co in zip(picks, coefs):
            z = np.eye(1)
            for q in range(n):
                z = np.kron(z, P["Z"] if pk >> (n - 1 - q) & 1 else P["I"])
            d = paulis(U @ z @ U.conj().T, n)
            assert len(d) == 1
            (s, sg), = d.items()
            val += co * (-1) ** bin(pk & k0).count("1")
            fs = [[a, q] for q, a in enumerate(s) if a != "I" or c["pad"]]
            fs = fs or [["I", 0]]
            fs = [fs[i] for i in rng.permutation(len(fs))]
            t = fs[0] if len(fs) == 1 else ["kron", fs]
            terms.append(["scale", co * float(sg.real), t])
        obs.append(terms[0] if len(terms) == 1 else ["add", terms])
        vals.append(val)
    return obs, np.array(vals)


def weight(o):
    return sum(1 for x in S.leaves(o) if x[0] in "XYZ")


def check_eigen(c):
    n = c["n"]
    if S.degenerate(c["block"]):
        raise Skip
    obs, want = stabiliser_obs(c)
    state = None
    if c["bits"] is not None:
        state = np.zeros((1, 2**n), complex)
        state[0, c["bits"]] = 1
    if c["protocol"] == "shadow":
        if max(max([weight(t) for t in (o[1] if o[0] == "add" else [o])]) for o in obs) > 2:
            raise Skip
        opt = dict(shadow_size=360, accuracy=0.1, confidence=0.9)
    else:
        opt = dict(n_shots=c["shots"])
    got = measure(c, n, obs, {}, c["protocol"], opt, state)
    expect(got.shape == (1, len(obs)), f"shape {got.shape}")
    close(got[0], want, f"{c['protocol']} on an eigenstate of every string", tol=1e-5)
    return dict(nontrivial=rich(obs, n))


@st.composite
def strat_tomo(draw):
    n = draw(st.integers(1, 3))
    qs = list(range(n))
    cfg = G.Cfg(max_depth=1, hamevo=draw(st.integers(0, 3)) == 0)
    b = G.circuit(draw, qs, cfg, 1, 5)
    obs = [obs_tree(draw, qs, any_factor) for _ in range(draw(st.integers(1, 2)))]
    fv = G.feature_values(draw, S.names(b)[1], draw(st.sampled_from([1, 1, 2, 3])))
    return dict(n=n, block=b, obs=obs, f=fv, via=draw(st.sampled_from(VIA)), mode=draw(st.sampled_from(["ad", "gpsr"])),
                state=draw(st.one_of(st.none(), st.integers(0, 99))))


def check_tomo(c):
    n, shots = c["n"], 3989
    if S.degenerate(c["block"], *c["obs"]):
        raise Skip
    vv = S.names(c["block"])[0]
    es = G.envs(vv, c["f"])
    if max(S.sens(c["block"], e) for e in es) > 1000:
        raise Skip
    Ms = [S.mat(o, {}, n) for o in c["obs"]]
    if max(np.abs(M).max() for M in Ms) > 200:
        raise Skip
    psi = np.zeros(2**n, complex)
    psi[0] = 1
    state = None
    if c["state"] is not None:
        state = np.asarray(G.state_vec(c["state"], n, 1))
        psi = state[0]
    got = measure(c, n, c["obs"], G.tensors(c["f"]), "tomography", dict(n_shots=shots), state)
    expect(got.shape == (len(es), len(Ms)), f"shape {got.shape} for {len(es)} values and {len(Ms)} observables")
    for i, e in enumerate(es):
        phi = S.mat(c["block"], e, n) @ psi
        for j, M in enumerate(Ms):
            d = paulis(M, n)
            want = np.vdot(phi, M @ phi).real
            l1 = sum(abs(v) for s, v in d.items() if set(s) != {"I"})
            t = l1 * math.sqrt(2 * math.log(2 * 64 / 1e-9) / shots) + 1e-5
            if abs(got[i, j] - want) > t:
                raise Violation(f"tomography value {got[i, j]:.5f} of observable {j}, exact {want:.5f}, bound {t:.4f}")
            if len(d) == 1 and set(next(iter(d))) != {"I"}:
                # one string: the estimate is an average of +-1 over exactly the requested shots
                k = got[i, j] / next(iter(d.values())).real * shots
                expect(abs(k - round(k)) < 1e-3 and round(k) % 2 == shots % 2 and abs(k) <= shots + 1e-3, f"estimate {got[i, j]!r} is not an average over {shots} outcomes")
    return dict(nontrivial=rich(c["obs"], n))


# --- shadows -------------------------------------------------------------
@st.composite
def strat_shadow(draw):
    n = draw(st.integers(1, 4))
    N = draw(st.integers(4, 60))
    qs = G.pick(draw, list(range(n)), draw(st.integers(1, n)))
    return dict(n=n, N=N, K=draw(st.integers(1, min(4, N))), ids=draw(st.lists(st.lists(st.integers(0, 2), min_size=n, max_size=n), min_size=N, max_size=N)),
                bits=draw(st.lists(st.lists(st.sampled_from([1, -1]), min_size=n, max_size=n), min_size=N, max_size=N)),
                op=[[draw(st.sampled_from("XYZXYZI")), q] for q in qs],
                acc=draw(st.sampled_from([0.1, 0.2, 0.5, 1.0])), conf=draw(st.sampled_from([0.05, 0.1, 0.5, 0.9])),
                obs=[obs_tree(draw, list(range(n)), lambda d, q: [d(st.sampled_from("XYZI")), q], 1) for _ in range(draw(st.integers(1, 3)))])


def check_shadow(c):
    import torch
    from qadence.measurements.shadow import estimators, number_of_samples

    n, N, K = c["n"], c["N"], c["K"]
    ids, bits = np.array(c["ids"]), np.array(c["bits"])
    op = S.build(c["op"][0] if len(c["op"]) == 1 else ["kron", c["op"]])
    real = [(q, "XYZ".index(a)) for a, q in c["op"] if a != "I"]
    if len(c["op"]) == 1 and not real:
        real = []
    elif not real:
        raise Skip
    got = arr(estimators(N, K, ids.copy(), torch.tensor(bits), op)).reshape(-1)
    f = N // K
    want = []
    for k in range(K):
        rows = [r for r in range(k * f, (k + 1) * f) if all(ids[r, q] == a for q, a in real)]
        want.append(np.mean([np.prod([bits[r, q] for q, _ in real]) for r in rows]) if rows and real else (1.0 if not real else 0.0))
    if real:
        close(got, np.array(want), "shadow estimators per partition", tol=1e-6)
    else:
        close(got, np.ones_like(got), "shadow estimator of the identity", tol=1e-9)
    # a string has as many factors as its written product: the products generated here never repeat a qubit
    if not any("chain" in S.kinds(o) for o in c["obs"]) and not any(S.depth(o) > 3 for o in c["obs"]):
        def w(o):
            if o[0] == "add":
                return max(w(x) for x in o[1])
            if o[0] == "scale":
                return w(o[2])
            if o[0] == "kron":
                return sum(w(x) for x in o[1])
            return int(o[0] in "XYZ")
        if not any(o[0] == "kron" and any("add" in S.kinds(x) for x in o[1]) for t in c["obs"] for o in S.walk(t)):
            k = max(w(o) for o in c["obs"])
            NN, KK = number_of_samples([S.build(o) for o in c["obs"]], c["acc"], c["conf"])
            expect(NN == round(3**k * 34.0 / c["acc"] ** 2) and KK == round(2 * math.log(2 * len(c["obs"]) / c["conf"])), f"shot budget {(NN, KK)} for weight {k}")
    return dict(nontrivial=n > 1 and len(real) > 1 and any(want))


@st.composite
def strat_shadow_run(draw):
    n = draw(st.integers(1, 3))
    qs = list(range(n))
    b = G.circuit(draw, qs, G.Cfg(max_depth=1), 1, 5)
    one = lambda d, q: [d(st.sampled_from("XYZ")), q]

    def term():
        fs = [one(draw, q) for q in G.pick(draw, qs, draw(st.integers(1, min(2, n))))]
        return ["scale", draw(st.sampled_from([1.0, -1.0, 0.5])), fs[0] if len(fs) == 1 else ["kron", fs]]
    obs = [["add", [term() for _ in range(draw(st.integers(1, 2)))]] for _ in range(draw(st.integers(1, 2)))]
    return dict(n=n, block=b, obs=obs, f=G.feature_values(draw, S.names(b)[1], draw(st.sampled_from([1, 1, 2]))), via=draw(st.sampled_from(VIA)), mode=draw(st.sampled_from(["ad", "gpsr"])))


def check_shadow_run(c):
    n, N = c["n"], 900
    if S.degenerate(c["block"], *c["obs"]):
        raise Skip
    vv = S.names(c["block"])[0]
    es = G.envs(vv, c["f"])
    if max(S.sens(c["block"], e) for e in es) > 1000:
        raise Skip
    got = measure(c, n, c["obs"], G.tensors(c["f"]), "shadow", dict(shadow_size=N, accuracy=0.1, confidence=0.9))
    Ms = [S.mat(o, {}, n) for o in c["obs"]]
    expect(got.shape == (len(es), len(Ms)), f"shape {got.shape}")
    psi = np.zeros(2**n, complex)
    psi[0] = 1
    # at most three partitions of 300 rows; a string of weight w matches a third per factor, so 19 rows at the very least (tail below 1e-3 per partition, median of means)
    for i, e in enumerate(es):
        phi = S.mat(c["block"], e, n) @ psi
        for j, M in enumerate(Ms):
            d = paulis(M, n)
            want = np.vdot(phi, M @ phi).real
            t = 1e-5
            for s, v in d.items():
                k = sum(a != "I" for a in s)
                if k:
                    var = 1 - (np.vdot(phi, spauli(s) @ phi).real) ** 2
                    t += abs(v) * (6.5 * math.sqrt(var / (300 * 3.0**-k * 0.6)) + 12 / (300 * 3.0**-k * 0.6) * (var > 1e-9))
            if abs(got[i, j] - want) > t:
                raise Violation(f"shadow value {got[i, j]:.5f} of observable {j}, exact {want:.5f}, bound {t:.3f}")
    return dict(nontrivial=n > 1)


def spauli(s):
    Q = np.eye(1)
    for a in s:
        Q = np.kron(Q, P[a])
    return Q


# --- observables from samples --------------------------------------------
@st.composite
def strat_samples(draw):
    n = draw(st.integers(1, 4))
    cnt = st.dictionaries(st.text("01", min_size=n, max_size=n), st.integers(1, 500), min_size=1, max_size=8)
    counters = draw(st.lists(cnt, min_size=1, max_size=3))
    tot = max(sum(c.values()) for c in counters)
    for c in counters:
        c[next(iter(c))] += tot - sum(c.values())
    obs = [obs_tree(draw, list(range(n)), lambda d, q: [d(st.sampled_from("ZZZI")), q]) for _ in range(draw(st.integers(1, 3)))]
    return dict(n=n, counters=counters, obs=obs)


def check_samples(c):
    from qadence.measurements.samples import compute_expectation

    n = c["n"]
    if S.degenerate(*c["obs"]):
        raise Skip
    built = [S.build(o) for o in c["obs"]]
    cs = [Counter(x) for x in c["counters"]]
    tot = sum(cs[0].values())
    for o, b in zip(c["obs"], built):
        d = np.diag(S.mat(o, {}, n)).real
        pure = all(x[0] == "I" for x in S.leaves(o))
        try:
            got = compute_expectation([b], cs)
        except TypeError as e:
            if pure:
                continue
            raise Violation(f"rejected a diagonal observable: {e}")
        want = np.array([sum(v * d[int(k, 2)] for k, v in x.items()) / tot for x in cs])
        close(arr(got[0]).reshape(-1), want, "observable from samples", tol=1e-6 * max(1, np.abs(d).max()))
    if not any(all(x[0] == "I" for x in S.leaves(o)) for o in c["obs"]):
        got = compute_expectation(built, cs)
        expect(len(got) == len(built), "one value per observable")
    expect([dict(x) for x in cs] == [dict(x) for x in c["counters"]], "the samples were changed")
    try:
        compute_expectation([S.build(["kron", [["X", 0]]])], cs)
    except TypeError:
        pass
    else:
        raise Violation("an observable outside the Z basis was accepted")
    return dict(nontrivial=rich(c["obs"], n) and any(len(x) > 1 for x in cs))


# --- readout mitigation ---------------------------------------------------
@st.composite
def strat_mit(draw):
    n = draw(st.integers(1, 3))
    cnt = st.dictionaries(st.text("01", min_size=n, max_size=n), st.integers(1, 500), min_size=1, max_size=8)
    counters = draw(st.lists(cnt, min_size=1, max_size=3))
    tot = max(sum(c.values()) for c in counters)
    for c in counters:
        c[next(iter(c))] += tot - sum(c.values())
    p = st.floats(0.0, 0.35).map(lambda x: round(x, 3))
    return dict(n=n, counters=counters, flips=[[draw(p), draw(p)] for _ in range(n)], kind=draw(st.sampled_from(["independent"] * 4 + ["correlated"])), cseed=draw(st.integers(0, 99)),
                opt=draw(st.sampled_from(["mle", "mle", "mle", "constrained", None])), extra=draw(st.integers(0, 2)) == 0)


def confusion(c):
    n = c["n"]
    if c["kind"] == "correlated":
        rng = np.random.default_rng(c["cseed"])
        T = np.eye(2**n) * 4 + rng.random((2**n, 2**n)) * (3.0 / 2**n)
        T /= T.sum(0)
        return T, T
    m = np.array([[[1 - a, b], [a, 1 - b]] for a, b in c["flips"]])
    T = np.eye(1)
    for x in m:
        T = np.kron(T, x)
    return m, T


def simplex(v):
    u = np.sort(v)[::-1]
    css = np.cumsum(u) - 1
    r = np.nonzero(u - css / np.arange(1, len(v) + 1) > 0)[0][-1]
    return np.maximum(v - css[r] / (r + 1), 0)


def handler(c, m):
    import torch
    from qadence import NoiseHandler, NoiseProtocol

    t = torch.tensor(m, dtype=torch.float64)
    if c["kind"] == "correlated":
        return NoiseHandler(NoiseProtocol.READOUT.CORRELATED, {"confusion_matrix": t})
    return NoiseHandler(NoiseProtocol.READOUT.INDEPENDENT, {"error_probability": t})


def mitigation(c):
    from qadence.mitigations import Mitigations

    return Mitigations(Mitigations.READOUT, {} if c["opt"] is None else {"optimization_type": c["opt"]})


def best(T, p):
    """Minimum of |T x - p|^2 over the simplex, by accelerated projected gradient."""
    L = np.linalg.norm(T, 2) ** 2
    x = y = np.full(len(p), 1 / len(p))
    t = 1.0
    for _ in range(3000):
        z = simplex(y - T.T @ (T @ y - p) / L)
        t2 = (1 + math.sqrt(1 + 4 * t * t)) / 2
        y = z + (t - 1) / t2 * (z - x)
        x, t = z, t2
    return x


def check_mit(c):
    from qadence.mitigations.protocols import apply_mitigation

    n = c["n"]
    m, T = confusion(c)
    tot = sum(c["counters"][0].values())
    cs = [Counter(x) for x in c["counters"]]
    h = handler(c, m)
    out = apply_mitigation(h, mitigation(c), cs)
    expect(len(out) == len(cs), "one counter per input")
    for x, y in zip(c["counters"], out):
        raw = np.array([x.get(format(i, f"0{n}b"), 0) for i in range(2**n)]) / tot
        for k, v in y.items():
            expect(isinstance(k, str) and len(k) == n and set(k) <= {"0", "1"}, f"key {k!r}")
            expect(int(v) == v and v >= 0, f"count {v}")
        cnt = np.array([y.get(format(i, f"0{n}b"), 0) for i in range(2**n)])
        expect(cnt.sum() == tot, f"mitigated counts sum to {cnt.sum()} instead of {tot}")
        if c["opt"] == "constrained":
            b = best(T, raw)
            f = lambda p: np.linalg.norm(T @ p - raw)
            if f(cnt / tot) > f(b) + 2.0**n / tot + 0.01:
                raise Violation(f"residual {f(cnt / tot):.5f} of the mitigated distribution, optimum {f(b):.5f}")
        else:
            want = simplex(np.linalg.inv(T) @ raw) * tot
            if np.abs(cnt - want).max() > 1.5:
                raise Violation(f"mitigated counts {cnt.tolist()} instead of {np.round(want, 2).tolist()}")
    expect([dict(x) for x in cs] == c["counters"], "the samples were changed")
    return dict(nontrivial=np.abs(T - np.eye(2**n)).max() > 0.01 and any(len(x) > 1 for x in c["counters"]))


@st.composite
def strat_e2e(draw):
    n = draw(st.integers(1, 3))
    b = G.circuit(draw, list(range(n)), G.Cfg(max_depth=1, params=("num", "v", "f")), 1, 4)
    p = st.floats(0.0, 0.2).map(lambda x: round(x, 3))
    return dict(n=n, block=b, f=G.feature_values(draw, S.names(b)[1], draw(st.sampled_from([1, 1, 2]))), flips=[[draw(p), draw(p)] for _ in range(n)], kind=draw(st.sampled_from(["independent", "scalar", "independent", "correlated"])),
                cseed=draw(st.integers(0, 99)), opt=draw(st.sampled_from(["mle", "constrained", None])), scalar=draw(st.sampled_from([0.05, 0.1, 0.2])), default=draw(st.booleans()))


def check_e2e(c):
    from qadence import NoiseHandler, NoiseProtocol, QuantumCircuit, QuantumModel

    n, N = c["n"], 20000
    if S.degenerate(c["block"]):
        raise Skip
    vv = S.names(c["block"])[0]
    es = G.envs(vv, c["f"])
    if max(S.sens(c["block"], e) for e in es) > 1000:
        raise Skip
    if c["kind"] == "scalar":
        # the flip probability of the scalar form is estimated by the library and at most the given one
        h, inv, slack = NoiseHandler(NoiseProtocol.READOUT.INDEPENDENT, {"error_probability": c["scalar"]}), (1 / (1 - 2 * c["scalar"])) ** n, 0.02 * n
    else:
        m, T = confusion(c)
        h, inv, slack = handler(c, m), np.linalg.norm(np.linalg.inv(T), 2), 0.0
    model = QuantumModel(QuantumCircuit(n, S.build(c["block"])), noise=h if c["default"] else None, mitigation=mitigation(c) if c["default"] else None)
    kw = {} if c["default"] else dict(noise=h, mitigation=mitigation(c))
    out = model.sample(G.tensors(c["f"]), n_shots=N, **kw)
    expect(len(out) == len(es), f"{len(out)} counters for {len(es)} values")
    bound = inv * (1 + math.sqrt(2 * math.log(1e10))) / math.sqrt(N) * (2 if c["opt"] == "constrained" else 1) + 2.0 ** (n / 2) / N + slack + (0.03 if c["opt"] == "constrained" else 0)
    for e, y in zip(es, out):
        p = np.abs(S.mat(c["block"], e, n)[:, 0]) ** 2
        cnt = np.array([y.get(format(i, f"0{n}b"), 0) for i in range(2**n)])
        expect(cnt.sum() == N and sum(y.values()) == N, f"mitigated counts sum to {sum(y.values())} instead of {N}")
        if np.linalg.norm(cnt / N - p) > bound:
            raise Violation(f"mitigated distribution {np.round(cnt / N, 3).tolist()}, noiseless {np.round(p, 3).tolist()}, bound {bound:.3f}")
    return dict(nontrivial=n > 1 and any((np.abs(S.mat(c["block"], e, n)[:, 0]) ** 2 > 0.05).sum() > 1 for e in es))


# --- estimates of a noisy circuit ----------------------------------------
@st.composite
def strat_noisy(draw):
    n = draw(st.integers(1, 2))
    qs = list(range(n))
    b = ["chain", [["RX", q, draw(st.sampled_from([0.3, 2.8, -0.5]))] for q in qs] + [draw(st.sampled_from([["X", 0], ["Z", 0], ["RZ", 0, 0.7], ["X", n - 1], ["RY", n - 1, 0.2]])) for _ in range(draw(st.integers(1, 3)))]]
    p = draw(st.integers(15, 50)) / 100
    noise = [draw(st.sampled_from([["BITFLIP", p], ["DEPOLARIZING", p], ["AMPLITUDE_DAMPING", p], ["PAULI_CHANNEL", [p / 2, p / 2, 0.1]], ["PHASEFLIP", p]]))]
    return dict(n=n, block=b, noise=noise, protocol=draw(st.sampled_from(["tomography", "shadow", "shadow"])),
                obs=[G.pick(draw, qs, draw(st.sampled_from([1, 1, n])))], default=draw(st.booleans()), mode=draw(st.sampled_from(["ad", "gpsr"])))


def check_noisy(c):
    import torch
    from checks.p17 import density, handler, leafspecs
    from qadence import QuantumCircuit, QuantumModel, Z, kron
    from qadence.measurements import Measurements
    n = c["n"]
    if S.degenerate(c["block"]):
        raise Skip
    shots = 1999 if c["protocol"] == "tomography" else 360
    options = dict(n_shots=shots) if c["protocol"] == "tomography" else dict(shadow_size=shots, accuracy=0.1, confidence=1.2)  # one partition
    h, m = handler(c["noise"]), Measurements(c["protocol"], options)
    circ, obs = QuantumCircuit(n, S.build(c["block"])), [kron(*[Z(q) for q in o]) if len(o) > 1 else Z(o[0]) for o in c["obs"]]
    np.random.seed(len(str(c)))
    torch.manual_seed(len(str(c)))
    if c["default"]:
        got = QuantumModel(circ, obs, diff_mode=c["mode"], measurement=m, noise=h).expectation({})
    else:
        got = QuantumModel(circ, obs, diff_mode=c["mode"]).expectation({}, measurement=m, noise=h)
    got = arr(got)
    expect(got.shape == (1, len(obs)), f"shape {got.shape}")
    rho = np.zeros((2**n, 2**n), complex)
    rho[0, 0] = 1
    clean = density(c["block"], [None] * 99, {}, n, rho)
    rho = density(c["block"], [c["noise"]] * len(leafspecs(c["block"])), {}, n, rho)
    gap = 0.0
    for j, o in enumerate(c["obs"]):
        s = "".join("Z" if q in o else "I" for q in range(n))
        want, ideal = np.trace(rho @ spauli(s)).real, np.trace(clean @ spauli(s)).real
        # rows that match the string: a third per factor
        rows = shots if c["protocol"] == "tomography" else shots * 3.0 ** -len(o) * 0.6
        bound = 5.5 * math.sqrt((1 - want**2) / rows) + 8 / rows * (abs(want) < 1 - 1e-9) + 1e-5
        gap = max(gap, abs(want - ideal) / bound)
        if abs(got[0, j] - want) > bound:
            raise Violation(f"{c['protocol']} value {got[0, j]:.4f} of {s} for the noisy circuit, exact {want:.4f} (noiseless {ideal:.4f}), bound {bound:.3f}")
    return dict(nontrivial=gap > 1)


FACETS = [
    Facet("eigenstates", strat_eigen, check_eigen, 250, 8000, 3),
    Facet("tomography", strat_tomo, check_tomo, 150, 5000, 3),
    Facet("shadow-estimators", strat_shadow, check_shadow, 300, 6000, 1),
    Facet("shadow-runs", strat_shadow_run, check_shadow_run, 12, 400, 3),
    Facet("noisy-runs", strat_noisy, check_noisy, 24, 800, 2),
    Facet("samples", strat_samples, check_samples, 400, 8000, 1),
    Facet("mitigation", strat_mit, check_mit, 250, 6000, 1),
    Facet("mitigated-runs", strat_e2e, check_e2e, 60, 2000, 2),
]
