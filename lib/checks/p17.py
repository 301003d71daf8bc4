"""P17 noisy simulation."""
from __future__ import annotations

import logging

import numpy as np
from hypothesis import strategies as st

import gen as G
import spec as S
from checks.p03 import observable
from checks.p10 import check_counter
from harness import Facet, Known, Skip, Violation
from oracle import arr, close, expect

RULE = "distinct case with at least one channel of nonzero probability (handler facet: at least two operations)"
ASSUMPTIONS = ["the channel of a gate acts on its target qubit (the first qubit of a swap or controlled swap), after the gate, in the listed order, with the Kraus operators documented by PyQTorch",
               "digital gates only: evolutions, scaled blocks and matrix blocks are documented without digital noise",
               "readout errors: confusion matrices given explicitly (per qubit or for the register); the scalar form only through bounds, because PyQTorch derives its flip rates from random draws"]
logging.disable(logging.CRITICAL)

I2, X2, Y2, Z2 = np.eye(2), np.array([[0, 1], [1, 0]]), np.array([[0, -1j], [1j, 0]]), np.diag([1, -1])
SINGLE = ["BITFLIP", "PHASEFLIP", "DEPOLARIZING", "AMPLITUDE_DAMPING", "PHASE_DAMPING"]
DIG = SINGLE + ["PAULI_CHANNEL", "GENERALIZED_AMPLITUDE_DAMPING"]


def kraus(name, p):
    s = np.sqrt
    if name == "BITFLIP":
        return [s(1 - p) * I2, s(p) * X2]
    if name == "PHASEFLIP":
        return [s(1 - p) * I2, s(p) * Z2]
    if name == "DEPOLARIZING":
        return [s(1 - p) * I2, *[s(p / 3) * m for m in (X2, Y2, Z2)]]
    if name == "PAULI_CHANNEL":
        return [s(max(0, 1 - sum(p))) * I2, *[s(q) * m for q, m in zip(p, (X2, Y2, Z2))]]
    if name == "AMPLITUDE_DAMPING":
        return [np.diag([1, s(1 - p)]), np.array([[0, s(p)], [0, 0]])]
    if name == "PHASE_DAMPING":
        return [np.diag([1, s(1 - p)]), np.diag([0, s(p)])]
    q, r = p
    return [s(q) * np.diag([1, s(1 - r)]), s(q) * np.array([[0, s(r)], [0, 0]]), s(1 - q) * np.diag([s(1 - r), 1]), s(1 - q) * np.array([[0, 0], [s(r), 0]])]


@st.composite
def channels(draw, kmax=2):
    out = []
    for _ in range(draw(st.integers(1, kmax))):
        nm = draw(st.sampled_from(DIG))
        z = draw(st.integers(0, 7)) == 0
        pr = lambda hi: 0.0 if z else draw(st.integers(0, hi)) / 100  # noqa: E731
        out.append([nm, [pr(33), pr(33), pr(33)] if nm == "PAULI_CHANNEL" else ([pr(100), pr(100)] if nm == "GENERALIZED_AMPLITUDE_DAMPING" else pr(100))])
    return out


def handler(chs, readout=None):
    from qadence import NoiseHandler, NoiseProtocol

    pr = [getattr(NoiseProtocol.DIGITAL, c) for c, _ in chs]
    op = [dict(error_probability=tuple(p) if isinstance(p, list) else p) for _, p in chs]
    if readout is not None:
        pr.append(NoiseProtocol.READOUT.INDEPENDENT)
        op.append(readout)
    return NoiseHandler(pr, op)


def leafspecs(b):
    return [b] if not S.children(b) else [x for c in S.children(b) for x in leafspecs(c)]


def target(leaf):
    k = leaf[0]
    if k in ("SWAP", "CSWAP"):
        return leaf[1]
    return S.leaf_support(leaf)[-1]


def build(b, noises):
    """Like S.build, giving the i-th leaf its handler."""
    import qadence as q

    def go(s):
        k = s[0]
        if k in ("chain", "kron"):
            return getattr(q, k)(*[go(c) for c in s[1]])
        nz = next(it)
        kw = {} if nz is None else dict(noise=nz)
        a = [tuple(x) if isinstance(x, list) and k in (*S.MCROT, "MCZ", "Toffoli") and i == 0 else x for i, x in enumerate(s[1:])]
        np_ = len(S.own_params(s))
        a = a[: len(a) - np_] + [S.pbuild(p) for p in S.own_params(s)]
        return getattr(q, k)(*a, **kw)

    it = iter(noises)
    return go(b)


def density(b, chs, env, n, rho):
    """chs: channel list per leaf (None: no channel)."""
    for leaf, ch in zip(leafspecs(b), chs):
        U = S.embed(S.leaf_matrix(leaf, env), S.leaf_support(leaf), n)
        rho = U @ rho @ U.conj().T
        for nm, p in ch or ():
            rho = sum(K @ rho @ K.conj().T for K in (S.embed(k.astype(complex), [target(leaf)], n) for k in kraus(nm, p)))
    return rho


@st.composite
def strat(draw):
    cfg = G.Cfg(max_depth=2)
    n = draw(st.integers(1, 3))
    qs = list(range(n))
    b = G.circuit(draw, qs, cfg, 1, 4)
    if draw(st.booleans()):
        b = ["chain", [["RY", q, G.generic(draw, -3, 3)] for q in qs] + b[1]]
    L = leafspecs(b)
    own = [draw(channels()) if draw(st.integers(0, 2)) == 0 else None for _ in L]
    how = draw(st.sampled_from(["gates", "gates", "gates", "set_noise", "set_target", "config", "call"]))
    glob = draw(channels())
    obs = [observable(draw, qs, cfg, ("num",)) for _ in range(draw(st.integers(1, 2)))]
    vv, fn = S.names(b, *obs)
    out = dict(n=n, block=b, own=own, how=how, glob=glob, obs=obs, f=G.feature_values(draw, fn, draw(st.sampled_from([1, 1, 2, 3]))), entry=draw(st.sampled_from(["run", "expectation", "sample"])),
               api=draw(st.sampled_from(["fn", "model"])), tcls=draw(st.sampled_from(sorted({x[0] for x in L}))), shots=draw(st.sampled_from([200, 2000])), loop=draw(st.integers(0, 4)) == 0,
               compose=draw(st.integers(0, 3)) == 0, state=draw(st.sampled_from([None, None, 1, 2])), seed=draw(st.integers(0, 99)), onblock=draw(st.booleans()), repeat=draw(st.booleans()),
               mode=draw(st.sampled_from(["ad", "ad", "gpsr"])), little=draw(st.integers(0, 3)) == 0)
    if how == "call" and out["entry"] == "run":
        out["entry"] = draw(st.sampled_from(["expectation", "sample"]))
    return out


def effective(case):
    """the channel list of each leaf under the way noise is declared."""
    L = leafspecs(case["block"])
    how, own, glob = case["how"], case["own"], case["glob"]
    if how == "gates":
        return own
    if how == "set_target":
        import qadence as q

        T = getattr(q, case["tcls"])
        return [glob if issubclass(getattr(q, l[0]), T) else o for l, o in zip(L, own)]
    return [glob for _ in L]


def check(case):
    import torch
    from qadence import QuantumCircuit, QuantumModel, expectation, run, sample, set_noise

    torch.manual_seed(case["seed"])
    b, n, how = case["block"], case["n"], case["how"]
    if S.degenerate(b, *case["obs"]):
        raise Skip
    chs = effective(case)
    nzall = [p for c in chs for p in (c or ())]
    if not nzall:
        raise Skip
    es = G.envs(S.names(b, *case["obs"])[0], case["f"])
    if max(S.sens(b, e) for e in es) > 2000:
        raise Skip
    own = [None if c is None else handler(c) for c in case["own"]]
    blk = build(b, own)
    g = handler(case["glob"])
    circ = QuantumCircuit(n, blk)
    cfg = dict(loop_expectation=True) if case["loop"] and case["entry"] == "expectation" else {}
    if case["compose"]:
        cfg["use_single_qubit_composition"] = True
    if how == "set_noise":
        set_noise(blk if case["onblock"] else circ, g)
    elif how == "set_target":
        import qadence as q

        set_noise(blk if case["onblock"] else circ, g, getattr(q, case["tcls"]))
    elif how == "config":
        cfg["noise"] = g
    psi = np.zeros((1, 2**n), complex)
    psi[0, 0] = 1
    state = None
    if case["state"] and not (case["loop"] and case["entry"] == "expectation"):
        k = case["state"] if len(es) == 1 else 1
        psi = G.state_vec(case["seed"], n, k)
        state = torch.tensor(psi)
    B = max(len(es), len(psi))
    rhos = np.array([density(b, chs, es[i if len(es) > 1 else 0], n, np.outer(psi[i if len(psi) > 1 else 0], psi[i if len(psi) > 1 else 0].conj())) for i in range(B)])
    tol = 2 * S.tol(b, es)
    vals = G.tensors(case["f"])
    kw = dict(noise=g) if how == "call" else {}
    obs = [S.build(o) for o in case["obs"]]
    mkw = dict(configuration=cfg, diff_mode=case["mode"])
    end = "Little" if case.get("little") else "Big"
    perm = S.reverse_bits_perm(n) if case.get("little") else list(range(2**n))

    def once(tag):
        entry = case["entry"]
        if entry == "run":
            got = run(circ, values=vals, state=state, configuration=cfg, endianness=end) if case["api"] == "fn" else model().run(vals, state=state, endianness=end)
            m = arr(got)
            close(m, rhos[:, perm][:, :, perm], f"{tag}density matrix", tol, 1.0)
            expect(np.allclose(m, m.conj().transpose(0, 2, 1), atol=1e-9), f"{tag}density matrix is not Hermitian")
            expect(np.all(np.linalg.eigvalsh((m + m.conj().transpose(0, 2, 1)) / 2) > -1e-7), f"{tag}density matrix is not positive")
            expect(np.allclose(np.trace(m, axis1=1, axis2=2), 1, atol=1e-6), f"{tag}trace {np.trace(m, axis1=1, axis2=2)}")
        elif entry == "expectation":
            bound = max(max(1, S.gen_norm(o, e)) for o in case["obs"] for e in es)
            if bound > 2000:
                raise Skip
            want = np.array([[np.trace(r @ S.mat(o, es[i if len(es) > 1 else 0], n)).real for o in case["obs"]] for i, r in enumerate(rhos)])
            if case["api"] == "fn":
                got = expectation(circ, obs, values=vals, state=state, configuration=cfg, diff_mode=case["mode"], endianness=end, **kw)
            else:
                got = model().expectation(vals, state=state, endianness=end, **kw)
            close(got, want, f"{tag}expectation", (tol + max(S.tol(o, es) for o in case["obs"])) * bound, 1.0)
        else:
            if case["api"] == "fn":
                cs = sample(circ, values=vals, state=state, n_shots=case["shots"], configuration=cfg, endianness=end, **kw)
            else:
                cs = model().sample(vals, state=state, n_shots=case["shots"], endianness=end, **kw)
            expect(len(cs) == B, f"{tag}{len(cs)} counters for {B} parameter sets")
            for c, r in zip(cs, rhos):
                check_counter(c, np.clip(np.diag(r).real[perm], 0, 1), n, case["shots"], False, tol, f"{tag}sample")

    cache: list = []

    def model():
        if not cache:
            cache.append(QuantumModel(circ, obs, **mkw))
        return cache[0]

    once("")
    if case["repeat"]:
        once("second call: ")
        if how in ("call", "config") and not any(case["own"]):
            # the same circuit without the noise is noiseless again
            want = np.array([S.mat(b, es[i if len(es) > 1 else 0], n) @ psi[i if len(psi) > 1 else 0] for i in range(B)])
            got = (model() if how == "call" and case["api"] == "model" else QuantumModel(circ, obs, diff_mode=case["mode"])).run(vals, state=state)
            if how == "call" and case["api"] != "model" and arr(got).shape == rhos.shape:
                # model of the listed finding: the circuit object itself keeps the noise
                close(got, rhos, "run after noisy calls", tol, 1.0)
                raise Known("P17-noise-left-on-circuit", "a circuit evaluated with noise keeps it for later conversions")
            close(got, want, "noiseless run after noisy calls", tol, 1.0)
    return dict(nontrivial=any(np.any(np.array(p) > 0) for _, p in nzall))


# ------------------------------------------------------------------ mixed initial states
@st.composite
def strat_mixed(draw):
    case = draw(strat())
    for k in ("glob", "how", "tcls", "onblock", "repeat", "state", "compose", "mode"):
        case.pop(k)
    if draw(st.booleans()):
        case["own"] = [None for _ in case["own"]]
    case["kind"] = draw(st.sampled_from(["density", "density", "partial"]))
    case["batch"] = draw(st.sampled_from([1, 1, 2, 3]))
    case["mix"] = draw(st.sampled_from([0.0, 0.25, 0.5]))
    case["endian"] = draw(st.sampled_from(["Big", "Big", "Little"]))
    return case


def check_mixed(case):
    """an initial state given as a density matrix, with and without channels on the gates."""
    import torch
    from qadence import QuantumCircuit, QuantumModel, expectation, run, sample
    from qadence.states import density_mat, partial_trace

    torch.manual_seed(case["seed"])
    b, n, entry = case["block"], case["n"], case["entry"]
    if S.degenerate(b, *case["obs"]):
        raise Skip
    es = G.envs(S.names(b, *case["obs"])[0], case["f"])
    if max(S.sens(b, e) for e in es) > 2000:
        raise Skip
    loop = case["loop"] and entry == "expectation"
    k = 1 if loop or len(es) > 1 else case["batch"]
    if case["kind"] == "partial":
        # one half of an entangled state
        big = G.state_vec(case["seed"] + 7, n + 1, k)
        rho0 = np.array([np.einsum("iaja->ij", np.outer(v, v.conj()).reshape(2**n, 2, 2**n, 2)) for v in big])
        state = partial_trace(density_mat(torch.tensor(big)), list(range(n)))
        close(state, rho0, "reduced state", 1e-9)
    else:
        u, v = G.state_vec(case["seed"], n, k), G.state_vec(case["seed"] + 1, n, k)
        rho0 = np.array([(1 - case["mix"]) * np.outer(x, x.conj()) + case["mix"] * np.outer(y, y.conj()) for x, y in zip(u, v)])
        state = type(density_mat(torch.tensor(u)))(torch.tensor(rho0))
    blk = build(b, [None if c is None else handler(c) for c in case["own"]])
    circ = QuantumCircuit(n, blk)
    B = max(len(es), k)
    rhos = np.array([density(b, case["own"], es[i if len(es) > 1 else 0], n, rho0[i if k > 1 else 0]) for i in range(B)])
    tol = 2 * S.tol(b, es)
    vals = G.tensors(case["f"])
    cfg = dict(loop_expectation=True) if loop else {}
    obs = [S.build(o) for o in case["obs"]]
    m = QuantumModel(circ, obs, configuration=cfg)
    perm = [int(format(i, f"0{n}b")[::-1], 2) for i in range(2**n)] if case["endian"] == "Little" else list(range(2**n))
    before = np.array(state.detach())
    if entry == "run":
        got = run(circ, values=vals, state=state, configuration=cfg, endianness=case["endian"]) if case["api"] == "fn" else m.run(vals, state=state, endianness=case["endian"])
        close(got, rhos[:, perm][:, :, perm], f"density matrix ({case['endian']})", tol, 1.0)
    elif entry == "expectation":
        bound = max(max(1, S.gen_norm(o, e)) for o in case["obs"] for e in es)
        if bound > 2000:
            raise Skip
        want = np.array([[np.trace(r @ S.mat(o, es[i if len(es) > 1 else 0], n)).real for o in case["obs"]] for i, r in enumerate(rhos)])
        got = expectation(circ, obs, values=vals, state=state, configuration=cfg) if case["api"] == "fn" else m.expectation(vals, state=state)
        close(got, want, "expectation on a mixed state", (tol + max(S.tol(o, es) for o in case["obs"])) * bound, 1.0)
    else:
        cs = sample(circ, values=vals, state=state, n_shots=case["shots"], endianness=case["endian"]) if case["api"] == "fn" else m.sample(vals, state=state, n_shots=case["shots"], endianness=case["endian"])
        expect(len(cs) == B, f"{len(cs)} counters for {B} states")
        for c, r in zip(cs, rhos):
            check_counter(c, np.clip(np.diag(r).real[perm], 0, 1), n, case["shots"], False, tol, "sample of a mixed state")
    expect(np.array_equal(before, np.array(state.detach())), "the initial state was changed")
    return dict(nontrivial=case["kind"] == "partial" or case["mix"] > 0)


# ------------------------------------------------------------------ readout errors
@st.composite
def strat_readout(draw):
    n = draw(st.integers(1, 3))
    qs = list(range(n))
    b = ["chain", [["RY", q, G.generic(draw, -3, 3)] for q in qs] + G.circuit(draw, qs, G.Cfg(max_depth=1), 1, 3)[1]]
    kind = draw(st.sampled_from(["matrices", "correlated", "scalar"]))
    return dict(n=n, block=b, f=G.feature_values(draw, S.names(b)[1], draw(st.sampled_from([1, 2]))), kind=kind, seed=draw(st.integers(0, 999)), p=draw(st.integers(0, 60)) / 100,
                digital=draw(channels(1)) if draw(st.integers(0, 2)) == 0 else None, how=draw(st.sampled_from(["call", "call_fn", "config", "model"])), shots=draw(st.sampled_from([100, 1000, 4000])),
                nseed=draw(st.sampled_from([None, 1, 7])))


def check_readout(case):
    import torch
    from qadence import NoiseHandler, NoiseProtocol, QuantumCircuit, QuantumModel, sample

    b, n = case["block"], case["n"]
    if S.degenerate(b):
        raise Skip
    es = G.envs(S.names(b)[0], case["f"])
    if max(S.sens(b, e) for e in es) > 2000:
        raise Skip
    r = np.random.RandomState(case["seed"])
    torch.manual_seed(case["seed"])
    opt: dict = {}
    if case["nseed"] is not None:
        opt["seed"] = case["nseed"]
    if case["kind"] == "matrices":
        C = np.array([[[1 - a, a], [c, 1 - c]] for a, c in r.uniform(0, 0.5, (n, 2))])
        # confusion[q, out, in]: columns are distributions over outcomes
        C = C.transpose(0, 2, 1)
        opt["error_probability"] = torch.tensor(C)
        T = np.array([[np.prod([C[q, (o >> (n - 1 - q)) & 1, (i >> (n - 1 - q)) & 1] for q in range(n)]) for i in range(2**n)] for o in range(2**n)])
        proto = NoiseProtocol.READOUT.INDEPENDENT
    elif case["kind"] == "correlated":
        M = r.uniform(0, 1, (2**n, 2**n)) + 3 * np.eye(2**n)
        T = M / M.sum(0, keepdims=True)
        opt["confusion_matrix"] = torch.tensor(T)
        proto = NoiseProtocol.READOUT.CORRELATED
    else:
        opt["error_probability"] = float(case["p"])
        proto = NoiseProtocol.READOUT.INDEPENDENT
        T = None
    pr, op = [proto], [opt]
    if case["digital"]:
        pr = [getattr(NoiseProtocol.DIGITAL, case["digital"][0][0]), *pr]
        p0 = case["digital"][0][1]
        op = [dict(error_probability=tuple(p0) if isinstance(p0, list) else p0), *op]
    nz = NoiseHandler(pr, op)
    chs = [case["digital"] for _ in leafspecs(b)]
    rho0 = np.zeros((2**n, 2**n), complex)
    rho0[0, 0] = 1
    P = [np.clip(np.diag(density(b, chs, e, n, rho0)).real, 0, 1) for e in es]
    circ = QuantumCircuit(n, S.build(b))
    vals = G.tensors(case["f"])
    how, shots = case["how"], case["shots"]
    m = QuantumModel(circ, configuration=dict(noise=nz) if how == "config" else {}, noise=nz if how == "model" else None)
    if how == "call_fn":
        cs = sample(circ, values=vals, n_shots=shots, noise=nz)
    elif how == "call":
        cs = m.sample(vals, n_shots=shots, noise=nz)
    else:
        cs = m.sample(vals, n_shots=shots)
    expect(len(cs) == len(es), f"{len(cs)} counters for {len(es)} parameter sets")
    tol = 2 * S.tol(b, es)
    for c, p in zip(cs, P):
        if T is not None:
            check_counter(c, T @ p, n, shots, False, tol, f"readout ({case['kind']})")
        else:
            expect(sum(c.values()) == shots, f"{sum(c.values())} counts for {shots} shots")
            # every bit flips with some probability between 0 and the declared one
            for q in range(n):
                one = sum(x for i, x in enumerate(p) if (i >> (n - 1 - q)) & 1)
                seen = sum(v for k, v in c.items() if k[q] == "1") / shots
                lo, hi = sorted((one, one * (1 - case["p"]) + (1 - one) * case["p"]))
                slack = 7.5 * 0.5 / np.sqrt(shots) + tol
                expect(lo - slack <= seen <= hi + slack, f"qubit {q} reads 1 with frequency {seen:.4f}, allowed {lo:.4f} to {hi:.4f} (declared error {case['p']})")
    if how in ("call", "call_fn"):
        again = m.sample(vals, n_shots=shots)
        clean = [np.abs(S.mat(b, e, n)[:, 0]) ** 2 for e in es]
        for c, p in zip(again, clean):
            check_counter(c, p, n, shots, False, tol, "noiseless sample after a noisy one")
    return dict(nontrivial=case["kind"] != "scalar" or case["p"] > 0)


# ------------------------------------------------------------------ descriptions
BUILDERS = dict(BITFLIP="bitflip", PHASEFLIP="phaseflip", DEPOLARIZING="digital_depolarizing", PAULI_CHANNEL="pauli_channel", AMPLITUDE_DAMPING="amplitude_damping", PHASE_DAMPING="phase_damping",
                GENERALIZED_AMPLITUDE_DAMPING="generalized_amplitude_damping", A_DEPOLARIZING="analog_depolarizing", A_DEPHASING="dephasing", R_INDEPENDENT="readout_independent", R_CORRELATED="readout_correlated")


@st.composite
def strat_handler(draw):
    def one():
        k = draw(st.sampled_from(sorted(BUILDERS)))
        return [k, draw(st.integers(0, 30)) / 100]

    def items(lo=1):
        return [one() for _ in range(draw(st.integers(lo, 3)))]

    return dict(init=items(), ops=[[draw(st.sampled_from(["builder", "append", "append_list", "filter", "eq", "shared"])), items()] for _ in range(draw(st.integers(1, 5)))])


def family(k):
    return "ANALOG" if k.startswith("A_") else ("READOUT" if k.startswith("R_") else "DIGITAL")


def proto(k):
    from qadence import NoiseProtocol

    return getattr(getattr(NoiseProtocol, family(k)), k.split("_", 1)[1] if k[:2] in ("A_", "R_") else k)


def option(k, p):
    if family(k) == "ANALOG":
        return dict(noise_probs=p)
    if k == "PAULI_CHANNEL":
        return dict(error_probability=(p, p / 2, p / 4))
    if k == "GENERALIZED_AMPLITUDE_DAMPING":
        return dict(error_probability=(p, p / 2))
    return dict(error_probability=p, seed=1) if family(k) == "READOUT" else dict(error_probability=p)


def valid(items):
    f = [family(k) for k, _ in items]
    if "ANALOG" in f and (len(f) > 1):
        return False
    if "READOUT" in f and (f.count("READOUT") > 1 or f[-1] != "READOUT"):
        return False
    return bool(f)


def make(items):
    from qadence import NoiseHandler

    return NoiseHandler([proto(k) for k, _ in items], [option(k, p) for k, p in items])


def table(h):
    return [(type(p).__name__, str(p), o) for p, o in zip(h.protocol, h.options)], len(h.protocol), len(h.options)


def expected(items):
    return [(type(proto(k)).__name__, str(proto(k)), option(k, p)) for k, p in items], len(items), len(items)


def check_handler(case):
    from qadence import NoiseHandler, NoiseProtocol

    cur = case["init"]
    try:
        h = make(cur)
    except ValueError:
        expect(not valid(cur), f"valid combination {cur} rejected")
        cur = [x for x in cur if family(x[0]) == "DIGITAL"][:1] or [["BITFLIP", 0.1]]
        h = make(cur)
    expect(valid(cur), f"invalid combination {cur} accepted")
    for op, items in case["ops"]:
        before = table(h)
        expect(before == expected(cur), f"handler holds {before}, expected {expected(cur)}")
        if op == "builder":
            k, p = items[0]
            new = cur + [[k, p]]
            try:
                r = getattr(h, BUILDERS[k])(option(k, p))
                expect(valid(new), f"invalid combination {new} accepted")
                expect(r is h or table(r) == expected(new), "the builder returned something else")
                cur = new
            except ValueError:
                expect(not valid(new), f"valid combination {new} rejected")
                expect(table(h) == before, "a rejected combination changed the handler")
        elif op in ("append", "append_list"):
            parts = [items] if op == "append" else [[x] for x in items]
            if not all(valid(x) for x in parts):
                continue
            hs = [make(x) for x in parts]
            keep = [table(x) for x in hs]
            new = cur + items
            try:
                h.append(hs[0] if op == "append" else hs)
                expect(valid(new), f"invalid combination {new} accepted")
                cur = new
            except ValueError:
                expect(not valid(new), f"valid combination {new} rejected")
                expect(table(h) == before, "a rejected combination changed the handler")
            expect([table(x) for x in hs] == keep, "appending changed the appended noise")
        elif op == "filter":
            for f in ("DIGITAL", "READOUT", "ANALOG"):
                got = h.filter(getattr(NoiseProtocol, f))
                want = [x for x in cur if family(x[0]) == f]
                expect((got is None) == (not want), f"filter({f}) is {got}, expected {want}")
                if got is not None:
                    expect(table(got) == expected(want), f"filter({f}) holds {table(got)}, expected {expected(want)}")
            expect(table(h) == before, "filter changed the handler")
        elif op == "eq":
            expect(h == make(cur), "equal descriptions compare different")
            other = [x for x in cur]
            other[0] = [other[0][0], other[0][1] + 0.25]
            expect(not (h == make(other)), "different probabilities compare equal")
            if len(cur) > 1 and valid(cur[:-1]):
                expect(not (h == make(cur[:-1])) and not (make(cur[:-1]) == h), "a prefix compares equal")
        else:
            # one handler appended to another: later changes stay separate
            if not valid(cur + items) or not valid(items):
                continue
            a = make(items)
            h.append(a)
            cur = cur + items
            if family(items[-1][0]) == "DIGITAL":
                a.bitflip(dict(error_probability=0.5))
                expect(table(h) == expected(cur), "a later change of the appended noise changed the handler")
    expect(table(h) == expected(cur), f"handler holds {table(h)}, expected {expected(cur)}")
    return dict(nontrivial=len(case["ops"]) >= 2)


FACETS = [
    Facet("channels", strat, check, 500, 12000, 4),
    Facet("mixed", strat_mixed, check_mixed, 300, 6000, 2),
    Facet("readout", strat_readout, check_readout, 150, 4000, 2),
    Facet("descriptions", strat_handler, check_handler, 600, 10000, 1),
]
