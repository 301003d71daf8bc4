"""P10 sampling."""
from __future__ import annotations

from collections import Counter

import numpy as np
import torch
from hypothesis import strategies as st
from scipy.stats import binom

import gen as G
import spec as S
from harness import Facet, Skip, Violation
from oracle import arr, close, expect

RULE = "distinct case whose exact outcome distribution has at least two outcomes of probability above 1% (classical facet: a circuit that moves at least one bit)"
ASSUMPTIONS = ["dense numpy Born probabilities", "each count is accepted when its exact binomial tail exceeds 1e-12 (per outcome), so a false alarm over a whole run is below 1e-6"]
ALPHA = 1e-12


def keyed(p, n, little=False):
    out = {}
    for i, x in enumerate(p):
        k = format(i, f"0{n}b")
        out[k[::-1] if little else k] = float(x)
    return out


def check_counter(c, p, n, shots, little, tol, what):
    """one counter against exact probabilities p (index order: qubit 0 most significant)."""
    expect(isinstance(c, Counter), f"{what}: {type(c)} is not a Counter")
    exact = keyed(p, n, little)
    tot = 0
    for k, v in c.items():
        expect(isinstance(k, str) and len(k) == n and set(k) <= {"0", "1"}, f"{what}: key {k!r} for {n} qubits")
        expect(int(v) == v and v > 0, f"{what}: count {v!r} of {k}")
        tot += int(v)
    expect(tot == shots, f"{what}: counts sum to {tot}, {shots} shots requested")
    for k, pr in exact.items():
        v = int(c.get(k, 0))
        lo, hi = max(0.0, pr - tol), min(1.0, pr + tol)
        up = binom.sf(v - 1, shots, hi) if v > 0 else 1.0
        dn = binom.cdf(v, shots, lo)
        if min(up, dn) < ALPHA:
            raise Violation(f"{what}: outcome {k} of probability {pr:.6g} seen {v} times in {shots} shots (tail {min(up, dn):.2g})")


def probabilities(case):
    n, b = case["n"], case["block"]
    if S.degenerate(b):
        raise Skip
    vv, _ = S.names(b)
    es = G.envs(vv, case["f"])
    if max(S.sens(b, e) for e in es) > 2000:
        raise Skip
    st_ = case.get("state")
    psi0 = np.zeros((1, 2**n), complex)
    psi0[0, 0] = 1
    if st_:
        psi0 = G.state_vec(st_["seed"], n, st_["batch"])
    k = max(len(es), len(psi0))
    P = np.array([np.abs(S.mat(b, es[i if len(es) > 1 else 0], n) @ psi0[i if len(psi0) > 1 else 0]) ** 2 for i in range(k)])
    # a probability moves by at most twice the error of the state
    return P, 2 * S.tol(b, es, 1e-9), (psi0 if st_ else None)


def rich(P):
    return bool(max(int((p > 0.01).sum()) for p in P) >= 2)


def mk(gates=None, nmax=4, maxshots=3000, state=True, batches=(1, 1, 2, 3), **kw):
    @st.composite
    def strat(draw):
        cfg = G.Cfg(max_depth=2, **(dict(gates=gates) if gates else {}), **kw)
        n = draw(st.integers(1, nmax))
        b = G.circuit(draw, list(range(n)), cfg, 1, 5)
        if draw(st.booleans()):
            b = ["chain", [["kron", [["RY", q, G.generic(draw, -3, 3)] for q in range(n)]], *b[1]]]
        fv = G.feature_values(draw, S.names(b)[1], draw(st.sampled_from(list(batches))))
        nb = max((len(v) for v in fv.values()), default=1)
        c = dict(n=n, block=b, f=fv, shots=draw(st.sampled_from([1, 2, 3, 10, 37, 100, 500, 1000, maxshots])), little=draw(st.booleans()),
                 entry=draw(st.sampled_from(["fn", "model", "backend"])), state=None)
        if state and draw(st.booleans()):
            c["state"] = dict(seed=draw(st.integers(0, 999)), batch=draw(st.sampled_from([1, 1, 2])) if nb == 1 else draw(st.sampled_from([1, nb])))
        return c

    return strat


def draw_samples(case, psi0=None, little=None, backend="pyqtorch", shots=None):
    from qadence import Endianness, QuantumCircuit, QuantumModel, sample
    from qadence.backends.api import backend_factory

    little = case["little"] if little is None else little
    end = Endianness.LITTLE if little else Endianness.BIG
    circ = QuantumCircuit(case["n"], S.build(case["block"]))
    if backend == "horqrux":
        import jax.numpy as jnp

        vals = {k: jnp.array(v, dtype=jnp.float64) for k, v in case["f"].items()}
        s = None if psi0 is None else jnp.array(psi0)
    else:
        vals = G.tensors(case["f"])
        s = None if psi0 is None else torch.tensor(psi0)
    shots = case["shots"] if shots is None else shots
    if case["entry"] == "fn":
        return sample(circ, values=vals, state=s, n_shots=shots, endianness=end, backend=backend)
    if case["entry"] == "model" and backend == "pyqtorch":
        return QuantumModel(circ, diff_mode="ad").sample(vals, n_shots=shots, state=s, endianness=end)
    bk = backend_factory(backend, diff_mode=None)
    c = bk.convert(circ)
    return bk.sample(c.circuit, c.embedding_fn(c.params, vals), n_shots=shots, state=s, endianness=end)


def check_born(case, backend="pyqtorch"):
    P, tol, psi0 = probabilities(case)
    got = draw_samples(case, psi0, backend=backend)
    expect(isinstance(got, list) and len(got) == len(P), f"{len(got)} counters for a batch of {len(P)}")
    for i, (c, p) in enumerate(zip(got, P)):
        check_counter(c, p, case["n"], case["shots"], case["little"], tol, f"{backend} batch entry {i}")
    return dict(nontrivial=rich(P))


# ------------------------------------------------------------------ bit order only reverses keys
def check_order(case):
    P, tol, psi0 = probabilities(case)
    out = []
    for little in (False, True):
        torch.manual_seed(case["shots"])
        out.append(draw_samples(case, psi0, little))
    for i, (a, b) in enumerate(zip(*out)):
        expect(Counter({k[::-1]: v for k, v in a.items()}) == Counter(b), f"entry {i}: little-endian counter {dict(b)} is not the reversal of {dict(a)} drawn with the same seed")
    # sampling does not disturb what is sampled: another draw still follows the same distribution
    for i, (c, p) in enumerate(zip(out[1], P)):
        check_counter(c, p, case["n"], case["shots"], True, tol, f"second draw, entry {i}")
    return dict(nontrivial=rich(P) and case["n"] > 1)


# ------------------------------------------------------------------ sharp frequencies
def check_sharp(case):
    P, tol, psi0 = probabilities(case)
    shots = 400000
    got = draw_samples(case, psi0, shots=shots)
    for i, (c, p) in enumerate(zip(got, P)):
        check_counter(c, p, case["n"], shots, case["little"], tol, f"entry {i}")
    return dict(nontrivial=rich(P))


# ------------------------------------------------------------------ deterministic outcomes
@st.composite
def strat_classical(draw):
    n = draw(st.integers(1, 9))
    qs = list(range(n))
    cfg = G.Cfg(gates=["X", "X", "I", "Z", "CNOT", "SWAP"] + ([] if n > 6 else ["Toffoli", "CSWAP", "S", "T"]), max_depth=1, max_children=5)
    b = G.circuit(draw, qs, cfg, 2, 8)
    return dict(n=n, block=b, f={}, shots=draw(st.sampled_from([1, 5, 200])), little=draw(st.booleans()), entry=draw(st.sampled_from(["fn", "model", "backend"])),
                backend=draw(st.sampled_from(["pyqtorch", "pyqtorch", "horqrux"])))


def classical_run(s, bits):
    k = s[0]
    if k in ("chain", "kron"):
        for c in s[1]:
            classical_run(c, bits)
    elif k == "X":
        bits[s[1]] ^= 1
    elif k == "CNOT":
        bits[s[2]] ^= bits[s[1]]
    elif k == "SWAP":
        bits[s[1]], bits[s[2]] = bits[s[2]], bits[s[1]]
    elif k == "Toffoli":
        bits[s[2]] ^= int(all(bits[c] for c in s[1]))
    elif k == "CSWAP":
        if bits[s[1]]:
            bits[s[2]], bits[s[3]] = bits[s[3]], bits[s[2]]


def check_classical(case):
    if case["backend"] == "horqrux" and S.kinds(case["block"]) & {"Toffoli", "CSWAP", "S", "T"}:
        case = dict(case, backend="pyqtorch")
    bits = [0] * case["n"]
    classical_run(case["block"], bits)
    key = "".join(map(str, bits))
    if case["little"]:
        key = key[::-1]
    got = draw_samples(case, backend=case["backend"])
    expect(len(got) == 1 and dict(got[0]) == {key: case["shots"]}, f"{case['backend']} sampled {got}, expected {key} x {case['shots']}")
    return dict(nontrivial=key != "0" * case["n"])


# ------------------------------------------------------------------ rejection
@st.composite
def strat_reject(draw):
    n = draw(st.integers(1, 3))
    cfg = G.Cfg(gates=["H", "X", "RX", "RY", "CNOT"], params=("num", "v"), max_depth=1)
    return dict(n=n, block=G.circuit(draw, list(range(n)), cfg, 1, 3), f={}, shots=-draw(st.integers(0, 5)), little=draw(st.booleans()),
                entry=draw(st.sampled_from(["fn", "model", "backend"])), backend=draw(st.sampled_from(["pyqtorch", "pyqtorch", "horqrux", "pulser"])))


def check_reject(case):
    if case["backend"] == "pulser":
        case = dict(case, block=["chain", [["RX", i, 1.0] for i in range(case["n"])]])
    try:
        got = draw_samples(case, backend=case["backend"])
    except (ValueError, AssertionError):
        return dict(nontrivial=True)
    raise Violation(f"{case['backend']}: {case['shots']} shots accepted, returned {got}")


# ------------------------------------------------------------------ pulse level
def strat_pulser():
    from checks.p09 import strat_pulser as sp

    return st.builds(lambda c, s: dict(c, shots=s), sp(), st.sampled_from([1, 10, 200, 1000]))


def check_pulser(case):
    """the pulse-level sampler against the distribution of the same backend's own final state (P09 checks that state)."""
    import analog as A
    from checks.p09 import allpatterned
    from checks.p14 import compose
    from qadence import Endianness, QuantumCircuit
    from qadence.backends.api import backend_factory

    n = len(case["reg"]["coords"])
    vv, _ = A.names(case["reg"], case["ops"])
    for e in G.envs(vv, case["f"]):
        for s in A.segments(case["reg"], case["ops"], e):
            if isinstance(s, tuple) and s[1] < 0.02:
                raise Skip
    circ = QuantumCircuit(A.build_register(case["reg"]), compose([allpatterned(o) for o in case["ops"]]))
    bk = backend_factory("pulser", diff_mode=None)

    def emb():
        c = bk.convert(circ)
        return c.circuit, c.embedding_fn(c.params, G.tensors(case["f"]))

    try:
        wf = arr(bk.run(*emb()))
    except ValueError as e:  # pulser's own channel limits
        if "channel" in str(e) or "must" in str(e) or "amplitude" in str(e) or "detuning" in str(e) or "duration" in str(e):
            raise Skip
        raise
    P = np.abs(wf) ** 2
    P = P / P.sum(1, keepdims=True)
    got = bk.sample(*emb(), n_shots=case["shots"], endianness=Endianness.LITTLE if case["little"] else Endianness.BIG)
    expect(len(got) == len(P), f"{len(got)} counters for a batch of {len(P)}")
    for i, (c, p) in enumerate(zip(got, P)):
        check_counter(c, p, n, case["shots"], case["little"], 5e-3, f"pulser entry {i}")
    return dict(nontrivial=rich(P))


# ------------------------------------------------------------------ other entry points
@st.composite
def strat_wrap(draw):
    c = draw(mk(nmax=3)())
    c["how"] = draw(st.sampled_from(["block", "register_block", "int_block"]))
    c["state"] = None
    return c


def check_wrap(case):
    from qadence import Endianness, Register, sample

    b = S.build(case["block"])
    n = case["n"]
    if case["how"] == "block":
        sup = S.support(case["block"])
        n = max(sup) + 1
        case = dict(case, n=n)
        args = (b,)
    elif case["how"] == "register_block":
        args = (Register.line(n), b)
    else:
        args = (n, b)
    P, tol, _ = probabilities(case)
    got = sample(*args, values=G.tensors(case["f"]), n_shots=case["shots"], endianness=Endianness.LITTLE if case["little"] else Endianness.BIG)
    expect(len(got) == len(P), f"{len(got)} counters for a batch of {len(P)}")
    for i, (c, p) in enumerate(zip(got, P)):
        check_counter(c, p, n, case["shots"], case["little"], tol, f"sample({case['how']}) entry {i}")
    return dict(nontrivial=rich(P))


FACETS = [
    Facet("born", mk(hamevo=True), check_born, 500, 12000, 3),
    Facet("order", mk(nmax=5), check_order, 250, 6000, 2),
    Facet("sharp", mk(nmax=3), check_sharp, 60, 1500, 2),
    Facet("classical", strat_classical, check_classical, 200, 4000, 2),
    Facet("horqrux", mk(gates=G.HORQRUX_GATES, nmax=3, maxshots=2000, state=False), lambda c: check_born(c, "horqrux"), 40, 1200, 4),
    Facet("pulser", strat_pulser, check_pulser, 40, 900, 3),
    Facet("wrappers", strat_wrap, check_wrap, 150, 3000, 1),
    Facet("reject", strat_reject, check_reject, 60, 1000, 1),
]
