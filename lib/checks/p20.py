"""P20 overlaps."""
from __future__ import annotations

import math

import numpy as np
from hypothesis import strategies as st

import gen as G
import spec as S
from harness import Facet, Known, Skip, Violation
from oracle import arr, close, expect

RULE = "distinct pair of circuits whose overlap is strictly between 0.001 and 0.999 for some entry (counters facet: two different distributions)"
ASSUMPTIONS = ["both circuits have the same number of qubits and start from the zero state unless states are given to the exact method",
               "at most one feature parameter per circuit for a matrix of overlaps (documented limit); circuits sharing a feature give one row per value"]
METHODS = ["exact", "compute_uncompute", "swap_test", "hadamard_test"]


def one_feature(cfg, name):
    cfg.fnames = [name]
    return cfg


def mk(methods, nmax=3):
    def strat():
        @st.composite
        def s(draw):
            n = draw(st.integers(1, nmax))
            qs = list(range(n))
            vv = {}
            mode = draw(st.sampled_from(["two", "two", "two", "shared", "bra", "ket", "none", "bra2"]))
            kb = ("num", "v", "f", "expr") if mode in ("two", "shared", "bra", "bra2") else ("num", "v")
            kk = ("num", "v", "f", "expr") if mode in ("two", "shared", "ket") else ("num", "v")
            cb = G.Cfg(params=kb, vvals=vv, max_depth=2, fnames=["x", "z"] if mode == "bra2" else ["x"], hamevo=draw(st.integers(0, 3)) == 0)
            ck = G.Cfg(gates=[g for g in G.UNITARY_GATES if g != "T"], params=kk, vvals=vv, max_depth=2, fnames=["x"] if mode == "shared" else ["y"])
            bra, ket = G.circuit(draw, qs, cb, 1, 4), G.circuit(draw, qs, ck, 1, 4)
            if draw(st.integers(0, 6)) == 0:
                ket = S.substitute(bra, {}) if False else ket
            fb, fk = S.names(bra)[1], S.names(ket)[1]
            b1, b2 = draw(st.integers(1, 4)), draw(st.integers(1, 4))
            if fb & fk:
                b2 = b1
            f = {k: [G.generic(draw, -4, 4) for _ in range(b1)] for k in sorted(fb)}
            g = {k: (f[k] if k in fb else [G.generic(draw, -4, 4) for _ in range(b2)]) for k in sorted(fk)}
            differ = bool(fb & fk) and draw(st.integers(0, 4)) == 0
            if differ:
                g = {k: [G.generic(draw, -4, 4) for _ in range(b1)] for k in sorted(fk)}
            return dict(n=n, bra=bra, ket=ket, f=f, g=g, method=draw(st.sampled_from(methods)), states=draw(st.integers(0, 3)) == 0,
                        shots=draw(st.sampled_from([1500, 3000])), seed=draw(st.integers(0, 10**6)), scalar=draw(st.booleans()), mode=draw(st.sampled_from(["ad", "ad", "gpsr"])), twice=draw(st.integers(0, 4)) == 0)
        return s()
    return strat


def amplitudes(c):
    """Matrix of amplitudes <bra_i|ket_j>, or one column when at most one feature name is used."""
    n = c["n"]
    if S.degenerate(c["bra"], c["ket"]):
        raise Skip
    vv = S.names(c["bra"], c["ket"])[0]
    eb, ek = G.envs(vv, c["f"]), G.envs(vv, c["g"])
    if max(S.sens(b, e) for b, es in ((c["bra"], eb), (c["ket"], ek)) for e in es) > 1000:
        raise Skip
    psi0 = np.zeros(2**n, complex)
    psi0[0] = 1
    p0 = q0 = psi0
    if c.get("states") and c["method"] == "exact":
        p0, q0 = (np.asarray(G.state_vec(c["seed"] + i, n, 1))[0] for i in (0, 1))
    A = np.array([S.mat(c["bra"], e, n) @ p0 for e in eb])
    B = np.array([S.mat(c["ket"], e, n) @ q0 for e in ek])
    M = A.conj() @ B.T
    names = set(c["f"]) | set(c["g"])
    if len(names) == 2 and c["f"] and c["g"]:
        if set(c["f"]) & set(c["g"]):
            raise Skip
        return M, A, B
    if c["f"] and c["g"]:
        return np.diag(M)[:, None], A, B
    return M.reshape(-1, 1), A, B


def circ(n, b):
    from qadence import QuantumCircuit

    return QuantumCircuit(n, S.build(b))


def model(c):
    from qadence import Overlap
    from qadence.types import OverlapMethod

    kw = dict(diff_mode=c["mode"]) if c["mode"] == "gpsr" else {}
    return Overlap(circ(c["n"], c["bra"]), circ(c["n"], c["ket"]), method=getattr(OverlapMethod, c["method"].upper()), **kw)


def vals(f, scalar):
    import torch

    t = G.tensors(f)
    if scalar and all(len(v) == 1 for v in f.values()):
        t = {k: v.reshape(()) for k, v in t.items()}
    return t


def args(c):
    import torch

    two = len(set(c["f"]) | set(c["g"])) == 2
    kw = dict(bra_param_values=vals(c["f"], c["scalar"] and not two), ket_param_values=vals(c["g"], c["scalar"] and not two))
    if c["states"] and c["method"] == "exact":
        kw.update(bra_state=torch.tensor(G.state_vec(c["seed"], c["n"], 1)), ket_state=torch.tensor(G.state_vec(c["seed"] + 1, c["n"], 1)))
    return kw


def merged_differs(c):
    return c["method"] != "exact" and c["method"] != "jensen_shannon" and any(c["f"][k] != c["g"][k] for k in set(c["f"]) & set(c["g"]))


def check(c):
    amp, _, _ = amplitudes(c)
    want = np.abs(amp) ** 2
    m = model(c)
    kw = args(c)
    got = m(**kw)
    tol = 2e-5
    if merged_differs(c):
        # the merged circuit takes the bra's value for both
        alt = dict(c, g={k: c["f"].get(k, v) for k, v in c["g"].items()})
        g = arr(got)
        if g.shape == want.shape and np.abs(g - want).max() > tol:
            close(got, np.abs(amplitudes(alt)[0]) ** 2, "overlap with a shared feature of different values (model of the known finding)", tol=tol)
            raise Known("P20-shared-feature-merged", "merged-circuit overlap methods use the bra's value for a feature shared with the ket")
    if arr(got).shape != want.shape and arr(got).T.shape == want.shape and not c["f"]:
        got = got.T
    close(got, want, f"{c['method']} overlap", tol=tol)
    if c["twice"]:
        close(m(**kw), arr(got).reshape(arr(m(**kw)).shape), "second evaluation", tol=1e-9)
    return dict(nontrivial=bool(((want > 1e-3) & (want < 0.999)).any()))


def check_shots(c):
    import torch

    if merged_differs(c):
        raise Skip
    amp, A, B = amplitudes(dict(c, states=False))
    want = np.abs(amp) ** 2
    torch.manual_seed(c["seed"])
    kw = args(dict(c, states=False))
    N = c["shots"]
    got = arr(model(c)(n_shots=N, **kw))
    if got.shape != want.shape and got.T.shape == want.shape and not c["f"]:
        got = got.T
    expect(got.shape == want.shape, f"{c['method']} overlap from shots: shape {got.shape}, expected {want.shape}")

    def sig(p):
        return 7 * math.sqrt(max(p * (1 - p), 0) / N) + 10 / N
    for idx in np.ndindex(*want.shape):
        o = float(want[idx])
        if c["method"] == "compute_uncompute":
            lim, exact = sig(o), o
        elif c["method"] == "swap_test":
            lim, exact = 2 * sig((1 + o) / 2), o
        elif c["method"] == "hadamard_test":
            lim = exact = None
            a = complex(amp[idx])
            # |2 p - 1|^2 terms: bound by the deviation of each factor
            d = [2 * sig((1 + x) / 2) for x in (a.real, a.imag)]
            lim, exact = sum(2 * abs(x) * e + e * e for x, e in zip((a.real, a.imag), d)), o
        else:
            i, j = idx if len(set(c["f"]) | set(c["g"])) == 2 and c["f"] and c["g"] else (idx[0] if len(A) > 1 else 0, idx[0] if len(B) > 1 else 0)
            p, q = np.abs(A[i]) ** 2, np.abs(B[j]) ** 2
            exact = 1 - jsd(p, q)
            lim = None
            # total-variation deviation bounds the change of the divergence: |dJSD| <= sum over outcomes of local entropy changes
            lim = 0.0
            for x, y in zip(p, q):
                lim += entdev(x, sig(x)) / 2 + entdev(y, sig(y)) / 2 + entdev((x + y) / 2, (sig(x) + sig(y)) / 2)
        expect(abs(float(got[idx]) - exact) <= lim + 1e-6, f"{c['method']} overlap from {N} shots at {idx}: {float(got[idx])}, expected {exact} within {lim}")
    return dict(nontrivial=bool(((want > 1e-3) & (want < 0.999)).any()))


def h(x):
    return -x * math.log(x) if x > 0 else 0.0


def entdev(x, d):
    lo, hi = max(0.0, x - d), min(1.0, x + d)
    cand = [h(lo), h(hi)] + ([h(math.exp(-1))] if lo < math.exp(-1) < hi else [])
    return max(abs(v - h(x)) for v in cand)


def jsd(p, q):
    return sum(h((a + b) / 2) - h(a) / 2 - h(b) / 2 for a, b in zip(p, q))


def strat_count():
    @st.composite
    def s(draw):
        n = draw(st.integers(1, 4))

        def cnt():
            keys = draw(st.lists(st.integers(0, 2**n - 1), min_size=1, max_size=8, unique=True))
            return [[k, draw(st.integers(1, 60))] for k in keys]
        k = draw(st.integers(1, 3))
        return dict(n=n, p=[cnt() for _ in range(k)], q=[cnt() for _ in range(k)])
    return s()


def check_count(c):
    from collections import Counter

    from qadence.divergences import js_divergence, norm_difference, shannon_entropy
    from qadence.overlap import overlap_compute_uncompute, overlap_hadamard_test, overlap_jensen_shannon, overlap_swap_test

    n = c["n"]

    def C(x):
        return Counter({format(k, f"0{n}b"): v for k, v in x})

    def D(x):
        v = np.zeros(2**n)
        for k, m in x:
            v[k] = m
        return v / v.sum()
    P, Q = [C(x) for x in c["p"]], [C(x) for x in c["q"]]
    keep = ([dict(x) for x in P], [dict(x) for x in Q])
    ps, qs = [D(x) for x in c["p"]], [D(x) for x in c["q"]]
    want = np.array([jsd(a, b) for a, b in zip(ps, qs)])
    close(np.array([js_divergence(a, b) for a, b in zip(P, Q)]), want, "js_divergence", tol=1e-9)
    close(np.array([js_divergence(b, a) for a, b in zip(P, Q)]), want, "js_divergence is not symmetric", tol=1e-9)
    close(np.array([js_divergence(a, a) for a in P]), 0 * want, "js_divergence of equal distributions", tol=1e-9)
    close(overlap_jensen_shannon(P, Q), 1 - want, "overlap_jensen_shannon", tol=1e-6)
    close(np.array([shannon_entropy(Counter({k: v / sum(a.values()) for k, v in a.items()})) for a in P]), np.array([sum(map(h, p)) for p in ps]), "shannon_entropy", tol=1e-9)
    close(np.array([norm_difference(a, b) for a, b in zip(P, Q)]), np.array([np.linalg.norm(a - b) for a, b in zip(ps, qs)]), "norm_difference", tol=1e-9)
    # estimators from counts: all counters of one call hold the same number of shots
    N = 64
    P2 = []
    for x in P:
        y, left = Counter(), N
        for k, v in x.items():
            t = min(left, v)
            if t:
                y[k] = t
            left -= t
        if left:
            y[next(iter(x))] += left
        P2.append(y)
    cu = np.array([y["0" * n] / N for y in P2])
    p0 = np.array([sum(v for k, v in y.items() if k[0] == "0") / N for y in P2])
    P2c = [Counter({k: v for k, v in y.items() if v}) for y in P2]
    close(overlap_compute_uncompute(P2c), cu, "overlap_compute_uncompute from counts", tol=1e-6)
    close(overlap_swap_test(P2c), 2 * p0 - 1, "overlap_swap_test from counts", tol=1e-6)
    close(overlap_hadamard_test(P2c, P2c[::-1]), (2 * p0 - 1) ** 2 + (2 * p0[::-1] - 1) ** 2, "overlap_hadamard_test from counts", tol=1e-6)
    expect(([dict(x) for x in P], [dict(x) for x in Q]) == keep, "a divergence changed its counters")
    return dict(nontrivial=c["p"] != c["q"])


FACETS = [
    Facet("methods", mk(METHODS), check, 400, 10000, 4),
    Facet("shots", mk(METHODS[1:] + ["jensen_shannon"], 2), check_shots, 120, 3000, 3),
    Facet("counters", strat_count, check_count, 500, 10000, 1),
]
