"""P04 derivatives in every differentiation mode."""
from __future__ import annotations

import numpy as np
from hypothesis import strategies as st

import gen as G
import spec as S
from checks.p03 import observable
from harness import Facet, Known, Skip, Violation
from oracle import close, expect

RULE = "distinct case where at least one parameter has a derivative of modulus > 1e-3"
ASSUMPTIONS = [
    "true derivative: sixth-order central differences of the dense numpy reference",
    "parameter-shift mode: parameters in the circuit only (observable parameters raise), generators with numeric coefficients, and shifts for which the linear system is well conditioned (documented: choose shift_prefac according to the spectral gaps)",
    "adjoint mode: unitary circuits without scale factors, numeric observables",
]
C6 = [(-3, -1 / 60), (-2, 3 / 20), (-1, -3 / 4), (1, 3 / 4), (2, -3 / 20), (3, 1 / 60)]


def mk(mode, cfgkw, coef, nmax=3, batches=(1, 2, 3), items=5, state=True, prefac=False):
    @st.composite
    def strat(draw):
        cfg = G.Cfg(**cfgkw)
        n = draw(st.integers(1, nmax))
        qs = list(range(n))
        # rotate away from the computational basis first so that derivatives are rarely zero
        pre = ["kron", [["RY", q, 0.7 + 0.4 * q] for q in qs]]
        mid = G.circuit(draw, qs, cfg, 1, items)
        b = ["chain", [pre] + mid[1] + [["kron", [["RX", q, 1.1 - 0.3 * q] for q in qs]]]]
        k = draw(st.integers(1, 3))
        obs = [observable(draw, qs, cfg, coef) for _ in range(k)]
        vv, fn = S.names(b, *obs)
        if not vv and not fn:
            obs_ = G.param(draw, cfg, ["v", "f"])
            b = ["chain", b[1] + [["RY", draw(st.sampled_from(qs)), obs_]]]
            vv, fn = S.names(b, *obs)
        bs = draw(st.sampled_from(list(batches)))
        fv = G.feature_values(draw, fn, bs)
        case = dict(n=n, block=b, obs=obs, f=fv, mode=mode, wseed=draw(st.integers(0, 999)),
                    state=draw(st.integers(0, 999)) if state and draw(st.integers(0, 3)) == 0 else None)
        if mode == "adjoint" and draw(st.integers(0, 19)):
            case["block"] = sort_supports(b)
        if prefac:
            case["prefac"] = draw(st.sampled_from([None, None, 0.5, 0.2, 0.37]))
        return case

    return strat


@st.composite
def optimal(draw):
    """shifts chosen by the library inside [lb, ub] (shift_prefac None); gates with known well separated gaps."""
    case = draw(mk("gpsr", OPT, ("num",), batches=(1, 2), items=3)())
    if case["n"] > 1 and draw(st.integers(0, 2)) == 0:
        g = draw(st.sampled_from([["add", [["Z", 0], ["X", 1]]], ["add", [["kron", [["Z", 0], ["Z", 1]]], ["X", 0]]], ["add", [["Y", 0], ["X", 1]]]]))
        ev = ["HamEvo", g, ["v", "evt", draw(st.sampled_from([0.83, -0.4, 1.7]))]]
        case["block"] = ["chain", case["block"][1][:-1] + [ev, case["block"][1][-1]]]
    case["bounds"] = [draw(st.sampled_from([0.2, 0.4, 0.7])), draw(st.sampled_from([1.3, 2.0, 2.8]))]
    return case


def psi0(case):
    n = case["n"]
    if case.get("state") is not None:
        return G.state_vec(case["state"], n, 1)[0]
    v = np.zeros(2**n, complex)
    v[0] = 1
    return v


def fval(case, env):
    n = case["n"]
    psi = S.mat(case["block"], env, n) @ psi0(case)
    return np.array([np.vdot(psi, S.mat(o, env, n) @ psi).real for o in case["obs"]])


def prepare(case):
    b, obs = case["block"], case["obs"]
    if S.degenerate(b, *obs):
        raise Skip
    vv, fn = S.names(b, *obs)
    es = G.envs(vv, case["f"])
    sb = max(S.sens(b, e) for e in es) + max(S.sens(o, e) for o in obs for e in es)
    bound = max(max(1, S.gen_norm(o, e)) for o in obs for e in es)
    if sb > 150 or bound > 200:
        raise Skip
    return vv, fn, es, sb, bound


def grads(case, vv, fn, es, sb):
    """-> {name: array [batch, n_obs]} of true derivatives"""
    h = 0.04 / (1 + sb)
    out = {}
    for nm in sorted(vv) + sorted(fn):
        out[nm] = np.array([sum(c * fval(case, {**e, nm: e[nm] + k * h}) for k, c in C6) / h for e in es])
    return out


def second(case, a, b, es, sb):
    h = 0.12 / (1 + sb)
    res = []
    for e in es:
        t = 0
        for k, c in C6:
            for l, d in C6:
                e2 = dict(e)
                e2[a] += k * h
                e2[b] += l * h
                t = t + c * d * fval(case, e2)
        res.append(t / h**2)
    return np.array(res)


def hamevo_cond(case, es):
    """Conditioning of the shift equations for every Hamiltonian evolution in the circuit."""
    pre = case.get("prefac") or 0.5
    worst = 1.0
    for x in S.walk(case["block"]):
        if x[0] == "HamEvo":
            sup = S.support(x[1])
            ev = np.linalg.eigvalsh(S.submatrix_embed(x[1], es[0], sup))
        elif x[0] == "HamEvoM":
            ev = np.linalg.eigvalsh(S.seeded("herm", x[2], len(x[3])))
        else:
            continue
        gaps = np.abs(ev[:, None] - ev[None, :])
        # the library takes gaps at four decimals; equal or nearly equal gaps are one gap
        u = np.unique(np.round(gaps * 2, 4))
        u = u[u > 0]
        if len(u) == 0:
            return np.inf
        if np.min(np.diff(np.concatenate([[0], u]))) < 0.05:
            return np.inf
        f = 0.5 if case.get("prefac") is None else 0.5 * pre
        if len(u) == 1:
            s = np.array([f * np.pi / 2])
        else:
            s = f * np.linspace(np.pi / 4, np.pi / 2 + np.pi / 5, len(u))
        M = 4 * np.sin(np.outer(s, u) / 2)
        sv = np.linalg.svd(M, compute_uv=False)
        worst = max(worst, np.max(u) / sv[-1])
    return worst


def model(case):
    from qadence import QuantumCircuit, QuantumModel

    kw = {}
    if case.get("prefac") is not None:
        kw["configuration"] = {"shift_prefac": case["prefac"]}
    if case.get("bounds"):
        kw["configuration"] = {"shift_prefac": None, "lb": case["bounds"][0], "ub": case["bounds"][1]}
    return QuantumModel(QuantumCircuit(case["n"], S.build(case["block"])), [S.build(o) for o in case["obs"]], diff_mode=case["mode"], **kw)


def leafs(case, m):
    """named torch leaves: variational parameters by name and feature tensors."""
    import torch

    fv = {k: torch.tensor(v, dtype=torch.float64, requires_grad=True) for k, v in case["f"].items()}
    vp = {}
    for k, p in m.named_parameters():
        if p.requires_grad:
            vp[k.split(".", 1)[1]] = p
    return vp, fv


def forward(case, m, fv):
    import torch

    st_ = torch.tensor(psi0(case)[None]) if case.get("state") is not None else None
    return m.expectation(fv, state=st_)


def unsorted_control(case):
    return case["mode"] == "adjoint" and any(
        x[0] in S.CROT + S.MCROT + ("CNOT", "CZ", "MCZ", "Toffoli", "CSWAP") and S.leaf_support(x) != sorted(S.leaf_support(x))
        for x in S.leaves(case["block"]))


def diagonal_point(case):
    """some parametric generator happens to be diagonal at the values used, but is not diagonal in general."""
    vv, fn = S.names(case["block"], *case["obs"])
    es = G.envs(vv, case["f"])

    def diag(g, e):
        M = S.submatrix_embed(g, e, S.support(g))
        return np.max(np.abs(M - np.diag(np.diag(M)))) < 1e-12

    for x in S.walk(case["block"]):
        if x[0] == "HamEvo" and any(S.names(x[1])):
            if any(diag(x[1], e) for e in es) and not diag(x[1], {k: v + 0.3712 + 0.01 * i for i, (k, v) in enumerate(sorted(es[0].items()))}):
                return True
    return False


def guarded(fn):
    def check(case):
        try:
            return fn(case)
        except Violation as e:
            if unsorted_control(case):
                raise Known("P04-adjoint-control-order", str(e)) from e
            if case["mode"] == "adjoint" and any(x[0] == "U" and any(S.names(x)) for x in S.leaves(case["block"])):
                raise Known("P04-adjoint-u-gate", str(e)) from e
            if diagonal_point(case):
                raise Known("P04-diagonal-generator", str(e)) from e
            raise

    return check


def sort_supports(s):
    """controls before targets in ascending order, everywhere."""
    k = s[0]
    if k == "U":
        return ["chain", [["RZ", s[1], s[2]], ["RY", s[1], s[3]], ["RZ", s[1], s[4]]]]
    if S.children(s):
        if k in S.COMPOSITE:
            return [k, [sort_supports(c) for c in s[1]]]
        return s
    if k in S.CROT + S.MCROT + ("CNOT", "CZ", "MCZ", "Toffoli", "CSWAP"):
        sup = S.leaf_support(s)
        r = dict(zip(sup, sorted(sup)))
        return S.relabel(s, r)
    return s


@guarded
def check_first(case):
    import torch

    vv, fn, es, sb, bound = prepare(case)
    if case.get("bounds"):
        extra = 1e-4 * (1 + sb)
    elif case["mode"] == "gpsr":
        cond = hamevo_cond(case, es)
        if not cond < 30:
            raise Skip
        extra = 1e-4 * cond * (1 + sb)
    else:
        extra = 0
    true = grads(case, vv, fn, es, sb)
    m = model(case)
    vp, fv = leafs(case, m)
    expect(set(vp) == set(vv), f"trainable parameters {sorted(vp)} expected {sorted(vv)}")
    out = forward(case, m, fv)
    B = len(es)
    expect(tuple(out.shape) == (B, len(case["obs"])), f"shape {tuple(out.shape)}")
    w = np.random.RandomState(case["wseed"]).uniform(0.5, 2, size=(B, len(case["obs"]))) * np.random.RandomState(case["wseed"] + 1).choice([1, -1, 1], size=(B, len(case["obs"])))
    names = sorted(vv) + sorted(fn)
    ls = [vp[k] if k in vv else fv[k] for k in names]
    gs = torch.autograd.grad(out, ls, torch.tensor(w, dtype=out.dtype), allow_unused=True)
    big = 0.0
    for k, g, l in zip(names, gs, ls):
        t = (w * true[k]).sum(axis=1)
        big = max(big, float(np.max(np.abs(true[k]))))
        size = l.numel()
        want = t if size == len(t) else np.array([t.sum()])
        got = np.zeros(size) if g is None else g.detach().reshape(-1)
        sc = max(1.0, float(np.max(np.abs(w * true[k]))) * B)
        close(got, want, f"d/d{k} in mode {case['mode']}", (2e-5 * (1 + sb) * bound + extra * bound) , sc)
    return dict(nontrivial=big > 1e-3)


@guarded
def check_second(case):
    import torch

    vv, fn, es, sb, bound = prepare(case)
    if sb > 40 or bound > 30:
        raise Skip
    extra = 0.0
    if case["mode"] == "gpsr":
        cond = hamevo_cond(case, es)
        if not cond < 15:
            raise Skip
        extra = 2e-4 * cond * (1 + sb)
    m = model(case)
    vp, fv = leafs(case, m)
    names = sorted(vv) + sorted(fn)
    r = np.random.RandomState(case["wseed"])
    a, b = names[r.randint(len(names))], names[r.randint(len(names))]
    la, lb = [vp[k] if k in vv else fv[k] for k in (a, b)]
    out = forward(case, m, fv)
    j = r.randint(len(case["obs"]))
    g = torch.autograd.grad(out[:, j].sum(), la, create_graph=True, allow_unused=True)[0]
    want = second(case, a, b, es, sb)[:, j]
    if g is None or not g.requires_grad:
        h = None
    else:
        h = torch.autograd.grad(g.sum(), lb, allow_unused=True)[0]
    got = np.zeros(lb.numel()) if h is None else h.detach().reshape(-1).numpy()
    exp_ = want if lb.numel() == len(want) else np.array([want.sum()])
    close(got, exp_, f"d2/d{a}d{b} in mode {case['mode']}", 5e-5 * (1 + sb) ** 2 * bound + extra * bound * (1 + sb), max(1.0, float(np.max(np.abs(want))) * len(es)))
    return dict(nontrivial=float(np.max(np.abs(want))) > 1e-3)


ALL = G.UNITARY_GATES
AD = dict(hamevo=True, hamevom=True, max_depth=1, max_children=3, gen_params=("num", "v", "f", "expr"))
PS = dict(hamevo=True, max_depth=1, max_children=3)
OPT = dict(hamevo=False, max_depth=1, max_children=3)
ADJ = dict(gates=ALL, hamevo=False, max_depth=1, max_children=3)
FACETS = [
    Facet("ad", mk("ad", AD, ("num", "v", "f", "expr")), check_first, 500, 8000, 3),
    Facet("gpsr", mk("gpsr", PS, ("num",), prefac=True), check_first, 400, 8000, 3),
    Facet("gpsr_optimal", optimal, check_first, 60, 1500, 2),
    Facet("adjoint", mk("adjoint", ADJ, ("num",)), check_first, 400, 8000, 2),
    Facet("second_ad", mk("ad", dict(AD, gen_params=("num",)), ("num", "v", "f"), nmax=2, batches=(1, 2), items=3), check_second, 120, 3000, 2),
    Facet("second_gpsr", mk("gpsr", PS, ("num",), nmax=2, batches=(1, 2), items=3), check_second, 120, 3000, 2),
]
