"""P27 information content: the loss landscape analysis against a numpy reimplementation of its definition."""
from __future__ import annotations

import copy
import math
from statistics import NormalDist

import numpy as np
from hypothesis import strategies as st

from harness import Facet, Skip
from oracle import close, expect

RULE = "distinct model, data and threshold grid with at least three landscape points and at least two different symbols at some threshold"
ASSUMPTIONS = ["the sampled points are uniform random numbers; the check takes them from the analysis itself and tests only their number and range",
               "fewer than 10000 transitions, below which the cut-off on small probabilities has no effect",
               "sensitivity bounds only where some threshold has an information content below eta, and 3 * eta / 2 < 1"]
MODELS = ["lin", "mlp", "scalar", "frozen", "tied", "qnn", "qnn_const", "qm"]


def build_model(kind, seed):
    import torch
    from torch import nn

    torch.manual_seed(seed)
    if kind == "lin":
        return nn.Linear(2, 1).double()
    if kind == "mlp":
        return nn.Sequential(nn.Linear(2, 2), nn.Tanh(), nn.Linear(2, 1)).double()
    if kind == "frozen":
        m = nn.Sequential(nn.Linear(2, 2), nn.Tanh(), nn.Linear(2, 1)).double()
        for p in m[0].parameters():
            p.requires_grad = False
        return m
    if kind == "scalar":
        class Scalar(nn.Module):
            def __init__(self):
                super().__init__()
                self.s = nn.Parameter(torch.rand(()))
                self.w = nn.Parameter(torch.rand(2, 1))
                self.register_buffer("b", torch.rand(()))

            def forward(self, x):
                return torch.sin(self.s) * (x @ self.w) + self.b

        return Scalar().double()
    if kind == "tied":
        m = nn.Sequential(nn.Linear(2, 2), nn.Tanh(), nn.Linear(2, 2), nn.Linear(2, 1)).double()
        m[2].weight = m[0].weight
        return m
    from qadence import CNOT, QNN, RX, RY, FeatureParameter, QuantumCircuit, QuantumModel, VariationalParameter, Z, add, chain

    r = np.random.RandomState(seed)
    v = lambda k: VariationalParameter(k, value=float(r.uniform(0, 2)))  # noqa: E731
    ops = [RX(0, v("a")), RY(1, FeatureParameter("x")), CNOT(0, 1), RX(1, FeatureParameter("y")), RY(0, v("b"))]
    if kind == "qnn_const":
        ops.insert(0, RX(1, 0.75))
        ops.append(RY(1, 1.25))
    o = add(Z(0), v("w") * Z(1))
    c = QuantumCircuit(2, chain(*ops))
    if kind == "qm":
        class Wrapped(nn.Module):
            def __init__(self):
                super().__init__()
                self.qm = QuantumModel(c, [o])

            def forward(self, x):
                return self.qm.expectation({"x": x[:, 0], "y": x[:, 1]})

        return Wrapped()
    m = QNN(c, [o], inputs=["x", "y"])
    return m


def loss_for(kind):
    from torch.nn.functional import l1_loss, mse_loss

    f = {"mse": mse_loss, "l1": l1_loss}.get(kind)

    def loss(model, data):
        x, y = data
        out = model(x)
        val = f(out, y) if f else (out * y).sum()
        return val, {"out": out}

    return loss


def h(p):
    return -p * math.log(p) / math.log(6) if p > 0 else 0.0


@st.composite
def strat(draw):
    d = lambda lo, hi: draw(st.integers(lo, hi)) / 64  # noqa: E731
    rows = draw(st.integers(1, 3))
    eps = draw(st.lists(st.sampled_from([1e-4, 1e-2, 0.03, 0.06, 0.1, 0.2, 0.35, 0.5, 0.8, 1.3, 2.0, 5.0, 50.0]), min_size=1, max_size=6, unique=True))
    return dict(model=draw(st.sampled_from(MODELS)), seed=draw(st.integers(0, 50)), mult=draw(st.integers(1, 8)), loss=draw(st.sampled_from(["mse", "l1", "sum"])),
                x=[[d(-100, 100), d(-100, 100)] for _ in range(rows)], y=[[d(-100, 100)] for _ in range(rows)],
                eps=eps, eta=draw(st.sampled_from([0.02, 0.1, 0.3, 0.5, 0.65])), H=draw(st.integers(0, 100)) / 100, rng=draw(st.integers(0, 10**6)))


def trainable(model):
    return [(k, p) for k, p in model.named_parameters() if p.requires_grad]


def reference(model, loss, data, pts, eps):
    """losses, derivatives, symbols, probabilities and information content from their definitions"""
    import torch

    twin = copy.deepcopy(model)
    losses = []
    for row in pts:
        pos = 0
        with torch.no_grad():
            for _, p in trainable(twin):
                k = p.numel()
                p.copy_(torch.as_tensor(row[pos:pos + k]).reshape(p.shape))
                pos += k
        losses.append(float(loss(twin, data)[0]))
    losses = np.array(losses)
    der = np.diff(losses) / (np.linalg.norm(np.diff(pts, axis=0), axis=1) + 1e-8)
    sym = np.array([[1 if v > e else -1 if v < -e else 0 for v in der] for e in eps])
    order = [(1, 0), (1, -1), (0, 1), (0, -1), (-1, 0), (-1, 1)]
    prob = np.array([[sum(1 for a, b in zip(s, s[1:]) if (a, b) == o) / (len(s) - 1) for o in order] for s in sym])
    ic = np.array([sum(h(p) for p in row) for row in prob])
    return losses, der, sym, prob, ic


def solve_q(H):
    f = lambda x: 4 * h(x) + 2 * h(0.5 - 2 * x)  # noqa: E731
    lo, hi = 0.001, 1 / 6
    if f(lo) >= H:
        return lo
    for _ in range(100):
        mid = (lo + hi) / 2
        lo, hi = (mid, hi) if f(mid) < H else (lo, mid)
    return lo


def bounds_ref(max_ic, eps_m, n):
    q = solve_q(max_ic)
    nd = NormalDist()
    return eps_m * math.sqrt(n) / nd.inv_cdf(1 - 2 * q), eps_m * math.sqrt(n) / nd.inv_cdf(0.5 * (1 + 2 * q))


def bounds_tol(max_ic):
    """relative: q is found on a grid of step 1.7e-5, and the equation for q is flat near its maximum"""
    return 0.02 if max_ic > 0.999 else 1e-3 + 2e-5 / solve_q(max_ic)


def snapshot(model):
    return {k: v.detach().clone() for k, v in list(model.named_parameters()) + list(model.named_buffers())}


def make(c):
    import torch

    model = build_model(c["model"], c["seed"])
    data = (torch.tensor(c["x"], dtype=torch.float64), torch.tensor(c["y"], dtype=torch.float64))
    return model, data, loss_for(c["loss"]), torch.tensor(c["eps"], dtype=torch.float64)


def check(c):
    import torch
    from qadence.ml_tools.information import InformationContent

    model, data, loss, eps = make(c)
    before = snapshot(model)
    n = sum(p.numel() for _, p in trainable(model))
    if c["mult"] * n < 3:
        raise Skip
    torch.manual_seed(c["rng"])
    ic = InformationContent(model, loss, data, eps, variation_multiple=c["mult"])
    expect(ic.total_params == n, f"{ic.total_params} variational parameters, the model has {n}")
    pts = np.asarray(ic.all_variations.detach().tolist())
    expect(pts.shape == (c["mult"] * n, n), f"landscape points of shape {pts.shape} for {n} parameters and multiple {c['mult']}")
    expect(bool((pts >= 0).all() and (pts <= 2 * math.pi).all()), "landscape point outside [0, 2 pi]")
    expect(len({tuple(r) for r in pts.tolist()}) == len(pts), "repeated landscape points")
    losses, der, sym, prob, icv = reference(model, loss, data, pts, c["eps"])
    if np.any(np.abs(np.abs(der)[None, :] - np.array(c["eps"])[:, None]) < 1e-7):
        raise Skip
    shaped = ic.reshape_param_variations()
    expect(sorted(shaped) == sorted(k for k, _ in trainable(model)), f"varied parameters {sorted(shaped)}")
    for k, p in trainable(model):
        expect(tuple(shaped[k].shape) == (len(pts), *p.shape), f"variations of {k} have shape {tuple(shaped[k].shape)}")
    close(np.array(ic.batched_loss().detach().tolist()), losses, "losses", 1e-6, max(1.0, float(np.abs(losses).max())))
    close(np.array(ic.randomized_finite_der().detach().tolist()), der, "finite differences", 1e-6, max(1.0, float(np.abs(der).max())))
    got = np.array(ic.discretize_derivatives().detach().tolist())
    expect(got.shape == sym.shape and bool((got == sym).all()), f"symbols {got.tolist()} instead of {sym.tolist()}")
    close(np.array(ic.calculate_transition_probabilities_batch().tolist()), prob, "transition probabilities", 1e-6, 1.0)
    close(np.array(ic.calculate_IC.tolist()), icv, "information content", 1e-5, 1.0)
    m, e = ic.max_IC()
    close(m, icv.max(), "maximum information content", 1e-5, 1.0)
    best = [x for x, v in zip(c["eps"], icv) if v >= icv.max() - 1e-5]
    expect(any(abs(e - x) < 1e-6 * max(1.0, x) for x in best), f"threshold of the maximum {e}, expected one of {best}")
    for H in (c["H"], m):
        close(ic.q_value(H), solve_q(H), f"q for information content {H}", 2.5e-5 if H < 0.999 else 2e-3, 1.0)
    got = ic.get_grad_norm_bounds_max_IC()
    ref = bounds_ref(m, e, n)
    tol = bounds_tol(m)
    close(got[0], ref[0], "lower bound", tol, max(1e-9, ref[0]))
    close(got[1], ref[1], "upper bound", tol, max(1e-9, ref[1]))
    low = [x for x, v in zip(c["eps"], icv) if v < c["eta"]]
    if low and not np.any(np.abs(icv - c["eta"]) < 1e-5):
        close(ic.sensitivity_IC(c["eta"]), min(low), "sensitivity threshold", 1e-6, max(1e-6, min(low)))
        close(ic.get_grad_norm_bounds_sensitivity_IC(c["eta"]), min(low) * math.sqrt(n) / NormalDist().inv_cdf(1 - 1.5 * c["eta"]), "sensitivity bound", 1e-6, 100.0)
    after = snapshot(model)
    expect(all(torch.equal(before[k], after[k]) for k in before), "the analysis changed the model")


def nontrivial(c):
    return c["mult"] >= 2 and len(c["x"]) >= 1


@st.composite
def strat_trainer(draw):
    c = draw(strat())
    c["own_loader"] = draw(st.booleans())
    c["batch"] = draw(st.integers(1, 3))
    c["eta"] = 0.65
    c["eps"] = sorted(set(c["eps"]) | {1e6})
    return c


def check_trainer(c):
    """the trainer reports the bounds of the analysis of its model, loss and (first) batch"""
    import torch
    from qadence.ml_tools import TrainConfig, Trainer
    from qadence.ml_tools.data import to_dataloader

    model, (x, y), loss, eps = make(c)
    names = [k for k, _ in trainable(model)]
    n = sum(p.numel() for _, p in trainable(model))
    if c["mult"] * n < 3:
        raise Skip
    before = snapshot(model)
    pts, batches = [], []

    def recorded(module, args, out):
        now = dict(module.named_parameters())
        pts.append([v for k in names for v in now[k].detach().flatten().tolist()])

    def recording_loss(m, batch):
        batches.append(batch)
        return loss(m, batch)

    mk = lambda x, y: to_dataloader(x, y, batch_size=c["batch"], infinite=True)  # noqa: E731
    own, other = mk(x, y), mk(x + 7.5, y - 0.25)
    tr = Trainer(model=model, optimizer=torch.optim.SGD([p for _, p in trainable(model)], lr=0.1), config=TrainConfig(max_iter=1, verbose=False), loss_fn=recording_loss,
                 train_dataloader=own if c["own_loader"] else other)
    torch.manual_seed(c["rng"])
    handle = model.register_forward_hook(recorded)
    got = tr.get_ic_grad_bounds(c["eta"], eps, variation_multiple=c["mult"], dataloader=None if c["own_loader"] else own)
    handle.remove()
    # the loss may be evaluated more than once per point
    pts = np.array(list(dict.fromkeys(map(tuple, pts))))
    expect(len(pts) == c["mult"] * n, f"{len(pts)} landscape points for {n} parameters and multiple {c['mult']}")
    bx, by = batches[0]
    expect(all(torch.equal(u, bx) and torch.equal(v, by) for u, v in batches), "different batches within one analysis")
    rows = {tuple(r) for r in torch.cat([x, y], 1).tolist()}
    expect(len(bx) == c["batch"] and all(tuple(r) in rows for r in torch.cat([bx, by], 1).tolist()), f"batch {bx.tolist()} is not one of the given data")
    _, der, _, _, icv = reference(model, loss, (bx, by), pts, c["eps"])
    if np.any(np.abs(np.abs(der)[None, :] - np.array(c["eps"])[:, None]) < 1e-7) or np.sum(icv >= icv.max() - 1e-5) > 1 or np.any(np.abs(icv - c["eta"]) < 1e-5):
        raise Skip
    e = c["eps"][int(np.argmax(icv))]
    lo, up = bounds_ref(icv.max(), e, n)
    tol = bounds_tol(icv.max())
    close(got[0], lo, "lower bound of the trainer", tol, max(1e-9, lo))
    close(got[1], up, "upper bound of the trainer", tol, max(1e-9, up))
    s = min(x for x, v in zip(c["eps"], icv) if v < c["eta"]) * math.sqrt(n) / NormalDist().inv_cdf(1 - 1.5 * c["eta"])
    close(got[2], s, "sensitivity bound of the trainer", 1e-5, max(1e-9, abs(s)))
    after = snapshot(model)
    expect(all(torch.equal(before[k], after[k]) for k in before), "the analysis changed the model")


FACETS = [
    Facet("landscape", strat, check, 240, 6000, 4, nontrivial=nontrivial),
    Facet("trainer", strat_trainer, check_trainer, 80, 2000, 4, nontrivial=nontrivial),
]
