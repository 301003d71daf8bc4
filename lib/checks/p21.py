"""P21 quantum neural networks."""
from __future__ import annotations

import itertools
import math

import numpy as np
from hypothesis import strategies as st

import gen as G
import spec as S
from harness import Facet, Skip, Violation
from oracle import arr, close, expect

RULE = ("distinct network with at least two inputs or two outputs or an order of inputs that is not alphabetical "
        "(derivatives: order two or a second input; configurations: several features, repetitions, own operations or observables)")
ASSUMPTIONS = ["the list of inputs names exactly the feature parameters of the network, as documented",
               "derivatives: networks with one output; finite differences are compared within their discretisation error",
               "configurations: trainable observable transformations or numbers (feature-valued ones need inputs the configuration cannot declare)",
               "Rydberg strategies: the list of blocks and their values; their physics is decided by P13, P14 and P16"]
GATES = ["RX", "RY", "RZ", "PHASE", "U", "CRX", "CRY", "CRZ", "CPHASE", "H", "X", "S", "CNOT", "CZ", "SWAP"]
NAMES = ["x", "s", "t", "phi", "x1", "x10"]


def psi0(n):
    v = np.zeros(2**n, complex)
    v[0] = 1
    return v


def model_value(c, env, init=None):
    n = c["n"]
    psi = S.mat(c["block"], env, n) @ (psi0(n) if init is None else init)
    return np.array([np.vdot(psi, S.mat(o, env, n) @ psi).real for o in c["obs"]])


@st.composite
def net(draw, nobs=(1, 3), nin=(1, 3), batch=(1, 4), obsf=True):
    n = draw(st.integers(1, 3))
    k = draw(st.integers(*nin))
    names = list(draw(st.permutations(NAMES)))[:k]
    cfg = G.Cfg(gates=GATES, hamevo=True, max_depth=2, fnames=names)
    b = G.circuit(draw, list(range(n)), cfg, 1, 6)
    # every declared input is used
    for q, f in enumerate(names):
        b = ["chain", [b, [draw(st.sampled_from(["RX", "RY"])), draw(st.integers(0, n - 1)), draw(st.sampled_from([["f", f], ["*", 0.5 + q, ["f", f]]]))]]]
    b = ["chain", [b, G.circuit(draw, list(range(n)), cfg, 1, 3)]]
    ocfg = G.Cfg(fnames=names, vvals=cfg.vvals)
    obs = [G.hermitian(draw, list(range(n)), ocfg, coef=("num", "v", "f") if obsf else ("num", "v")) for _ in range(draw(st.integers(*nobs)))]
    bs = draw(st.integers(*batch))
    rows = [[G.generic(draw, -2.0, 2.0) for _ in names] for _ in range(bs)]
    return dict(n=n, block=b, obs=obs, names=names, rows=rows, sym=draw(st.booleans()), single=draw(st.booleans()))


def unitary_only(b):
    return not S.degenerate(b)


def make(c, **kw):
    import sympy
    from qadence import QNN, QuantumCircuit
    obs = [S.build(o) for o in c["obs"]]
    inp = [sympy.Symbol(x) if c["sym"] and i % 2 else x for i, x in enumerate(c["names"])]
    # a single input need not be declared
    if len(inp) == 1 and c["single"]:
        inp = None
    return QNN(QuantumCircuit(c["n"], S.build(c["block"])), obs if len(obs) > 1 or c["single"] else obs[0], inputs=inp, **kw)


def env_of(c, row):
    vv, _ = S.names(c["block"], *c["obs"])
    return {**vv, **dict(zip(c["names"], row))}


@st.composite
def forward_case(draw):
    c = draw(net())
    c["how"] = draw(st.sampled_from(["call", "call", "expectation", "own-observable", "state", "run"]))
    c["seed"] = draw(st.integers(0, 99))
    return c


def run_forward(c):
    import torch
    if S.degenerate(c["block"], *c["obs"]):
        raise Skip
    m = make(c)
    n = c["n"]
    X = torch.tensor(c["rows"], dtype=torch.float64)
    expect(m.in_features == len(c["names"]) and [str(i) for i in m.inputs] == c["names"], f"inputs {m.inputs}")
    expect(m.out_features == len(c["obs"]), f"out_features {m.out_features}")
    envs = [env_of(c, r) for r in c["rows"]]
    tol = S.tol(c["block"], envs) * 10
    want = np.array([model_value(c, e) for e in envs])
    sc = max([1.0] + [float(np.linalg.norm(S.mat(o, envs[0], n), 2)) for o in c["obs"]])
    how = c["how"]
    inp = X[:, 0] if len(c["names"]) == 1 and c["single"] else X
    if how == "call":
        close(m(inp), want, "output", tol=tol, scale=sc)
    elif how == "expectation":
        close(m.expectation(inp), want, "expectation", tol=tol, scale=sc)
    elif how == "own-observable":
        o = m.observable(S.build(["Z", 0]), n) if hasattr(m, "observable") and callable(getattr(m, "observable")) else None
        if o is None:
            raise Skip
        psis = [S.mat(c["block"], e, n) @ psi0(n) for e in envs]
        close(m.expectation(inp, observable=[o]), np.array([[np.vdot(p, S.mat(["Z", 0], {}, n) @ p).real] for p in psis]), "expectation of a given observable", tol=tol)
    elif how == "state":
        r = np.random.default_rng(c["seed"])
        s = r.normal(size=2**n) + 1j * r.normal(size=2**n)
        s /= np.linalg.norm(s)
        want = np.array([model_value(c, e, s) for e in envs])
        st_ = torch.tensor(s).reshape(1, -1)
        close(m(inp, state=st_), want, "output for an initial state", tol=tol, scale=sc)
    else:
        psis = np.array([S.mat(c["block"], e, n) @ psi0(n) for e in envs])
        close(m.run(inp), psis, "state", tol=tol)
        for k, s in zip(m.sample(inp, n_shots=60), psis):
            p = np.abs(s) ** 2
            expect(sum(k.values()) == 60 and all(p[int(b, 2)] > 1e-9 for b in k), f"samples {k}")
    # one row at a time, in another order, and by name
    i = len(c["rows"]) - 1
    if how == "call":
        close(m(X[i:i + 1]), want[i:i + 1], "single row", tol=tol, scale=sc)
        d = {nm: X[:, j] for j, nm in enumerate(c["names"])}
        close(m(dict(reversed(d.items()))), want, "output by names", tol=tol, scale=sc)
    order = c["names"] != sorted(c["names"])
    return dict(nontrivial=len(c["rows"]) > 1 and (order or len(c["obs"]) > 1 or len(c["names"]) > 1))


# ------------------------------------------------------------------ derivatives
@st.composite
def deriv_case(draw):
    c = draw(net(nobs=(1, 1), batch=(1, 3), obsf=True))
    k = draw(st.integers(1, 3))
    pick = lambda: draw(st.integers(0, len(c["names"]) - 1))  # noqa: E731
    c["idx"] = [pick()] * k if draw(st.booleans()) else [pick() for _ in range(k)]
    c["mode"] = draw(st.sampled_from(["ad", "fd"]))
    return c


STENCIL = [(-2, 1 / 12), (-1, -2 / 3), (1, 2 / 3), (2, -1 / 12)]


def mixed(f, x, idx, h):
    if not idx:
        return f(x)
    tot = 0.0
    for k, w in STENCIL:
        y = list(x)
        y[idx[0]] += k * h
        tot += w / h * mixed(f, y, idx[1:], h)
    return tot


def run_deriv(c):
    import torch
    from qadence.ml_tools.models import derivative
    if S.degenerate(c["block"], *c["obs"]):
        raise Skip
    m = make(c, input_diff_mode=c["mode"])
    f = lambda x: model_value(c, env_of(c, x))[0]  # noqa: E731
    want, slack = [], 0.0
    for r in c["rows"]:
        a, b = mixed(f, r, c["idx"], 0.02), mixed(f, r, c["idx"], 0.01)
        want.append([b])
        slack = max(slack, abs(a - b))
    scale = max(1.0, float(np.max(np.abs(want))))
    if slack > 1e-3 * scale:
        raise Skip  # too steep for the reference stencil
    X = torch.tensor(c["rows"], dtype=torch.float64, requires_grad=True)
    got = derivative(m, X, tuple(c["idx"]))
    tol = 1e-4 + slack / scale
    if c["mode"] == "fd":
        # discretisation: second order in the spacing of the library
        third = 0.0
        for r in c["rows"]:
            for j in set(c["idx"]):
                third = max(third, abs(mixed(f, r, [*c["idx"], j, j], 0.05)))
        eps = np.finfo(float).eps ** (1 / (2 + len(c["idx"])))
        tol = 3e-3 + slack / scale + 2 * third * eps**2 / scale
    close(got, np.array(want), f"derivative {c['idx']} ({c['mode']})", tol=tol, scale=scale)
    return dict(nontrivial=len(c["idx"]) > 1 or len(c["names"]) > 1)


# ------------------------------------------------------------------ configurations
ROTS = ["RX", "RY", "RZ", "PHASE"]


@st.composite
def config_case(draw):
    n = draw(st.integers(2, 4))
    k = draw(st.integers(0, min(3, n)))
    names = list(draw(st.permutations(NAMES)))[:k]
    rng = lambda lo, hi: sorted(draw(st.lists(st.sampled_from(np.linspace(lo, hi, 9).round(3).tolist()), min_size=2, max_size=2, unique=True)))
    each = lambda mk: ({x: mk() for x in names} if draw(st.booleans()) else mk())
    basis = each(lambda: draw(st.sampled_from(["Fourier", "Chebyshev"])))
    c = dict(n=n, names=names, series=draw(st.booleans()), basis=basis, rs=each(lambda: draw(st.sampled_from(["Constant", "Tower", "Exponential"]))),
             fr=each(lambda: rng(-2.0, 3.0)) if draw(st.booleans()) else None,
             tr=each(lambda: rng(-1.0, 1.0)) if draw(st.booleans()) else None,
             reps=each(lambda: draw(st.integers(0, 2))), op=draw(st.sampled_from([None, *ROTS])), prefix=draw(st.sampled_from([None, None, "w"])),
             sym=draw(st.integers(0, 3)) == 0,
             ansatz=draw(st.sampled_from(["hea", "hea", "iia", "ala", "hea-da", "iia-da"])), depth=draw(st.integers(1, 3)), m=draw(st.integers(1, 3)),
             ops=draw(st.sampled_from([None, ["RZ"], ["RY", "RX"], ["RX", "PHASE", "RY"]])), ent=draw(st.sampled_from([None, "CZ", "CRX", "CPHASE"])),
             periodic=draw(st.booleans()), aprefix=draw(st.sampled_from(["theta", "p"])),
             obs=[dict(inter=draw(st.sampled_from([None, "ZZ", "NN", "XY"])), det=draw(st.sampled_from(["X", "Z", "N", None])), scale=draw(st.sampled_from([1.0, 2.5, -0.5])),
                       shift=draw(st.sampled_from([0.0, 1.5, -2.0])), train=draw(st.integers(0, 3)) == 0,
                       kind=draw(st.sampled_from(["own", "own", "magnet", "zz", "ising"]))) for _ in range(draw(st.integers(1, 2)))],
             aslist=draw(st.booleans()), rows=[[draw(st.sampled_from([0.05, 0.3, 0.62, 0.95])) for _ in names] for _ in range(draw(st.integers(1, 3)))],
             w=[draw(st.sampled_from([0.2, 0.5, 0.8, 0.95])) for _ in range(20)])
    for o in c["obs"]:
        if o["inter"] is None and o["det"] is None:
            o["det"] = "Y"
    if not names:
        c["rows"] = [[]]
    return c


def per(v, x):
    return v[x] if isinstance(v, dict) else v


def obs_config(o, i):
    import qadence
    from qadence.constructors import ObservableConfig, ising_hamiltonian_config, total_magnetization_config, zz_hamiltonian_config
    from qadence.types import Interaction
    kw = dict(scale=o["scale"], shift=o["shift"])
    if o["train"]:
        kw = dict(scale=f"sc{i}", shift=f"sh{i}", trainable_transform=True)
    f = {"magnet": total_magnetization_config, "zz": zz_hamiltonian_config, "ising": ising_hamiltonian_config}
    if o["kind"] in f:
        return f[o["kind"]](**kw)
    return ObservableConfig(interaction=o["inter"] and Interaction(o["inter"]), detuning=o["det"] and getattr(qadence, o["det"]), **kw)


PAIR = {"ZZ": ["Z"], "NN": ["N"], "XY": ["X", "Y"]}


def obs_matrix(o, n, scale, shift):
    E = lambda a, q: S.embed(S.CONST1[a], [q], n)
    inter, dets = {"magnet": (None, ["Z"]), "zz": ("ZZ", ["Z"]), "ising": ("ZZ", ["Z", "X"])}.get(o["kind"], (o["inter"], [o["det"]] if o["det"] else []))
    H = sum((E(d, q) for d in dets for q in range(n)), np.zeros((2**n, 2**n), complex))
    if inter:
        H = H + sum(E(a, i) @ E(a, j) for i in range(n) for j in range(i + 1, n) for a in PAIR[inter])
    return shift * np.eye(2**n) + scale * H


def leaves(b):
    from qadence.blocks import CompositeBlock
    if isinstance(b, CompositeBlock):
        for x in b.blocks:
            yield from leaves(x)
    else:
        yield b


def ansatz_gates(c, depth):
    """Documented gate list: (name, qubits)."""
    n, out = c["n"], []
    ent = c["ent"] or "CNOT"
    ops = c["ops"] or (["RX", "RY"] if c["ansatz"].startswith("iia") else ["RX", "RY", "RX"])
    for layer in range(depth):
        rot = [(o, (q,)) for o in ops for q in range(n)]
        if c["ansatz"] == "hea":
            links = [(i, i + 1) for i in range(0, n - 1, 2)] + [(i, i + 1) for i in range(1, n - 1, 2)]
            if c["periodic"] and n > 2:
                links.append((n - 1, 0))
            out += rot + [(ent, e) for e in links]
        elif c["ansatz"] == "hea-da":
            out += rot + [("HamEvo", tuple(range(n)))]
        elif c["ansatz"] == "ala":
            m = c["m"]
            start = 0 if layer % 2 == 0 else -((m + 1) // 2)
            out += rot + [(ent, (s + j, s + j + 1)) for first in (0, 1) for s in range(start, n, m) for j in range(first, m - 1, 2) if 0 <= s + j and s + j + 1 < n]
        elif c["ansatz"] == "iia-da":
            evo = [("HamEvo", tuple(range(n)))]
            out += rot + evo + [("RX", (q,)) for q in range(n)] + evo + [(o, (q,)) for o in reversed(ops) for q in range(n)]
        else:
            links = [(i, (i + 1) % n) for i in range(n if c["periodic"] else n - 1)]
            out += rot + [(ent, e) for e in links] + [("RX", (q,)) for q in range(n)] + [(ent, e) for e in links[::-1]] + [(o, (q,)) for o in reversed(ops) for q in range(n)]
    return out


def fm_gates(c):
    """List of layers, each a list of (gate, qubit, function of the row giving the angle)."""
    n, names = c["n"], c["names"]
    if not names:
        return []
    sup = {x: list(range(n)) if c["series"] else [int(q) for q in np.array_split(np.arange(n), len(names))[i]] for i, x in enumerate(names)}
    ups = {x: per(c["reps"], x) + 1 for x in names}
    layers = []
    for r in range(max(ups.values())):
        now = []
        for x in names:
            if ups[x] <= r:
                continue
            rs = {"Constant": lambda i: 1, "Tower": lambda i: i + 1, "Exponential": lambda i: 2**i}[per(c["rs"], x)]
            gs = [(c["op"] or "RX", (q,), x, i, rs(i)) for i, q in enumerate(sup[x])]
            now.append(gs)
        layers += now if c["series"] else [[g for gs in now for g in gs]]
    return layers


def run_config(c):
    import sympy
    import torch
    import qadence
    from qadence import QNN
    from qadence.ml_tools.config import AnsatzConfig, FeatureMapConfig
    from qadence.types import AnsatzType, BasisSet, MultivariateStrategy, ReuploadScaling, Strategy
    n, names = c["n"], c["names"]
    c = dict(c)
    da = c["ansatz"].endswith("-da")
    if da:
        c["ent"] = None
    conv = lambda v, f: {x: f(y) for x, y in v.items()} if isinstance(v, dict) else (None if v is None else f(v))
    inputs = [sympy.Symbol(x) for x in names] if c["sym"] else names
    key = lambda v: {sympy.Symbol(k): y for k, y in v.items()} if c["sym"] and isinstance(v, dict) else v
    fm = FeatureMapConfig(num_features=len(names), inputs=inputs if names else None, basis_set=key(conv(c["basis"], BasisSet)), reupload_scaling=key(conv(c["rs"], ReuploadScaling)),
                          feature_range=key(conv(c["fr"], tuple)), target_range=key(conv(c["tr"], tuple)), num_repeats=key(c["reps"]), param_prefix=c["prefix"],
                          multivariate_strategy=MultivariateStrategy.SERIES if c["series"] else MultivariateStrategy.PARALLEL,
                          operation=c["op"] and getattr(qadence, c["op"])) if names else FeatureMapConfig()
    args = {}
    if c["ops"]:
        args["operations"] = [getattr(qadence, o) for o in c["ops"]]
    if c["ent"]:
        args["entangler"] = getattr(qadence, c["ent"])
    if c["ansatz"] in ("hea", "iia"):
        args["periodic"] = c["periodic"]
    ac = AnsatzConfig(depth=c["depth"], ansatz_type=AnsatzType(c["ansatz"].split("-")[0]),
                      ansatz_strategy=Strategy.SDAQC if da else Strategy.DIGITAL,
                      strategy_args=args, m_block_qubits=c["m"] if c["ansatz"] == "ala" else None, param_prefix=c["aprefix"])
    ocs = [obs_config(o, i) for i, o in enumerate(c["obs"])]
    q = QNN.from_configs(n, ocs if len(ocs) > 1 or c["aslist"] else ocs[0], fm, ac)
    expect([str(x) for x in q.inputs] == list(names), f"inputs {q.inputs}")
    # expected list of gates
    layers = fm_gates(c)
    want = []
    for i, layer in enumerate(layers):
        want += layer
        if i + 1 < len(layers):
            want += ansatz_gates(c, 1)
    want += ansatz_gates(c, c["depth"])
    got = []
    for g in leaves(q._circuit.original.block):
        ctl = getattr(g, "control", ())
        got.append((type(g).__name__, (*ctl, *[x for x in g.qubit_support if x not in ctl]), g))
    seq = lambda gs: {k: [(g[0], tuple(g[1])) for g in gs if k in g[1]] for k in range(n)}
    if seq(got) != seq(want):
        raise Violation(f"gates {[(a, b) for a, b, _ in got]} expected {[(a[0], a[1]) for a in want]}")
    # values
    vp = {k: float(v) for k, v in q.vparams.items()}
    if c["prefix"]:
        tw = [k for k in vp if any(k.startswith(f"{c['prefix']}_{x}_") for x in names)]
        new = {k: c["w"][i % 20] for i, k in enumerate(sorted(tw))}
        q.reset_vparams({k: new.get(k, vp[k]) for k in q._params if k in vp} if False else [new.get(k, v) for k, v in vp.items()])
        vp = {k: float(v) for k, v in q.vparams.items()}
    doms = {"Fourier": (0, 2 * math.pi), "Chebyshev": (-1, 1)}
    rows, envs = [], []
    for r in c["rows"]:
        row = [(lambda fr: fr[0] + (fr[1] - fr[0]) * u)(per(c["fr"], x) or doms[per(c["basis"], x)]) for x, u in zip(names, r)]
        rows.append(row)
        envs.append({**vp, **dict(zip(names, row))})
    from qadence.parameters import evaluate

    def angle(g, env):
        es = [e for e in g.parameters.expressions()]
        return float(np.real(evaluate(es[0], {k: torch.tensor(float(v)) for k, v in env.items()}, as_torch=False)))

    used = set()
    outs = []
    for row, env in zip(rows or [[]], envs or [vp]):
        psi = psi0(n)
        # qubit-wise cursors map each found gate to the expected one
        cur = {k: [w for w in want if k in w[1]] for k in range(n)}
        for name, sup, g in got:
            w = cur[sup[0]].pop(0)
            for k in sup[1:]:
                cur[k].pop(0)
            if name == "HamEvo":
                from scipy.linalg import expm
                t = angle_t(g, env)
                H = sum(S.embed(S.N2, [i], n) @ S.embed(S.N2, [j], n) for i in range(n) for j in range(i + 1, n))
                psi = expm(-1j * t * H) @ psi
                continue
            if len(w) > 2:
                _, _, x, i, rs = w
                lo, hi = per(c["fr"], x) or doms[per(c["basis"], x)]
                a, b = per(c["tr"], x) or doms[per(c["basis"], x)]
                t = a + (env[x] - lo) * (b - a) / (hi - lo)
                if c["prefix"]:
                    nm = f"{c['prefix']}_{x}_{i}"
                    expect(nm in vp, f"trainable multiplier {nm} of the feature map missing from {sorted(vp)}")
                    t = vp[nm] * t
                t = rs * (t if per(c["basis"], x) == "Fourier" else math.acos(t))
                psi = S.apply(S.rot(name, t), [sup[0]], psi, n)
            elif name in ("CNOT", "CZ"):
                psi = S.apply(S.ctrl(S.X2 if name == "CNOT" else S.Z2, 1), list(sup), psi, n)
            else:
                t = angle(g, env)
                used |= {str(s) for e in g.parameters.expressions() for s in getattr(e, "free_symbols", ())}
                U = S.rot(name.replace("CR", "R").replace("CPHASE", "PHASE"), t)
                psi = S.apply(U if len(sup) == 1 else S.ctrl(U, 1), list(sup), psi, n)
        vals = []
        for i, o in enumerate(c["obs"]):
            sc, sh = (vp[f"sc{i}"], vp[f"sh{i}"]) if o["train"] else (o["scale"], o["shift"])
            vals.append(np.vdot(psi, obs_matrix(o, n, sc, sh) @ psi).real)
        outs.append(vals)
    X = torch.tensor(rows, dtype=torch.float64) if names else None
    close(q(X) if names else q({}), np.array(outs), "output of the configured network", tol=2e-5, scale=10.0)
    expect(used <= set(vp), f"parameters of the ansatz that are not trainable: {sorted(used - set(vp))}")
    return dict(nontrivial=len(names) > 1 or len(c["obs"]) > 1 or bool(c["ops"]))


def angle_t(g, env):
    import torch
    from qadence.parameters import evaluate
    e = g.parameters.parameter
    return float(np.real(evaluate(e, {k: torch.tensor(float(v)) for k, v in env.items()}, as_torch=False)))


# ------------------------------------------------------------------ analog feature maps from configurations
@st.composite
def analog_case(draw):
    k = draw(st.integers(1, 2))
    names = list(draw(st.permutations(NAMES)))[:k]
    return dict(names=names, reps={x: draw(st.integers(0, 2)) for x in names}, strat=draw(st.sampled_from(["Analog", "Rydberg", "Digital"])),
                op=draw(st.sampled_from([None, "AnalogRX", "AnalogRZ", "RY"])), basis=draw(st.sampled_from(["Fourier", "Chebyshev"])), fr=draw(st.sampled_from([None, [-1.0, 2.0]])),
                n=draw(st.integers(2, 3)), rs=draw(st.sampled_from(["Constant", "Tower"])), x=[0.3, -0.4])


def run_analog(c):
    import qadence
    from qadence.ml_tools.config import FeatureMapConfig
    from qadence.ml_tools.constructors import create_fm_blocks
    from qadence.types import BasisSet, MultivariateStrategy, ReuploadScaling, Strategy
    names = c["names"]
    op = c["op"] and getattr(qadence, c["op"])
    kind = c["strat"] if op is None else ("Digital" if c["op"] == "RY" else "Analog")
    rs = c["rs"] if kind != "Analog" else "Constant"
    f = FeatureMapConfig(num_features=len(names), inputs=names, basis_set=BasisSet(c["basis"]), feature_range=c["fr"] and tuple(c["fr"]), num_repeats=dict(c["reps"]),
                         feature_map_strategy=Strategy(c["strat"]), operation=op, multivariate_strategy=MultivariateStrategy.SERIES, reupload_scaling=ReuploadScaling(rs))
    blocks = create_fm_blocks(c["n"], f)
    want = [x for r in range(3) for x in names if c["reps"][x] >= r]
    expect(len(blocks) == len(want), f"{len(blocks)} feature map blocks, expected {len(want)}")
    vals = {x: v for x, v in zip(names, c["x"])}
    from checks.p16 import value_of
    dom = (0, 2 * math.pi) if c["basis"] == "Fourier" else (-1, 1)
    for b, x in zip(blocks, want):
        syms = {str(s) for l in leaves(b) for e in l.parameters.expressions() for s in getattr(e, "free_symbols", ())}
        expect(x in syms and not (syms & set(names) - {x}), f"block of {x} depends on {syms}")
        fr = c["fr"] or dom
        t = dom[0] + (vals[x] - fr[0]) * (dom[1] - dom[0]) / (fr[1] - fr[0])
        t = t if c["basis"] == "Fourier" else math.acos(t)
        ls = list(leaves(b))
        if kind == "Analog":
            expect(len(ls) == 1, "one analog rotation")
            close(value_of(ls[0].parameters.alpha, vals), np.array(t), "angle", tol=1e-8)
            nm = c["op"] or "AnalogRX"
            ref = getattr(qadence, nm)(0.1)
            close(value_of(ls[0].parameters.phase, vals), np.array(value_of(ref.parameters.phase, {})), "axis of the rotation", tol=1e-8)
        elif kind == "Digital":
            expect([type(l).__name__ for l in ls] == [c["op"] or "RX"] * c["n"], f"operations {ls}")
            for i, l in enumerate(ls):
                close(value_of(list(l.parameters.expressions())[0], vals), np.array(t * (1 if rs == "Constant" else i + 1)), "angle", tol=1e-8)
        else:
            expect(len(ls) == c["n"] and sorted(l.qubit_support[0] for l in ls) == list(range(c["n"])), "one local rotation per qubit")
    return dict(nontrivial=len(want) > 1)


@st.composite
def qcnn_case(draw):
    n = draw(st.sampled_from([4, 4, 6, 8]))
    layers = draw(st.integers(1, 3 if n == 8 else 2))
    return dict(n=n, inputs=draw(st.integers(1, n)), depth=[draw(st.sampled_from([1, 1, 3] if n > 4 else [1, 3, 5])) for _ in range(layers)],
                ops=[draw(st.sampled_from(["RX", "RY", "RZ"])) for _ in range(draw(st.integers(1, 3)))], ent=draw(st.sampled_from(["CZ", "CNOT"])), meas=draw(st.booleans()),
                basis=draw(st.sampled_from(["Fourier", "Chebyshev"])), gate=draw(st.sampled_from(["RX", "RY", "RZ"])), corr=draw(st.booleans()), seed=draw(st.integers(0, 10**6)),
                batch=draw(st.integers(1, 2)))


def qcnn_gates(c):
    """documented network: gates as (name, qubits, kind) with kind = input number, "t" (own parameter) or None"""
    n, k = c["n"], c["inputs"]
    out = []
    q = 0
    for i in range(k):
        for _ in range(n // k + (i < n % k)):
            out.append((c["gate"], (q,), i, None))
            q += 1
    cur = list(range(n))
    for layer, reps in enumerate(c["depth"]):
        for rep in range(reps):
            # neighbouring pairs; the first two layers alternate between even and odd pairs
            first = rep % 2 if layer < 2 else 0
            for a, b in zip(cur[first::2], cur[first + 1::2]):
                local = [(op, (w,), "t", layer) for op in c["ops"] for w in (a, b)]
                out += local + [(c["ent"], (b, a), None, None), ("RZ", (a,), "t", layer), ("RY", (b,), "t", layer), (c["ent"], (a, b), None, None),
                                ("RY", (b,), "t", layer), (c["ent"], (b, a), None, None)] + local
                if rep == reps - 1:
                    out.append((c["ent"], (a, b), None, None))
        cur = cur[1::2]
    return out


def run_qcnn(c):
    import qadence
    import torch
    from qadence import QCNN
    from qadence.blocks.utils import primitive_blocks

    torch.manual_seed(c["seed"])
    m = QCNN(n_inputs=c["inputs"], n_qubits=c["n"], depth=c["depth"], operations=[getattr(qadence, o) for o in c["ops"]], entangler=getattr(qadence, c["ent"]), random_meas=c["meas"],
             fm_basis=c["basis"], fm_gate=getattr(qadence, c["gate"]), is_corr=c["corr"])
    x = torch.rand(c["batch"], c["inputs"], dtype=torch.float64) * 1.8 - 0.9
    want = qcnn_gates(c)
    got = [b for b in primitive_blocks(m._circuit.original.block if hasattr(m._circuit, "original") else m._circuit.abstract.block) if b.name != "I"]
    # commuting gates may be listed in any order: compare what each qubit sees
    pick = lambda gates, q, qubits: [g for g in gates if q in qubits(g)]  # noqa: E731
    own = {}
    for q in range(c["n"]):
        w, g = pick(want, q, lambda e: e[1]), pick(got, q, lambda b: b.qubit_support)
        expect([(e[0], e[1]) for e in w] == [(b.name, tuple(b.qubit_support)) for b in g],
               f"gates on qubit {q}: {[(b.name, tuple(b.qubit_support)) for b in g]} instead of {[(e[0], e[1]) for e in w]}")
        for e, b in zip(w, g):
            if e[2] is None:
                continue
            (p,) = b.parameters.expressions()
            if e[2] == "t":
                expect(p.is_symbol and p.trainable, f"parameter {p} of {b} is not trainable")
                own.setdefault(str(p), []).append(e[3])
            else:
                expect(len(p.free_symbols) == 1 and not list(p.free_symbols)[0].trainable, f"feature map angle {p}")
    uses = sum(1 for e in want if e[2] == "t")
    if c["corr"]:
        expect(all(len(set(v)) == 1 for v in own.values()), "a parameter is shared between layers")
    else:
        expect(len(own) == uses, f"{len(own)} parameters for {uses} gates")
    # value: each qubit's sequence fixes the operator, so the observable is compared with a simulation of it
    vp = {k.split(".", 1)[1]: float(v.detach().reshape(-1)[0]) for k, v in m.named_parameters()}
    if c["n"] > 4:
        expect(tuple(m(x).shape) == (c["batch"], 1), f"output of shape {tuple(m(x).shape)}")
        return dict(nontrivial=True)
    angles = {q: iter([b for b in got if b.qubit_support == (q,)]) for q in range(c["n"])}
    seq = [(e, vp[str(list(next(angles[e[1][0]]).parameters.expressions())[0])] if e[2] == "t" else (next(angles[e[1][0]]), None)[1] if e[2] is not None else None) for e in want]
    w = np.array([vp[f"w{i}"] if c["meas"] else 1.0 for i in range(c["n"])])
    vals = []
    for row in x.tolist():
        psi = psi0(c["n"])
        for e, a in seq:
            if e[2] is not None and e[2] != "t":
                a = row[e[2]] if c["basis"] == "Fourier" else math.acos(row[e[2]])
            psi = S.mat([e[0], e[1][0], a] if a is not None else [e[0], *e[1]], {}, c["n"]) @ psi
        pr = np.abs(psi.reshape([2] * c["n"])) ** 2
        vals.append(sum(w[i] * (pr.take(0, i).sum() - pr.take(1, i).sum()) for i in range(c["n"])))
    close(m(x).detach(), np.array(vals)[:, None], "output of the network", 1e-5, 4.0)
    return dict(nontrivial=True)


# ------------------------------------------------------------------ networks on a register
@st.composite
def register_case(draw):
    from checks.p16 import ryd_case
    c = draw(ryd_case())
    tri = st.sampled_from([None, True, False])
    c.update(det=draw(tri), drive=draw(tri), phase=draw(tri), prefix=draw(st.sampled_from(["theta", "q"])), n=min(c["n"], 3) if draw(st.booleans()) else c["n"],
             obs=draw(obs_strategy()), reps=draw(st.sampled_from([None, 0, 1, 2])),
             tags=draw(st.booleans()), x=[draw(st.sampled_from([0.3, -0.7, 1.6, 2.2])) for _ in range(2)])
    c["edges"] = [[0, 1]] if c["n"] == 2 else [[0, 1], [0, c["n"] - 1]]
    return c


def obs_strategy():
    return st.fixed_dictionaries(dict(kind=st.just("own"), inter=st.sampled_from(["ZZ", "NN", "XY", None]), det=st.sampled_from(["X", "Z", "N"]), train=st.just(False),
                                      scale=st.sampled_from([1.0, -0.5, 2.0]), shift=st.sampled_from([0.0, 0.7])))


def run_register(c):
    import torch
    from scipy.linalg import expm
    from qadence import QNN
    from qadence.ml_tools.config import AnsatzConfig, FeatureMapConfig
    from qadence.types import AnsatzType, BasisSet, MultivariateStrategy, ReuploadScaling, Strategy
    from checks.p16 import register
    reg, n, edges = register(c)
    ring = edges if c["topo"] != "all" else sorted({tuple(sorted((i, (i + 1) % n))) for i in range(n)})
    E = lambda a, q: S.embed(S.CONST1[a], [q], n)
    given = {k: c[s] for k, s in (("addressable_detuning", "det"), ("addressable_drive", "drive"), ("tunable_phase", "phase")) if c[s] is not None}
    ac = AnsatzConfig(depth=c["layers"], ansatz_type=AnsatzType.HEA, ansatz_strategy=Strategy.RYDBERG,
                      strategy_args=given, param_prefix=c["prefix"], tag="an" if c["tags"] else None)
    fm = FeatureMapConfig()
    if c["reps"] is not None:
        fm = FeatureMapConfig(num_features=1, inputs=["x"], basis_set=BasisSet.FOURIER, reupload_scaling=ReuploadScaling.TOWER, num_repeats=c["reps"],
                              multivariate_strategy=MultivariateStrategy.SERIES, tag="fm" if c["tags"] else None)
    q = QNN.from_configs(reg, obs_config(c["obs"], 0), fm, ac)
    q.reset_vparams([c["v"][i % 20] + 0.05 * i for i in range(len(q.vparams))])
    vp = {k: float(v) for k, v in q.vparams.items()}
    used = set()

    def val(k):
        expect(k in vp, f"parameter {k} missing from {sorted(vp)}")
        used.add(k)
        return vp[k]

    det, drive, phase = c["det"] is not False, c["drive"] is True, c["phase"] is True
    I = sum(E("N", i) @ E("N", j) for i, j in ring)

    def layer(pre, k):
        ph = val("phase") if phase else 0.0
        D = sum((val(f"drivemap_{i}") if drive else 1.0) * (math.cos(ph) * E("X", i) - math.sin(ph) * E("Y", i)) for i in range(n))
        N = sum((val(f"detmap_{i}") if det else 1.0) * E("N", i) for i in range(n))
        return expm(-1j * val(f"Omega_{pre}_{k}") * N) @ expm(-1j * val(f"wait_{pre}_{k}") * I) @ expm(-1j * val(f"At_{pre}_{k}") * (D + I))

    if c["tags"]:
        top = q._circuit.original.block
        found = {top.tag, *(b.tag for b in top.blocks)}
        expect("an" in found and (c["reps"] is None or "fm" in found), f"tags {found} of the network")
    H = obs_register(c["obs"], n, edges)
    outs = []
    for x in (c["x"] if c["reps"] is not None else [0.0]):
        psi = psi0(n)
        for r in range((c["reps"] if c["reps"] is not None else -1) + 1):
            for i in range(n):
                psi = S.apply(S.rot("RX", (i + 1) * x), [i], psi, n)
            if r < c["reps"]:
                psi = layer(f"fm_{r}", 0) @ psi
        for k in range(c["layers"]):
            psi = layer(c["prefix"], k) @ psi
        outs.append([np.vdot(psi, H @ psi).real])
    got = q(torch.tensor([[x] for x in c["x"]], dtype=torch.float64)) if c["reps"] is not None else q({})
    close(got, np.array(outs), "output of the network on a register", tol=2e-5, scale=10.0)
    expect(used == set(vp), f"parameters {sorted(set(vp) - used)} belong to no layer")
    return dict(nontrivial=det or drive or phase)


def obs_register(o, n, edges):
    E = lambda a, q: S.embed(S.CONST1[a], [q], n)
    H = sum(E(o["det"], q) for q in range(n))
    if o["inter"]:
        H = H + sum(E(a, i) @ E(a, j) for i, j in edges for a in PAIR[o["inter"]])
    return o["shift"] * np.eye(2**n) + o["scale"] * H


FACETS = [
    Facet("qcnn", qcnn_case, run_qcnn, 40, 1200, 2),
    Facet("forward", forward_case, run_forward, 110, 5000, 3),
    Facet("derivative", deriv_case, run_deriv, 90, 2500, 3),
    Facet("config", config_case, run_config, 90, 4000, 3),
    Facet("config-register", register_case, run_register, 40, 1200, 1),
    Facet("config-analog", analog_case, run_analog, 50, 1000, 1),
]
