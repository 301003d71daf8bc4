"""P09 backends agree."""
from __future__ import annotations

import numpy as np
import torch
from hypothesis import strategies as st

import gen as G
import spec as S
from checks.p03 import observable, reference
from harness import Facet, Known, Skip
from checks.p10 import check_counter
from oracle import arr, close, expect

RULE = "distinct case with an entangling or parametric gate whose state has at least two non-zero amplitudes"
ASSUMPTIONS = ["dense numpy reference decides which backend is wrong", "the common gate set of the backends"]

GATES = list(G.HORQRUX_GATES)


def bk(name="horqrux", diff_mode=None, **cfg):
    from qadence.backends.api import backend_factory

    return backend_factory(name, diff_mode=diff_mode, configuration=cfg or None)


def jx(f):
    import jax.numpy as jnp

    return {k: jnp.array(v, dtype=jnp.float64) for k, v in f.items()}


def expressions_ok(*specs):
    """the sympy->jax bridge lacks some functions; all those generated here are supported."""
    return True


@st.composite
def strat_run(draw):
    cfg = G.Cfg(gates=GATES, scale=True, add=True, hamevo=True, gen_params=("num", "v", "f"), max_depth=3)
    n = draw(st.integers(1, 4))
    b = G.circuit(draw, list(range(n)), cfg, 1, 5)
    f = G.feature_values(draw, S.names(b)[1], draw(st.sampled_from([1, 1, 2, 3])))
    return dict(n=n, block=b, f=f, little=draw(st.booleans()), init=draw(st.one_of(st.none(), st.integers(0, 50))))


def refstate(b, env, n, init):
    psi = np.zeros(2**n, complex)
    psi[0] = 1
    if init is not None:
        psi = arr(G.state_vec(init, n))[0]
    return S.mat(b, env, n) @ psi


def check_run(case):
    import jax.numpy as jnp
    from qadence import Endianness, QuantumCircuit

    n, b, f = case["n"], case["block"], case["f"]
    if S.degenerate(b):
        raise Skip
    es = G.envs(S.names(b)[0], f)
    if max(S.sens(b, e) for e in es) > 1000 or max(S.opbound(b, e) for e in es) > 1e4:
        raise Skip
    want = np.array([refstate(b, e, n, case["init"]) for e in es])
    if case["little"]:
        want = want[:, S.reverse_bits_perm(n)]
    end = Endianness.LITTLE if case["little"] else Endianness.BIG
    circ = QuantumCircuit(n, S.build(b))
    tol = S.tol(b, es) * max([1.0] + [S.opbound(b, e) for e in es])
    h = bk("horqrux")
    c = h.convert(circ)
    kw = {} if case["init"] is None else dict(state=jnp.array(arr(G.state_vec(case["init"], n))))
    got = arr(h.run(c.circuit, c.embedding_fn(c.params, jx(f)), endianness=end, **kw))
    got = got.reshape(want.shape) if got.size == want.size else got
    close(got, want, "horqrux state", tol, 1.0)
    p = bk("pyqtorch")
    c = p.convert(circ)
    kw = {} if case["init"] is None else dict(state=torch.as_tensor(G.state_vec(case["init"], n)))
    gp = arr(p.run(c.circuit, c.embedding_fn(c.params, G.tensors(f)), endianness=end, **kw))
    close(got, gp, "horqrux against pyqtorch", 2 * tol, 1.0)
    ent = any(len(S.leaf_support(x)) > 1 or S.own_params(x) for x in S.leaves(b))
    return dict(nontrivial=ent and int(np.sum(np.abs(want[0]) > 1e-6)) >= 2)


# ---------------------------------------------------------------- expectation
@st.composite
def strat_exp(draw):
    cfg = G.Cfg(gates=GATES, scale=False, hamevo=True, gen_params=("num", "v", "f"), max_depth=2)
    n = draw(st.integers(1, 3))
    qs = list(range(n))
    b = G.circuit(draw, qs, cfg, 1, 5)
    k = draw(st.integers(1, 3))
    obs = [G.hermitian(draw, qs, cfg, ("num", "v", "f", "expr"), ops=("X", "Y", "Z", "I")) for _ in range(k)]
    f = G.feature_values(draw, S.names(b, *obs)[1], draw(st.sampled_from([1, 1, 2, 3])))
    return dict(n=n, block=b, obs=obs, f=f, single=False, little=draw(st.integers(0, 2)) == 0)


def check_exp(case):
    from qadence import QuantumCircuit

    want, tol = reference(case)
    circ = QuantumCircuit(case["n"], S.build(case["block"]))
    obs = [S.build(o) for o in case["obs"]]
    h = bk("horqrux")
    c = h.convert(circ, obs)
    end = "Little" if case.get("little") else "Big"
    got = arr(h.expectation(c.circuit, c.observable, c.embedding_fn(c.params, jx(case["f"])), endianness=end))
    close(got.reshape(want.shape), want, "horqrux expectation", tol, 1.0)
    expect(got.size == 1 or got.shape == want.shape, f"horqrux expectation shape {got.shape} for {want.shape}")
    p = bk("pyqtorch")
    c = p.convert(circ, obs)
    gp = arr(p.expectation(c.circuit, c.observable, c.embedding_fn(c.params, G.tensors(case["f"])), endianness=end))
    close(got.reshape(want.shape), gp, "horqrux against pyqtorch", 2 * tol, 1.0)
    ent = any(len(S.leaf_support(x)) > 1 or S.own_params(x) for x in S.leaves(case["block"]))
    return dict(nontrivial=ent and bool(np.any(np.abs(want - np.round(want)) > 1e-6)))


# ---------------------------------------------------------------- gradients
def strat_grad_for(mode):
    from checks.p04 import mk

    if mode == "ad":
        return mk("ad", dict(gates=GATES, hamevo=True, max_depth=2), ("num", "v", "f"), state=False)
    return mk("gpsr", dict(gates=GATES, hamevo=True, max_depth=2), ("num",), state=False, batches=(1,))


def herm_only(case):
    return all(x[0] not in ("N", "N0", "Projector") for o in case["obs"] for x in S.leaves(o))


def check_grad(case):
    import jax
    import jax.numpy as jnp
    from checks.p04 import diagonal_point, grads, hamevo_cond, prepare
    from qadence import QuantumCircuit

    if not herm_only(case):
        raise Skip
    vv, fn, es, sb, bound = prepare(case)
    extra = 0.0
    if case["mode"] == "gpsr":
        cond = hamevo_cond(case, es)
        if not cond < 30:
            raise Skip
        extra = 1e-4 * cond * (1 + sb)
    true = grads(case, vv, fn, es, sb)
    h = bk("horqrux", diff_mode=case["mode"])
    c = h.convert(QuantumCircuit(case["n"], S.build(case["block"])), [S.build(o) for o in case["obs"]])
    B, K = len(es), len(case["obs"])
    w = np.random.RandomState(case["wseed"]).uniform(0.5, 2, size=(B, K))
    f = jx(case["f"])
    train = {k: v for k, v in c.params.items() if k in vv}
    rest = {k: v for k, v in c.params.items() if k not in vv}

    # with one observable and no batch the shift rule of the engine takes scalar gate parameters
    scalar = case["mode"] == "gpsr" and K == 1 and B == 1

    def fun(t, x):
        vals = c.embedding_fn({**t, **rest}, x)
        if scalar:
            vals = {k: jnp.reshape(v, ()) for k, v in vals.items()}
        out = h.expectation(c.circuit, c.observable, vals)
        return jnp.sum(jnp.reshape(out, (B, K)) * w)

    try:
        gv, gf = jax.grad(fun, argnums=(0, 1))(train, f)
    except ValueError as e:
        if case["mode"] == "gpsr" and B > 1 and "Custom VJP bwd rule must produce" in str(e):
            raise Known("P09-jax-psr-shapes", str(e)[:200]) from e
        raise
    big = 0.0
    for k in sorted(vv) + sorted(fn):
        t = (w * true[k]).sum(axis=1)
        g = arr(gv[k] if k in vv else gf[k]).reshape(-1)
        big = max(big, float(np.max(np.abs(true[k]))))
        want = t if g.size == t.size and k in fn else np.array([t.sum()])
        sc = max(1.0, float(np.max(np.abs(w * true[k]))) * B)
        close(g, want, f"horqrux d/d{k} in mode {case['mode']}", 2e-5 * (1 + sb) * bound + extra * bound, sc)
    return dict(nontrivial=big > 1e-3)


# ---------------------------------------------------------------- pulse-level emulator
@st.composite
def strat_pulser(draw):
    from checks.p14 import draw_ops, draw_register

    cfg = G.Cfg()
    n = draw(st.integers(1, 3))
    digital = draw(st.integers(0, 3)) == 0
    r = draw_register(draw, n, cfg, inter=("NN",), lo=8.0, pkinds=("num",), pattern=not digital)
    if digital:
        r["coords"] = [[40.0 * i, 0.0] for i in range(n)]
        ops = [["gate", [draw(st.sampled_from(["RX", "RY", "RZ"])), draw(st.integers(0, n - 1)), draw(st.integers(8, 64)) / 16 * draw(st.sampled_from([1, 1, 1, -1]))]]
               for _ in range(draw(st.integers(2, 4)))]
    else:
        ops = draw_ops(draw, n, cfg, ("v", "f"), gates=False, maxops=3)
    import analog as A

    fv = G.feature_values(draw, A.names(r, ops)[1], draw(st.sampled_from([1, 1, 2])))
    cfg2 = G.Cfg(vvals=cfg.vvals)
    obs = [G.hermitian(draw, list(range(n)), cfg2, ("num",), max_terms=3) for _ in range(draw(st.integers(1, 3)))]
    return dict(reg=r, ops=ops, f=fv, init=None, little=draw(st.booleans()), obs=obs)


def allpatterned(o):
    if o[0] == "kron":
        return ["kron", [allpatterned(x) for x in o[1]]]
    return o if o[0] == "gate" else [*o[:-1], True]


def negative_digital(case):
    return any(o[0] == "gate" and o[1][2] < 0 for o in case["ops"])


def check_pulser(case):
    import analog as A
    from checks.p14 import compose, flat, normal, reference
    from qadence import Endianness, QuantumCircuit, Z
    from qadence.backends.pulser.config import Configuration  # noqa: F401

    # the pulse-level backend documents that it applies the pattern to every block
    case = dict(case, ops=[allpatterned(o) for o in case["ops"]])
    vv, _ = A.names(case["reg"], case["ops"])
    es = G.envs(vv, case["f"])
    n = len(case["reg"]["coords"])
    dev = A.build_register(case["reg"]).device_specs
    tol = 5e-3  # on the norm of the state
    if any(o[0] == "kron" and all(x[0] == "wait" for x in flat(o)) for o in case["ops"]):
        raise Skip  # the pulse-level backend has no local waits without a rotation beside them
    if (case["reg"]["pattern"] or {}).get("wa") and any(
            x[0] == "ry" or (x[0] == "rot" and x[4] != 0) for o in case["ops"] if o[0] == "kron" for x in flat(o)):
        raise Skip  # the emulator adds the phases of overlapping local drives on one atom
    for e in es:
        for s in A.segments(case["reg"], normal(case["ops"]), e):
            if isinstance(s, tuple):
                if s[1] < 0.02:
                    raise Skip
                # one nanosecond of rounding at each end of a segment
                tol += 2.5e-3 * (np.linalg.norm(s[0], 2))
        for o in case["ops"]:
            for x in flat(o):
                if x[0] == "rot" and (S.peval(x[2], e) < 0 or S.peval(x[2], e) > dev.max_amp or abs(S.peval(x[3], e)) > dev.max_detuning):
                    raise Skip
    if case["reg"]["pattern"] and abs(case["reg"]["pattern"].get("det", A.LMAX_DET)) > dev.max_detuning:
        raise Skip
    if tol > 0.4:
        raise Skip
    want, _, eff, _ = reference(case)
    end = Endianness.LITTLE if case["little"] else Endianness.BIG
    if case["little"]:
        want = want[:, S.reverse_bits_perm(n)]
    circ = QuantumCircuit(A.build_register(case["reg"]), compose(case["ops"]))
    obs = [S.build(o) for o in case.get("obs") or [["Z", i] for i in range(n)]]
    out, samples = {}, None
    for name in ("pulser", "pyqtorch"):
        b = bk(name)
        c = b.convert(circ, obs)
        pv = c.embedding_fn(c.params, G.tensors(case["f"]))
        if name == "pulser" and len(str(case["ops"])) % 3 == 0:
            np.random.seed(len(case["ops"]))
            samples = b.sample(c.circuit, pv, n_shots=300, endianness=end)
        out[name] = arr(b.run(c.circuit, pv, endianness=end)), arr(b.expectation(c.circuit, c.observable, pv, endianness=end))

    def differ(want):
        sv, ex = out["pulser"]
        bad = []
        if sv.shape != want.shape:
            return f"pulser returns {sv.shape} for {want.shape}"
        for i in range(len(want)):
            f = abs(np.vdot(sv[i], want[i])) ** 2
            if f < 1 - tol**2 - 1e-3:
                bad.append(f"fidelity {f:.4f} of the pulser state with the reference in batch entry {i}")
        return "; ".join(bad)

    sv, ex = out["pulser"]
    if case["little"]:
        sv = sv[:, S.reverse_bits_perm(n)]
    if case.get("obs"):
        vo, _ = S.names(*case["obs"])
        eo = G.envs({**vv, **vo}, case["f"])
        have = np.array([[np.vdot(p, S.mat(o, e, n) @ p).real for o in case["obs"]] for p, e in zip(sv if len(sv) > 1 else [sv[0]] * len(eo), eo)])
        scale = max(1.0, *[S.gen_norm(o, e) for o in case["obs"] for e in eo])
        if scale > 2000:
            raise Skip
        close(ex, have, "pulser expectation values in the state the backend returns", 1e-5 * scale, 1.0)
    if samples is not None:
        expect(len(samples) == len(sv), f"{len(samples)} counters for {len(sv)} states")
        for k, p in zip(samples, sv):
            check_counter(k, np.abs(p) ** 2, n, 300, case["little"], 1e-3, "pulser samples of the state the backend returns")
    msg = differ(want)
    if msg and negative_digital(case):
        alt = dict(case, ops=[["gate", [o[1][0], o[1][1], abs(o[1][2])]] for o in case["ops"]])
        w2 = reference(alt)[0]
        if not differ(w2[:, S.reverse_bits_perm(n)] if case["little"] else w2):
            raise Known("P09-pulser-negative-angle", msg)
    expect(not msg, msg)
    close(out["pulser"][1], out["pyqtorch"][1], "expectation on pulser and pyqtorch", (2 * tol + 0.05) * max([1.0] + [S.gen_norm(o, {}) for o in case.get("obs", [])]), 1.0) if not negative_digital(case) else None
    return dict(nontrivial=eff)


# ---------------------------------------------------------------- noisy pulse-level emulation
@st.composite
def strat_noisy(draw):
    n = draw(st.integers(1, 2))
    ops = []
    for _ in range(draw(st.integers(1, 2))):
        k = draw(st.sampled_from(["rx", "ry", "wait"]))
        ops.append(["wait", 200.0, None, True] if k == "wait" else [k, draw(st.sampled_from([0.75, ["f", "x"], ["v", "a", 1.25], ["*", 0.5, ["f", "x"]]])), None, True])
    obs = [[draw(st.sampled_from("XYZ")), draw(st.integers(0, n - 1))] for _ in range(draw(st.integers(1, 3)))]
    return dict(n=n, ops=ops, obs=obs, x=[draw(st.integers(16, 160)) / 64 for _ in range(draw(st.integers(1, 3)))], proto=draw(st.sampled_from(["DEPOLARIZING", "DEPHASING"])), p=draw(st.sampled_from([0.0, 0.1, 0.3])),
                where=draw(st.sampled_from(["call", "model", "backend"])))


def check_noisy(c):
    import analog as A
    import torch
    from qadence import NoiseHandler, NoiseProtocol, QuantumCircuit, QuantumModel, Register, chain

    feat = any(o[0] != "wait" and S.pnames(o[1])[1] for o in c["ops"])
    xs = c["x"] if feat else c["x"][:1]
    noise = NoiseHandler(getattr(NoiseProtocol.ANALOG, c["proto"]), {"noise_probs": c["p"]})
    circ = lambda: QuantumCircuit(Register.line(c["n"], spacing=8.0), chain(*[A.build_op(o) for o in c["ops"]]))  # noqa: E731
    obs = lambda: [S.build(o) for o in c["obs"]]  # noqa: E731
    vals = lambda x: {"x": torch.tensor(x)} if feat else {}  # noqa: E731
    mk = lambda **kw: QuantumModel(circ(), obs(), backend="pulser", diff_mode="gpsr", **kw)  # noqa: E731

    def noisy(x):
        if c["where"] == "call":
            return arr(mk().expectation(vals(x), noise=noise))
        if c["where"] == "model":
            return arr(mk(noise=noise).expectation(vals(x)))
        b = bk("pulser")
        conv = b.convert(circ(), obs())
        return arr(b.expectation(conv.circuit, conv.observable, conv.embedding_fn(conv.params, vals(x)), noise=noise, endianness="Little" if c["n"] % 2 == 0 and len(c["obs"]) > 1 else "Big"))

    clean = arr(mk().expectation(vals(xs)))
    got = noisy(xs)
    expect(got.shape == clean.shape, f"noisy expectation values of shape {got.shape}, noiseless {clean.shape}")
    expect(bool(np.all(np.abs(got) <= 1 + 1e-4)), f"expectation values {got} beyond one")
    for i, x in enumerate(xs):
        close(noisy([x]), got[i:i + 1], "entry of a batch on its own", 1e-3, 1.0)
    if c["p"] == 0.0:
        close(got, clean, "noise of probability zero", 5e-3, 1.0)
    elif c["proto"] == "DEPOLARIZING" and c["n"] == 1:
        expect(bool(np.all(np.abs(got) <= np.abs(clean) + 5e-3)), f"depolarizing noise enlarges {clean} to {got}")


@st.composite
def strat_pgrad(draw):
    n = draw(st.integers(1, 2))
    kind = draw(st.sampled_from(["digital", "analog"]))
    # shifted angles stay positive
    ang = lambda: draw(st.sampled_from([["f", "x"], ["v", "a", 2.5], ["f", "y"], ["+", ["*", 0.5, ["f", "x"]], 1.5], ["+", ["v", "a", 2.5], ["*", 0.25, ["f", "y"]]]]))  # noqa: E731
    ops = []
    for _ in range(draw(st.integers(1, 3))):
        if kind == "digital":
            ops.append(["gate", [draw(st.sampled_from(["RX", "RY"])), draw(st.integers(0, n - 1)), ang()]])
        else:
            ops.append([draw(st.sampled_from(["rx", "ry"])), ang(), None, True])
    obs = [G.hermitian(draw, list(range(n)), G.Cfg(), ("num",), max_terms=2) for _ in range(draw(st.integers(1, 2)))]
    return dict(n=n, ops=ops, obs=obs, f={"x": [draw(st.integers(110, 200)) / 64], "y": [draw(st.integers(110, 200)) / 64]})


def check_pgrad(c):
    import analog as A
    import torch
    from qadence import QuantumCircuit, QuantumModel, Register, chain

    scale = max([1.0] + [S.gen_norm(o, {}) for o in c["obs"]])
    if scale > 50:
        raise Skip
    out = {}
    for be, mode in (("pulser", "gpsr"), ("pyqtorch", "ad")):
        circ = QuantumCircuit(Register.line(c["n"], spacing=50.0), chain(*[A.build_op(o) for o in c["ops"]]))
        m = QuantumModel(circ, [S.build(o) for o in c["obs"]], backend=be, diff_mode=mode)
        used = {p.name for p in circ.unique_parameters}
        v = {k: torch.tensor(x, requires_grad=True) for k, x in c["f"].items() if k in used}
        wrt = [v[k] for k in sorted(v)] + [p for k, p in sorted(m._params.items()) if p.requires_grad]
        e = m.expectation(v)
        r = [arr(e.detach())]
        for j in range(e.shape[1]):
            g = torch.autograd.grad(e[:, j].sum(), wrt, retain_graph=True, allow_unused=True)
            r.append(np.array([0.0 if x is None else float(x.sum()) for x in g]))
        out[be] = r
    for i, (p, q) in enumerate(zip(out["pulser"], out["pyqtorch"])):
        close(p, q, "expectation on pulser" if i == 0 else f"gradient of observable {i - 1} on pulser", (0.03 if i == 0 else 0.05) * len(c["ops"]) * scale, 1.0)


FACETS = [
    Facet("pulser_grad", strat_pgrad, check_pgrad, 12, 300, 4),
    Facet("pulser_noise", strat_noisy, check_noisy, 16, 400, 4, nontrivial=lambda c: c["p"] > 0),
    Facet("pulser", strat_pulser, check_pulser, 32, 1200, 4),
    Facet("grad_ad", strat_grad_for("ad"), check_grad, 40, 1500, 4),
    Facet("grad_psr", strat_grad_for("gpsr"), check_grad, 25, 1000, 4),
    Facet("run", strat_run, check_run, 100, 4000, 4),
    Facet("expectation", strat_exp, check_exp, 72, 3000, 4),
]
