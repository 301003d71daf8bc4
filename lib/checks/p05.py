"""P05 parameter identity and embedding."""
from __future__ import annotations

import numpy as np
import sympy
from hypothesis import strategies as st

import gen as G
import spec as S
from checks import p03
from harness import Facet, Skip, Violation
from oracle import arr, close, expect

RULE = "distinct case with at least two different parameter expressions or an expression containing a function of a named parameter"
ASSUMPTIONS = ["parameter names are free strings of letters, digits and underscores, including names that mean something to sympy or Python", "values compared in double precision with the library's single-precision constants in mind (1e-5)"]

ODD = ["x", "x_1", "x1", "beta", "gamma", "E", "I", "pi", "S", "N", "Q", "O", "zeta", "lambda", "theta", "phi_0", "exp", "x_1_5", "a_b", "Symbol", "x_10", "t", "é"]
CONSTS = [0.0, 1.0, -1.0, 2.0, -2.0, 1, -1, 2, -2, 0.5, -0.5, 0.1, 0.01, 1e-5, 1e-7, 100.0, 3, 10, 1.5, 15, 0.15, 0.25, 2.5, 25.0, 0.05]


def rename(p, m):
    if isinstance(p, (int, float)):
        return p
    if p[0] in ("v", "f"):
        return [p[0], m[p[1]]] + p[2:]
    if p[0] == "c":
        return p
    return [p[0]] + [rename(x, m) for x in p[1:]]


def rename_block(s, m):
    k = s[0]
    r = list(s)
    if k in S.COMPOSITE:
        return [k, [rename_block(c, m) for c in s[1]]]
    if k == "scale":
        return [k, rename(s[1], m), rename_block(s[2], m)]
    if k == "tag":
        return [k, s[1], rename_block(s[2], m)]
    if k == "HamEvo":
        return [k, rename_block(s[1], m), rename(s[2], m)]
    if k in S.ROT:
        r[2] = rename(s[2], m)
    elif k == "U":
        r[2:5] = [rename(p, m) for p in s[2:5]]
    elif k in S.CROT or k in S.MCROT:
        r[3] = rename(s[3], m)
    elif k == "HamEvoM":
        r[4] = rename(s[4], m)
    return r


def draw_names(draw):
    base = G.VNAMES + G.FNAMES
    pick = draw(st.lists(st.sampled_from(ODD), min_size=len(base), max_size=len(base), unique=True))
    return dict(zip(base, pick))


def const_heavy(draw, s):
    """replace some numeric angles by values from the collision-prone list."""
    def go(p):
        if isinstance(p, (int, float)) and draw(st.booleans()):
            return draw(st.sampled_from(CONSTS))
        return p

    k = s[0]
    r = list(s)
    if k in S.COMPOSITE:
        return [k, [const_heavy(draw, c) for c in s[1]]]
    if k == "scale":
        return [k, s[1], const_heavy(draw, s[2])]
    if k == "HamEvo":
        return [k, s[1], go(s[2])]
    if k in S.ROT:
        r[2] = go(s[2])
    elif k == "U":
        r[2:5] = [go(p) for p in s[2:5]]
    elif k in S.CROT or k in S.MCROT:
        r[3] = go(s[3])
    return r


PGATES = ["RX", "RY", "RZ", "PHASE", "U", "CRX", "CRZ", "CPHASE", "MCRY", "MCPHASE"]


@st.composite
def values_strat(draw):
    cfg = G.Cfg(gates=PGATES, hamevo=True, scale=True, max_depth=2, gen_params=("num", "v", "f", "expr"))
    n = draw(st.integers(1, 3))
    b = const_heavy(draw, G.circuit(draw, list(range(n)), cfg, 2, 8))
    m = draw_names(draw)
    b = rename_block(b, m)
    vv, fn = S.names(b)
    return dict(n=n, block=b, f=G.feature_values(draw, fn, draw(st.sampled_from([1, 2, 3]))), engine=draw(st.sampled_from(["torch", "torch", "jax"])),
                gate=draw(st.booleans()), over=draw(st.lists(st.sampled_from(sorted(vv) or ["-"]), max_size=2, unique=True)) if vv else [])


def check_values(case):
    """embedding(): the value each gate receives."""
    import torch
    from qadence.blocks.embedding import embedding
    from qadence.parameters import stringify
    from qadence.types import Engine

    b = case["block"]
    if S.degenerate(b):
        raise Skip
    vv, fn = S.names(b)
    S.RECORD = []
    try:
        blk = S.build(b)
        pairs = S.RECORD
    finally:
        S.RECORD = None
    eng = Engine.TORCH if case["engine"] == "torch" else Engine.JAX
    params, fn_ = embedding(blk, to_gate_params=case["gate"], engine=eng)
    free = {k for k, v in params.items() if getattr(v, "requires_grad", False)}
    if eng == Engine.TORCH:
        expect(free == set(vv), f"trainable parameters {sorted(free)} expected {sorted(vv)}")
    over = {k: [vv[k] + 0.75] for k in case["over"] if k in vv}
    inputs = {**case["f"], **over}
    if eng == Engine.TORCH:
        inp = {k: torch.tensor(v, dtype=torch.float64) for k, v in inputs.items()}
    else:
        import jax.numpy as jnp

        inp = {k: jnp.array(v) for k, v in inputs.items()}
    for k, v in vv.items():
        close(np.asarray(arr(params[k])).reshape(-1), np.array([v]), f"initial value of {k}", 1e-6)
    emb = fn_(params, inp)
    es = G.envs(vv, {**case["f"], **over})
    for s, x in pairs:
        if s[0] not in S.PARAM_LEAVES and s[0] not in ("HamEvo", "HamEvoM"):
            continue
        us = list(x.parameters.items())
        for (u, ex), p in zip(us, S.own_params(s)):
            key = u if case["gate"] else stringify(ex)
            if key not in emb:
                raise Violation(f"no value for parameter of {s}: {key!r} not in {sorted(map(str, emb))}")
            got = np.asarray(arr(emb[key])).reshape(-1)
            want = np.array([S.peval(p, e) for e in es])
            if len(got) == 1:
                expect(np.max(np.abs(want - want[0])) < 1e-9, f"{s}: one value {got} for a batch {want}")
                want = want[:1]
            mag = max(S.pmag(p, e) for e in es)
            close(got, want, f"value of {p} in {s}", 1e-5 * (1 + mag))


@st.composite
def run_strat(draw):
    case = draw(p03.mk(coef=("num", "v", "f", "expr"), nmax=3)())
    m = draw_names(draw)
    case["block"] = const_heavy(draw, rename_block(case["block"], m))
    case["obs"] = [rename_block(o, m) for o in case["obs"]]
    case["f"] = {m[k]: v for k, v in case["f"].items()}
    case["mode"] = draw(st.sampled_from(["ad", "gpsr"]))
    vv, fn = S.names(case["block"], *case["obs"])
    # values supplied for variational parameters, and for names that do not occur
    case["vover"] = {}
    if vv and draw(st.booleans()):
        k = draw(st.sampled_from(sorted(vv)))
        case["vover"] = {k: G.generic(draw, -3, 3)}
    case["split"] = draw(st.sampled_from([False, False, True]))
    return case


def check_run(case):
    """the whole stack: model outputs with odd names, shared parameters, overridden variational values."""
    import torch
    from qadence import QuantumModel

    want, tol = p03.reference(case)
    circ, obs = p03.built(case)
    m = QuantumModel(circ, obs, diff_mode=case["mode"])
    vals = {**G.tensors(case["f"]), **{k: torch.tensor([v], dtype=torch.float64) for k, v in case["vover"].items()}}
    vc, fc = S.names(case["block"])
    vo, fo = S.names(*case["obs"])
    if case["split"] and case["mode"] == "ad" and vals:
        names_c, names_o = set(vc) | fc, set(vo) | fo
        vals = {"circuit": {k: v for k, v in vals.items() if k in names_c}, "observables": {k: v for k, v in vals.items() if k in names_o}}
    got = m.expectation(vals)
    close(got, want, f"expectation ({case['mode']})", tol)
    # the override of one call is not remembered
    if case["vover"]:
        c2 = dict(case, vover={})
        want2, tol2 = p03.reference(c2)
        close(m.expectation(G.tensors(case["f"])), want2, "expectation without override", tol2)


def nontrivial(case):
    ps = {str(p) for o in [case["block"], *case.get("obs", [])] for p in S.all_params(o)}
    return len(ps) >= 2


@st.composite
def missing_strat(draw):
    case = draw(p03.mk(coef=("num", "v", "f"), nmax=2)())
    fs = sorted(case["f"])
    case["drop"] = draw(st.sampled_from(fs)) if fs else None
    case["kind"] = draw(st.sampled_from(["missing", "size", "unknown"]))
    case["entry"] = draw(st.sampled_from(["fn_run", "fn_exp", "run", "expectation", "sample"]))
    return case


def check_missing(case):
    import torch
    from qadence import QuantumModel, expectation, run

    if case["drop"] is None or S.degenerate(case["block"], *case["obs"]):
        raise Skip
    want, tol = p03.reference(case)
    circ, obs = p03.built(case)
    f = case["f"]
    vc, fc = S.names(case["block"])
    vals = G.tensors(f)
    d = case["drop"]
    e = case["entry"]
    if e in ("fn_run", "run", "sample") and d not in fc:
        raise Skip
    if case["kind"] == "missing":
        vals.pop(d)
    elif case["kind"] == "size":
        B = max(len(v) for v in f.values())
        others = {k: v for k, v in f.items() if k != d and len(v) > 1 and k in fc}
        if not others or e == "sample":
            raise Skip
        # d occurs in the circuit with an incompatible number of values
        if d not in fc:
            raise Skip
        vals[d] = torch.linspace(0.1, 0.9, B + 2, dtype=torch.float64)
    else:
        vals["unused_name"] = torch.tensor([0.123], dtype=torch.float64)
    m = QuantumModel(circ, obs)
    call = {
        "fn_run": lambda: run(circ, values=vals),
        "fn_exp": lambda: expectation(circ, obs, values=vals),
        "run": lambda: m.run(vals),
        "expectation": lambda: m.expectation(vals),
        "sample": lambda: m.sample(vals, n_shots=10),
    }[e]
    if case["kind"] == "unknown":
        out = call()
        if e in ("fn_exp", "expectation"):
            close(out, want, "an unused value changed the result", tol)
        return dict(nontrivial=True)
    try:
        out = call()
    except Exception:  # noqa: BLE001
        return dict(nontrivial=True)
    raise Violation(f"{e} with {case['kind']} value for {d} returned {arr(out) if hasattr(out, 'shape') else out} instead of raising")


FUN = ["sin", "cos", "tan", "tanh", "exp", "log", "sqrt", "acos", "asin", "atan", "abs", "sq", "heav"]


def expr(draw, cfg, depth):
    """expression together with nothing else; arguments kept inside the domain by construction."""
    if depth == 0:
        return G.param(draw, cfg, ["v", "f"])
    k = draw(st.sampled_from(["bin", "bin", "fun", "fun", "leaf", "num", "pow"]))
    if k == "leaf":
        return G.param(draw, cfg, ["v", "f"])
    if k == "num":
        return ["*", draw(st.sampled_from([c for c in CONSTS if c])), expr(draw, cfg, depth - 1)]
    if k == "pow":
        return ["pow", expr(draw, cfg, depth - 1), draw(st.sampled_from([2, 3]))]
    if k == "bin":
        a, b = expr(draw, cfg, depth - 1), expr(draw, cfg, depth - 1)
        op = draw(st.sampled_from(["+", "-", "*", "/"]))
        if op == "/":
            return ["/", a, ["+", 2.0, ["sq", b]]]
        return [op, a, b]
    f = draw(st.sampled_from(FUN))
    a = expr(draw, cfg, depth - 1)
    if f in ("log", "sqrt"):
        a = ["+", 1.5, ["sq", a]]
    if f in ("acos", "asin"):
        a = ["*", 0.9, ["sin", a]]
    if f in ("exp", "tan"):
        a = ["sin", a]
    return [f, a]


@st.composite
def expr_strat(draw):
    cfg = G.Cfg()
    p = expr(draw, cfg, draw(st.integers(1, 4)))
    m = draw_names(draw)
    p = rename(p, m)
    vv, fn = S.pnames(p)
    return dict(p=p, f={k: [G.generic(draw, -2, 2)] for k in sorted(fn)})


def check_expr(case):
    import torch
    from qadence import QuantumCircuit, RX, QuantumModel, X, chain
    from qadence.parameters import Parameter, evaluate, make_differentiable
    from qadence.types import Engine

    p = case["p"]
    vv, fn = S.pnames(p)
    env = {**vv, **{k: v[0] for k, v in case["f"].items()}}
    want = S.peval(p, env)
    if not np.isfinite(want) or S.pmag(p, env) > 500:
        raise Skip
    if heav_edge(p, env):
        raise Skip
    e = pb = S.pbuild(p)
    if {x.name for x in getattr(e, "free_symbols", set())} != set(env):
        raise Skip
    if e.has(sympy.re, sympy.im, sympy.arg, sympy.conjugate):
        raise Skip  # functions of complex symbols that sympy introduces; no engine evaluates them (an error is raised)
    tol = 1e-5 * (1 + S.pmag(p, env)) ** 2
    close(np.array(complex(evaluate(pb, {k: v[0] for k, v in case["f"].items()}))), np.array(complex(want)), "evaluate", tol)
    t = {k: torch.tensor([v], dtype=torch.float64, requires_grad=True) for k, v in env.items()}
    out = make_differentiable(pb, Engine.TORCH)(**t)
    close(out.reshape(-1), np.array([want]), "torch expression", tol)
    h = 1e-5
    gs = torch.autograd.grad(out.sum(), list(t.values()), allow_unused=True) if "heav" not in str(p) else ()
    if "abs" not in str(p) and "heav" not in str(p):
        for k, g in zip(t, gs):
            num = sum(c * S.peval(p, {**env, k: env[k] + i * 1e-3}) for i, c in [(-2, 1 / 12), (-1, -2 / 3), (1, 2 / 3), (2, -1 / 12)]) / 1e-3
            if np.isfinite(num) and abs(num) < 1e3:
                close(np.zeros(1) if g is None else g.reshape(-1), np.array([num]), f"derivative of {p} by {k}", 1e-3 * (1 + abs(num)) * (1 + S.pmag(p, env)))
    if "heav" not in str(p):
        out = make_differentiable(pb, Engine.JAX)(**{k: np.array([v]) for k, v in env.items()})
        close(np.asarray(out).reshape(-1), np.array([want]), "jax expression", tol)
    # as a gate angle and as a scale factor, in both embedding modes
    for mode in ("ad", "gpsr"):
        mod = QuantumModel(QuantumCircuit(1, chain(RX(0, pb))), [S.build(["Z", 0])], diff_mode=mode)
        got = mod.expectation({k: torch.tensor(v, dtype=torch.float64) for k, v in case["f"].items()})
        close(got.reshape(-1), np.array([np.cos(want)]), f"RX of the expression ({mode})", tol)
        mod = QuantumModel(QuantumCircuit(1, S.build(["H", 0])), [pb * X(0)], diff_mode=mode)
        got = mod.expectation({k: torch.tensor(v, dtype=torch.float64) for k, v in case["f"].items()})
        close(got.reshape(-1), np.array([want]), f"observable scaled by the expression ({mode})", tol)


def heav_edge(p, env):
    if isinstance(p, (int, float)) or p[0] in ("v", "f", "c"):
        return False
    if p[0] == "heav" and abs(S.peval(p[1], env)) < 2e-3:
        return True
    return any(heav_edge(x, env) for x in p[1:])


FACETS = [
    Facet("gate_values", values_strat, check_values, 700, 10000, 2, nontrivial),
    Facet("model", run_strat, check_run, 500, 8000, 2, nontrivial),
    Facet("missing", missing_strat, check_missing, 300, 4000, 1, nontrivial),
    Facet("expressions", expr_strat, check_expr, 400, 8000, 2, lambda c: not isinstance(c["p"], (int, float)) and c["p"][0] not in ("v", "f")),
]
