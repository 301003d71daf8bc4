"""P15 Hamiltonian evolution."""
from __future__ import annotations

import itertools
import math

import numpy as np
from hypothesis import strategies as st
from scipy.integrate import solve_ivp
from scipy.linalg import expm

import gen as G
import spec as S
from harness import Facet, Skip, Violation
from oracle import arr, close, expect

RULE = "distinct generator with at least two strings or a string of two factors (time-dependent: generators that do not commute at different times), evolved for a non-zero time"
ASSUMPTIONS = ["reference: scipy expm of the dense generator; scipy RK45/DOP853 with tolerance 1e-10 for time-dependent generators and Lindblad equations",
               "product formulas: first order within t^2/2 times the sum of commutator norms; second order within the nested-commutator bound for its ten steps; halving the time divides the error by at least 2^(p+1/2)",
               "time-dependent evolutions take one value per parameter (the solver of the simulator does not take batches); at most one noisy evolution per circuit, of all its qubits"]


def fac(draw, qs, ops, kmax=3):
    sub = G.pick(draw, qs, draw(st.integers(1, min(kmax, len(qs)))))
    fs = [[draw(st.sampled_from(ops)), q] for q in sub]
    k = draw(st.integers(0, 5))
    if len(fs) == 1:
        return ["kron", fs] if k == 0 else fs[0]
    if k == 0 and len(fs) > 2:
        return ["kron", [["kron", fs[:2]], *fs[2:]]]
    if k == 1:
        return ["chain", fs]
    return ["kron", fs]


def generator(draw, qs, cfg, coef, ops=("X", "Y", "Z", "X", "Y", "Z", "N", "I"), terms=4):
    ts = []
    for _ in range(draw(st.integers(1, terms))):
        t = fac(draw, qs, ops)
        if draw(st.integers(0, 3)):
            t = ["scale", G.param(draw, cfg, coef, 1), t]
        ts.append(t)
    g = ts[0] if len(ts) == 1 else ["add", ts]
    k = draw(st.integers(0, 7))
    if k == 0:
        g = ["scale", G.param(draw, cfg, coef, 1), g]
    elif k == 1 and len(ts) > 2:
        g = ["add", [["add", ts[:2]], *ts[2:]]]
    elif k == 2 and len(ts) > 1:
        g = ["add", [["scale", G.generic(draw, -2, 2), ["add", ts[:2]]], *ts[2:]]]
    return g


# --- exact evolution -------------------------------------------------------
@st.composite
def strat_evo(draw):
    n = draw(st.integers(1, 4))
    cfg = G.Cfg()
    qs = list(range(n))
    k = draw(st.integers(0, 4))
    if k == 0:
        d = draw(st.integers(1, min(n, 3)))
        e = ["HamEvoM", "herm", draw(st.integers(0, 999)), G.pick(draw, qs, d), G.param(draw, cfg)]
    else:
        e = ["HamEvo", generator(draw, qs, cfg, ("num", "num", "v", "f", "expr")), G.param(draw, cfg)]
    fn = S.names(e)[1]
    return dict(n=n, evo=e, f=G.feature_values(draw, fn, draw(st.sampled_from([1, 1, 2, 3]))), seed=draw(st.integers(0, 999)), batchstate=draw(st.integers(0, 3)) == 0,
                tensor=draw(st.lists(st.floats(-2, 2), min_size=1, max_size=3)) if draw(st.integers(0, 4)) == 0 and k else None, threed=draw(st.booleans()))


def unit(s, e, n):
    """exp(-i t G) from scipy, embedded."""
    if s[0] == "HamEvoM":
        return S.embed(expm(-1j * S.peval(s[4], e) * S.seeded(s[1], s[2], len(s[3]))), s[3], n)
    return expm(-1j * S.peval(s[2], e) * S.mat(s[1], e, n))


def rich(s):
    if s[0] == "HamEvoM":
        return True
    return "add" in S.kinds(s[1]) or len(S.support(s[1])) > 1


def check_evo(c):
    import torch
    from qadence import HamEvo, QuantumCircuit, QuantumModel, run
    from qadence.blocks import block_to_tensor

    n, e = c["n"], c["evo"]
    if S.degenerate(e):
        raise Skip
    vv = S.names(e)[0]
    es = G.envs(vv, c["f"])
    if max(S.sens(e, x) for x in es) > 500:
        raise Skip
    f = c["f"]
    if c["tensor"] and len(es) == 1:
        # the time given as a literal tensor
        b = HamEvo(S.build(e[1]), torch.tensor(c["tensor"], dtype=torch.float64))
        Us = [expm(-1j * t * S.mat(e[1], es[0], n)) for t in c["tensor"]]
        if max(abs(t) for t in c["tensor"]) * S.gen_norm(e[1], es[0]) > 200:
            raise Skip
    else:
        b = S.build(e)
        if e[0] == "HamEvoM" and c["threed"]:
            b = HamEvo(b.generator[None], b.parameters.parameter, qubit_support=tuple(e[3]))
        Us = [unit(e, x, n) for x in es]
    k = 1 if len(Us) > 1 or not c["batchstate"] else 3
    psi = np.asarray(G.state_vec(c["seed"], n, k))
    want = np.array([Us[i if len(Us) > 1 else 0] @ psi[i if k > 1 else 0] for i in range(max(len(Us), k))])
    tol = 1e-6 + 2 * S.tol(e, es, 1e-7)
    got = arr(run(QuantumCircuit(n, b), values=G.tensors(f), state=torch.tensor(psi)))
    close(got if len(got) == len(want) else np.repeat(got, len(want), 0), want, "evolved state", tol=tol, scale=1.0)
    got = arr(QuantumModel(QuantumCircuit(n, b)).run(G.tensors(f), state=torch.tensor(psi)))
    close(got if len(got) == len(want) else np.repeat(got, len(want), 0), want, "evolved state of a model", tol=tol, scale=1.0)
    m = arr(block_to_tensor(b, G.tensors(f), qubit_support=tuple(range(n))))
    close(m if len(m) == len(Us) else np.repeat(m, len(Us), 0), np.array(Us), "matrix of the evolution", tol=tol, scale=1.0)
    return dict(nontrivial=rich(e) and max(np.abs(U - np.eye(2**n)).max() for U in Us) > 1e-3)


# --- product formulas ------------------------------------------------------
@st.composite
def strat_commuting(draw):
    n = draw(st.integers(1, 4))
    qs = list(range(n))
    cfg = G.Cfg()
    # commuting strings: one axis per qubit
    axis = [draw(st.sampled_from("XYZ")) for _ in qs]
    ts = []
    for _ in range(draw(st.integers(1, 4))):
        sub = G.pick(draw, qs, draw(st.integers(1, n)))
        fs = [[axis[q] if draw(st.integers(0, 5)) else ("N" if axis[q] == "Z" else "I"), q] for q in sub]
        t = fs[0] if len(fs) == 1 else ["kron", fs]
        ts.append(["scale", G.param(draw, cfg, ("num", "num", "v", "f"), 1), t] if draw(st.booleans()) else t)
    g = ts[0] if len(ts) == 1 else ["add", ts]
    e = ["HamEvo", g, G.param(draw, cfg)]
    return dict(n=n, evo=e, f=G.feature_values(draw, S.names(e)[1], draw(st.sampled_from([1, 1, 2]))), order=draw(st.sampled_from(["BASIC", "ST2", "ST4"])),
                via=draw(st.sampled_from(["method", "method", "digitalize"])), seed=draw(st.integers(0, 999)))


def decomposed(c, b):
    from qadence import chain
    from qadence.blocks.utils import primitive_blocks
    from qadence.transpile import digitalize
    from qadence.types import LTSOrder

    o = getattr(LTSOrder, c["order"])
    d = b.digital_decomposition(approximation=o) if c["via"] == "method" else digitalize(b, approximation=o)
    expect(not any(type(x).__name__ == "HamEvo" for x in primitive_blocks(d)), "the decomposition still contains an evolution")
    return d


def check_commuting(c):
    import torch
    from qadence import QuantumCircuit, run

    n, e = c["n"], c["evo"]
    if S.degenerate(e):
        raise Skip
    es = G.envs(S.names(e)[0], c["f"])
    if max(S.sens(e, x) for x in es) > 300 or (isinstance(e[2], (int, float)) and e[2] == 0):
        raise Skip
    terms = e[1][1] if e[1][0] == "add" else [e[1]]
    order = c["order"]
    b = S.build(e)
    d = decomposed(c, b)
    Us = [unit(e, x, n) for x in es]
    psi = np.asarray(G.state_vec(c["seed"], n, 1))
    got = arr(run(QuantumCircuit(n, d), values=G.tensors(c["f"]), state=torch.tensor(psi)))
    want = np.array([U @ psi[0] for U in Us])
    close(got if len(got) == len(want) else np.repeat(got, len(want), 0), want, f"gates of a commuting evolution ({order})", tol=1e-5 + 5 * S.tol(e, es, 1e-7), scale=1.0)
    return dict(nontrivial=len(terms) > 1 and n > 1)


@st.composite
def strat_trotter(draw):
    order = draw(st.sampled_from(["BASIC"] * 6 + ["ST2", "ST2", "ST4"]))
    n = draw(st.integers(1, 2 if order == "ST4" else 3))
    qs = list(range(n))
    ts = []
    for _ in range(draw(st.integers(2, 2 if order == "ST4" else 4))):
        t = fac(draw, qs, ("X", "Y", "Z", "X", "Y", "Z", "N", "I"))
        ts.append(["scale", draw(st.sampled_from([1.0, -1.0, 0.5, 2.0, -1.5])), t] if draw(st.booleans()) else t)
    return dict(n=n, terms=ts, order=order, t=draw(st.floats(0.05, 1.0)) * draw(st.sampled_from([1, 1, -1])), feature=draw(st.booleans()), via=draw(st.sampled_from(["method", "digitalize"])))


def comm(a, b):
    return a @ b - b @ a


def norm(a):
    return np.linalg.norm(a, 2)


def check_trotter(c):
    import torch
    from qadence import FeatureParameter, HamEvo, QuantumCircuit, run

    n = c["n"]
    Hs = [S.mat(t, {}, n) for t in c["terms"]]
    H = sum(Hs)
    if max(norm(h) for h in Hs) == 0 or any(np.abs(h - h.conj().T).max() > 1e-12 for h in Hs):
        raise Skip
    cm = sum(norm(comm(a, b)) for a, b in itertools.combinations(Hs, 2))
    if cm < 1e-9:
        raise Skip

    def error(t):
        g = S.build(["add", c["terms"]])
        if c["feature"]:
            b, v = HamEvo(g, FeatureParameter("tau")), {"tau": torch.tensor([t])}
        else:
            b, v = HamEvo(g, t), {}
        d = decomposed(c, b)
        U = arr(run(QuantumCircuit(n, d), values=v, state=torch.eye(2**n, dtype=torch.complex128))).T
        return norm(U - expm(-1j * t * H)), U

    t = c["t"]
    err, U = error(t)
    expect(norm(U @ U.conj().T - np.eye(2**n)) < 1e-6, "the decomposition is not unitary")
    if c["order"] == "BASIC":
        bound = abs(t) ** 2 / 2 * cm
    else:
        tri = sum(norm(comm(a, comm(b, h))) for a in Hs for b in Hs for h in Hs)
        bound = abs(t) ** 3 / 12 * tri / 100
        if c["order"] == "ST4":
            p2 = 1 / (4 - 4 ** (1 / 3))
            bound *= (4 * p2**3 + abs(1 - 4 * p2) ** 3) / 100
    if err > bound * 1.001 + 1e-6:
        raise Violation(f"{c['order']}: error {err:.3e} at time {t}, bound {bound:.3e}")
    if c["order"] != "BASIC":
        p = 2 if c["order"] == "ST2" else 4
        scale = norm(H) + max(norm(h) for h in Hs)
        big = min(2.0 / scale, 1.0) if p == 2 else 20.0 / scale
        e1, e2 = error(big)[0], error(big / 2)[0]
        if e2 > 1e-6 and e1 < 0.1 and e1 / e2 < 2 ** (p + 0.5):
            raise Violation(f"{c['order']}: error {e1:.3e} at time {big:.3g} and {e2:.3e} at half of it")
    return dict(nontrivial=True)


# --- time-dependent generators --------------------------------------------
@st.composite
def strat_td(draw):
    n = draw(st.integers(1, 3))
    qs = list(range(n))
    fns = []

    def coef():
        k = draw(st.sampled_from(["t", "t", "sin", "cos", "poly", "vt", "ft", "const", "exp"]))
        return [k, round(draw(st.floats(0.3, 2.0)), 3) * draw(st.sampled_from([1, -1])), round(draw(st.floats(0.3, 2.0)), 3)]
    terms = []
    for _ in range(draw(st.integers(1, 3))):
        sub = G.pick(draw, qs, draw(st.integers(1, min(2, n))))
        fs = [[draw(st.sampled_from("XYZXYZN")), q] for q in sub]
        terms.append([coef(), fs[0] if len(fs) == 1 else ["kron", fs]])
    terms[0][0][0] = draw(st.sampled_from(["t", "sin", "poly", "vt", "ft", "cos"]))
    return dict(n=n, terms=terms, T=round(draw(st.floats(0.1, 2.0)), 3), dur=draw(st.sampled_from(["num", "default", "str", "feature", "var", "expr"])), x=round(draw(st.floats(-1.5, 1.5)), 3), w=round(draw(st.floats(-1.5, 1.5)), 3),
                pre=draw(st.integers(0, 3)), post=draw(st.integers(0, 3)), second=draw(st.integers(0, 3)) == 0, seed=draw(st.integers(0, 999)), steps=draw(st.sampled_from([100, 100, 200])),
                solver=draw(st.sampled_from(["DP5_SE", "DP5_SE", "KRYLOV_SE"])), noise=draw(st.sampled_from([None, None, None, "X", "Z", "N"])), tname=draw(st.sampled_from(["t", "s", "time1"])), entry=draw(st.sampled_from(["ad", "ad", "adjoint", "none"])))


def cval(k, s, x, w):
    o, a, b = k
    return {"t": a * s, "sin": a * np.sin(b * s), "cos": a * np.cos(b * s), "poly": a * s**2 - b * s, "vt": a * w * s, "ft": a * x * s + b, "const": a, "exp": a * np.exp(-b * s)}[o]


def cbuild(k, t):
    import sympy
    from qadence import FeatureParameter, VariationalParameter

    o, a, b = k
    if o == "vt":
        return a * VariationalParameter("w", value=0.25) * t
    if o == "ft":
        return a * FeatureParameter("x") * t + b
    return {"t": lambda: a * t, "sin": lambda: a * sympy.sin(b * t), "cos": lambda: a * sympy.cos(b * t), "poly": lambda: a * t**2 - b * t, "const": lambda: a, "exp": lambda: a * sympy.exp(-b * t)}[o]()


def check_td(c):
    import torch
    from qadence import RX, CNOT, FeatureParameter, HamEvo, QuantumCircuit, QuantumModel, RY, TimeParameter, VariationalParameter, X, Z, N, add, chain, density_mat
    from qadence.types import SolverType

    n, T, x, w = c["n"], c["T"], c["x"], c["w"]
    ms = [S.mat(b, {}, n) for _, b in c["terms"]]
    H = lambda s: sum(cval(k, s, x, w) * m for (k, _), m in zip(c["terms"], ms))
    if c["noise"] and (c["second"] or {q for _, b in c["terms"] for q in S.support(b)} != set(range(n))):
        raise Skip  # the simulator takes one noisy evolution per circuit, of all qubits
    big = max(norm(H(s)) for s in np.linspace(0, T, 20))
    if big * T > 15:
        raise Skip
    t = TimeParameter(c["tname"])
    g = add(*(cbuild(k, t) * S.build(b) for k, b in c["terms"]))
    vals = {}
    dur = {"num": T, "default": None, "str": "dd", "feature": FeatureParameter("dd"), "var": VariationalParameter("vd", value=T), "expr": 2 * FeatureParameter("dd") + 0.0}[c["dur"]]
    if c["dur"] == "default":
        vals["duration"] = torch.tensor([T])
    elif c["dur"] in ("str", "feature"):
        vals["dd"] = torch.tensor([T])
    elif c["dur"] == "expr":
        vals["dd"] = torch.tensor([T / 2])
    ops = [] if c["noise"] is None else [{"X": X, "Z": Z, "N": N}[c["noise"]](S.support(c["terms"][0][1])[0])]
    evo = HamEvo(g, t, duration=dur, noise_operators=ops) if ops else HamEvo(g, t, duration=dur)
    fx = FeatureParameter("x")
    pre = [RX(0, fx), RY(n - 1, 0.7), RX(n - 1, VariationalParameter("w", value=0.25))][: c["pre"]]
    post = [RY(0, fx), RX(n - 1, 2 * VariationalParameter("w", value=0.25)), RY(n - 1, fx * 0.5)][: c["post"]]
    blocks = [*pre, evo, *post] + ([evo] if c["second"] else [])
    circ = QuantumCircuit(n, chain(*blocks))
    used = {p.name for p in circ.block and circ.unique_parameters}
    if "x" in used:
        vals["x"] = torch.tensor([x])
    cfgd = {"n_steps_hevo": c["steps"]}
    if ops:
        cfgd["ode_solver"] = SolverType.DP5_ME
    else:
        cfgd["ode_solver"] = getattr(SolverType, c["solver"])
    if c.get("entry") == "none" and "w" not in used and c["dur"] != "var":
        import qadence

        psi = np.asarray(G.state_vec(c["seed"], n, 1))
        got = arr(qadence.run(circ, values=vals, state=torch.tensor(psi), configuration=cfgd))
        return compare_td(c, got, psi, H, ops, g)
    model = QuantumModel(circ, Z(0), configuration=cfgd, diff_mode="adjoint" if c.get("entry") == "adjoint" else "ad")
    if "w" in used:
        model.load_state_dict({**model.state_dict(), **{k: torch.tensor([w]) for k in model.state_dict() if k.endswith(".w")}})
    psi = np.asarray(G.state_vec(c["seed"], n, 1))
    got = arr(model.run(vals, state=torch.tensor(psi)))
    return compare_td(c, got, psi, H, ops, g)


def compare_td(c, got, psi, H, ops, g):
    n, T, x, w = c["n"], c["T"], c["x"], c["w"]
    R = lambda a, q, th: S.embed(S.rot(a, th), [q], n)
    upre = [R("RX", 0, x), R("RY", n - 1, 0.7), R("RX", n - 1, w)][: c["pre"]]
    upost = [R("RY", 0, x), R("RX", n - 1, 2 * w), R("RY", n - 1, 0.5 * x)][: c["post"]]
    d = 2**n
    if not ops:
        y = psi[0]
        evolve = lambda y: solve_ivp(lambda s, y: -1j * H(s) @ y, (0, T), y, method="DOP853", rtol=1e-10, atol=1e-12).y[:, -1]
        for u in upre:
            y = u @ y
        y = evolve(y)
        for u in upost:
            y = u @ y
        if c["second"]:
            y = evolve(y)
        tol = 1e-4
        if c["solver"] == "KRYLOV_SE":
            # piecewise-constant generator over steps of fixed size
            ss = np.linspace(0, T, 50)
            tol += (2 if c["second"] else 1) * 1.5 * (T / c["steps"]) * sum(norm(H(a) - H(b)) for a, b in zip(ss, ss[1:]))
        close(got, y[None], "time-dependent evolution", tol=tol, scale=1.0)
    else:
        L = S.mat({"X": ["X", ops[0].qubit_support[0]], "Z": ["Z", ops[0].qubit_support[0]], "N": ["N", ops[0].qubit_support[0]]}[c["noise"]], {}, n)

        def lind(s, r):
            r = r.reshape(d, d)
            h = H(s)
            return (-1j * (h @ r - r @ h) + L @ r @ L.conj().T - 0.5 * (L.conj().T @ L @ r + r @ L.conj().T @ L)).reshape(-1)
        evolve = lambda r: solve_ivp(lind, (0, T), r.reshape(-1), method="DOP853", rtol=1e-10, atol=1e-12).y[:, -1].reshape(d, d)
        r = np.outer(psi[0], psi[0].conj())
        for u in upre:
            r = u @ r @ u.conj().T
        r = evolve(r)
        for u in upost:
            r = u @ r @ u.conj().T
        if c["second"]:
            r = evolve(r)
        close(got.reshape(-1, d, d), r[None], "noisy time-dependent evolution", tol=1e-3, scale=1.0)
    return dict(nontrivial=len(c["terms"]) > 1 and norm(comm(H(0.1 * T), H(0.9 * T))) > 1e-3)


FACETS = [
    Facet("evolution", strat_evo, check_evo, 360, 10000, 3),
    Facet("commuting", strat_commuting, check_commuting, 200, 5000, 2),
    Facet("product-formulas", strat_trotter, check_trotter, 48, 1500, 4),
    Facet("time-dependent", strat_td, check_td, 72, 2500, 4),
]
