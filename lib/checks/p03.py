"""P03 expectation values."""
from __future__ import annotations

import numpy as np
from hypothesis import strategies as st

import gen as G
import spec as S
from harness import Facet, Skip
from oracle import close, expect

RULE = "distinct (circuit, observables, values) case whose circuit has a multi-qubit or parametric gate and where some expectation value is not in {-1,0,1}"
ASSUMPTIONS = ["observables are real-weighted sums of Pauli/number strings, possibly nested and parametric", "numpy inner product, tolerance 1e-5 plus rounding bound"]


def observable(draw, qs, cfg, coef):
    o = G.hermitian(draw, qs, cfg, coef)
    k = draw(st.integers(0, 7))
    if k == 0:
        return ["add", [o, ["scale", G.param(draw, cfg, coef, 1), G.hermitian(draw, qs, cfg, coef)]]]
    if k == 1:
        return ["scale", G.param(draw, cfg, coef, 1), ["add", [o, G.pauli_string(draw, qs)]]]
    return o


def mk(coef=("num", "v", "f", "expr"), nmax=4, cfgkw=None, batches=(1, 1, 2, 3)):
    @st.composite
    def strat(draw):
        cfg = G.Cfg(**(cfgkw or dict(hamevo=True, max_depth=2)))
        n = draw(st.integers(1, nmax))
        qs = list(range(n))
        b = G.circuit(draw, qs, cfg, 1, 5)
        k = draw(st.integers(1, 3))
        obs = [observable(draw, qs, cfg, coef) for _ in range(k)]
        vv, fn = S.names(b, *obs)
        fv = G.feature_values(draw, fn, draw(st.sampled_from(list(batches))))
        return dict(n=n, block=b, obs=obs, f=fv, single=k == 1 and draw(st.booleans()), little=draw(st.integers(0, 3)) == 0)

    return strat


def reference(case, psi0=None):
    n, b, obs = case["n"], case["block"], case["obs"]
    if S.degenerate(b, *obs):
        raise Skip
    vv, _ = S.names(b, *obs)
    es = G.envs({**vv, **case.get("vover", {})}, case["f"])
    bound = max(max(1, S.gen_norm(o, e)) for o in obs for e in es)
    if bound > 3000 or max(S.sens(b, e) for e in es) > 3000:
        raise Skip
    if psi0 is None:
        psi0 = np.zeros((1, 2**n), complex)
        psi0[0, 0] = 1
    k = max(len(es), len(psi0))
    out = np.zeros((k, len(obs)))
    for i in range(k):
        e = es[i if len(es) > 1 else 0]
        psi = S.mat(b, e, n) @ psi0[i if len(psi0) > 1 else 0]
        for j, o in enumerate(obs):
            out[i, j] = np.vdot(psi, S.mat(o, e, n) @ psi).real
    tol = (S.tol(b, es) + max(S.tol(o, es) for o in obs)) * bound
    return out, tol


def nontrivial(case):
    ls = S.leaves(case["block"])
    if not any(len(S.leaf_support(x)) > 1 or S.own_params(x) for x in ls):
        return False
    try:
        out, _ = reference(case)
    except Skip:
        return False
    return bool(np.any(np.abs(out - np.round(out)) > 1e-6))


def built(case):
    from qadence import QuantumCircuit

    obs = [S.build(o) for o in case["obs"]]
    return QuantumCircuit(case["n"], S.build(case["block"])), (obs[0] if case["single"] else obs)


def end(case):
    """expectation values do not depend on the bit ordering in which states are stored"""
    return "Little" if case.get("little") else "Big"


def check_fn(case):
    from qadence import expectation

    want, tol = reference(case)
    circ, obs = built(case)
    got = expectation(circ, obs, values=G.tensors(case["f"]), diff_mode=case.get("mode"), endianness=end(case))
    close(got, want, f"expectation ({case.get('mode')})", tol)


@st.composite
def state_strat(draw):
    case = draw(mk()())
    nb = max((len(v) for v in case["f"].values()), default=1)
    case["state"] = dict(seed=draw(st.integers(0, 999)), batch=draw(st.sampled_from([1, 1, 2, 3])) if nb == 1 else draw(st.sampled_from([1, nb])))
    case["entry"] = draw(st.sampled_from(["fn", "model"]))
    return case


def check_state(case):
    import torch
    from qadence import QuantumModel, expectation

    psi0 = G.state_vec(case["state"]["seed"], case["n"], case["state"]["batch"])
    want, tol = reference(case, psi0)
    circ, obs = built(case)
    if case["entry"] == "fn":
        got = expectation(circ, obs, values=G.tensors(case["f"]), state=torch.tensor(psi0), endianness=end(case))
    else:
        got = QuantumModel(circ, obs).expectation(G.tensors(case["f"]), state=torch.tensor(psi0), endianness=end(case))
    close(got, want, "expectation with initial state", tol)


@st.composite
def option_strat(draw):
    case = draw(mk(coef=("num", "v", "f"))())
    case["opts"] = dict(use_single_qubit_composition=draw(st.booleans()), use_gradient_checkpointing=draw(st.booleans()), loop_expectation=draw(st.booleans()))
    case["mode"] = draw(st.sampled_from(["ad", "gpsr", "adjoint"]))
    if case["mode"] == "adjoint":
        case = dict(draw(mk(coef=("num",), cfgkw=dict(gates=G.UNITARY_GATES, hamevo=False))()), opts=case["opts"], mode="adjoint")
    case["override"] = draw(st.sampled_from(["none", "none", "obs_arg"]))
    case["split"] = case["mode"] == "ad" and draw(st.booleans())
    if case["split"] and draw(st.booleans()):
        # a feature of one of the two only, with a batch of its own
        z = ["f", "zo"]
        if draw(st.integers(0, 2)):
            case["obs"] = [["scale", z, case["obs"][0]]] + case["obs"][1:]
        else:
            case["block"] = ["chain", case["block"][1] + [["RX", 0, z]]] if case["block"][0] == "chain" else ["chain", [case["block"], ["RX", 0, z]]]
        case["f"] = {**{k: v[:1] for k, v in case["f"].items()}, "zo": [G.generic(draw, -2, 2) for _ in range(draw(st.integers(2, 3)))]}
    return case


def check_options(case):
    from qadence import QuantumModel, expectation
    from qadence.backends.pyqtorch import Configuration

    want, tol = reference(case)
    circ, obs = built(case)
    m = QuantumModel(circ, obs, diff_mode=case["mode"], configuration=Configuration(**case["opts"]))
    got = m.expectation(G.tensors(case["f"]), endianness=end(case))
    close(got, want, f"expectation mode={case['mode']} {case['opts']}", tol)
    if case["override"] == "obs_arg":
        # observable supplied at call time instead of at construction
        m2 = QuantumModel(circ, obs, diff_mode=case["mode"], configuration=Configuration(**case["opts"]))
        got = m2.expectation(G.tensors(case["f"]))
        close(got, want, "second model", tol)
    if case.get("split") and case["f"]:
        # the values of the circuit and of the observables in dictionaries of their own
        fc, fo = S.names(case["block"])[1], S.names(*case["obs"])[1]
        t = G.tensors(case["f"])
        split = {"circuit": {k: v for k, v in t.items() if k in fc}, "observables": {k: v for k, v in t.items() if k in fo}}
        got = m.expectation(split)
        close(got, want, f"expectation with separate values {case['opts']}", tol)
        got = expectation(circ, obs, values=split, configuration=Configuration(**case["opts"]))
        close(got, want, f"expectation (function) with separate values {case['opts']}", tol)


@st.composite
def sep_strat(draw):
    """separate parameter values for circuit and observable (dict of dicts)."""
    case = draw(mk(coef=("num", "v"), batches=(1, 2))())
    return case


# linearity / scaling relation between observables, on larger circuits
@st.composite
def linear_strat(draw):
    n = draw(st.integers(4, 7))
    cfg = G.Cfg(max_depth=1, hamevo=False)
    qs = list(range(n))
    b = G.circuit(draw, qs, cfg, 3, 8)
    o1, o2 = (G.hermitian(draw, qs, cfg, ("num",)) for _ in range(2))
    a, c = G.generic(draw, -3, 3), G.generic(draw, -3, 3)
    vv, fn = S.names(b)
    return dict(n=n, block=b, obs=[o1, o2, ["add", [["scale", a, o1], ["scale", c, o2]]]], f=G.feature_values(draw, fn, draw(st.sampled_from([1, 2]))), single=False)


FACETS = [
    Facet("values", mk(), check_fn, 900, 12000, 3, nontrivial),
    Facet("initial_state", state_strat, check_state, 600, 8000, 2, nontrivial),
    Facet("options", option_strat, check_options, 900, 12000, 3, nontrivial),
    Facet("wide", linear_strat, check_fn, 150, 2000, 2, nontrivial),
]
