"""P01 run == textbook state."""
from __future__ import annotations

import numpy as np
from hypothesis import assume
from hypothesis import strategies as st

import gen as G
import spec as S
from harness import Facet, Skip
from oracle import close, expect

RULE = ("distinct circuit case with at least two leaf operations, of which at least one acts on two or more "
        "qubits or carries a parameter, and whose reference operator is not a multiple of the identity")
ASSUMPTIONS = ["reference: dense numpy matrices written from the textbook gate definitions; agreement within 1e-5 plus a bound on single-precision parameter rounding",
               "at most 5 qubits, batches of at most 4"]


def nontrivial(case):
    ls = S.leaves(case["block"])
    return len(ls) >= 2 and any(len(S.leaf_support(x)) > 1 or S.own_params(x) for x in ls)


def mk(cfg_kw, nmax=4, items=6, gates=None):
    @st.composite
    def strat(draw):
        cfg = G.Cfg(**cfg_kw)
        n = draw(st.integers(1, nmax))
        b = G.circuit(draw, list(range(n)), cfg, 1, items)
        vv, fn = S.names(b)
        batch = draw(st.sampled_from([1, 1, 2, 3, 4]))
        fv = G.feature_values(draw, fn, batch)
        case = dict(n=n, block=b, f=fv, endian=draw(st.sampled_from(["BIG", "LITTLE"])))
        return case

    return strat


def out_reference(case, psi0=None):
    n, b = case["n"], case["block"]
    if S.degenerate(b):
        raise Skip
    vv, _ = S.names(b)
    vv = {**vv, **case.get("vover", {})}
    es = G.envs(vv, case["f"])
    bound = max(S.opbound(b, e) for e in es)
    if bound > 1e4 or not np.isfinite(bound):
        raise Skip
    if max(S.sens(b, e) for e in es) > 3000:
        raise Skip
    nb = len(es)
    if psi0 is None:
        psi0 = np.zeros((1, 2**n), complex)
        psi0[0, 0] = 1
    k = max(nb, len(psi0))
    res = np.array([S.mat(b, es[i if nb > 1 else 0], n) @ psi0[i if len(psi0) > 1 else 0] for i in range(k)])
    if case.get("endian") == "LITTLE":
        res = res[:, S.reverse_bits_perm(n)]
    return res, es, bound


def kw(case):
    from qadence.types import Endianness

    return dict(values=G.tensors(case["f"]), endianness=getattr(Endianness, case.get("endian", "BIG")))


def check_run(case):
    from qadence import QuantumCircuit, run

    want, es, bound = out_reference(case)
    blk = S.build(case["block"])
    got = run(QuantumCircuit(case["n"], blk), **kw(case))
    close(got, want, "run", S.tol(case["block"], es) * bound)


# ---- initial states, batches of them
@st.composite
def state_strat(draw):
    case = draw(mk(dict(hamevo=True), nmax=4, items=4)())
    nb = max((len(v) for v in case["f"].values()), default=1)
    case["state"] = dict(seed=draw(st.integers(0, 999)), batch=draw(st.sampled_from([1, 1, 2, 3])) if nb == 1 else draw(st.sampled_from([1, nb])))
    return case


def check_state(case):
    import torch
    from qadence import QuantumCircuit, run

    psi0 = G.state_vec(case["state"]["seed"], case["n"], case["state"]["batch"])
    want, es, bound = out_reference(case, psi0)
    t = torch.tensor(psi0)
    got = run(QuantumCircuit(case["n"], S.build(case["block"])), state=t, **kw(case))
    close(got, want, "run with initial state", S.tol(case["block"], es) * bound)
    close(t, psi0, "initial state argument after run", 0)


# ---- execution options / entry points
@st.composite
def option_strat(draw):
    case = draw(mk(dict(hamevo=True, add=True, scale=True, hamevom=True, gen_params=("num", "v", "f", "expr"), projector=True), nmax=4, items=5)())
    case["opts"] = dict(
        use_single_qubit_composition=draw(st.booleans()),
        use_gradient_checkpointing=draw(st.booleans()),
        loop_expectation=draw(st.booleans()),
        no_passes=draw(st.integers(0, 3)) == 0,
    )
    case["entry"] = draw(st.sampled_from(["circuit", "model", "model_gpsr", "model_adjoint", "register", "int", "gate_params", "list", "dictcfg"]))
    return case


def check_options(case):
    import torch
    from qadence import QuantumCircuit, QuantumModel, Register, run
    from qadence.backends.pyqtorch import Configuration

    want, es, bound = out_reference(case)
    blk = S.build(case["block"])
    n = case["n"]
    o = dict(case["opts"])
    nop = o.pop("no_passes")
    if nop:
        o["transpilation_passes"] = []
    cfg = Configuration(**o)
    e = case["entry"]
    k = kw(case)
    if e == "dictcfg":
        got = run(QuantumCircuit(n, blk), configuration=o, **k)
    elif e == "circuit":
        got = run(QuantumCircuit(n, blk), configuration=cfg, **k)
    elif e == "register":
        got = run(Register(n), blk, configuration=cfg, **k)
    elif e == "int":
        got = run(n, blk, configuration=cfg, **k)
    elif e == "list":
        got = run([QuantumCircuit(n, blk), QuantumCircuit(n, S.build(case["block"]))], configuration=cfg, **k)
        want = np.concatenate([want, want])
        got = got.reshape(want.shape)
    elif e == "gate_params":
        cfg._use_gate_params = True
        from qadence.backends.api import backend_factory
        from qadence.types import BackendName

        be = backend_factory(BackendName.PYQTORCH, diff_mode=None, configuration=cfg)
        conv = be.convert(QuantumCircuit(n, blk))
        got = be.run(conv.circuit, conv.embedding_fn(conv.params, k["values"]), endianness=k["endianness"])
    else:
        dm = {"model": "ad", "model_gpsr": "gpsr", "model_adjoint": "adjoint"}[e]
        m = QuantumModel(QuantumCircuit(n, blk), diff_mode=dm, configuration=cfg)
        got = m.run(**k)
    close(got, want, f"run through {e} with {case['opts']}", S.tol(case["block"], es) * bound)


# ---- native and sub-register circuits: supports with gaps, circuit larger than its block
@st.composite
def gap_strat(draw):
    n = draw(st.integers(2, 6))
    qs = sorted(draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=min(n, 3), unique=True)))
    cfg = G.Cfg(hamevo=True)
    b = G.circuit(draw, qs, cfg, 1, 4)
    vv, fn = S.names(b)
    return dict(n=n, block=b, f=G.feature_values(draw, fn, draw(st.sampled_from([1, 2]))), endian=draw(st.sampled_from(["BIG", "LITTLE"])))


# ---- batch element == alone (metamorphic, larger circuits, through real library only)
@st.composite
def batch_strat(draw):
    cfg = G.Cfg(hamevo=True, gen_params=("num", "v", "f"))
    n = draw(st.integers(2, 5))
    b = G.circuit(draw, list(range(n)), cfg, 2, 6)
    vv, fn = S.names(b)
    assume(fn)
    return dict(n=n, block=b, f=G.feature_values(draw, fn, draw(st.integers(2, 5))), endian="BIG")


def check_batch(case):
    from qadence import QuantumCircuit, run

    want, es, bound = out_reference(case)
    c = QuantumCircuit(case["n"], S.build(case["block"]))
    whole = run(c, **kw(case))
    t = S.tol(case["block"], es) * bound
    close(whole, want, "batched run", t)
    fv = case["f"]
    nb = max(len(v) for v in fv.values())
    for i in range(nb):
        one = run(c, values=G.tensors({k: [v[i] if len(v) > 1 else v[0]] for k, v in fv.items()}))
        close(one, want[i:i + 1], f"run of batch element {i} alone", t)


FACETS = [
    Facet("gates", mk(dict(max_depth=1), items=4), check_run, 900, 12000, 2, nontrivial),
    Facet("nested", mk(dict(hamevo=True, max_depth=3)), check_run, 900, 12000, 3, nontrivial),
    Facet("operators", mk(dict(gates=G.UNITARY_GATES + ["N", "N0"], add=True, scale=True, hamevo=True, hamevom=True, projector=True, matrix=True, complex_scale=True, gen_params=("num", "v", "f", "expr"), max_depth=2), items=3), check_run, 900, 12000, 3, nontrivial),
    Facet("initial_state", state_strat, check_state, 600, 8000, 2, nontrivial),
    Facet("options", option_strat, check_options, 700, 8000, 2, nontrivial),
    Facet("gapped", gap_strat, check_run, 500, 8000, 2, nontrivial),
    Facet("batch", batch_strat, check_batch, 300, 4000, 2, nontrivial),
]
