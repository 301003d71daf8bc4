"""P06 adjoint."""
from __future__ import annotations

import numpy as np
from hypothesis import strategies as st

import gen as G
import spec as S
from harness import Facet, Skip
from oracle import arr, close, expect

RULE = "distinct block whose operator is not Hermitian (so the adjoint differs from the block)"
ASSUMPTIONS = ["dense numpy reference, conjugate transpose", "running facets exclude T, whose adjoint no backend supports (documented)"]


def ham_params(cfgkw):
    return dict(cfgkw)


def mk(cfgkw, nmax=4, contiguous=False):
    @st.composite
    def strat(draw):
        cfg = G.Cfg(**cfgkw)
        n = draw(st.integers(1, nmax))
        qs = sorted(draw(st.lists(st.integers(0, 4), min_size=n, max_size=n, unique=True))) if not contiguous else list(range(n))
        b = G.block(draw, qs, cfg, draw(st.integers(0, cfg.max_depth)))
        vv, fn = S.names(b)
        return dict(block=b, f=G.feature_values(draw, fn, draw(st.sampled_from([1, 1, 2]))), seed=draw(st.integers(0, 999)),
                    n=n if contiguous else None, twice=draw(st.booleans()))

    return strat


def ref(case, n=None):
    b = case["block"]
    if S.degenerate(b):
        raise Skip
    vv, _ = S.names(b)
    es = G.envs(vv, case["f"])
    bound = max(1, max(S.opbound(b, e) for e in es))
    if not bound < 1e4 or max(S.sens(b, e) for e in es) > 3000:
        raise Skip
    sup = S.support(b) if n is None else list(range(n))
    Ms = np.array([S.submatrix_embed(b, e, sup) for e in es])
    return es, Ms, S.tol(b, es) * bound


def nt(Ms):
    return bool(np.max(np.abs(Ms - Ms.conj().transpose(0, 2, 1))) > 1e-6)


def bcast(M, k):
    return M if len(M) == k else np.repeat(M, k, axis=0)


def check_matrix(case):
    from qadence.blocks import block_to_tensor

    S.OPT["proj_T"] = True  # block_to_tensor transposes projectors (P02 known finding); the adjoint relation is independent of it
    try:
        es, Ms, tol = ref(case)
    finally:
        S.OPT["proj_T"] = False
    b = S.build(case["block"])
    d = b.dagger()
    if case["twice"]:
        d2 = d.dagger()
        got = arr(block_to_tensor(d2, G.tensors(case["f"])))
        close(bcast(got, len(es)), Ms, "matrix of the adjoint of the adjoint", tol, 1.0)
    got = arr(block_to_tensor(d, G.tensors(case["f"])))
    close(bcast(got, len(es)), Ms.conj().transpose(0, 2, 1), "matrix of the adjoint", tol, 1.0)
    # the original is unchanged by taking the adjoint
    got = arr(block_to_tensor(b, G.tensors(case["f"])))
    close(bcast(got, len(es)), Ms, "matrix of the original after dagger()", tol, 1.0)
    expect(tuple(sorted(d.qubit_support)) == tuple(S.support(case["block"])), f"support of the adjoint {d.qubit_support}")
    return dict(nontrivial=nt(Ms))


def check_run(case):
    """the adjoint as executed by the simulator."""
    import torch
    from qadence import QuantumCircuit, run

    n = case["n"]
    es, Ms, tol = ref(case, n)
    c = QuantumCircuit(n, S.build(case["block"]))
    psi = G.state_vec(case["seed"], n, 1)
    d = c.dagger()
    expect(d.n_qubits == n, "adjoint circuit has another number of qubits")
    if case["twice"]:
        got = run(d.dagger(), values=G.tensors(case["f"]), state=torch.tensor(psi))
        close(bcast(arr(got), len(es)), np.array([M @ psi[0] for M in Ms]), "run of the adjoint of the adjoint", tol)
    got = run(d, values=G.tensors(case["f"]), state=torch.tensor(psi))
    close(bcast(arr(got), len(es)), np.array([M.conj().T @ psi[0] for M in Ms]), "run of the adjoint circuit", tol)
    return dict(nontrivial=nt(Ms))


def check_undo(case):
    import torch
    from qadence import QuantumCircuit, chain, run

    n = case["n"]
    es, Ms, tol = ref(case, n)
    b = S.build(case["block"])
    c = QuantumCircuit(n, chain(b, b.dagger()) if case["twice"] else chain(b.dagger(), b))
    psi = G.state_vec(case["seed"], n, 1)
    got = run(c, values=G.tensors(case["f"]), state=torch.tensor(psi))
    close(bcast(arr(got), len(es)), np.repeat(psi, len(es), axis=0), "circuit followed by its adjoint", 2 * tol)
    return dict(nontrivial=nt(Ms))


@st.composite
def strat_td(draw):
    p = draw(st.sampled_from("XYZ"))
    return dict(a=p, b=draw(st.sampled_from([q for q in "XYZ" if q != p])), ca=draw(st.floats(0.5, 2.0)), cb=draw(st.floats(0.5, 2.0)), T=draw(st.floats(0.3, 1.5)))


def check_td(case):
    import qadence as qd
    import torch
    from harness import Known

    t = qd.TimeParameter("t")
    b = qd.HamEvo(case["ca"] * t * getattr(qd, case["a"])(0) + case["cb"] * getattr(qd, case["b"])(0), t)
    psi = G.state_vec(3, 1, 1)
    got = arr(qd.run(qd.chain(b, b.dagger()), values={"duration": torch.tensor(case["T"])}, state=torch.tensor(psi)))
    if np.max(np.abs(got - psi)) > 1e-3:
        raise Known("P06-time-dependent", "the adjoint of an evolution with a time-dependent generator does not undo it")


UNI = [g for g in G.UNITARY_GATES if g != "T"]
ALLM = dict(gates=G.UNITARY_GATES + ["N", "N0", "TDagger"], add=True, scale=True, hamevo=True, hamevom=True, projector=True, matrix=True, complex_scale=True, max_depth=3, max_children=3)
ALLR = dict(ALLM, gates=UNI + ["N"], gen_params=("num", "v", "f", "expr"))
FACETS = [
    Facet("matrix", mk(ALLM, 3), check_matrix, 1800, 12000, 3),
    Facet("leaf", mk(dict(ALLM, max_depth=0), 3), check_matrix, 800, 6000, 1),
    Facet("run", mk(ALLR, 3, True), check_run, 1000, 8000, 2),
    Facet("undo", mk(dict(gates=UNI, hamevo=True, hamevom=True, max_depth=3, gen_params=("num", "v", "f", "expr")), 4, True), check_undo, 800, 8000, 2),
    Facet("time_dependent", strat_td, check_td, 4, 40, 1),
]
