"""P02 block matrix."""
from __future__ import annotations

import numpy as np
from hypothesis import assume
from hypothesis import strategies as st

import gen as G
import spec as S
from harness import Facet, Known, Skip
from oracle import arr, close, expect

RULE = "distinct block with at least two leaves or one leaf on >=2 qubits, and a matrix that is not a multiple of the identity"
ASSUMPTIONS = ["dense numpy reference; requested support lists are ascending in the result, as documented by the library's own convention (qubits sorted)"]


def nontrivial(case):
    ls = S.leaves(case["block"])
    return len(ls) >= 2 or any(len(S.leaf_support(x)) > 1 for x in ls)


def mk(cfgkw, maxq=4, batch=(1, 1, 2, 3)):
    @st.composite
    def strat(draw):
        n = draw(st.integers(1, 6))
        k = draw(st.integers(1, min(maxq, n)))
        qs = sorted(draw(st.lists(st.integers(0, n - 1), min_size=k, max_size=k, unique=True)))
        cfg = G.Cfg(**cfgkw)
        b = G.block(draw, qs, cfg, cfg.max_depth)
        if cfg.max_depth and S.depth(b) == 1:
            b = ["chain", [b, G.block(draw, qs, cfg, cfg.max_depth - 1)]]
        vv, fn = S.names(b)
        fv = G.feature_values(draw, fn, draw(st.sampled_from(list(batch))))
        mode = draw(st.sampled_from(["own", "own", "full", "wide", "method"]))
        extra = []
        if mode == "wide":
            extra = sorted(draw(st.lists(st.integers(0, n), min_size=0, max_size=2, unique=True)))
        return dict(block=b, f=fv, mode=mode, extra=extra, endian=draw(st.sampled_from(["BIG", "LITTLE"])))

    return strat


def envlist(case):
    b = case["block"]
    if S.degenerate(b):
        raise Skip
    vv, _ = S.names(b)
    es = G.envs(vv, case["f"])
    bound = max(S.opbound(b, e) for e in es)
    if not bound < 1e4 or max(S.sens(b, e) for e in es) > 3000:
        raise Skip
    return es, max(1, bound)


def target_support(case, blk):
    sup = S.support(case["block"])
    if case["mode"] == "full":
        return list(range(max(sup) + 1))
    if case["mode"] == "wide":
        return sorted(set(sup) | set(case["extra"]))
    return sup


def check(case):
    from qadence import block_to_tensor
    from qadence.types import Endianness

    es, bound = envlist(case)
    blk = S.build(case["block"])
    sup = target_support(case, blk)
    if len(sup) > 6:
        raise Skip
    e = getattr(Endianness, case["endian"])
    k = dict(values=G.tensors(case["f"]), endianness=e)
    if case["mode"] == "full":
        k["use_full_support"] = True
    if case["mode"] == "wide":
        k["qubit_support"] = tuple(sup)
    if case["mode"] == "method":
        case = dict(case, endian="BIG")
        got = blk.tensor(values=G.tensors(case["f"]))
    else:
        got = block_to_tensor(blk, **k)

    def reference():
        want = np.array([S.submatrix_embed(case["block"], env, sup) for env in es])
        if case["endian"] == "LITTLE":
            p = S.reverse_bits_perm(len(sup))
            want = want[:, p][:, :, p]
        return want

    want = reference()
    if any(x[0] == "Projector" and x[1] != x[2] for x in S.walk(case["block"])):
        S.OPT["proj_T"] = True
        try:
            alt = reference()
        finally:
            S.OPT["proj_T"] = False
        g = arr(got)
        t = S.tol(case["block"], es) * bound
        if g.shape == want.shape and np.max(np.abs(g - want)) > t and np.max(np.abs(g - alt)) <= t:
            raise Known("P02-projector-transposed", "matrix of Projector(ket, bra) is |bra><ket|")
    close(got, want, f"matrix of block on {sup}", S.tol(case["block"], es) * bound)


# ---- diagonal
@st.composite
def diag_strat(draw):
    n = draw(st.integers(1, 5))
    qs = sorted(draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=4, unique=True)))
    cfg = G.Cfg(gates=["Z", "I"], scale=True, add=True, params=("num",), scale_params=("num", "v"), max_depth=3)
    b = G.block(draw, qs, cfg)
    return dict(block=b, f={}, endian=draw(st.sampled_from(["BIG", "LITTLE"])), mode=draw(st.sampled_from(["own", "full", "wide"])),
                extra=sorted(draw(st.lists(st.integers(0, n), max_size=2, unique=True))))


def check_diag(case):
    from qadence import block_to_tensor
    from qadence.blocks.block_to_tensor import block_to_diagonal
    from qadence.types import Endianness, TensorType

    es, bound = envlist(case)
    blk = S.build(case["block"])
    sup = target_support(case, blk)
    e = getattr(Endianness, case["endian"])
    k = dict(endianness=e)
    if case["mode"] == "full":
        k["use_full_support"] = True
    if case["mode"] == "wide":
        k["qubit_support"] = tuple(sup)
    want = S.submatrix_embed(case["block"], es[0], sup)
    if case["endian"] == "LITTLE":
        p = S.reverse_bits_perm(len(sup))
        want = want[p][:, p]
    t = S.tol(case["block"], es) * bound
    sp = block_to_tensor(blk, tensor_type=TensorType.SPARSEDIAGONAL, **k)
    close(sp.to_dense(), want, f"sparse diagonal on {sup}", t)
    d = block_to_diagonal(blk, **k)
    close(d, np.diag(want), f"diagonal on {sup}", t)


FULL = dict(gates=G.UNITARY_GATES + ["N", "N0", "TDagger"], add=True, scale=True, hamevo=True, hamevom=True, projector=True, matrix=True,
            gen_params=("num", "v", "f"), complex_scale=True)
FACETS = [
    Facet("gates", mk(dict(max_depth=0)), check, 1200, 20000, 2, nontrivial),
    Facet("trees", mk(dict(add=True, scale=True, max_depth=3, gates=G.UNITARY_GATES + ["N", "N0", "TDagger"], complex_scale=True)), check, 1200, 20000, 3, nontrivial),
    Facet("operators", mk(dict(FULL, max_depth=2)), check, 1200, 20000, 3, nontrivial),
    Facet("diagonal", diag_strat, check_diag, 800, 10000, 2, nontrivial),
]
