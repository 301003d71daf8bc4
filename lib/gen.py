"""Hypothesis generators for block specifications (see spec.py)."""
from __future__ import annotations

import math
from dataclasses import dataclass, field
from typing import Any

from hypothesis import strategies as st

import spec as S

ALL_CONST = ["X", "Y", "Z", "I", "H", "S", "SDagger", "T", "N"]
UNI_CONST = ["X", "Y", "Z", "I", "H", "S", "SDagger", "T"]
TWO = ["CNOT", "CZ", "SWAP"]
UNITARY_GATES = UNI_CONST + list(S.ROT) + ["U"] + TWO + list(S.CROT) + list(S.MCROT) + ["MCZ", "Toffoli", "CSWAP"]
HORQRUX_GATES = ["I", "X", "Y", "Z", "H", "RX", "RY", "RZ", "CRX", "CRY", "CRZ", "CZ", "CNOT", "SWAP", "MCRX", "MCRY", "MCRZ", "MCZ"]
VNAMES = ["a", "parameter", "theta_1", "E"]
FNAMES = ["x", "y", "phi"]


@dataclass
class Cfg:
    gates: list = field(default_factory=lambda: list(UNITARY_GATES))
    composites: tuple = ("chain", "kron")
    add: bool = False
    scale: bool = False
    hamevo: bool = False
    hamevom: bool = False
    projector: bool = False
    matrix: bool = False
    zero: bool = False
    params: tuple = ("num", "v", "f", "expr")
    scale_params: tuple = ("num", "v", "f", "expr")
    max_depth: int = 3
    max_children: int = 4
    vvals: dict = field(default_factory=dict)
    fnames: list = field(default_factory=lambda: list(FNAMES))
    complex_scale: bool = False
    contiguous_matrix: bool = False
    gen_params: tuple = ("num",)


SPECIALS = [0.0, 1.0, -1.0, 2.0, -2.0, 0.5, math.pi, math.pi / 2, -math.pi / 2, math.pi / 4, 3]


def value(draw, lo=-6.0, hi=6.0) -> float:
    if draw(st.integers(0, 5)) == 0:
        c = [v for v in SPECIALS if lo <= v <= hi]
        return draw(st.sampled_from(c))
    return draw(st.integers(int(lo * 64), int(hi * 64))) / 64


def generic(draw, lo=-6.0, hi=6.0) -> float:
    return draw(st.integers(int(lo * 64), int(hi * 64))) / 64


def param(draw, cfg: Cfg, kinds=None, depth: int = 2) -> Any:
    kinds = kinds or cfg.params
    k = draw(st.sampled_from(list(kinds)))
    if k == "num":
        return value(draw)
    if k == "v":
        nm = draw(st.sampled_from(VNAMES))
        if nm not in cfg.vvals:
            cfg.vvals[nm] = generic(draw, -3, 3)
        return ["v", nm, cfg.vvals[nm]]
    if k == "f":
        return ["f", draw(st.sampled_from(cfg.fnames))]
    # expression
    if depth <= 0:
        return param(draw, cfg, [x for x in kinds if x != "expr"] or ["num"])
    op = draw(st.sampled_from(["+", "-", "*", "*n", "sin", "cos", "sq", "/n", "tanh", "exp"]))
    sub = [x for x in kinds if x in ("v", "f", "expr")] or ["num"]
    a = param(draw, cfg, sub, depth - 1)
    if op in ("+", "-", "*"):
        b = param(draw, cfg, [x for x in kinds], depth - 1)
        return [op, a, b]
    if op == "*n":
        return ["*", value(draw, -3, 3), a]
    if op == "/n":
        return ["/", a, draw(st.sampled_from([2.0, 3.0, 0.5, -4.0]))]
    if op == "exp":
        return ["exp", ["sin", a]]
    return [op, a]


def pick(draw, qubits: list[int], k: int) -> list[int]:
    return list(draw(st.permutations(qubits)))[:k]


def leaf(draw, qubits: list[int], cfg: Cfg) -> Any:
    m = len(qubits)
    ok = []
    for g in cfg.gates:
        ar = 1
        if g in TWO or g in S.CROT or g in S.MCROT or g in ("MCZ", "Toffoli"):
            ar = 2
        if g == "CSWAP":
            ar = 3
        if ar <= m:
            ok.append(g)
    extra = []
    if cfg.hamevo:
        extra.append("HamEvo")
    if cfg.hamevom:
        extra.append("HamEvoM")
    if cfg.projector:
        extra.append("Projector")
    if cfg.matrix:
        extra.append("Matrix")
    if extra and draw(st.integers(0, 4)) == 0:
        g = draw(st.sampled_from(extra))
    else:
        g = draw(st.sampled_from(ok))
    if g in S.CONST1:
        return [g, draw(st.sampled_from(qubits))]
    if g in S.ROT:
        return [g, draw(st.sampled_from(qubits)), param(draw, cfg)]
    if g == "U":
        return [g, draw(st.sampled_from(qubits)), param(draw, cfg), param(draw, cfg), param(draw, cfg)]
    if g in TWO:
        return [g, *pick(draw, qubits, 2)]
    if g in S.CROT:
        return [g, *pick(draw, qubits, 2), param(draw, cfg)]
    if g in S.MCROT or g in ("MCZ", "Toffoli"):
        k = draw(st.integers(2, min(m, 4)))
        p = pick(draw, qubits, k)
        r = [g, p[:-1], p[-1]]
        return r + [param(draw, cfg)] if g in S.MCROT else r
    if g == "CSWAP":
        return [g, *pick(draw, qubits, 3)]
    if g == "HamEvo":
        return ["HamEvo", hermitian(draw, qubits, cfg, cfg.gen_params), param(draw, cfg)]
    k = draw(st.integers(1, min(m, 3)))
    if cfg.contiguous_matrix:
        base = sorted(qubits)
        runs = [base[i:i + k] for i in range(len(base) - k + 1) if base[i + k - 1] - base[i] == k - 1]
        sup = draw(st.sampled_from(runs)) if runs else [base[0]]
        k = len(sup)
    else:
        sup = pick(draw, qubits, k)
    if g == "HamEvoM":
        return ["HamEvoM", "herm", draw(st.integers(0, 99)), sup, param(draw, cfg)]
    if g == "Projector":
        b = st.text("01", min_size=k, max_size=k)
        return ["Projector", draw(b), draw(b), sup]
    return ["Matrix", draw(st.sampled_from(["unitary", "herm", "any"])), draw(st.integers(0, 99)), sup]


def pauli_string(draw, qubits: list[int], ops=("X", "Y", "Z", "N"), max_len=4) -> Any:
    k = draw(st.integers(1, min(len(qubits), max_len)))
    qs = pick(draw, qubits, k)
    fs = [[draw(st.sampled_from(list(ops))), q] for q in qs]
    return fs[0] if k == 1 else ["kron", fs]


def hermitian(draw, qubits: list[int], cfg: Cfg, coef=("num",), ops=("X", "Y", "Z", "N", "I"), max_terms=4) -> Any:
    """Sum of real-weighted Pauli / number strings."""
    k = draw(st.integers(1, max_terms))
    terms = []
    for _ in range(k):
        t = pauli_string(draw, qubits, ops)
        if draw(st.booleans()):
            c = param(draw, cfg, coef, 1)
            t = ["scale", c, t]
        terms.append(t)
    out = terms[0] if k == 1 else ["add", terms]
    if draw(st.integers(0, 5)) == 0:
        out = ["scale", param(draw, cfg, coef, 1), out]
    return out


def block(draw, qubits: list[int], cfg: Cfg, depth: int | None = None) -> Any:
    depth = cfg.max_depth if depth is None else depth
    opts = ["leaf"]
    if depth > 0:
        opts += list(cfg.composites) * 2
        if cfg.add:
            opts += ["add"]
        if cfg.scale:
            opts += ["scale"]
    k = draw(st.sampled_from(opts))
    if k == "leaf":
        return leaf(draw, qubits, cfg)
    if k == "chain":
        m = draw(st.integers(1, cfg.max_children))
        return ["chain", [block(draw, qubits, cfg, depth - 1) for _ in range(m)]]
    if k == "add":
        m = draw(st.integers(1, 3))
        return ["add", [block(draw, qubits, cfg, depth - 1) for _ in range(m)]]
    if k == "scale":
        if cfg.complex_scale and draw(st.integers(0, 3)) == 0:
            p = ["c", value(draw, -2, 2), value(draw, -2, 2)]
        else:
            p = param(draw, cfg, cfg.scale_params, 1)
        return ["scale", p, block(draw, qubits, cfg, depth - 1)]
    # kron over a random partition (not necessarily of all qubits, in random order)
    if len(qubits) == 1:
        return ["kron", [block(draw, qubits, cfg, depth - 1)]]
    perm = list(draw(st.permutations(qubits)))
    g = draw(st.integers(1, min(len(perm), cfg.max_children)))
    cuts = sorted(draw(st.lists(st.integers(1, len(perm) - 1), min_size=g - 1, max_size=g - 1, unique=True))) if g > 1 else []
    parts = [perm[a:b] for a, b in zip([0] + cuts, cuts + [len(perm)])]
    return ["kron", [block(draw, sorted(p) if draw(st.booleans()) else p, cfg, depth - 1) for p in parts]]


def circuit(draw, qubits: list[int], cfg: Cfg, min_items=1, max_items=6) -> Any:
    m = draw(st.integers(min_items, max_items))
    items = [block(draw, qubits, cfg, draw(st.integers(0, cfg.max_depth))) for _ in range(m)]
    if cfg.hamevo and False:
        pass
    return ["chain", items]


def feature_values(draw, fnames: set[str], batch: int | None = None, lo=-4.0, hi=4.0) -> dict[str, list[float]]:
    out = {}
    for f in sorted(fnames):
        b = batch if batch is not None else 1
        if b > 1 and draw(st.integers(0, 5)) == 0:
            b = 1
        out[f] = [generic(draw, lo, hi) for _ in range(b)]
    return out


def envs(vv: dict[str, float], fv: dict[str, list[float]]) -> list[dict[str, float]]:
    b = max((len(v) for v in fv.values()), default=1)
    return [{**vv, **{k: (v[i] if len(v) > 1 else v[0]) for k, v in fv.items()}} for i in range(b)]


def tensors(fv: dict[str, list[float]]) -> dict:
    import torch

    return {k: torch.tensor(v, dtype=torch.float64) for k, v in fv.items()}


def state_vec(seed: int, n: int, batch: int = 1):
    import numpy as np

    r = np.random.RandomState(seed)
    v = r.normal(size=(batch, 2**n)) + 1j * r.normal(size=(batch, 2**n))
    return v / np.linalg.norm(v, axis=1, keepdims=True)
