"""Comparison helpers."""
from __future__ import annotations

import numpy as np

from harness import Violation

TOL = 2e-5


def arr(x):
    if hasattr(x, "detach"):
        x = x.detach().cpu().resolve_conj().resolve_neg()
        if x.is_sparse or x.layout.__str__() == "torch.sparse_csr":
            x = x.to_dense()
        return x.numpy()
    return np.asarray(x)


def close(got, want, what: str, tol: float = TOL, scale: float | None = None) -> None:
    g, w = arr(got), np.asarray(want)
    if g.shape != w.shape:
        raise Violation(f"{what}: shape {g.shape} expected {w.shape}")
    if w.size == 0:
        return
    sc = max(1.0, float(np.max(np.abs(w)))) if scale is None else scale
    if not np.all(np.isfinite(g)):
        raise Violation(f"{what}: non-finite result {g!r}")
    d = float(np.max(np.abs(g - w)))
    if not d <= tol * sc:
        i = np.unravel_index(int(np.argmax(np.abs(g - w))), w.shape)
        raise Violation(f"{what}: differs by {d:.3g} at {tuple(int(k) for k in i)}: got {g[i]!r}, expected {w[i]!r}")


def expect(cond, what: str) -> None:
    if not cond:
        raise Violation(what)
