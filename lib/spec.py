"""JSON specification language for blocks: one text, two readings.

build(spec)  -> the qadence block, through the public constructors
mat(spec, env, n) -> its matrix by an independent numpy model (qubit 0 = most significant bit)
"""
from __future__ import annotations

import math
from typing import Any

import numpy as np
from scipy.linalg import expm

I2 = np.eye(2, dtype=complex)
X2 = np.array([[0, 1], [1, 0]], dtype=complex)
Y2 = np.array([[0, -1j], [1j, 0]], dtype=complex)
Z2 = np.array([[1, 0], [0, -1]], dtype=complex)
H2 = np.array([[1, 1], [1, -1]], dtype=complex) / math.sqrt(2)
S2 = np.diag([1, 1j]).astype(complex)
T2 = np.diag([1, np.exp(1j * math.pi / 4)]).astype(complex)
N2 = np.diag([0, 1]).astype(complex)
SW = np.array([[1, 0, 0, 0], [0, 0, 1, 0], [0, 1, 0, 0], [0, 0, 0, 1]], dtype=complex)

OPT = {"proj_T": False}  # True: model of known finding P02-projector-transposed
CONST1 = {"X": X2, "Y": Y2, "Z": Z2, "I": I2, "H": H2, "S": S2, "SDagger": S2.conj().T, "T": T2,
          "TDagger": T2.conj().T, "N": N2, "N0": I2 - N2, "Zero": np.zeros((2, 2), complex)}
ROT = ("RX", "RY", "RZ", "PHASE")
CROT = ("CRX", "CRY", "CRZ", "CPHASE")
MCROT = ("MCRX", "MCRY", "MCRZ", "MCPHASE")
HERM1 = ("X", "Y", "Z", "I", "N")


def rot(kind: str, t: complex) -> np.ndarray:
    if kind == "RX":
        return np.array([[np.cos(t / 2), -1j * np.sin(t / 2)], [-1j * np.sin(t / 2), np.cos(t / 2)]])
    if kind == "RY":
        return np.array([[np.cos(t / 2), -np.sin(t / 2)], [np.sin(t / 2), np.cos(t / 2)]], dtype=complex)
    if kind == "RZ":
        return np.diag([np.exp(-1j * t / 2), np.exp(1j * t / 2)])
    if kind == "PHASE":
        return np.diag([1.0, np.exp(1j * t)])
    raise KeyError(kind)


def u_gate(phi: float, theta: float, omega: float) -> np.ndarray:
    return rot("RZ", omega) @ rot("RY", theta) @ rot("RZ", phi)


def ctrl(U: np.ndarray, n_ctrl: int) -> np.ndarray:
    d = U.shape[0]
    D = d * 2**n_ctrl
    M = np.eye(D, dtype=complex)
    M[D - d:, D - d:] = U
    return M


def embed(U: np.ndarray, support: list[int], n: int) -> np.ndarray:
    """Operator U on the ordered qubits `support` of an n-qubit register."""
    k = len(support)
    T = U.reshape((2,) * (2 * k))
    full = np.eye(2**n, dtype=complex).reshape((2,) * n + (2**n,))
    out = np.tensordot(T, full, axes=(list(range(k, 2 * k)), list(support)))
    out = np.moveaxis(out, list(range(k)), list(support))
    return out.reshape(2**n, 2**n)


def apply(U: np.ndarray, support: list[int], psi: np.ndarray, n: int) -> np.ndarray:
    k = len(support)
    T = U.reshape((2,) * (2 * k))
    out = np.tensordot(T, psi.reshape((2,) * n), axes=(list(range(k, 2 * k)), list(support)))
    return np.moveaxis(out, list(range(k)), list(support)).reshape(-1)


# ---------------------------------------------------------------- parameters
def peval(p: Any, env: dict[str, float]) -> complex:
    if isinstance(p, (int, float)):
        return p
    op = p[0]
    if op == "v":
        return env.get(p[1], p[2])
    if op == "f":
        return env[p[1]]
    if op == "c":  # complex constant
        return complex(p[1], p[2])
    a = [peval(x, env) for x in p[1:]]
    if op == "+":
        return a[0] + a[1]
    if op == "-":
        return a[0] - a[1]
    if op == "*":
        return a[0] * a[1]
    if op == "/":
        return a[0] / a[1]
    if op == "sq":
        return a[0] ** 2
    if op == "sin":
        return np.sin(a[0])
    if op == "cos":
        return np.cos(a[0])
    if op == "exp":
        return np.exp(a[0])
    if op == "acos":
        return np.arccos(a[0])
    if op == "asin":
        return np.arcsin(a[0])
    if op == "tanh":
        return np.tanh(a[0])
    if op == "abs":
        return np.abs(a[0])
    if op == "sqrt":
        return np.sqrt(a[0])
    if op == "log":
        return np.log(a[0])
    if op == "tan":
        return np.tan(a[0])
    if op == "atan":
        return np.arctan(a[0])
    if op == "pow":
        return a[0] ** a[1]
    if op == "heav":
        return np.heaviside(a[0], 0.5)
    raise KeyError(op)


def pbuild(p: Any) -> Any:
    import sympy
    from qadence import FeatureParameter, VariationalParameter

    if isinstance(p, (int, float)):
        return p
    op = p[0]
    if op == "v":
        return VariationalParameter(p[1], value=p[2])
    if op == "f":
        return FeatureParameter(p[1])
    if op == "c":
        return complex(p[1], p[2])
    a = [pbuild(x) for x in p[1:]]
    if op == "+":
        return a[0] + a[1]
    if op == "-":
        return a[0] - a[1]
    if op == "*":
        return a[0] * a[1]
    if op == "/":
        return a[0] / a[1]
    if op == "sq":
        return a[0] ** 2
    if op == "pow":
        return a[0] ** a[1]
    fn = {"sin": sympy.sin, "cos": sympy.cos, "exp": sympy.exp, "acos": sympy.acos, "asin": sympy.asin,
          "tanh": sympy.tanh, "abs": sympy.Abs, "sqrt": sympy.sqrt,
          "log": sympy.log, "tan": sympy.tan, "atan": sympy.atan, "heav": sympy.Heaviside}[op]
    return fn(a[0])


def pnames(p: Any) -> tuple[dict[str, float], set[str]]:
    """-> ({variational name: init value}, {feature names})"""
    v: dict[str, float] = {}
    f: set[str] = set()

    def go(x: Any) -> None:
        if isinstance(x, (int, float)):
            return
        if x[0] == "v":
            v[x[1]] = x[2]
        elif x[0] == "f":
            f.add(x[1])
        elif x[0] == "c":
            return
        else:
            for y in x[1:]:
                go(y)

    go(p)
    return v, f


# ---------------------------------------------------------------- matrices from seeds
def seeded(kind: str, seed: int, k: int) -> np.ndarray:
    r = np.random.RandomState(seed)
    d = 2**k
    A = r.normal(size=(d, d)) + 1j * r.normal(size=(d, d))
    if kind == "herm":
        return (A + A.conj().T) / 4
    if kind == "unitary":
        return np.linalg.qr(A)[0]
    if kind == "diag":
        return np.diag(np.diag(A))
    return A / 2


# ---------------------------------------------------------------- structure
PARAM_LEAVES = ROT + CROT + MCROT + ("U",)


def leaf_support(s: Any) -> list[int]:
    k = s[0]
    if k in CONST1 or k in ROT or k == "U":
        return [s[1]]
    if k in ("CNOT", "CZ", "SWAP") or k in CROT:
        return [s[1], s[2]]
    if k in MCROT or k in ("MCZ", "Toffoli"):
        return list(s[1]) + [s[2]]
    if k == "CSWAP":
        return [s[1], s[2], s[3]]
    if k == "Projector":
        return list(s[3])
    if k in ("Matrix", "HamEvoM"):
        return list(s[3])
    raise KeyError(k)


COMPOSITE = ("chain", "kron", "add")


def children(s: Any) -> list:
    if s[0] in COMPOSITE:
        return s[1]
    if s[0] == "scale":
        return [s[2]]
    if s[0] == "HamEvo":
        return [s[1]]
    if s[0] == "tag":
        return [s[2]]
    return []


def support(s: Any) -> list[int]:
    out: set[int] = set()

    def go(x: Any) -> None:
        ch = children(x)
        if ch:
            for c in ch:
                go(c)
        else:
            out.update(leaf_support(x))

    go(s)
    return sorted(out)


def own_params(s: Any) -> list:
    k = s[0]
    if k in ROT:
        return [s[2]]
    if k == "U":
        return list(s[2:5])
    if k in CROT or k in MCROT:
        return [s[3]]
    if k == "scale":
        return [s[1]]
    if k == "HamEvo":
        return [s[2]]
    if k == "HamEvoM":
        return [s[4]]
    return []


def walk(s: Any):
    yield s
    for c in children(s):
        yield from walk(c)


def all_params(s: Any) -> list:
    return [p for x in walk(s) for p in own_params(x)]


def names(*specs: Any) -> tuple[dict[str, float], set[str]]:
    v: dict[str, float] = {}
    f: set[str] = set()
    for s in specs:
        for p in all_params(s):
            a, b = pnames(p)
            v.update(a)
            f |= b
    return v, f


def leaves(s: Any) -> list:
    return [x for x in walk(s) if not children(x)]


def depth(s: Any) -> int:
    ch = children(s)
    return 1 + max((depth(c) for c in ch), default=0)


def kinds(s: Any) -> set[str]:
    return {x[0] for x in walk(s)}


# ---------------------------------------------------------------- build
RECORD: list | None = None  # when a list, build() appends (spec, block) pairs


def build(s: Any) -> Any:
    b = _build(s)
    if RECORD is not None:
        RECORD.append((s, b))
    return b


def _build(s: Any) -> Any:
    import qadence as q
    import torch
    from qadence.blocks import MatrixBlock

    k = s[0]
    if k == "N0":
        return q.N(s[1], state="0")
    if k in CONST1:
        return getattr(q, k)(s[1])
    if k in ROT:
        return getattr(q, k)(s[1], pbuild(s[2]))
    if k == "U":
        return q.U(s[1], pbuild(s[2]), pbuild(s[3]), pbuild(s[4]))
    if k in ("CNOT", "CZ", "SWAP"):
        return getattr(q, k)(s[1], s[2])
    if k in CROT:
        return getattr(q, k)(s[1], s[2], pbuild(s[3]))
    if k in MCROT:
        return getattr(q, k)(tuple(s[1]), s[2], pbuild(s[3]))
    if k in ("MCZ", "Toffoli"):
        return getattr(q, k)(tuple(s[1]), s[2])
    if k == "CSWAP":
        return q.CSWAP(s[1], s[2], s[3])
    if k == "Projector":
        return q.Projector(ket=s[1], bra=s[2], qubit_support=tuple(s[3]))
    if k == "Matrix":
        return MatrixBlock(torch.as_tensor(seeded(s[1], s[2], len(s[3]))), tuple(s[3]))
    if k == "HamEvoM":
        return q.HamEvo(torch.as_tensor(seeded("herm", s[2], len(s[3]))), pbuild(s[4]), qubit_support=tuple(s[3]))
    if k == "HamEvo":
        return q.HamEvo(build(s[1]), pbuild(s[2]))
    if k == "chain":
        return q.chain(*[build(c) for c in s[1]])
    if k == "kron":
        return q.kron(*[build(c) for c in s[1]])
    if k == "add":
        return q.add(*[build(c) for c in s[1]])
    if k == "scale":
        return pbuild(s[1]) * build(s[2])
    if k == "tag":
        b = build(s[2])
        b.tag = s[1]
        return b
    raise KeyError(k)


# ---------------------------------------------------------------- reference
def leaf_matrix(s: Any, env: dict) -> np.ndarray:
    k = s[0]
    if k in CONST1:
        return CONST1[k]
    if k in ROT:
        return rot(k, peval(s[2], env))
    if k == "U":
        return u_gate(*[peval(p, env) for p in s[2:5]])
    if k == "CNOT":
        return ctrl(X2, 1)
    if k == "CZ":
        return ctrl(Z2, 1)
    if k == "SWAP":
        return SW
    if k in CROT:
        return ctrl(rot({"CRX": "RX", "CRY": "RY", "CRZ": "RZ", "CPHASE": "PHASE"}[k], peval(s[3], env)), 1)
    if k in MCROT:
        return ctrl(rot({"MCRX": "RX", "MCRY": "RY", "MCRZ": "RZ", "MCPHASE": "PHASE"}[k], peval(s[3], env)), len(s[1]))
    if k == "MCZ":
        return ctrl(Z2, len(s[1]))
    if k == "Toffoli":
        return ctrl(X2, len(s[1]))
    if k == "CSWAP":
        return ctrl(SW, 1)
    if k == "Projector":
        ket = np.zeros(2 ** len(s[1]), complex)
        ket[int(s[1], 2)] = 1
        bra = np.zeros(2 ** len(s[2]), complex)
        bra[int(s[2], 2)] = 1
        return np.outer(bra, ket) if OPT["proj_T"] else np.outer(ket, bra)
    if k == "Matrix":
        return seeded(s[1], s[2], len(s[3]))
    if k == "HamEvoM":
        return expm(-1j * peval(s[4], env) * seeded("herm", s[2], len(s[3])))
    raise KeyError(k)


def mat(s: Any, env: dict, n: int) -> np.ndarray:
    k = s[0]
    if k in ("chain", "kron"):
        M = np.eye(2**n, dtype=complex)
        for c in s[1]:
            M = mat(c, env, n) @ M
        return M
    if k == "add":
        return sum((mat(c, env, n) for c in s[1]), np.zeros((2**n, 2**n), complex))
    if k == "scale":
        return peval(s[1], env) * mat(s[2], env, n)
    if k == "HamEvo":
        return expm(-1j * peval(s[2], env) * mat(s[1], env, n))
    if k == "tag":
        return mat(s[2], env, n)
    return embed(leaf_matrix(s, env), leaf_support(s), n)


def reverse_bits_perm(n: int) -> np.ndarray:
    return np.array([int(format(i, f"0{n}b")[::-1], 2) if n else 0 for i in range(2**n)])


def submatrix_embed(s: Any, env: dict, sup: list[int]) -> np.ndarray:
    """Matrix of spec s on the ordered qubit list `sup` (must contain its support)."""
    idx = {q: i for i, q in enumerate(sup)}
    return mat(relabel(s, idx), env, len(sup))


def relabel(s: Any, m: dict[int, int]) -> Any:
    k = s[0]
    r = list(s)
    if k in COMPOSITE:
        return [k, [relabel(c, m) for c in s[1]]]
    if k in ("scale", "tag"):
        return [k, s[1], relabel(s[2], m)]
    if k == "HamEvo":
        return [k, relabel(s[1], m), s[2]]
    if k in CONST1 or k in ROT or k == "U":
        r[1] = m[s[1]]
    elif k in ("CNOT", "CZ", "SWAP") or k in CROT:
        r[1], r[2] = m[s[1]], m[s[2]]
    elif k in MCROT or k in ("MCZ", "Toffoli"):
        r[1], r[2] = [m[x] for x in s[1]], m[s[2]]
    elif k == "CSWAP":
        r[1], r[2], r[3] = m[s[1]], m[s[2]], m[s[3]]
    elif k in ("Projector", "Matrix", "HamEvoM"):
        r[3] = [m[x] for x in s[3]]
    else:
        raise KeyError(k)
    return r


def substitute(s: Any, env: dict) -> Any:
    """Copy with every parameter replaced by its numeric value."""
    def val(p):
        v = peval(p, env)
        return float(v.real) if abs(np.imag(v)) < 1e-300 else ["c", float(v.real), float(v.imag)]

    k = s[0]
    r = list(s)
    if k in COMPOSITE:
        return [k, [substitute(c, env) for c in s[1]]]
    if k == "scale":
        return [k, val(s[1]), substitute(s[2], env)]
    if k == "tag":
        return [k, s[1], substitute(s[2], env)]
    if k == "HamEvo":
        return [k, substitute(s[1], env), val(s[2])]
    if k in ROT:
        r[2] = val(s[2])
    elif k == "U":
        r[2:5] = [val(p) for p in s[2:5]]
    elif k in CROT or k in MCROT:
        r[3] = val(s[3])
    elif k == "HamEvoM":
        r[4] = val(s[4])
    return r


def pmag(p: Any, env: dict) -> float:
    if isinstance(p, (int, float)):
        return abs(p)
    m = float(np.abs(peval(p, env)))
    if p[0] not in ("v", "f", "c"):
        m = max([m] + [pmag(x, env) for x in p[1:]])
        if p[0] == "sq":
            m = max(m, 2 * pmag(p[1], env) ** 2)
        if p[0] == "*":
            m = max(m, pmag(p[1], env) * pmag(p[2], env))
        if p[0] == "exp":
            m *= 3
    return m


def gen_norm(s: Any, env: dict) -> float:
    k = s[0]
    if k == "add":
        return sum(gen_norm(c, env) for c in s[1])
    if k in ("chain", "kron"):
        r = 1.0
        for c in s[1]:
            r *= gen_norm(c, env)
        return r
    if k == "scale":
        return pmag(s[1], env) * gen_norm(s[2], env)
    if k == "Matrix":
        return float(np.linalg.norm(seeded(s[1], s[2], len(s[3])), 2))
    return 1.0


def sens(s: Any, env: dict) -> float:
    """How strongly single-precision rounding of parameters can move the result (absolute, per 6e-8)."""
    k = s[0]
    if k in COMPOSITE:
        return sum(sens(c, env) for c in s[1])
    if k == "scale":
        return 2 + pmag(s[1], env) + sens(s[2], env)
    if k == "tag":
        return sens(s[2], env)
    if k == "HamEvo":
        return (1 + pmag(s[2], env)) * (1 + gen_norm(s[1], env)) * 2
    if k == "HamEvoM":
        return (1 + pmag(s[4], env)) * 2 ** len(s[3]) * 2
    return sum(pmag(p, env) for p in own_params(s))


def tol(s: Any, envs: list, base: float = 1e-5) -> float:
    return base + 4e-7 * max(sens(s, e) for e in envs)


def opbound(s: Any, env: dict) -> float:
    """Upper bound on the operator norm of every partial evaluation."""
    k = s[0]
    if k == "add":
        return sum(opbound(c, env) for c in s[1])
    if k in ("chain", "kron"):
        r = 1.0
        for c in s[1]:
            r *= max(1.0, opbound(c, env))
        return r
    if k == "scale":
        return pmag(s[1], env) * opbound(s[2], env)
    if k == "tag":
        return opbound(s[2], env)
    if k == "Matrix":
        return gen_norm(s, env)
    return 1.0


def degenerate(*specs: Any) -> bool:
    """True when sympy simplifies a parameter away (e.g. x - x), so its batch size is undefined."""
    for s in specs:
        for x in walk(s):
            if x[0] == "scale" and (x[1] == 0 or x[1] == ["c", 0.0, 0.0]) and any(names(s)):
                return True
        for p in all_params(s):
            if isinstance(p, (int, float)):
                continue
            v, f = pnames(p)
            e = pbuild(p)
            got = {x.name for x in getattr(e, "free_symbols", set())}
            if got != set(v) | f:
                return True
    return False
