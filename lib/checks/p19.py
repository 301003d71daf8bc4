"""P19 state constructors, state quantities and conversions."""
from __future__ import annotations

import math

import numpy as np
from hypothesis import strategies as st

import gen as G
import spec as S
from harness import Facet, Violation
from oracle import arr, close, expect

RULE = "distinct input with at least two qubits (conversions: at least two bits)"
ASSUMPTIONS = ["qubit 0 is the most significant bit in the big-endian convention", "von Neumann entropy uses a documented cut-off of 1e-12 (tolerance 1e-8)"]


# ------------------------------------------------------------------ constructors
def strat_make():
    @st.composite
    def s(draw):
        n = draw(st.integers(1, 7))
        return dict(n=n, batch=draw(st.integers(1, 4)), seed=draw(st.integers(0, 10**6)),
                    bits=["".join(draw(st.lists(st.sampled_from("01"), min_size=n, max_size=n))) for _ in range(draw(st.integers(1, 4)))],
                    little=draw(st.booleans()), kind=draw(st.sampled_from(["uniform", "zero", "one", "product", "product_list", "rand_product", "ghz", "haar_fast", "haar_slow", "rotations", "rand_block", "bitstring"])))
    return s()


def seeds(k):
    import random

    import torch

    torch.manual_seed(k)
    random.seed(k)
    np.random.seed(k)


def runb(b):
    from qadence import QuantumCircuit, run

    return arr(run(b))


def normal(x, what):
    close((np.abs(arr(x)) ** 2).sum(-1), np.ones(arr(x).shape[0]), what + ": squared norm", tol=1e-12)


def basis(n, k):
    v = np.zeros((1, 2**n), dtype=complex)
    v[0, k] = 1
    return v


def check_make(c):
    import qadence as Q
    import qadence.states as QS
    from qadence.types import Endianness, StateGeneratorType

    n, b, kind = c["n"], c["batch"], c["kind"]
    seeds(c["seed"])
    T = 1e-12
    ghz = (basis(n, 0) + basis(n, 2**n - 1)) / math.sqrt(2)
    uni = np.full((1, 2**n), 2 ** (-n / 2), dtype=complex)
    fixed = dict(uniform=(QS.uniform_state, QS.uniform_block, uni), zero=(QS.zero_state, QS.zero_block, basis(n, 0)),
                 one=(QS.one_state, QS.one_block, basis(n, 2**n - 1)), ghz=(QS.ghz_state, QS.ghz_block, ghz))
    if kind in fixed:
        f, blk, want = fixed[kind]
        close(f(n), want, f"{kind}_state({n})", tol=T)
        got = f(n, b)
        close(got, np.repeat(want, b, 0), f"{kind}_state({n}, {b})", tol=T)
        close(f(n, batch_size=b), np.repeat(want, b, 0), f"{kind}_state({n}, batch_size={b})", tol=T)
        blk = blk(n)
        expect(tuple(blk.qubit_support) == tuple(range(n)), f"{kind}_block({n}) acts on {blk.qubit_support}")
        close(runb(blk), want, f"run({kind}_block({n}))", tol=1e-9)
        expect(QS.is_normalized(got), f"{kind}_state is reported as not normalised")
    elif kind == "product":
        for s in c["bits"]:
            k = int(s, 2)
            close(QS.product_state(s), basis(n, k), f"product_state({s})", tol=T)
            kl = int(s[::-1], 2)
            close(QS.product_state(s, endianness=Endianness.LITTLE), basis(n, kl), f"product_state({s}, little)", tol=T)
            close(np.asarray(QS.product_state(s, backend="horqrux")).reshape(1, -1), basis(n, k), f"product_state({s}, horqrux)", tol=1e-6)
            close(runb(QS.product_block(s)), basis(n, k), f"run(product_block({s}))", tol=1e-9)
            expect(tuple(QS.product_block(s).qubit_support) == tuple(range(n)), f"product_block({s}) acts on {QS.product_block(s).qubit_support}")
    elif kind == "product_list":
        close(QS.product_state(c["bits"]), np.concatenate([basis(n, int(s, 2)) for s in c["bits"]]), f"product_state({c['bits']})", tol=T)
    elif kind == "rand_product":
        got = arr(QS.rand_product_state(n, b))
        expect(got.shape == (b, 2**n), f"rand_product_state({n},{b}) has shape {got.shape}")
        for r in got:
            expect(np.count_nonzero(r) == 1 and r[np.argmax(np.abs(r))] == 1, f"rand_product_state row {r} is not a basis state")
        # every qubit takes both values over many draws (false-alarm probability 2 n 2^-120)
        many = arr(QS.rand_product_state(n, 120)).argmax(1)
        for q in range(n):
            bitv = {(int(k) >> (n - 1 - q)) & 1 for k in many}
            expect(bitv == {0, 1}, f"rand_product_state never changes qubit {q} in 120 draws")
    elif kind in ("haar_fast", "haar_slow", "rotations"):
        typ = dict(haar_fast=StateGeneratorType.HAAR_MEASURE_FAST, haar_slow=StateGeneratorType.HAAR_MEASURE_SLOW, rotations=StateGeneratorType.RANDOM_ROTATIONS)[kind]
        m = min(n, 5) if kind == "haar_slow" else n
        got = QS.random_state(m, b, type=typ)
        expect(arr(got).shape == (b, 2**m), f"random_state({m},{b},{typ}) has shape {arr(got).shape}")
        normal(got, f"random_state({m},{b},{typ})")
        if b > 1 and kind != "rotations":
            for i in range(b):
                for j in range(i):
                    expect(abs(np.vdot(arr(got)[i], arr(got)[j])) < 1 - 1e-9, f"rows {i} and {j} of a random batch are the same state")
        seeds(c["seed"])
        close(QS.random_state(m, b, type=typ), arr(got), "random_state with the same seed", tol=0)
        if kind == "rotations":
            # a product state: every single-qubit reduced state is pure
            for r in arr(got):
                for q in range(m):
                    t = np.moveaxis(r.reshape([2] * m), q, 0).reshape(2, -1)
                    rho = t @ t.conj().T
                    close(np.trace(rho @ rho).real, 1.0, "purity of a qubit after random rotations", tol=1e-9)
    elif kind == "rand_block":
        blk = QS.rand_product_block(n)
        r = runb(blk)
        expect(np.count_nonzero(np.abs(r) > 1e-9) == 1, "rand_product_block does not prepare a basis state")
        expect(tuple(blk.qubit_support) == tuple(range(n)), f"rand_product_block({n}) acts on {blk.qubit_support}")
    else:
        s = QS.rand_bitstring(n)
        expect(isinstance(s, str) and len(s) == n and set(s) <= {"0", "1"}, f"rand_bitstring({n}) = {s!r}")
        cols = list(zip(*[QS.rand_bitstring(n) for _ in range(120)]))
        expect(all(set(x) == {"0", "1"} for x in cols), "rand_bitstring keeps one position constant over 120 draws")
    return dict(nontrivial=n >= 2)


# ------------------------------------------------------------------ quantities
def mixed(seed, n, rank, batch):
    rng = np.random.default_rng(seed)
    out = []
    for _ in range(batch):
        A = rng.normal(size=(2**n, rank)) + 1j * rng.normal(size=(2**n, rank))
        A *= np.sqrt(rng.uniform(0.05, 1, size=rank))
        r = A @ A.conj().T
        out.append(r / np.trace(r).real)
    return np.array(out)


def strat_qty():
    @st.composite
    def s(draw):
        n = draw(st.integers(1, 4))
        return dict(n=n, batch=draw(st.integers(1, 3)), seed=draw(st.integers(0, 10**6)), seed2=draw(st.integers(0, 10**6)),
                    rank=draw(st.integers(1, 2**n)), rank2=draw(st.integers(1, 2**n)),
                    keep=draw(st.permutations(range(n)))[: draw(st.integers(1, n))], order=draw(st.integers(1, 5)),
                    scale=G.value(draw, 0.25, 4.0), phase=G.value(draw), same=draw(st.integers(0, 3)))
    return s()


def sqrtm(r):
    w, v = np.linalg.eigh(r)
    return (v * np.sqrt(np.clip(w, 0, None))) @ v.conj().T


def check_qty(c):
    import torch

    import qadence.states as QS
    from pyqtorch.utils import DensityMatrix

    n, b = c["n"], c["batch"]
    psi = np.asarray(G.state_vec(c["seed"], n, b))
    phi = np.asarray(G.state_vec(c["seed2"], n, b))
    tp, tf = torch.tensor(psi), torch.tensor(phi)
    # density matrices
    dm = QS.density_mat(tp)
    close(dm, np.einsum("bi,bj->bij", psi, psi.conj()), "density_mat", tol=1e-12)
    expect(isinstance(dm, DensityMatrix), "density_mat does not return a DensityMatrix")
    close(QS.density_mat(dm), arr(dm), "density_mat of a density matrix", tol=0)
    # norms
    raw = psi * c["scale"]
    close(QS.normalize(torch.tensor(raw)), psi / np.linalg.norm(psi, axis=1, keepdims=True), "normalize", tol=1e-12)
    close(QS.normalize(torch.tensor(raw[0])), psi[0] / np.linalg.norm(psi[0]), "normalize of one vector", tol=1e-12)
    expect(QS.is_normalized(tp, atol=1e-10), "is_normalized rejects a normalised batch")
    expect(QS.is_normalized(tp[0], atol=1e-10), "is_normalized rejects a normalised vector")
    bad = psi.copy()
    bad[-1] *= 1.001
    expect(not QS.is_normalized(torch.tensor(bad), atol=1e-6), "is_normalized accepts a batch with one unnormalised state")
    close(QS.pmf(tp).probs, np.abs(psi) ** 2, "pmf", tol=1e-9)
    # overlap of states
    want = np.abs((psi.conj() * phi).sum(1)) ** 2
    close(QS.overlap(tp, tf), want, "overlap of state batches", tol=1e-9)
    close(QS.overlap(tp[:1], tf), np.abs((psi[:1].conj() * phi).sum(1)) ** 2, "overlap of one state with a batch", tol=1e-9)
    ph = psi * np.exp(1j * c["phase"])
    if True:
        expect(QS.equivalent_state(tp, torch.tensor(ph), atol=1e-9), "equivalent_state rejects a global phase")
        if want.min() < 0.999:
            expect(not QS.equivalent_state(tp, tf, atol=1e-9), "equivalent_state accepts different states")
    # mixed states
    rho, sig = mixed(c["seed"], n, c["rank"], b), mixed(c["seed2"], n, c["rank2"], b)
    if c["same"] == 0:
        sig = rho.copy()
    if c["same"] == 1:
        rho = np.einsum("bi,bj->bij", psi, psi.conj())
    R, Sg = DensityMatrix(torch.tensor(rho)), DensityMatrix(torch.tensor(sig))
    keepR = rho.copy()
    close(QS.purity(R), np.array([np.trace(r @ r).real for r in rho]), "purity", tol=1e-10)
    close(QS.purity(R, c["order"]), np.array([np.trace(np.linalg.matrix_power(r, c["order"])).real for r in rho]), f"purity of order {c['order']}", tol=1e-10)

    def ent(r):
        w = np.linalg.eigvalsh(r)
        w = w[w > 1e-13]
        return float(-(w * np.log2(w)).sum())
    close(QS.von_neumann_entropy(R), np.array([ent(r) for r in rho]), "von_neumann_entropy", tol=1e-8)
    fid = np.array([np.sqrt(np.clip(np.linalg.eigvalsh(sqrtm(r) @ s_ @ sqrtm(r)), 0, None)).sum() for r, s_ in zip(rho, sig)])
    close(QS.fidelity(R, Sg), fid, "fidelity", tol=1e-6)
    close(QS.fidelity(Sg, R), fid, "fidelity is not symmetric", tol=1e-6)
    if c["same"] == 1:
        close(QS.fidelity(R, QS.density_mat(tf)), np.abs((psi.conj() * phi).sum(1)), "fidelity of pure states", tol=1e-6)
    # partial trace
    keep = list(c["keep"])
    rest = [q for q in range(n) if q not in keep]
    pt = []
    for r in rho:
        t = r.reshape([2] * (2 * n)).transpose(keep + rest + [n + q for q in keep + rest])
        t = t.reshape(2 ** len(keep), 2 ** len(rest), 2 ** len(keep), 2 ** len(rest))
        pt.append(np.einsum("ajbj->ab", t))
    close(QS.partial_trace(R, keep), np.array(pt), f"partial_trace keeping {keep}", tol=1e-10)
    close(R, keepR, "a state quantity changed its argument", tol=0)
    close(tp, psi, "a state quantity changed the state vector", tol=0)
    return dict(nontrivial=n >= 2)


# ------------------------------------------------------------------ conversions
def strat_conv():
    @st.composite
    def s(draw):
        n = draw(st.integers(1, 12))
        return dict(n=n, k=draw(st.integers(0, 2**n - 1)), extra=draw(st.integers(0, 4)),
                    samples={"".join(draw(st.lists(st.sampled_from("01"), min_size=n, max_size=n))): draw(st.integers(1, 50)) for _ in range(draw(st.integers(1, 5)))},
                    m=draw(st.integers(1, 5)), seed=draw(st.integers(0, 10**6)), batch=draw(st.integers(1, 3)),
                    state=draw(st.sampled_from("01")), target=draw(st.integers(0, 5)))
    return s()


def check_conv(c):
    from collections import Counter

    import torch

    from qadence.transpile import invert_endianness
    from qadence.types import Endianness, ResultType
    from qadence.utils import P0, P1, basis_to_int, int_to_basis, isclose, nqubits_to_basis, one_qubit_projector, one_qubit_projector_matrix, samples_to_integers

    B, L = Endianness.BIG, Endianness.LITTLE
    n, k = c["n"], c["k"]
    for e, f in ((B, lambda s: s), (L, lambda s: s[::-1])):
        want = f(format(k, f"0{n}b"))
        got = int_to_basis(k, n, e)
        expect(got == want, f"int_to_basis({k}, {n}, {e}) = {got}")
        expect(basis_to_int(got, e) == k, f"basis_to_int({got}, {e}) = {basis_to_int(got, e)}, expected {k}")
        short = int_to_basis(k, None, e)
        expect(short == f(format(k, "b")), f"int_to_basis({k}, None, {e}) = {short}")
        wide = int_to_basis(k, n + c["extra"], e)
        expect(len(wide) == n + c["extra"] and basis_to_int(wide, e) == k, f"int_to_basis({k}, {n + c['extra']}, {e}) = {wide}")
        m = c["m"]
        strings = [f(format(i, f"0{m}b")) for i in range(2**m)]
        expect(nqubits_to_basis(m, endianness=e) == strings, f"nqubits_to_basis({m}, {e})")
        bits = np.array([[int(x) for x in s] for s in strings])
        t = nqubits_to_basis(m, ResultType.TORCH, e)
        expect(isinstance(t, torch.Tensor), "torch basis is not a tensor")
        close(t, bits, "torch basis", tol=0)
        a = nqubits_to_basis(m, ResultType.NUMPY, e)
        expect(isinstance(a, np.ndarray), "numpy basis is not an array")
        close(a, bits, "numpy basis", tol=0)
        cnt = Counter(c["samples"])
        got = samples_to_integers(cnt, e)
        expect(got == Counter({int(f(s), 2): v for s, v in c["samples"].items()}), f"samples_to_integers({cnt}, {e}) = {got}")
        expect(cnt == Counter(c["samples"]), "samples_to_integers changed its argument")
    expect(int_to_basis(k, n) == int_to_basis(k, n, B) and basis_to_int(format(k, "b")) == k, "big endian is not the default")
    try:
        r = int_to_basis(2**n + c["extra"], n)
    except (AssertionError, ValueError):
        pass
    else:
        raise Violation(f"int_to_basis accepts {2**n + c['extra']} on {n} bits: {r}")
    # orderings of states, matrices and counters
    m = c["m"]
    psi = np.asarray(G.state_vec(c["seed"], m, c["batch"]))
    perm = [int(format(i, f"0{m}b")[::-1], 2) for i in range(2**m)]
    t = torch.tensor(psi)
    inv = invert_endianness(t)
    close(inv, psi[:, perm], "invert_endianness of states", tol=0)
    close(invert_endianness(inv), psi, "invert_endianness twice", tol=0)
    close(t, psi, "invert_endianness changed its argument", tol=0)
    cs = [Counter(c["samples"])]
    ci = invert_endianness(cs)
    expect(ci == [Counter({s[::-1]: v for s, v in c["samples"].items()})], f"invert_endianness({cs}) = {ci}")
    expect(invert_endianness(ci) == cs, "invert_endianness of samples twice")
    # projectors
    v = np.array([[1, 0]] if c["state"] == "0" else [[0, 1]])
    close(one_qubit_projector_matrix(c["state"]), v.T @ v, "one_qubit_projector_matrix", tol=0)
    pr = one_qubit_projector(c["state"], c["target"])
    expect(tuple(pr.qubit_support) == (c["target"],), f"projector acts on {pr.qubit_support}")
    close(pr.tensor()[0], v.T @ v, "one_qubit_projector", tol=0)
    close((P0 if c["state"] == "0" else P1)(c["target"]).tensor()[0], v.T @ v, "P0/P1", tol=0)
    x = (k + 1) / 7
    expect(isclose(x, x * (1 + 1e-7)) and not isclose(x, x * 1.01) and isclose(complex(x, 1), complex(x, 1)) and not isclose(complex(x, 1), complex(x, 1.1 + x)), "isclose")
    return dict(nontrivial=n >= 2)


FACETS = [
    Facet("constructors", strat_make, check_make, 400, 8000, 2),
    Facet("quantities", strat_qty, check_qty, 400, 8000, 2),
    Facet("conversions", strat_conv, check_conv, 500, 10000, 1),
]
