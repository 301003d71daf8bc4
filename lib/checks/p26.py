"""P26 structural queries: what blocks and circuits report about themselves, against the operator and the expression tree they were built from."""
from __future__ import annotations

from collections import Counter

import numpy as np
from hypothesis import strategies as st

import gen as G
import spec as S
from harness import Facet, Skip
from oracle import arr, close, expect

RULE = ("distinct gate or tree with a spectrum of at least two different values (spectra), a tree of at least four nodes with a scale or "
        "a parameter (structure), at least two terms (predicates)")
ASSUMPTIONS = ["spectra are compared as multisets; they are taken at the numbers and initial values of the parameters",
               "the generator of a gate is the operator its own `generator` attribute denotes; for parametric gates its gaps are those of the textbook generator",
               "depth is compared for trees without scaled composites, for which it has no documented meaning",
               "identity and diagonality are sound predicates: 'true' means the operator is a multiple of the identity, and trees of identities are recognised",
               "commutation is decided between terms that are products of Pauli and number operators"]
PARAMS = ("num", "v", "expr")
NORMAL = G.UNITARY_GATES + ["N", "N0"]


def multiset(got, want, what, tol=1e-6):
    from scipy.optimize import linear_sum_assignment

    got, want = np.atleast_1d(arr(got)).ravel(), np.asarray(want).ravel()
    expect(got.shape == want.shape, f"{what}: {len(got)} eigenvalues {got}, expected {len(want)}: {want}")
    D = abs(got[:, None] - want[None, :])
    i, j = linear_sum_assignment(D)
    expect(D[i, j].max() <= tol, f"{what}: {np.sort_complex(got)}, expected {np.sort_complex(want)}")


# ---------------------------------------------------------------- spectra
@st.composite
def spectra_case(draw):
    n = draw(st.integers(1, 4))
    qs = draw(st.permutations(list(range(6))))[:n]
    cfg = G.Cfg(gates=NORMAL, params=PARAMS, scale_params=PARAMS, hamevo=True, hamevom=True, matrix=True, projector=True, add=True, scale=True, complex_scale=True, max_depth=2, max_children=3)
    k = draw(st.sampled_from(["leaf", "leaf", "leaf", "scaled", "tree"]))
    if k == "leaf":
        s = G.leaf(draw, qs, cfg)
    elif k == "scaled":
        s = ["scale", G.param(draw, cfg, PARAMS), G.leaf(draw, qs, cfg)]
    else:
        cfg.projector = cfg.matrix = False
        s = G.block(draw, qs, cfg, 2)
    return dict(s=s)


# gaps of the textbook generators, for n qubits
def gaps(kind, n):
    if kind in ("RX", "RY", "RZ"):
        return [-1, 1]
    if kind == "PHASE":
        return [0, 2]
    if kind in ("CPHASE", "MCPHASE"):
        return [0] * (2**n - 1) + [2]
    return [0] * (2**n - 2) + [-1, 1]


def run_spectra(case):
    import torch

    from qadence.blocks import AbstractBlock, MatrixBlock

    s = case["s"]
    if S.degenerate(s):
        raise Skip
    vv, _ = S.names(s)
    sup = S.support(s)
    M = S.submatrix_embed(s, vv, sup)
    tol = S.tol(s, [vv], 1e-6) * max(1.0, float(np.linalg.norm(M, 2)))
    if not np.allclose(M @ M.conj().T, M.conj().T @ M, atol=1e-9 * max(1.0, np.linalg.norm(M)) ** 2):
        if s[0] not in ("Projector", "Matrix"):
            raise Skip  # eigenvalues of defective operators are ill-conditioned
        tol = 1e-5 * max(1.0, float(np.linalg.norm(M, 2)))
    want = np.linalg.eigvals(M)
    b = S.build(s)
    multiset(b.eigenvalues, want, f"eigenvalues of {s}", tol)
    k = s[0]
    if k in S.ROT or k in S.CROT or k in S.MCROT:
        g = np.sort(arr(b.eigenvalues_generator).real)
        t = np.sort(np.array(gaps(k, len(sup)), float))
        got, exp = np.sort((g - g[0])), np.sort(t - t[0])
        alt = np.sort(t[-1] - t)
        expect(got.shape == exp.shape and (np.allclose(got, exp) or np.allclose(got, alt)), f"gaps of the generator of {s}: {got}, expected {exp}")
    if k == "Matrix":
        if s[1] == "unitary":
            multiset(np.exp(-1j * arr(b.eigenvalues_generator)), want, f"exponential of the spectrum of the generator of {s}", 1e-6)
        return dict(nontrivial=True)
    if k in ("N", "N0", "Projector"):
        try:
            b.eigenvalues_generator
        except ValueError:
            pass
        else:
            raise AssertionError(f"{s} has no generator, but reports the spectrum of one")
    elif k not in ("scale", "tag", *S.COMPOSITE):
        gen = b.generator
        if isinstance(gen, AbstractBlock):
            gm = arr(gen.tensor())[0]
        elif isinstance(gen, torch.Tensor):
            gm = arr(gen).reshape(arr(gen).shape[-2:])
        else:
            raise AssertionError(f"generator of {s} is {gen}")
        if k == "HamEvo":
            gm = S.submatrix_embed(s[1], vv, S.support(s[1]))
        scale = max(1.0, float(np.linalg.norm(gm, 2)))
        if not np.allclose(gm @ gm.conj().T, gm.conj().T @ gm, atol=1e-9 * scale**2):
            raise AssertionError(f"generator of {s} is not normal: {gm}")
        multiset(b.eigenvalues_generator, np.linalg.eigvals(gm), f"spectrum of the generator of {s}", 1e-6 * scale)
        if k not in ("U", "HamEvo", "HamEvoM", *S.ROT, *S.CROT, *S.MCROT):
            # a fixed gate is an evolution under its generator, up to a phase and for some time
            C = M @ gm_on(gen, sup) - gm_on(gen, sup) @ M
            expect(abs(C).max() < 1e-6, f"generator of {s} does not commute with the gate")
            mult = lambda v: sorted(Counter(np.round(v, 5)).values())
            expect(mult(np.linalg.eigvals(M) + 0.0) == mult(np.linalg.eigvals(gm).real + 0.0) or k == "I", f"degeneracies of the generator of {s} differ from those of the gate: {np.linalg.eigvals(gm)}")
    return dict(nontrivial=len(set(np.round(want, 6))) > 1)


def gm_on(gen, sup):
    from qadence.blocks import block_to_tensor

    return arr(block_to_tensor(gen, qubit_support=tuple(sup)))[0]


# ---------------------------------------------------------------- structure
@st.composite
def structure_case(draw):
    n = draw(st.integers(1, 5))
    qs = draw(st.permutations(list(range(n)) if draw(st.booleans()) else [0, 3, 7, 8, 9, 16, 17, 33]))[:n]
    cfg = G.Cfg(gates=NORMAL, hamevo=True, hamevom=True, matrix=True, projector=True, add=True, scale=True, max_depth=3, max_children=3, gen_params=("num", "v", "f"))

    def tagged(s, depth=0):
        # sprinkle tags over the tree, also below scales
        if s[0] in S.COMPOSITE:
            s = [s[0], [tagged(c, depth + 1) for c in s[1]]]
        elif s[0] == "scale":
            s = [s[0], s[1], tagged(s[2], depth + 1)]
        if draw(st.integers(0, 3)) == 0:
            s = ["tag", draw(st.sampled_from(["t1", "t2", "fm"])), s]
        return s

    t = G.block(draw, list(qs), cfg, 3)
    if draw(st.integers(0, 3)) == 0:  # an expression of many parameters
        e = ["v", "a", cfg.vvals.setdefault("a", 0.5)]
        for i, nm in enumerate(draw(st.permutations([*G.VNAMES[1:], *G.FNAMES]))[: draw(st.integers(2, 6))]):
            e = [draw(st.sampled_from(["+", "*"])), e, ["v", nm, cfg.vvals.setdefault(nm, 0.25 * i + 0.1)] if nm in G.VNAMES else ["f", nm]]
        t = draw(st.sampled_from([["chain", [t, ["RX", qs[0], e]]], ["scale", e, t], ["chain", [["PHASE", qs[0], e], t]]]))
    s = tagged(t)
    probe = G.leaf(draw, list(qs), cfg)
    return dict(s=s, probe=probe, extra=draw(st.integers(0, 2)))


def simplify(s):
    """The tree as built: factors of directly nested scales are merged into one, and a scale of a tagged block keeps the tag inside."""
    k = s[0]
    if k in S.COMPOSITE:
        return [k, [simplify(c) for c in s[1]]]
    if k == "tag":
        return [k, s[1], simplify(s[2])]
    if k == "HamEvo":
        return [k, simplify(s[1]), s[2]]
    if k == "scale":
        c = simplify(s[2])
        core = c
        while core[0] == "tag":
            core = core[2]
        if core[0] == "scale":  # the tag of the inner scale goes with it
            return [k, ["*", s[1], core[1]], core[2]]
        return [k, s[1], c]
    return s


def untag(s):
    while s[0] == "tag":
        s = s[2]
    return s


def nodes(s, gens=False):
    """(tag or None, node) pairs without tag wrappers, parents first; generators only on request."""
    t = None
    while s[0] == "tag":
        t = t or s[1]  # the outermost is assigned last
        s = s[2]
    yield t, s
    if s[0] == "HamEvo" and not gens:
        return
    for c in S.children(s):
        yield from nodes(c, gens)


def syms(p):
    e = S.pbuild(p)
    if not hasattr(e, "free_symbols"):
        return set()
    return {x.name for x in e.free_symbols}


def opname(s):
    return {"N0": "N", "Matrix": "MatrixBlock", "HamEvoM": "HamEvo", "chain": "ChainBlock", "kron": "KronBlock", "add": "AddBlock", "scale": "ScaleBlock"}.get(s[0], s[0])


def run_structure(case):
    from sympy import Array

    import qadence as q
    from qadence.blocks import ParametricBlock
    from qadence.blocks.utils import (expression_to_uuids, expressions, get_pauli_blocks, get_block_by_uuid, get_blocks_by_expression, has_duplicate_vparams, parameters,
                                      primitive_blocks, unique_parameters, uuid_to_block, uuid_to_expression)

    s = case["s"]
    if S.degenerate(s, case["probe"]):
        raise Skip
    r = simplify(s)
    if any(n[0] == "scale" and not isinstance(n[1], (int, float)) and not syms(n[1]) for _, n in nodes(r, True)):
        raise Skip
    b = S.build(s)
    sup = S.support(s)
    vv, ff = S.names(s)
    c = q.QuantumCircuit(max(sup) + 1 + case["extra"], b)
    expect(set(b.qubit_support) == set(sup) and len(b.qubit_support) == len(sup), f"support {b.qubit_support}, expected {sup}")
    if untag(r)[0] in S.COMPOSITE and max(sup) < 8:
        expect(tuple(b.qubit_support) == tuple(sup), f"support {b.qubit_support} is not ordered")
    expect(b.n_qubits == max(sup) + 1, f"n_qubits {b.n_qubits}, expected {max(sup) + 1}")
    expect(b.n_supports == len(sup), f"n_supports {b.n_supports}, expected {len(sup)}")
    expect(c.n_qubits == max(sup) + 1 + case["extra"], f"circuit has {c.n_qubits} qubits")
    top = untag(r)
    expect(len(b) == (len(top[1]) if top[0] in S.COMPOSITE else 1), f"length {len(b)}")
    if top[0] in S.COMPOSITE:
        kids = list(b)
        expect(len(kids) == len(top[1]) and all(k is b[i] for i, k in enumerate(kids)), "iteration and indexing disagree")
        for i, x in enumerate(top[1]):
            x = untag(x)
            expect(type(b[i]).__name__ == opname(x), f"child {i} is a {type(b[i]).__name__}, expected {opname(x)}")
            if not S.children(x):
                expect(tuple(b[i].qubit_support) == tuple(S.leaf_support(x)), f"child {i} acts on {b[i].qubit_support}, expected {S.leaf_support(x)}")
    # depth
    if not any(n[0] == "scale" and untag(n[2])[0] in ("scale", *S.COMPOSITE) for _, n in nodes(r)):
        def dep(x):
            x = untag(x)
            return 1 + max(dep(y) for y in x[1]) if x[0] in S.COMPOSITE else 1

        expect(b.depth == dep(r), f"depth {b.depth}, expected {dep(r)}")
    # gates, in order
    prim = [x for _, x in nodes(r) if x[0] not in S.COMPOSITE and x[0] != "scale"]
    got = primitive_blocks(b)
    expect([type(x).__name__ for x in got] == [opname(x) for x in prim], f"gates {[type(x).__name__ for x in got]}, expected {[opname(x) for x in prim]}")
    for x, y in zip(got, prim):
        w = S.support(y) if y[0] == "HamEvo" else S.leaf_support(y)
        expect(set(x.qubit_support) == set(w) if y[0] == "HamEvo" else tuple(x.qubit_support) == tuple(w), f"gate {y} acts on {x.qubit_support}")
    expect(not c.is_empty(), "a circuit with gates reports to be empty")
    pauli = [opname(x) for x in prim if x[0] in ("X", "Y", "Z", "I", "N", "N0")]
    gp = [type(x).__name__ for x in get_pauli_blocks(b)]
    expect(gp == pauli, f"Pauli gates {gp}, expected {pauli}")
    # parameters
    ps = [p for _, n in nodes(r, True) for p in S.own_params(n)]
    want = Counter()
    for p in ps:
        names = syms(p)
        want.update(names if names else ["#"])
    mats = sum(n[0] == "HamEvoM" for _, n in nodes(r, True))  # a matrix generator is listed as well
    if mats:
        want["@"] = mats

    def label(p):
        return "@" if isinstance(p, Array) else "#" if p.is_number else p.name

    # the parameters of a generator are listed with the evolution and with the generator
    once = not any(n[0] == "HamEvo" and (S.names(n[1])[0] or S.names(n[1])[1]) for _, n in nodes(r))
    have, circ = Counter(label(p) for p in parameters(b)), Counter(label(p) for p in c.parameters())
    if not once:
        have, circ, want = Counter(list(have)), Counter(list(circ)), Counter(list(want))
    expect(have == want, f"parameters {have}, expected {want}")
    expect(circ == want and c.num_parameters == len(c.parameters()), f"parameters of the circuit {circ} ({c.num_parameters}), expected {want}")
    uniq = sorted(p.name for p in unique_parameters(b))
    expect(uniq == sorted(set(vv) | ff), f"unique parameters {uniq}, expected {sorted(set(vv) | ff)}")
    expect(sorted(p.name for p in c.unique_parameters) == uniq and c.num_unique_parameters == len(uniq), "unique parameters of the circuit differ")
    for p in unique_parameters(b):
        expect(p.trainable == (p.name in vv), f"parameter {p.name} trainable={p.trainable}")
        if p.name in vv:
            expect(abs(float(p.value) - vv[p.name]) < 1e-9, f"parameter {p.name} has value {p.value}, expected {vv[p.name]}")
    expect(b.is_parametric == bool(uniq), f"is_parametric {b.is_parametric}, parameters {uniq}")
    expect(not b.is_time_dependent, "is_time_dependent")
    dup = any(want[n] > 1 for n in vv)
    if once:
        expect(has_duplicate_vparams(b) == dup, f"has_duplicate_vparams {has_duplicate_vparams(b)}, occurrences {want}")
    ub, ue = uuid_to_block(b), uuid_to_expression(b)
    expect((len(ub) == len(ps) + mats or not once) and ub.keys() == ue.keys(), f"{len(ub)} parameter identifiers, expected {len(ps) + mats}")
    env = {**vv, **{f: 0.37 + 0.1 * i for i, f in enumerate(sorted(ff))}}

    def val(e):
        return complex(e.xreplace({x: env[x.name] for x in e.free_symbols}))

    def near(x, y):
        return abs(x - y) <= 1e-6 * max(1.0, abs(y))

    left = [complex(S.peval(p, env)) for p in ps]
    for u, e in ue.items():
        if isinstance(e, Array):
            continue
        v = val(e)
        m = [i for i, w in enumerate(left) if near(v, w)]
        expect(m, f"expression {e} with value {v} does not occur in the block (left: {left})")
        if once:
            left.pop(m[0])
        expect(get_block_by_uuid(b, u) is ub[u] and u in list(ub[u].parameters.uuids()), "identifier belongs to another block")
    e2u = expression_to_uuids(b)
    expect(sorted(u for us in e2u.values() for u in us) == sorted(ue), "identifiers of the expressions differ")
    expect(set(expressions(b)) == set(e2u), "expressions differ")
    for e, us in e2u.items():
        bs = get_blocks_by_expression(b, e)
        expect([id(x) for x in bs] == [id(ub[u]) for u in us], f"blocks of expression {e} differ")
    # containment
    pairs = list(nodes(r))
    for name in sorted(set(vv) | ff) + ["zeta_absent"]:
        P = S.pbuild(["v", name, vv[name]]) if name in vv else S.pbuild(["f", name]) if name in ff else q.VariationalParameter(name, value=0.5)
        w = name in vv or name in ff
        if isinstance(b, ParametricBlock) or top[0] in S.COMPOSITE:
            expect((P in b) == w, f"parameter {name} in block: {P in b}, expected {w}")
        expect((P in c) == w, f"parameter {name} in circuit: {P in c}, expected {w}")
    if top[0] in S.COMPOSITE:
        kinds = {opname(x) for _, x in pairs[1:]}
        from qadence import blocks as QB

        for nm in ("X", "Z", "N", "RX", "PHASE", "CNOT", "SWAP", "CRX", "MCRZ", "HamEvo", "Toffoli", "Projector", "U", "MatrixBlock", "ChainBlock", "KronBlock", "AddBlock", "ScaleBlock"):
            T = getattr(q, nm, None) or getattr(QB, nm)
            expect((T in b) == (nm in kinds), f"{nm} in block: {T in b}, operations {sorted(kinds)}")
        # gates of the tree, and one gate that may not occur
        for x in prim[:3] + [case["probe"]]:
            w = x in prim
            g = S.build(x)
            if not w and any(x[0] == y[0] and S.support(x) == S.support(y) for y in prim):
                continue  # may be equal by value
            expect((g in b) == w, f"gate {x} in block: {g in b}, expected {w}")
            expect((g in c) == w, f"gate {x} in circuit: {g in c}, expected {w}")
    # trainable
    for x, y in zip(got, prim):
        if isinstance(x, ParametricBlock):
            w = any(n in vv for z in S.walk(y) for p in S.own_params(z) for n in syms(p))
            expect(x.trainable == w, f"gate {y} trainable={x.trainable}, expected {w}")
    # tags
    for t in ("t1", "t2", "fm", "none"):
        w = [x for tt, x in pairs if tt == t]
        g = c.get_blocks_by_tag(t)
        expect(len(g) == len(w) and [type(x).__name__ for x in g] == [opname(x) for x in w], f"blocks tagged {t}: {[type(x).__name__ for x in g]}, expected {[opname(x) for x in w]}")
        expect(all(x.tag == t for x in g), f"a block returned for tag {t} does not have it")
    return dict(nontrivial=len(pairs) >= 4 and (bool(uniq) or any(n[0] == "scale" for _, n in pairs)))


# ---------------------------------------------------------------- predicates
@st.composite
def predicates_case(draw):
    n = draw(st.integers(1, 5))
    qs = draw(st.permutations(list(range(7))))[:n]
    diag = draw(st.integers(0, 2)) == 0
    alphabet = ["Z", "I", "N"] if diag else draw(st.sampled_from([["X", "Y", "Z", "I", "N"], ["X", "Z"], ["X", "Y", "Z"], ["I"], ["Z", "X", "I"]]))
    terms = []
    for _ in range(draw(st.integers(1, 4))):
        t = G.pauli_string(draw, qs, alphabet)
        if "N" not in alphabet and draw(st.integers(0, 4)) == 0:
            t = ["chain", [t, G.pauli_string(draw, qs, alphabet)]]
        c = draw(st.sampled_from([None, 0.5, 2.0, 1.25, ["v", "a", 0.75]]))
        terms.append(t if c is None else ["scale", c, t])
    if len(terms) > 2 and draw(st.integers(0, 2)) == 0:  # a factor in front of some of the terms, which may have factors of their own
        terms = [terms[0], ["scale", draw(st.sampled_from([0.5, 3.0, ["v", "E", 1.25]])), ["add", terms[1:]]]]
    s = terms[0] if len(terms) == 1 else ["add", terms]
    if draw(st.integers(0, 4)) == 0:
        s = ["scale", draw(st.sampled_from([0.5, 2.5, ["v", "E", 1.25]])), s]
    odd = draw(st.sampled_from([None, None, "H", "RX", "CNOT", "S"]))
    return dict(s=s, odd=odd, where=draw(st.integers(0, 3)), mat=[draw(st.sampled_from(["unitary", "herm", "any"])), draw(st.integers(0, 99)), draw(st.integers(1, 3))])


def run_predicates(case):
    import torch

    from qadence.blocks import MatrixBlock
    from qadence.blocks.utils import block_is_commuting_hamiltonian, block_is_qubit_hamiltonian, unroll_block_with_scaling

    s = case["s"]
    sup = S.support(s)
    vv, _ = S.names(s)
    b = S.build(s)
    M = S.submatrix_embed(s, vv, sup)
    expect(block_is_qubit_hamiltonian(b), f"{s} consists of Pauli operators")

    def flat(x, f=1.0):
        if x[0] == "scale":
            yield from flat(x[2], f)
        elif x[0] == "add":
            for y in x[1]:
                yield from flat(y, f)
        else:
            yield x

    terms = list(flat(s))
    mats = [S.submatrix_embed(t, vv, sup) for t in terms]
    unit = [m / np.linalg.norm(m) if np.linalg.norm(m) > 0 else m for m in mats]
    nonzero = [u for u in unit if abs(u).max() > 1e-9]
    clash = any(abs(abs(np.vdot(x, y)) - 1) < 1e-6 or abs(np.vdot(x, y)) > 1e-6 for i, x in enumerate(nonzero) for y in nonzero[:i])
    want = all(abs(x @ y - y @ x).max() < 1e-9 for i, x in enumerate(nonzero) for y in nonzero[:i])
    if not clash and len(nonzero) == len(unit):  # terms that share strings may cancel
        got = block_is_commuting_hamiltonian(b)
        expect(got == want, f"commuting: {got}, expected {want} for {s}")
    leaves = [x[0] for x in S.walk(s) if not S.children(x)]
    expect(b.is_identity == (set(leaves) == {"I"}), f"is_identity {b.is_identity} for {s}")
    if b.is_identity:
        close(M, M[0, 0] * np.eye(len(M)), f"operator of {s}")
    diag = b._is_diag_pauli
    expect(diag == (set(leaves) <= {"Z", "I", "N"}) or "N" in leaves, f"diagonal {diag} for {s}")
    if diag:
        close(M, np.diag(np.diag(M)), f"operator of {s}")
    # terms with their factors
    total = np.zeros_like(M)
    lst = unroll_block_with_scaling(b)
    for blk, fac in lst:
        f = complex(fac.xreplace({x: vv[x.name] for x in fac.free_symbols}))
        total = total + f * gm_on(blk, sup)
    close(total, M, f"sum of the unrolled terms of {s}", 1e-6 * max(1.0, np.linalg.norm(M)))
    # one gate that is no Pauli operator anywhere makes it no Pauli operator
    if case["odd"]:
        g = [case["odd"], sup[0]]
        if case["odd"] == "RX":
            g.append(0.3)
        if case["odd"] == "CNOT":
            g.append(sup[0] + 20)
        new = [["add", [s, g]], ["chain", [g, s]], ["add", [["scale", 0.5, g], s]], ["scale", 2.0, ["add", [s, ["chain", [g]]]]]][case["where"]]
        nb = S.build(new)
        expect(not block_is_qubit_hamiltonian(nb), f"{new} does not consist of Pauli operators only")
        expect(not nb.is_identity and not nb._is_diag_pauli, f"{new} reported as identity or diagonal Pauli operator")
    kind, seed, k = case["mat"]
    A = S.seeded(kind, seed, k)
    t = torch.as_tensor(A)
    expect(MatrixBlock.is_square(t) and not MatrixBlock.is_square(t[:-1]), "is_square")
    expect(bool(MatrixBlock.is_hermitian(t)) == np.allclose(A, A.conj().T), f"is_hermitian of {kind} matrix")
    expect(bool(MatrixBlock.is_unitary(t)) == np.allclose(A @ A.conj().T, np.eye(len(A))), f"is_unitary of {kind} matrix")
    return dict(nontrivial=len(terms) >= 2)


# ------------------------------------------------------------------ what matrices are recognised as
@st.composite
def matrix_case(draw):
    return dict(kind=draw(st.sampled_from(["herm", "unitary", "any", "diag", "symm", "reflection", "phase", "rect", "real_orth"])), seed=draw(st.integers(0, 10**4)), k=draw(st.integers(1, 3)),
                off=draw(st.sampled_from([0.0, 0.0, 0.01, 0.3])))


def run_matrix(c):
    import torch
    from qadence.blocks import MatrixBlock

    r = np.random.RandomState(c["seed"])
    d = 2 ** c["k"]
    if c["kind"] == "symm":
        m = r.normal(size=(d, d)) + 1j * r.normal(size=(d, d))
        m = m + m.T
    elif c["kind"] == "reflection":
        v = S.seeded("unitary", c["seed"], c["k"])
        m = v @ np.diag(r.choice([-1.0, 1.0], d)) @ v.conj().T
    elif c["kind"] == "phase":
        m = np.diag(np.exp(1j * r.uniform(0, 6, d)))
    elif c["kind"] == "rect":
        m = np.eye(d, d + 1).astype(complex)
    elif c["kind"] == "real_orth":
        m = np.linalg.qr(r.normal(size=(d, d)))[0].astype(complex)
    else:
        m = S.seeded(c["kind"], c["seed"], c["k"])
    m = m.copy()
    m[0, -1] += c["off"] * 1j
    t = torch.as_tensor(m)
    square = m.shape[0] == m.shape[1]
    herm = square and np.max(np.abs(m - m.conj().T)) < 1e-9
    unit = square and np.max(np.abs(m @ m.conj().T - np.eye(len(m)))) < 1e-9
    for name, want in (("is_square", square), ("is_hermitian", herm), ("is_unitary", unit)):
        got = getattr(MatrixBlock, name)(t)
        expect(bool(got) == bool(want), f"{name} says {got} for a matrix of kind {c['kind']} (disturbed by {c['off']})")
    sup = tuple(range(c["k"]))
    for bad, why in ((sup + (9,), "too many qubits"), (sup, "not square") if not square else (sup[:-1] + (7, 8), "too many qubits")):
        try:
            MatrixBlock(t, bad)
        except (TypeError, ValueError):
            continue
        expect(False, f"a matrix of shape {m.shape} was accepted on {bad} ({why})")
    if square:
        b = MatrixBlock(t, sup)
        close(b.matrix, m, "matrix of the block", 1e-12)
        close(b.dagger().matrix, m.conj().T, "matrix of the adjoint", 1e-12)
        t[0, 0] += 1
        close(b.matrix, m - np.eye(len(m))[0][:, None] * np.eye(len(m))[0] if np.shares_memory(m, t.numpy()) else m, "the block's own copy of the matrix", 1e-12)
    return dict(nontrivial=c["k"] > 1 or herm or unit)


FACETS = [
    Facet("spectra", spectra_case, run_spectra, 1200, 12000, 2),
    Facet("structure", structure_case, run_structure, 900, 10000, 3),
    Facet("predicates", predicates_case, run_predicates, 700, 8000, 1),
    Facet("matrices", matrix_case, run_matrix, 200, 3000, 1),
]
