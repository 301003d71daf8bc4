"""P07 circuit transformations preserve the operator."""
from __future__ import annotations

import json

import numpy as np
from hypothesis import strategies as st

import gen as G
import spec as S
from harness import Facet, Skip
from oracle import arr, close, expect

RULE = "distinct case in which the transformation returned a structurally different tree"
ASSUMPTIONS = ["dense numpy reference", "digitalize on commuting generators only (approximation orders are P15)"]


def desc(b) -> str:
    """structural description including tags and parameters, independent of ids."""
    from qadence.blocks import AbstractBlock

    out = [type(b).__name__, str(b.tag), str(tuple(b.qubit_support))]
    if hasattr(b, "parameters") and hasattr(b.parameters, "expressions"):
        out.append(str([str(e) for e in b.parameters.expressions()]))
        out.append(str([(s.name, s.value if s.trainable else None, s.trainable) for e in b.parameters.expressions() for s in sorted(getattr(e, "free_symbols", []), key=str)]))
    g = getattr(b, "generator", None) if type(b).__name__ == "HamEvo" else None
    if isinstance(g, AbstractBlock):
        out.append(desc(g))
    for a in ("ket", "bra"):
        if hasattr(b, a):
            out.append(getattr(b, a))
    if hasattr(b, "matrix") and hasattr(b.matrix, "sum"):
        out.append(str(arr(b.matrix).tobytes().hex()[:200]))
    if hasattr(b, "block") and isinstance(b.block, AbstractBlock):
        out.append(desc(b.block))
    for c in getattr(b, "blocks", ()) or ():
        out.append(desc(c))
    return "(" + " ".join(out) + ")"


def params_of(b):
    from qadence.blocks.utils import unique_parameters

    return sorted((p.name, float(p.value) if p.trainable else None, bool(p.trainable)) for p in {s for s in unique_parameters(b)})


def zero_time(s) -> bool:
    return any(k[0] == "HamEvo" and isinstance(k[2], (int, float)) and k[2] == 0 for k in S.walk(s))


TF = ["flatten", "flatten_some", "scale", "chain_ops", "fill", "digitalize", "reassign", "invert", "invert2", "apply_id"]


def draw_tf(draw, n):
    t = draw(st.sampled_from(TF))
    if t == "flatten_some":
        return [t, draw(st.lists(st.sampled_from(["ChainBlock", "KronBlock", "AddBlock"]), min_size=1, max_size=3, unique=True))]
    if t == "reassign":
        return [t, draw(st.permutations(list(range(n))))]
    return [t]


@st.composite
def commuting(draw, qubits, cfg):
    """Z-type generators, or one Pauli string scaled."""
    if draw(st.booleans()):
        return G.hermitian(draw, qubits, cfg, cfg.gen_params, ops=("Z", "N", "I"), max_terms=3)
    t = G.pauli_string(draw, qubits, ("X", "Y", "Z"))
    return ["scale", G.param(draw, cfg, cfg.gen_params, 1), t] if draw(st.booleans()) else t


def with_commuting(draw, s, cfg):
    k = s[0]
    if k in S.COMPOSITE:
        return [k, [with_commuting(draw, c, cfg) for c in s[1]]]
    if k in ("scale", "tag"):
        return [k, s[1], with_commuting(draw, s[2], cfg)]
    if k == "HamEvo":
        return [k, draw(commuting(S.support(s[1]), cfg)), s[2]]
    return s


def add_tags(draw, s, depth=0):
    k = s[0]
    if k in S.COMPOSITE:
        r = [k, [add_tags(draw, c, depth + 1) for c in s[1]]]
    elif k == "scale":
        r = [k, s[1], add_tags(draw, s[2], depth + 1)]
    else:
        r = s
    return ["tag", f"t{depth}", r] if draw(st.integers(0, 5)) == 0 else r


def nested(draw, kind, qubits, cfg, depth):
    """Composites of one kind nested in each other, directly or below a factor: what flattening and scale propagation rewrite."""
    m = draw(st.integers(2, 3))
    if kind == "kron":
        perm = list(draw(st.permutations(qubits)))
        m = min(m, len(perm))
        cuts = sorted(draw(st.lists(st.integers(1, len(perm) - 1), min_size=m - 1, max_size=m - 1, unique=True))) if m > 1 else []
        parts = [perm[a:b] for a, b in zip([0] + cuts, cuts + [len(perm)])]
    else:
        parts = [qubits] * m
    out = []
    for q in parts:
        if depth > 0 and draw(st.integers(0, 2)) > 0 and (kind != "kron" or len(q) > 1):
            c = nested(draw, draw(st.sampled_from([kind, kind, "kron", "add"])) if len(q) > 1 else kind, q, cfg, depth - 1)
        else:
            c = G.leaf(draw, q, cfg)
        if cfg.scale and draw(st.integers(0, 4)) < 2:
            c = ["scale", G.param(draw, cfg, cfg.scale_params, 1), c]
        out.append(c)
    return [kind, out]


def mk(cfgkw, nmax=4, tfs=None, max_tf=3):
    @st.composite
    def strat(draw):
        cfg = G.Cfg(**cfgkw)
        n = draw(st.integers(1, nmax))
        if n > 1 and draw(st.integers(0, 4)) < 2:
            b = nested(draw, draw(st.sampled_from(["kron", "kron", "chain", "add"] if cfg.add else ["kron", "chain"])), list(range(n)), cfg, 2)
        else:
            b = G.block(draw, list(range(n)), cfg, draw(st.integers(1, cfg.max_depth)))
        if draw(st.booleans()):
            layer = ["kron", [[draw(st.sampled_from(["X", "H", "S", "Z"])), q] for q in draw(st.permutations(list(range(n))))]]
            layer2 = ["kron", [["RX", q, G.param(draw, cfg)] if draw(st.booleans()) else ["T", q] for q in draw(st.permutations(list(range(n))))]]
            b = ["chain", [b, ["chain", [layer, layer2]]]]
        b = with_commuting(draw, b, cfg)
        b = add_tags(draw, b)
        vv, fn = S.names(b)
        fs = [draw_tf(draw, n) for _ in range(draw(st.integers(1, max_tf)))]
        return dict(block=b, n=n, tf=fs, f=G.feature_values(draw, fn, draw(st.sampled_from([1, 1, 2]))))

    return strat


def reference(case, spec):
    if S.degenerate(spec):
        raise Skip
    vv, _ = S.names(spec)
    es = G.envs(vv, case["f"])
    bound = max(1, max(S.opbound(spec, e) for e in es))
    if not bound < 1e4 or max(S.sens(spec, e) for e in es) > 3000:
        raise Skip
    return es, np.array([S.mat(spec, e, case["n"]) for e in es]), S.tol(spec, es) * bound


def apply_tf(t, b, n):
    from qadence.blocks import AddBlock, ChainBlock, KronBlock
    from qadence.transpile import (apply_fn_to_blocks, chain_single_qubit_ops, digitalize, flatten, invert_endianness, reassign,
                                   scale_primitive_blocks_only)
    from qadence.transpile.block import fill_identities

    k = t[0]
    if k == "flatten":
        return flatten(b)
    if k == "flatten_some":
        return flatten(b, [dict(ChainBlock=ChainBlock, KronBlock=KronBlock, AddBlock=AddBlock)[x] for x in t[1]])
    if k == "scale":
        return scale_primitive_blocks_only(b)
    if k == "chain_ops":
        return chain_single_qubit_ops(b)
    if k == "fill":
        return fill_identities(b, 0, n - 1)
    if k == "digitalize":
        return digitalize(b)
    if k == "reassign":
        return reassign(b, dict(enumerate(t[1])))
    if k == "invert":
        return invert_endianness(b, n, False)
    if k == "invert2":
        return invert_endianness(invert_endianness(b, n, False), n, False)
    if k == "apply_id":
        return apply_fn_to_blocks(b, lambda x: x)
    raise KeyError(k)


def spec_tf(t, s, n):
    if t[0] == "reassign":
        return S.relabel(s, dict(enumerate(t[1])))
    if t[0] == "invert":
        return S.relabel(s, {i: n - 1 - i for i in range(n)})
    return s


def check_block(case):
    from qadence.blocks import block_to_tensor

    n = case["n"]
    S.OPT["proj_T"] = True
    try:
        spec = case["block"]
        want_spec = spec
        for t in case["tf"]:
            want_spec = spec_tf(t, want_spec, n)
        es, want, tol = reference(case, want_spec)
    finally:
        S.OPT["proj_T"] = False
    if any(t[0] == "digitalize" for t in case["tf"]) and "HamEvoM" in S.kinds(spec):
        raise Skip  # documented: only block generators
    b = S.build(spec)
    if set(S.support(spec)) != set(range(n)) and any(t[0] == "apply_id" for t in case["tf"]) and not case["tf"]:
        raise Skip
    before = desc(b)
    cur = b
    changed = False
    for t in case["tf"]:
        d0 = desc(cur)
        new = apply_tf(t, cur, n)
        expect(desc(cur) == d0, f"{t[0]} altered its input")
        changed = changed or desc(new) != d0
        pn, pc = params_of(new), params_of(cur)
        # a decomposition angle 2*t*c with a constant time of exactly zero simplifies to the number 0, whatever c is
        ok = pn == pc or (t[0] == "digitalize" and zero_time(spec) and set(pn) <= set(pc))
        expect(ok, f"{t[0]} changed the parameters: {pn} from {pc}")
        cur = new
    expect(desc(b) == before, "the transformations altered the original block")
    got = arr(block_to_tensor(cur, G.tensors(case["f"]), tuple(range(n))))
    if len(got) != len(es):
        got = np.repeat(got, len(es), axis=0)
    close(got, want, f"matrix after {[t[0] for t in case['tf']]}", tol, 1.0)
    return dict(nontrivial=changed)


# ------------------------------------------------------------------ circuits
CT = ["flatten", "digitalize", "fill_circ", "invert", "blockfn_scale", "blockfn_ops", "dagger2", "compose"]


@st.composite
def strat_circ(draw):
    cfg = G.Cfg(gates=[g for g in G.UNITARY_GATES if g != "T"] + ["N"], add=True, scale=True, hamevo=True, max_depth=3, max_children=3, gen_params=("num", "v", "expr"))
    n = draw(st.integers(1, 4))
    qs = draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=n, unique=True))
    b = with_commuting(draw, G.circuit(draw, sorted(qs), cfg, 1, 4), cfg)
    vv, fn = S.names(b)
    return dict(block=b, n=n, tf=draw(st.lists(st.sampled_from(CT), min_size=1, max_size=3)), f=G.feature_values(draw, fn, draw(st.sampled_from([1, 1, 2]))),
                reg=draw(st.sampled_from(["int", "line", "coords"])), seed=draw(st.integers(0, 999)))


def check_circ(case):
    import torch
    from qadence import QuantumCircuit, Register, run
    from qadence.transpile import (blockfn_to_circfn, chain_single_qubit_ops, digitalize, fill_identities, flatten, invert_endianness,
                                   scale_primitive_blocks_only, transpile)

    n = case["n"]
    spec = case["block"]
    for t in case["tf"]:
        spec = spec_tf([t], spec, n)
    es, want, tol = reference(case, spec)
    if case["reg"] == "int":
        reg = n
    elif case["reg"] == "line":
        reg = Register.line(n, spacing=3.0)
    else:
        r = np.random.RandomState(case["seed"])
        reg = Register.from_coordinates([tuple(map(float, c)) for c in r.uniform(-9, 9, (n, 2)).round(3)])
    c = QuantumCircuit(reg, S.build(case["block"]))
    fns = {"flatten": flatten, "digitalize": digitalize, "fill_circ": fill_identities, "invert": invert_endianness,
           "blockfn_scale": blockfn_to_circfn(scale_primitive_blocks_only), "blockfn_ops": blockfn_to_circfn(chain_single_qubit_ops),
           "dagger2": lambda x: x.dagger().dagger(),
           "compose": transpile(blockfn_to_circfn(flatten), blockfn_to_circfn(scale_primitive_blocks_only))}
    before = desc(c.block)
    cur = c
    for t in case["tf"]:
        cur = fns[t](cur)
        expect(cur.n_qubits == n, f"{t} changed the number of qubits to {cur.n_qubits}")
        if t != "invert" and "invert" not in case["tf"]:
            expect(cur.register == c.register and cur.register.coords == c.register.coords and dict(cur.register.edge_distances) == dict(c.register.edge_distances),
                   f"{t} changed the register")
    expect(desc(c.block) == before, "the transformations altered the original circuit")
    psi = G.state_vec(case["seed"], n, 1)
    got = arr(run(cur, values=G.tensors(case["f"]), state=torch.tensor(psi)))
    if len(got) != len(es):
        got = np.repeat(got, len(es), axis=0)
    close(got, np.array([M @ psi[0] for M in want]), f"state after {case['tf']}", tol)
    return dict(nontrivial=desc(cur.block) != before or case["reg"] != "int")


@st.composite
def strat_transpile(draw):
    n = draw(st.integers(1, 4))
    return dict(n=n, fs=draw(st.lists(st.tuples(st.sampled_from(["X", "Y", "Z", "H", "S"]), st.integers(0, n - 1)), min_size=0, max_size=4)), circ=draw(st.booleans()))


def check_transpile(case):
    """transpile(f1, ..., fk)(x) = f1(...(fk(x)))."""
    import qadence as qd
    from qadence.blocks import block_to_tensor
    from qadence.transpile import blockfn_to_circfn, transpile

    n = case["n"]
    fs = [(lambda b, g=g, q=q: qd.chain(b, getattr(qd, g)(q))) for g, q in case["fs"]]
    start = qd.H(0)
    if case["circ"]:
        out = transpile(*[blockfn_to_circfn(f) for f in fs])(qd.QuantumCircuit(n, start)).block
    else:
        out = transpile(*fs)(start)
    M = S.mat(["H", 0], {}, n)
    for g, q in reversed(case["fs"]):
        M = S.mat([g, q], {}, n) @ M
    got = arr(block_to_tensor(out, {}, tuple(range(n))))[0]
    close(got, M, "composition of transpilations", 1e-6)


# ------------------------------------------------------------------ states, arrays, counters
@st.composite
def strat_inv(draw):
    n = draw(st.integers(1, 6))
    return dict(n=n, batch=draw(st.integers(1, 4)), seed=draw(st.integers(0, 9999)), kind=draw(st.sampled_from(["tensor", "numpy", "counter", "list"])))


def check_inv(case):
    from collections import Counter

    import torch
    from qadence.transpile import invert_endianness

    n, r = case["n"], np.random.RandomState(case["seed"])
    if case["kind"] in ("tensor", "numpy"):
        a = r.normal(size=(case["batch"], 2**n)) + 1j * r.normal(size=(case["batch"], 2**n))
        x = torch.tensor(a) if case["kind"] == "tensor" else a.copy()
        got = invert_endianness(x)
        want = np.empty_like(a)
        for k in range(2**n):
            bits = [(k >> (n - 1 - i)) & 1 for i in range(n)]
            j = sum(b << i for i, b in enumerate(bits))
            want[:, j] = a[:, k]
        close(arr(got), want, "bit reversal of a state", 1e-12)
        close(arr(invert_endianness(got)), a, "double bit reversal", 1e-12)
        close(arr(x), a, "input of invert_endianness", 1e-14)
    else:
        cs = []
        for _ in range(case["batch"]):
            keys = {format(int(k), f"0{n}b") for k in r.randint(0, 2**n, size=r.randint(1, 6))}
            cs.append(Counter({k: int(r.randint(1, 50)) for k in sorted(keys)}))
        want = [Counter({k[::-1]: v for k, v in c.items()}) for c in cs]
        copies = [Counter(c) for c in cs]
        got = invert_endianness(cs) if case["kind"] == "list" else [invert_endianness(c) for c in cs]
        expect(list(got) == want, f"bit reversal of counters: {got} expected {want}")
        expect(cs == copies, "counter altered")


ALL = dict(gates=G.UNITARY_GATES + ["N", "N0", "TDagger"], add=True, scale=True, hamevo=True, hamevom=True, projector=True, matrix=True, complex_scale=True, max_depth=3, max_children=3, gen_params=("num", "v", "expr"))
# ------------------------------------------------------------------ openfermion operators
@st.composite
def strat_of(draw):
    n = draw(st.integers(1, 4))
    cfg = G.Cfg(gates=["X", "Y", "Z", "I"], add=True, scale=True, complex_scale=True, scale_params=("num", "v"), max_depth=3, max_children=3)
    terms = draw(st.dictionaries(st.dictionaries(st.integers(0, n - 1), st.sampled_from("XYZ"), max_size=n).map(lambda d: json.dumps(sorted(d.items()))),
                                 st.tuples(st.integers(-64, 64), st.integers(-2, 2)), min_size=1, max_size=4))
    return dict(n=n, block=G.block(draw, list(range(n)), cfg), terms=[[json.loads(k), v[0] / 32, v[1] / 2] for k, v in sorted(terms.items())])


def of_matrix(op, n):
    out = np.zeros((2**n, 2**n), complex)
    for term, coef in op.terms.items():
        m = np.eye(2**n, dtype=complex)
        for q, p in term:
            m = m @ S.mat([p, q], {}, n)
        out += complex(coef) * m
    return out


def check_of(c):
    from openfermion import QubitOperator
    from qadence import block_to_tensor
    from qadence.blocks.manipulate import from_openfermion, to_openfermion

    b, n = c["block"], c["n"]
    if S.degenerate(b):
        raise Skip
    env = S.names(b)[0]
    bound = max(1.0, S.opbound(b, env))
    if bound > 1e4:
        raise Skip
    blk = S.build(b)
    before = desc(blk)
    op = to_openfermion(blk)
    expect(desc(blk) == before, "converting changed the block")
    close(of_matrix(op, n), S.mat(b, env, n), "openfermion operator of a block", 1e-7, bound)
    src = sum((QubitOperator(tuple((int(q), g) for q, g in t), complex(x, y)) for t, x, y in c["terms"]), QubitOperator())
    if src.terms:
        keep = dict(src.terms)
        got = from_openfermion(src)
        expect(dict(src.terms) == keep, "converting changed the operator")
        expect(min(got.qubit_support) >= 0, f"{src} became a block on qubits {got.qubit_support}")
        m = arr(block_to_tensor(got, {}, qubit_support=tuple(range(n))))[0]
        close(m, of_matrix(src, n), f"block of the openfermion operator {src}", 1e-7, 10.0)
        again = to_openfermion(got)
        close(of_matrix(again, n), of_matrix(src, n), "openfermion operator converted to a block and back", 1e-7, 10.0)
    return dict(nontrivial=len(S.leaves(b)) >= 2)


FACETS = [
    Facet("block", mk(ALL, 4), check_block, 1600, 20000, 4),
    Facet("single", mk(ALL, 3, max_tf=1), check_block, 800, 12000, 2),
    Facet("circuit", strat_circ, check_circ, 500, 8000, 2),
    Facet("compose", strat_transpile, check_transpile, 150, 1500, 1),
    Facet("bits", strat_inv, check_inv, 400, 4000, 1, nontrivial=lambda c: c["n"] > 1),
    Facet("openfermion", strat_of, check_of, 400, 6000, 1),
]
