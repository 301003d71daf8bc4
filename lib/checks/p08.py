"""P08 block arithmetic."""
from __future__ import annotations

import numpy as np
from hypothesis import strategies as st

import gen as G
import spec as S
from harness import Facet, Skip, Violation
from oracle import arr, close, expect

RULE = "distinct expression with at least two operators (arithmetic) or a pair whose operators differ (equality)"
ASSUMPTIONS = ["dense numpy reference", "negative powers are rejected"]

CFG = dict(gates=G.UNITARY_GATES + ["N", "N0"], projector=True, matrix=True, hamevo=True, hamevom=True, max_depth=2, max_children=3)
SCAL = ["int", "float", "complex", "np", "param"]


def scalar(draw, cfg):
    k = draw(st.sampled_from(SCAL))
    if k == "int":
        return ["int", draw(st.sampled_from([1, 2, 3, -1, -2]))]
    if k == "float":
        return ["float", draw(st.sampled_from([0.5, -1.25, 3.0, 0.1, -0.75]))]
    if k == "complex":
        return ["complex", draw(st.sampled_from([0.0, 1.0, -0.5])), draw(st.sampled_from([1.0, -2.0, 0.25]))]
    if k == "np":
        return ["np", draw(st.sampled_from([0.5, 1.5, -2.0]))]
    return ["param", G.param(draw, cfg, ("v", "f", "expr"), 1)]


def sval(p, env):
    if p[0] == "complex":
        return complex(p[1], p[2])
    if p[0] == "param":
        return S.peval(p[1], env)
    return p[1]


def sbuild(p):
    if p[0] == "complex":
        return complex(p[1], p[2])
    if p[0] == "param":
        return S.pbuild(p[1])
    if p[0] == "np":
        return np.float64(p[1])
    return p[1]


BIN = ["+", "-", "*", "+=", "-=", "*="]
KRO = ["@", "@="]


def ast(draw, qubits, cfg, depth):
    if depth == 0:
        return ["leaf", G.block(draw, qubits, cfg, draw(st.integers(0, 1)))]
    k = draw(st.sampled_from(["bin"] * 4 + ["kron"] * 2 + ["s*", "*s", "/", "neg", "pos", "pow", "sum", "leaf"]))
    if k == "leaf":
        return ["leaf", G.block(draw, qubits, cfg, 1)]
    if k == "bin":
        return [draw(st.sampled_from(BIN)), ast(draw, qubits, cfg, depth - 1), ast(draw, qubits, cfg, depth - 1)]
    if k == "kron":
        if len(qubits) == 1:
            return [draw(st.sampled_from(BIN)), ast(draw, qubits, cfg, depth - 1), ast(draw, qubits, cfg, depth - 1)]
        p = list(draw(st.permutations(qubits)))
        c = draw(st.integers(1, len(p) - 1))
        return [draw(st.sampled_from(KRO)), ast(draw, p[:c], cfg, depth - 1), ast(draw, p[c:], cfg, depth - 1)]
    if k in ("s*", "*s", "/"):
        s = scalar(draw, cfg)
        if k == "/" and s[0] == "param":
            s = ["param", ["+", 3.0, ["sin", s[1]]]]
        return [k, s, ast(draw, qubits, cfg, depth - 1)]
    if k == "pow":
        return ["pow", draw(st.integers(0, 3)), ast(draw, qubits, cfg, depth - 1)]
    if k == "sum":
        return ["sum", [ast(draw, qubits, cfg, depth - 1) for _ in range(draw(st.integers(1, 3)))]]
    return [k, ast(draw, qubits, cfg, depth - 1)]


def amat(a, env, n):
    k = a[0]
    if k == "leaf":
        return S.mat(a[1], env, n)
    if k in ("s*", "*s"):
        return sval(a[1], env) * amat(a[2], env, n)
    if k == "/":
        return amat(a[2], env, n) / sval(a[1], env)
    if k == "pow":
        return np.linalg.matrix_power(amat(a[2], env, n), a[1])
    if k == "sum":
        return sum(amat(x, env, n) for x in a[1])
    if k == "neg":
        return -amat(a[1], env, n)
    if k == "pos":
        return amat(a[1], env, n)
    A, B = amat(a[1], env, n), amat(a[2], env, n)
    o = k.rstrip("=")
    if o == "+":
        return A + B
    if o == "-":
        return A - B
    return B @ A  # products apply left to right; tensor products commute


def abuild(a, log):
    """log collects (block, snapshot) of every operand, to see that operators do not change them."""
    k = a[0]
    if k == "leaf":
        b = S.build(a[1])
    elif k == "s*":
        b = sbuild(a[1]) * abuild(a[2], log)
    elif k == "*s":
        b = abuild(a[2], log) * sbuild(a[1])
    elif k == "/":
        b = abuild(a[2], log) / sbuild(a[1])
    elif k == "pow":
        b = abuild(a[2], log) ** a[1]
    elif k == "sum":
        b = sum(abuild(x, log) for x in a[1])
    elif k == "neg":
        b = -abuild(a[1], log)
    elif k == "pos":
        b = +abuild(a[1], log)
    else:
        x, y = abuild(a[1], log), abuild(a[2], log)
        if k == "+":
            b = x + y
        elif k == "-":
            b = x - y
        elif k == "*":
            b = x * y
        elif k == "@":
            b = x @ y
        elif k == "+=":
            b = x
            b += y
        elif k == "-=":
            b = x
            b -= y
        elif k == "*=":
            b = x
            b *= y
        else:
            b = x
            b @= y
    from checks.p07 import desc

    log.append((b, desc(b)))
    return b


def aleaves(a):
    if a[0] == "leaf":
        return [a[1]]
    out = []
    for x in a[1:]:
        if isinstance(x, list) and x and isinstance(x[0], str) and x[0] in ("int", "float", "complex", "np", "param"):
            continue
        if isinstance(x, list) and x and isinstance(x[0], list):
            for y in x:
                out += aleaves(y)
        elif isinstance(x, list):
            out += aleaves(x)
    return out


def ascal(a):
    out = []
    if a[0] in ("s*", "*s", "/"):
        out.append(a[1])
    if a[0] == "leaf":
        return out
    for x in a[1:]:
        if isinstance(x, list) and x and isinstance(x[0], list):
            for y in x:
                out += ascal(y)
        elif isinstance(x, list) and x and x[0] not in ("int", "float", "complex", "np", "param"):
            out += ascal(x)
    return out


def anodes(a):
    if a[0] == "leaf":
        return 0
    n = 1
    for x in a[1:]:
        if isinstance(x, list) and x and isinstance(x[0], list):
            n += sum(anodes(y) for y in x)
        elif isinstance(x, list) and x and x[0] not in ("int", "float", "complex", "np", "param"):
            n += anodes(x)
    return n


def asup(a):
    """qubits named by the expression (a zeroth power names none)."""
    if a[0] == "leaf":
        return set(S.support(a[1]))
    if a[0] == "pow" and a[1] == 0:
        return set()
    out = set()
    for x in a[1:]:
        if isinstance(x, list) and x and isinstance(x[0], list):
            for y in x:
                out |= asup(y)
        elif isinstance(x, list) and x and x[0] not in ("int", "float", "complex", "np", "param"):
            out |= asup(x)
    return out


def ident_inplace(a):
    """I(q) *= b returns b: same operator, smaller support."""
    if a[0] == "leaf":
        return False
    if a[0] == "*=":
        return True
    for x in a[1:]:
        if isinstance(x, list) and x and isinstance(x[0], list):
            if any(ident_inplace(y) for y in x):
                return True
        elif isinstance(x, list) and x and x[0] not in ("int", "float", "complex", "np", "param"):
            if ident_inplace(x):
                return True
    return False


@st.composite
def strat_arith(draw):
    cfg = G.Cfg(**CFG)
    n = draw(st.integers(1, 3))
    a = ast(draw, list(range(n)), cfg, draw(st.integers(1, 4)))
    fs = set()
    for x in aleaves(a):
        fs |= S.names(x)[1]
    for p in ascal(a):
        if p[0] == "param":
            fs |= S.pnames(p[1])[1]
    return dict(a=a, n=n, f=G.feature_values(draw, fs, draw(st.sampled_from([1, 1, 2]))))


def check_arith(case):
    from checks.p07 import desc
    from qadence.blocks import block_to_tensor

    a, n = case["a"], case["n"]
    lv = aleaves(a)
    if S.degenerate(*lv) or len(lv) > 24:
        raise Skip
    vv = {}
    for x in lv:
        vv.update(S.names(x)[0])
    for p in ascal(a):
        if p[0] == "param":
            vv.update(S.pnames(p[1])[0])
    es = G.envs(vv, case["f"])
    S.OPT["proj_T"] = True
    try:
        want = np.array([amat(a, e, n) for e in es])
    finally:
        S.OPT["proj_T"] = False
    big = float(np.max(np.abs(want)))
    if not big < 1e4 or max(S.sens(x, e) for x in lv for e in es) > 2000:
        raise Skip
    log = []
    b = abuild(a, log)
    # cancellations can make intermediate magnitudes larger than the result
    mags = [float(np.prod([max(1.0, abs(sval(p, e))) for p in ascal(a)])) for e in es]
    bound = max(mags) * float(np.prod([max(1.0, max(S.opbound(x, e) for e in es)) ** pw for x, pw in zip(lv, powers(a))]))
    if not bound < 1e5:
        raise Skip
    for blk, d in log:
        expect(desc(blk) == d, f"an operator altered its operand {d[:120]}")
    tol = (1e-5 + 4e-7 * sum(max(S.sens(x, e) for e in es) for x in lv)) * max(1.0, bound)
    got = arr(block_to_tensor(b, G.tensors(case["f"]), tuple(range(n))))
    if len(got) != len(es):
        got = np.repeat(got, len(es), axis=0)
    close(got, want, "matrix of the expression", tol, 1.0)
    if not ident_inplace(a):
        expect(set(b.qubit_support) == asup(a), f"support {b.qubit_support} of an expression on {sorted(asup(a))}")
        if asup(a):
            expect(b.n_qubits == max(asup(a)) + 1, f"n_qubits {b.n_qubits}")
    return dict(nontrivial=anodes(a) >= 2)


def powers(a, p=1):
    if a[0] == "leaf":
        return [p]
    out = []
    q = p * max(1, a[1]) if a[0] == "pow" else p
    for x in a[1:]:
        if isinstance(x, list) and x and isinstance(x[0], list):
            for y in x:
                out += powers(y, q)
        elif isinstance(x, list) and x and x[0] not in ("int", "float", "complex", "np", "param"):
            out += powers(x, q)
    return out


# ------------------------------------------------------------------ rejected tensor products
@st.composite
def strat_kron(draw):
    cfg = G.Cfg(**CFG)
    mk = lambda: G.block(draw, draw(st.lists(st.sampled_from([0, 1, 2, 3, 8, 9, 17]), min_size=1, max_size=3, unique=True)), cfg, draw(st.integers(0, 2)))
    return dict(bs=[mk() for _ in range(draw(st.integers(2, 3)))], how=draw(st.sampled_from(["kron", "@", "@=", "gen"])), neg=draw(st.integers(-3, -1)))


def check_kron(case):
    import qadence as qd

    sups = [set(S.support(b)) for b in case["bs"]]
    overlap = any(sups[i] & sups[j] for i in range(len(sups)) for j in range(i))
    bs = [S.build(b) for b in case["bs"]]
    for b, s in zip(bs, sups):
        expect(set(b.qubit_support) == s and len(b.qubit_support) == len(s), f"support {b.qubit_support} of a block on {sorted(s)}")
        expect(b.n_supports == len(s), "n_supports")
        expect(b.n_qubits == max(s) + 1, "n_qubits")
    try:
        if case["how"] == "kron":
            k = qd.kron(*bs)
        elif case["how"] == "gen":
            k = qd.kron(b for b in bs)
        else:
            k = bs[0]
            for b in bs[1:]:
                if case["how"] == "@":
                    k = k @ b
                else:
                    k @= b
    except Exception:
        expect(overlap, "tensor product of blocks on distinct qubits was rejected")
    else:
        expect(not overlap, "tensor product of blocks sharing qubits was accepted")
        expect(set(k.qubit_support) == set().union(*sups), f"support {k.qubit_support} of a tensor product")
    try:
        p = bs[0] ** case["neg"]
    except Exception:
        pass
    else:
        raise Violation(f"negative power accepted: {p}")
    return dict(nontrivial=True)


# ------------------------------------------------------------------ equality
MUT = ["same", "gate", "num", "expr", "name", "bits", "seed", "perm", "dup", "wrap", "scale", "unscale", "swapq", "gen", "drop"]


def mutate(draw, s, cfg):
    """one random local change of the tree."""
    nodes = list(paths(s))
    path = draw(st.sampled_from(nodes))
    node = get(s, path)
    return put(s, path, local(draw, node, cfg))


def paths(s, p=()):
    yield p
    for i, c in enumerate(S.children(s)):
        yield from paths(c, p + (i,))


def get(s, p):
    for i in p:
        s = S.children(s)[i]
    return s


def put(s, p, new):
    if not p:
        return new
    i, rest = p[0], p[1:]
    if s[0] in S.COMPOSITE:
        return [s[0], [put(c, rest, new) if j == i else c for j, c in enumerate(s[1])]]
    if s[0] in ("scale", "tag"):
        return [s[0], s[1], put(s[2], rest, new)]
    return [s[0], put(s[1], rest, new), *s[2:]]


SWAPS = {"X": "Y", "Y": "Z", "Z": "X", "H": "X", "S": "T", "T": "S", "SDagger": "S", "RX": "RY", "RY": "RZ", "RZ": "PHASE", "PHASE": "RZ", "CNOT": "CZ",
         "CZ": "CNOT", "SWAP": "CNOT", "CRX": "CRY", "CRY": "CRZ", "CRZ": "CPHASE", "CPHASE": "CRX", "MCRX": "MCRY", "MCRY": "MCRZ", "MCRZ": "MCRX", "MCZ": "Toffoli",
         "Toffoli": "MCZ", "N": "N0", "N0": "N", "chain": "add", "I": "X"}


def plocal(draw, p, cfg):
    k = draw(st.sampled_from(["double", "shift", "other", "neg"]))
    if k == "double":
        return ["*", 2.0, p] if not isinstance(p, (int, float)) else p * 2 + 0.25
    if k == "shift":
        return ["+", p, 0.5] if not isinstance(p, (int, float)) else p + 0.5
    if k == "neg":
        return ["*", -1.0, p] if not isinstance(p, (int, float)) else -p
    return G.param(draw, cfg)


def local(draw, s, cfg):
    k = s[0]
    opts = []
    if k in SWAPS and not (k == "chain"):
        opts.append("gate")
    if S.own_params(s):
        opts += ["param"] * 2
    if k == "Projector":
        opts += ["bits"] * 2
    if k in ("Matrix", "HamEvoM"):
        opts += ["seed"] * 2
    if k in S.COMPOSITE:
        opts += ["perm", "dup", "drop", "wrap"]
        if k == "add":
            opts += ["replace"] * 2
    if k in ("CNOT", "CRX", "CRY", "CRZ", "CPHASE", "SWAP", "CZ"):
        opts.append("swapq")
    opts += ["scale", "wrap"]
    o = draw(st.sampled_from(opts))
    r = list(s)
    if o == "gate":
        r[0] = SWAPS[k]
        return r
    if o == "param":
        if k in S.ROT:
            r[2] = plocal(draw, s[2], cfg)
        elif k == "U":
            i = draw(st.integers(2, 4))
            r[i] = plocal(draw, s[i], cfg)
        elif k in S.CROT or k in S.MCROT:
            r[3] = plocal(draw, s[3], cfg)
        elif k == "scale":
            r[1] = plocal(draw, s[1], cfg)
        elif k == "HamEvo":
            r[2] = plocal(draw, s[2], cfg)
        elif k == "HamEvoM":
            r[4] = plocal(draw, s[4], cfg)
        return r
    if o == "bits":
        i = draw(st.integers(1, 2))
        j = draw(st.integers(0, len(s[i]) - 1))
        r[i] = s[i][:j] + ("1" if s[i][j] == "0" else "0") + s[i][j + 1:]
        return r
    if o == "seed":
        r[2] = s[2] + 1
        return r
    if o == "perm":
        return [k, list(draw(st.permutations(s[1])))]
    if o == "dup":
        if k == "kron":
            return s
        return [k, s[1] + [s[1][0]]]
    if o == "drop":
        return [k, s[1][1:]] if len(s[1]) > 1 else s
    if o == "replace":
        i, j = draw(st.integers(0, len(s[1]) - 1)), draw(st.integers(0, len(s[1]) - 1))
        c = list(s[1])
        c[i] = c[j]
        return [k, c]
    if o == "swapq":
        r[1], r[2] = s[2], s[1]
        return r
    if o == "scale":
        return ["scale", G.value(draw, -2, 2), s]
    return [draw(st.sampled_from(["chain", "kron", "add"])), [s]]


@st.composite
def strat_eq(draw):
    cfg = G.Cfg(**dict(CFG, add=True, scale=True, complex_scale=True, gen_params=("num", "v")))
    n = draw(st.integers(1, 3))
    a = G.block(draw, list(range(n)), cfg, draw(st.integers(0, 3)))
    b = a
    for _ in range(draw(st.sampled_from([0, 1, 1, 1, 2]))):
        b = mutate(draw, b, cfg)
    vv, fn = S.names(a, b)
    return dict(a=a, b=b, n=n, f=G.feature_values(draw, fn, 1))


def check_eq(case):
    a, b, n = case["a"], case["b"], case["n"]
    if S.degenerate(a, b):
        raise Skip
    vv, _ = S.names(a, b)
    e = G.envs(vv, case["f"])[0]
    A, B = S.mat(a, e, n), S.mat(b, e, n)
    if not max(np.max(np.abs(A)), np.max(np.abs(B))) < 1e4 or S.sens(a, e) > 2000:
        raise Skip
    x, y = S.build(a), S.build(b)
    e1, e2 = x == y, y == x
    differ = float(np.max(np.abs(A - B))) > 1e-3
    if differ:
        expect(not e1, f"blocks with different operators compare equal: {a} and {b}")
        expect(not e2, f"blocks with different operators compare equal: {b} and {a}")
        expect(x != y, "blocks with different operators are not unequal")
    if a == b:
        expect(e1 and e2, "the same block built twice does not compare equal")
    return dict(nontrivial=differ)


@st.composite
def strat_xor(draw):
    cfg = G.Cfg()
    g = draw(st.sampled_from(["X", "Y", "Z", "H", "S", "RX", "RY", "RZ", "PHASE"]))
    s = [g, draw(st.integers(0, 2))] + ([G.param(draw, cfg)] if g in S.ROT else [])
    return dict(s=s, k=draw(st.integers(1, 4)), f=G.feature_values(draw, S.names(s)[1], 1))


def check_xor(case):
    from qadence.blocks import block_to_tensor

    s, k = case["s"], case["k"]
    if S.degenerate(s):
        raise Skip
    vv, _ = S.names(s)
    e = G.envs(vv, case["f"])[0]
    want = ["kron", [[s[0], s[1] + i, *s[2:]] for i in range(k)]]
    b = S.build(s) ^ k
    got = arr(block_to_tensor(b, G.tensors(case["f"])))[0]
    close(got, S.submatrix_embed(want, e, list(range(s[1], s[1] + k))), "gate ^ n", S.tol(want, [e]))
    return dict(nontrivial=k > 1)


FACETS = [
    Facet("arithmetic", strat_arith, check_arith, 1400, 16000, 3),
    Facet("equality", strat_eq, check_eq, 1500, 16000, 2),
    Facet("tensor", strat_kron, check_kron, 600, 5000, 1),
    Facet("repeat", strat_xor, check_xor, 200, 2000, 1),
]
