"""P16 circuit constructors."""
from __future__ import annotations

import math

import numpy as np
from hypothesis import strategies as st
from scipy.linalg import expm

import spec as S
from harness import Facet, Violation
from oracle import arr, close, expect

RULE = ("distinct argument combination on at least two qubits with a non-default argument "
        "(permuted support, inverse or reversal, own strengths, ranges, depth above one, own gates)")
ASSUMPTIONS = ["digital-analog constructions: sizes other than four qubits, build Hamiltonian containing every interaction of the target (documented limits)",
               "ansatzes on at least two qubits (a single qubit has no entangler and is rejected)",
               "rydberg_hea takes the interaction of hamiltonian_factory(register, NN), as the code does, not the distance dependent one its text mentions",
               "Ising observable configuration on all-to-all registers only"]
P2 = {"X": S.X2, "Y": S.Y2, "Z": S.Z2, "N": S.N2, "I": S.I2, "H": S.H2}
ROTS = ["RX", "RY", "RZ", "PHASE"]
ENTS = ["CNOT", "CZ", "CRX", "CRY", "CRZ", "CPHASE"]


def op(name, q, n):
    return S.embed(P2[name], [q], n)


def labels(draw, n, top=9):
    return list(draw(st.permutations(range(top))))[:n]


def tensor(block, qs, values=None):
    import torch
    from qadence.blocks.block_to_tensor import block_to_tensor
    v = {k: torch.tensor([float(x)]) for k, x in (values or {}).items()}
    return arr(block_to_tensor(block, v, qubit_support=tuple(sorted(qs)))).squeeze(0)


def at(U, support):
    """Operator on the ordered labels, in the sorted order of these labels."""
    order = sorted(support)
    return S.embed(U, [order.index(q) for q in support], len(support))


# ------------------------------------------------------------------ Fourier transform
@st.composite
def qft_case(draw):
    daqc = draw(st.integers(0, 3)) == 0
    n = draw(st.sampled_from([1, 2, 3, 5] if daqc else [1, 2, 3, 4, 5]))
    c = dict(n=n, inverse=draw(st.booleans()), rev=draw(st.booleans()), swaps=draw(st.booleans()), daqc=daqc,
             support=None, gen=None)
    if not daqc and draw(st.booleans()):
        c["support"] = labels(draw, n)
    if daqc and n > 1 and draw(st.booleans()):
        c["gen"] = [draw(st.sampled_from(["ZZ", "NN"])),
                    [draw(st.sampled_from([1.0, 0.5, -0.7, 2.0, 1.3])) for _ in range(n * (n - 1) // 2)]]
    return c


def fourier(n, swaps):
    D = 2**n
    j = np.arange(D)
    F = np.exp(2j * math.pi * np.outer(j, j) / D) / math.sqrt(D)
    if not swaps:
        F = F[S.reverse_bits_perm(n)]
    return F


def run_qft(c):
    from qadence import Interaction, hamiltonian_factory, qft
    n = c["n"]
    sup = c["support"] or list(range(n))
    kw = {}
    if c["support"]:
        kw["support"] = tuple(sup)
    if c["daqc"]:
        kw["strategy"] = "sDAQC"
        if c["gen"]:
            kw["gen_build"] = hamiltonian_factory(n, Interaction(c["gen"][0]), interaction_strength=c["gen"][1])
    b = qft(n, inverse=c["inverse"], reverse_in=c["rev"], swaps_out=c["swaps"], **kw)
    F = fourier(n, c["swaps"])
    if c["inverse"]:
        F = F.conj().T
    want = at(F, sup[::-1] if c["rev"] else sup)
    close(tensor(b, sup), want, "QFT", tol=1e-5 if c["daqc"] else 1e-8)
    if c["support"] is None and not c["daqc"]:
        from qadence import run

        r = np.random.default_rng(n + 7 * c["inverse"])
        psi = r.normal(size=2**n) + 1j * r.normal(size=2**n)
        psi /= np.linalg.norm(psi)
        import torch
        close(arr(run(n, b, state=torch.tensor(psi).reshape(1, -1)))[0], want @ psi, "QFT of a state", tol=1e-7)
    return dict(nontrivial=n > 1 and (c["inverse"] or c["rev"] or c["swaps"] or c["support"] is not None or c["gen"] is not None))


# ------------------------------------------------------------------ digital-analog transform
@st.composite
def daqc_case(draw):
    n = draw(st.sampled_from([2, 3, 3, 5, 6]))
    pairs = [[i, j] for i in range(n) for j in range(i + 1, n)]
    val = st.sampled_from([1.0, 0.5, -0.7, 2.0, 1.3, 0.1, -1.0])
    full = draw(st.booleans())
    build = [[*p, draw(val)] for p in pairs if full or draw(st.integers(0, 4))]
    if not build:
        build = [[*pairs[0], 1.0]]
    target = [[a, b, draw(val)] for a, b, _ in build if draw(st.booleans())]
    if not target:
        target = [[*build[-1][:2], draw(val)]]
    target = list(draw(st.permutations(target)))
    return dict(n=n, build=build, target=target, bt=draw(st.sampled_from("ZN")), tt=draw(st.sampled_from("ZN")),
                t=draw(st.sampled_from([1.0, 0.3, -0.8, 2.0, 3.7])), default=draw(st.integers(0, 3)) == 0,
                ignore=draw(st.booleans()), flip=draw(st.booleans()), dup=draw(st.integers(0, 3)) == 0)


def run_daqc(c):
    from qadence import N, Z, add, daqc_transform, kron
    G = {"Z": Z, "N": N}
    n = c["n"]
    terms = [list(t) for t in c["target"]]
    if c["dup"]:
        terms.append([*terms[0][:2], 0.4])

    def gen(ts, o, flip):
        return add(*[g * (kron(G[o](j), G[o](i)) if flip else kron(G[o](i), G[o](j))) for i, j, g in ts])

    kw = {} if c["default"] else dict(gen_build=gen(c["build"], c["bt"], False))
    b = daqc_transform(n_qubits=n, gen_target=gen(terms, c["tt"], c["flip"]), t_f=c["t"],
                       ignore_global_phases=c["ignore"], **kw)
    H = sum(g * op(c["tt"], i, n) @ op(c["tt"], j, n) for i, j, g in terms)
    want = expm(-1j * c["t"] * H)
    got = tensor(b, range(n))
    if c["ignore"]:
        k = np.vdot(want, got)
        got = got * (abs(k) / k if abs(k) > 1e-9 else 1)
    # documented: evolution times below the zero tolerance are left out, and missing interactions count as that tolerance
    close(got, want, "digital-analog transform", tol=1e-4)
    return dict(nontrivial=n > 2 and len(terms) > 1)


# ------------------------------------------------------------------ feature maps
@st.composite
def fm_case(draw):
    n = draw(st.integers(1, 4))
    rng = lambda lo, hi: sorted(draw(st.lists(st.sampled_from(np.linspace(lo, hi, 9).round(3).tolist()), min_size=2, max_size=2, unique=True)))
    c = dict(n=n, support=None, op=draw(st.sampled_from(ROTS)), basis=draw(st.sampled_from(["Fourier", "Chebyshev", "Chebyshev", "sin", "cube"])),
             rs=draw(st.sampled_from(["Constant", "Tower", "Exponential", "own"])), fr=None, tr=None,
             mult=draw(st.sampled_from([None, None, 2.0, -0.5, ["m", 1.7]])), prefix=draw(st.sampled_from([None, None, "w"])),
             enums=draw(st.booleans()), wide=0, x=draw(st.sampled_from([0.0, 0.13, 0.5, 0.71, 0.9])), asparam=draw(st.booleans()), kind="fm")
    if draw(st.booleans()):
        c["support"] = labels(draw, n)
        c["wide"] = draw(st.integers(0, 2))
    if draw(st.booleans()):
        c["fr"] = rng(-4.0, 4.0)
    if draw(st.booleans()):
        c["tr"] = rng(-1.0, 1.0) if c["basis"] == "Chebyshev" else rng(-3.0, 7.0)
    k = draw(st.integers(0, 5))
    if k == 0:
        c["kind"] = "expfourier"
    elif k == 1:
        c["kind"] = "analog"
    elif k == 2:
        c["kind"] = draw(st.sampled_from(["rydberg", "rydberg-w", "rydberg-tower"]))
    c["w"] = [draw(st.sampled_from([0.2, 0.5, 0.8, 0.95])) for _ in range(n)]
    return c


def own_scaling(i):
    return 3 * i + 0.5


def run_fm(c):
    import sympy
    import torch
    import qadence
    from qadence import FeatureParameter, Parameter, VariationalParameter, exp_fourier_feature_map, feature_map
    from qadence.constructors import analog_feature_map, rydberg_feature_map, rydberg_tower_feature_map
    from qadence.types import BasisSet, ReuploadScaling
    n = c["n"]
    sup = c["support"] or list(range(n))
    basis = c["basis"]
    dom = {"Fourier": (0, 2 * math.pi), "Chebyshev": (-1, 1)}.get(basis, (0, 1))
    fr, tr = c["fr"] or dom, c["tr"] or dom
    f = {"Fourier": lambda t: t, "Chebyshev": np.arccos, "sin": np.sin, "cube": lambda t: t**3}[basis]
    fs = {"Fourier": BasisSet.FOURIER if c["enums"] else "Fourier", "Chebyshev": BasisSet.CHEBYSHEV if c["enums"] else "Chebyshev",
          "sin": sympy.sin, "cube": lambda e: e**3}[basis]
    x = fr[0] + (fr[1] - fr[0]) * c["x"]
    scaled = tr[0] + (x - fr[0]) * (tr[1] - tr[0]) / (fr[1] - fr[0])
    mult = 1.0 if c["mult"] is None else (c["mult"][1] if isinstance(c["mult"], list) else c["mult"])
    mpar = None if c["mult"] is None else (FeatureParameter(c["mult"][0]) if isinstance(c["mult"], list) else c["mult"])
    vals = {"phi": x}
    if isinstance(c["mult"], list):
        vals[c["mult"][0]] = mult
    nontriv = n > 1 and (c["rs"] != "Constant" or c["support"] is not None or c["fr"] is not None or c["prefix"] is not None)
    kind = c["kind"]
    if kind == "expfourier":
        kw = {} if c["fr"] is None else dict(feature_range=tuple(c["fr"]))
        fr = c["fr"] or (0, 2.0**n)
        x = fr[0] + (fr[1] - fr[0]) * c["x"]
        b = exp_fourier_feature_map(n, support=tuple(c["support"]) if c["support"] else None, param="phi", **kw)
        U = np.eye(1)
        for i in range(n):
            U = np.kron(U, S.rot("RZ", 2**i * 2 * math.pi * c["x"]) @ S.H2)
        close(tensor(b, sup, {"phi": x}), at(U, sup), "exponential Fourier map", tol=1e-6)
        return dict(nontrivial=n > 1)
    if kind == "analog":
        opn = {"RX": "AnalogRX", "RY": "AnalogRY", "RZ": "AnalogRZ"}.get(c["op"], "AnalogRX")
        fac = 2.5
        kw = {} if c["rs"] == "Constant" else dict(reupload_scaling=lambda o, p: o(fac * p))
        b = analog_feature_map(param="phi", op=getattr(qadence, opn), fm_type=fs, feature_range=c["fr"] and tuple(c["fr"]),
                               target_range=c["tr"] and tuple(c["tr"]), multiplier=mpar, **kw)
        ang = mult * f(scaled) * (1.0 if c["rs"] == "Constant" else fac)
        got = angle_of(b, vals)
        close(got, np.array(ang), "angle of the analog feature map", tol=1e-8)
        expect(type(b) is type(getattr(qadence, opn)(0.1)), f"operation {type(b)}")
        return dict(nontrivial=c["fr"] is not None or c["tr"] is not None or c["mult"] is not None)
    if kind.startswith("rydberg"):
        mx = 5.0
        if kind == "rydberg-tower":
            b, w = rydberg_tower_feature_map(n, param="phi", max_abs_detuning=mx), [i + 1.0 for i in range(n)]
        elif kind == "rydberg-w":
            w = c["w"]
            b = rydberg_feature_map(n, param="phi", max_abs_detuning=mx, weights=list(w))
        else:
            b = rydberg_feature_map(n, param="phi", max_abs_detuning=mx)
            w = c["w"]
            vals.update({f"w_phi_{i}": w[i] for i in range(n)})
        tower = mx / sum(w)
        expect(len(b.blocks) == n, "one block per qubit")
        seen = set()
        for r in b.blocks:
            q = r.qubit_support[0]
            seen.add(q)
            d = {k: value_of(e, vals) for k, e in zip(["duration", "omega", "delta", "phase"],
                 [r.parameters.duration, r.parameters.omega, r.parameters.delta, r.parameters.phase])}
            close(d["delta"], np.array(-tower * w[q]), "detuning", tol=1e-8)
            close(d["duration"], np.array(1000 * x / tower), "duration", tol=1e-8)
            close(d["omega"], np.array(0.0), "drive", tol=1e-8)
        expect(seen == set(range(n)), "every qubit addressed")
        return dict(nontrivial=n > 1)
    rs = {"Constant": lambda i: 1, "Tower": lambda i: i + 1, "Exponential": lambda i: 2**i, "own": own_scaling}[c["rs"]]
    rsa = own_scaling if c["rs"] == "own" else (ReuploadScaling(c["rs"]) if c["enums"] else c["rs"])
    par = Parameter("phi", trainable=False) if c["asparam"] else "phi"
    b = feature_map(n + c["wide"], support=tuple(c["support"]) if c["support"] else (tuple(range(n)) if c["wide"] else None), param=par, op=getattr(qadence, c["op"]), fm_type=fs,
                    reupload_scaling=rsa, feature_range=c["fr"] and tuple(c["fr"]), target_range=c["tr"] and tuple(c["tr"]),
                    multiplier=mpar, param_prefix=c["prefix"])
    U = np.eye(1)
    for i in range(n):
        arg = scaled
        if c["prefix"]:
            arg = c["w"][i] * scaled
            vals[f"{c['prefix']}_{i}"] = c["w"][i]
        U = np.kron(U, S.rot(c["op"], mult * rs(i) * f(arg)))
    close(tensor(b, sup, vals), at(U, sup), "feature map", tol=1e-6)
    return dict(nontrivial=nontriv)


def value_of(e, vals):
    import torch
    from qadence.parameters import evaluate
    return float(np.real(evaluate(e, {k: torch.tensor(v) for k, v in vals.items()}, as_torch=False)) if hasattr(e, "free_symbols") or not isinstance(e, (int, float)) else e)


def angle_of(b, vals):
    return value_of(b.parameters.alpha, vals)


# ------------------------------------------------------------------ Hamiltonians
@st.composite
def ham_case(draw):
    topo = draw(st.sampled_from(["all", "line", "circle", "square", "graph", "graph"]))
    n = draw(st.integers(2, 5))
    if topo == "square":
        n = 4
    val = st.sampled_from([1.0, -1.0, 0.5, 2.0, -0.25, 0.0, 1.5])
    c = dict(topo=topo, n=n, inter=draw(st.sampled_from([None, "ZZ", "NN", "XY", "XYZ", "own"])), det=draw(st.sampled_from([None, "X", "Y", "Z", "N"])),
             ist=draw(st.sampled_from([None, "values", "values", "name"])), dst=draw(st.sampled_from([None, "values", "name"])),
             form=draw(st.sampled_from(["list", "numpy", "torch"])), pairs=draw(st.integers(0, 3)) == 0, vals=[draw(val) for _ in range(20)],
             kind=draw(st.sampled_from(["factory", "factory", "factory", "magnet", "zz", "ising"])),
             terms=[draw(st.booleans()) for _ in range(3)], edges=[])
    if topo == "graph":
        allp = [[i, j] for i in range(n) for j in range(n) if i < j]
        c["edges"] = list(draw(st.lists(st.sampled_from(allp), min_size=1, max_size=6, unique_by=tuple)))
    if c["inter"] is None and c["det"] is None:
        c["inter"] = "ZZ"
    return c


def register(c):
    import networkx as nx
    from qadence import Register
    n = c["n"]
    if c["topo"] == "all":
        return n, n, [(i, j) for i in range(n) for j in range(i + 1, n)]
    if c["topo"] == "line":
        return Register.line(n), n, [(i, i + 1) for i in range(n - 1)]
    if c["topo"] == "circle":
        return Register.circle(n), n, sorted({tuple(sorted((i, (i + 1) % n))) for i in range(n)})
    if c["topo"] == "square":
        return Register.square(2), 4, None
    g = nx.Graph()
    g.add_nodes_from(range(n))
    g.add_edges_from([tuple(e) for e in c["edges"]])
    return Register(g), n, [tuple(e) for e in c["edges"]]


PAIR = {"ZZ": ["Z"], "NN": ["N"], "XY": ["X", "Y"], "XYZ": ["X", "Y", "Z"]}


def run_ham(c):
    import torch
    import qadence
    from qadence import Interaction, Register, hamiltonian_factory, ising_hamiltonian, total_magnetization, zz_hamiltonian
    v = c["vals"]
    kind = c["kind"]
    n = c["n"]
    if kind != "factory":
        zt = np.array(v[:n]) if c["terms"][0] else None
        xt = np.array(v[n:2 * n]) if c["terms"][1] else None
        M = np.array([[v[(3 * i + 5 * j) % 20] for j in range(n)] for i in range(n)])
        zz = M if c["terms"][2] else None
        want = sum((1.0 if zt is None else zt[i]) * op("Z", i, n) for i in range(n))
        if kind == "magnet":
            got = total_magnetization(n, None if zt is None else (list(zt) if c["form"] == "list" else zt))
        else:
            want = want + sum((1.0 if zz is None else M[i, j]) * op("Z", i, n) @ op("Z", j, n) for i in range(n) for j in range(i + 1, n))
            if kind == "zz":
                got = zz_hamiltonian(n, zt, zz)
            else:
                want = want + sum((1.0 if xt is None else xt[i]) * op("X", i, n) for i in range(n))
                got = ising_hamiltonian(n, xt, zt, zz)
        close(tensor(got, range(n)), want, f"{kind} Hamiltonian", tol=1e-7)
        return dict(nontrivial=any(c["terms"]))
    reg, n, edges = register(c)
    R = Register(reg) if isinstance(reg, int) else reg
    listed = [tuple(e) for e in R.edges]
    if edges is not None:
        expect({tuple(sorted(e)) for e in listed} == set(edges) and len(listed) == len(edges), f"edges {listed} of the register, expected {edges}")
    order = [tuple(e) for e in (R.all_node_pairs if c["pairs"] else R.edges)]
    if c["pairs"]:
        expect({tuple(sorted(e)) for e in order} == {(i, j) for i in range(n) for j in range(i + 1, n)}, "all pairs of nodes")
    form = {"list": list, "numpy": np.array, "torch": torch.tensor}[c["form"]]
    kw, vals = {}, {}

    def strength(which, keys, name, off):
        if which is None:
            return [1.0] * len(keys)
        xs = [v[(off + k) % 20] for k in range(len(keys))]
        kw[name] = form(xs) if which == "values" else "s" + name[0]
        if which == "name":
            for k, x in zip(keys, xs):
                vals[f"s{name[0]}_" + "".join(map(str, k if isinstance(k, tuple) else (k,)))] = x
        return xs

    want = np.zeros((2**n, 2**n), complex)
    if c["det"]:
        nodes = list(R.nodes)
        for q, s in zip(nodes, strength(c["dst"], nodes, "detuning_strength", 7)):
            want += s * op(c["det"], q, n)
        kw["detuning"] = getattr(qadence, c["det"])
    if c["inter"]:
        own = lambda i, j: qadence.X(i) @ qadence.Z(j) + 0.5 * qadence.Y(i) @ qadence.Y(j)  # noqa: E731
        for (i, j), s in zip(order, strength(c["ist"], order, "interaction_strength", 0)):
            if c["inter"] == "own":
                want += s * (op("X", i, n) @ op("Z", j, n) + 0.5 * op("Y", i, n) @ op("Y", j, n))
            else:
                want += s * sum(op(a, i, n) @ op(a, j, n) for a in PAIR[c["inter"]])
        kw["interaction"] = own if c["inter"] == "own" else Interaction(c["inter"])
    got = hamiltonian_factory(reg, use_all_node_pairs=c["pairs"], **kw)
    close(tensor(got, range(n), vals), want, "Hamiltonian factory", tol=1e-7)
    if vals:
        names = set(str(p) for p in qadence.blocks.utils.parameters(got) if not getattr(p, "is_number", False))
        expect({x for x in names if not x.startswith("fix_")} == set(vals), f"parameters {sorted(names)}, expected {sorted(vals)}")
    return dict(nontrivial=c["ist"] is not None or c["dst"] is not None or c["topo"] != "all")


# ------------------------------------------------------------------ ansatzes
@st.composite
def ansatz_case(draw):
    n = draw(st.integers(2, 6))
    c = dict(kind=draw(st.sampled_from(["hea", "hea", "ala", "hea-da"])), n=n, depth=draw(st.integers(1, 4)), periodic=draw(st.booleans()),
             support=labels(draw, n, 10) if draw(st.booleans()) else None, ent=draw(st.sampled_from(ENTS)),
             ops=draw(st.lists(st.sampled_from(ROTS), min_size=1, max_size=3)), prefix=draw(st.sampled_from(["theta", "a", "w_1"])),
             m=draw(st.integers(1, 5)), own=draw(st.booleans()))
    c["m"] = min(c["m"], n)
    return c


def leaves(b):
    from qadence.blocks import CompositeBlock
    if isinstance(b, CompositeBlock):
        for x in b.blocks:
            yield from leaves(x)
    else:
        yield b


def gate_list(b):
    out = []
    for g in leaves(b):
        ps = [str(p) for p in g.parameters.expressions()] if hasattr(g, "parameters") else []
        out.append((type(g).__name__, tuple(g.qubit_support) if not hasattr(g, "control") else (*g.control, *[q for q in g.qubit_support if q not in g.control]), ps))
    return out


def canonical(gs):
    """Per qubit sequence of gates: equal sequences mean the same circuit up to reordering of disjoint gates."""
    qs = {}
    for name, sup, _ in gs:
        for q in sup:
            qs.setdefault(q, []).append((name, tuple(sup)))
    return qs


def run_ansatz(c):
    import qadence
    from qadence import ala, hamiltonian_factory, hea
    from qadence.types import Interaction
    n, d, sup = c["n"], c["depth"], c["support"] or list(range(c["n"]))
    ops = [getattr(qadence, o) for o in c["ops"]]
    kw = dict(operations=ops, param_prefix=c["prefix"])
    if c["support"]:
        kw["support"] = tuple(sup)
    want = []

    def rots():
        for o in c["ops"]:
            for q in sup:
                want.append((o, (q,), [None]))

    if c["kind"] == "hea-da":
        gen = hamiltonian_factory(n, Interaction.XY) if c["own"] else None
        kw.pop("support", None)
        sup = list(range(n))
        b = hea(n, d, strategy="sDAQC", entangler=gen, **kw)
        ls = list(leaves(b))
        per = len(c["ops"]) * n + 1
        expect(len(ls) == d * per, f"{len(ls)} operations, expected {d * per}")
        for k, g in enumerate(ls):
            if k % per == per - 1:
                expect(type(g).__name__ == "HamEvo", "entangling layer is an evolution")
                want_gen = sum(op(a, i, n) @ op(a, j, n) for i in range(n) for j in range(i + 1, n) for a in (("X", "Y") if c["own"] else ("N",)))
                close(tensor(g.generator, range(n)), want_gen, "generator of the entangling layer", tol=1e-8)
            else:
                expect((type(g).__name__, g.qubit_support) == (c["ops"][(k % per) // n], (k % per % n,)), f"rotation {k}: {g}")
        names = [str(p) for g in ls for p in g.parameters.expressions() if not getattr(p, "is_number", False)]
        expect(len(set(names)) == len(names) == len(ls), f"parameters repeat: {names}")
        return dict(nontrivial=d > 1 or c["own"])
    ent = getattr(qadence, c["ent"])
    par = [None] if c["ent"].startswith("CR") or c["ent"] == "CPHASE" else []
    if c["kind"] == "hea":
        b = hea(n, d, periodic=c["periodic"], entangler=ent, **kw)
        for _ in range(d):
            rots()
            links = [(i, i + 1) for i in range(0, n - 1, 2)] + [(i, i + 1) for i in range(1, n - 1, 2)]
            if c["periodic"] and n > 2:
                links.append((n - 1, 0))
            for i, j in links:
                want.append((c["ent"], (sup[i], sup[j]), par))
    else:
        m = c["m"]
        b = ala(n, m, d, entangler=ent, **kw)
        for layer in range(d):
            rots()
            start = 0 if layer % 2 == 0 else -((m + 1) // 2)
            for first in (0, 1):
                for s in range(start, n, m):
                    for j in range(first, m - 1, 2):
                        if 0 <= s + j and s + j + 1 < n:
                            want.append((c["ent"], (sup[s + j], sup[s + j + 1]), par))
    gs = gate_list(b)
    expect(len(gs) == len(want), f"{len(gs)} gates, expected {len(want)}")
    cg, cw = canonical(gs), canonical(want)
    for q in cw:
        if cg.get(q) != cw[q]:
            raise Violation(f"gates on qubit {q}: {cg.get(q)} expected {cw[q]}")
    names = [p for g in gs for p in g[2]]
    expect(len(names) == sum(len(w[2]) for w in want), f"{len(names)} parameters")
    expect(len(set(names)) == len(names), f"parameters repeat: {sorted(names)}")
    expect(all(x.startswith(c["prefix"]) for x in names), f"parameter names {names}")
    return dict(nontrivial=d > 1 or c["periodic"] or c["support"] is not None)


# ------------------------------------------------------------------ identity-initialised ansatz
@st.composite
def iia_case(draw):
    deep = draw(st.integers(0, 7)) == 0
    n = 6 if deep else draw(st.integers(2, 4))
    return dict(n=n, depth=12 if deep else draw(st.integers(1, 3)), da=(not deep) and draw(st.booleans()), ent=draw(st.sampled_from([None, *ENTS])),
                gen=draw(st.sampled_from([None, "XY", "ZZ", "XYZ"])), rot=draw(st.lists(st.sampled_from(["RX", "RY", "RZ", "PHASE"]), min_size=2 if deep else 1, max_size=3)),
                periodic=draw(st.booleans()), seed=draw(st.integers(0, 99)))


def run_iia(c):
    import torch
    import qadence
    from qadence import hamiltonian_factory, identity_initialized_ansatz, run
    from qadence.types import Interaction
    torch.manual_seed(c["seed"])
    n = c["n"]
    kw = dict(rotations=[getattr(qadence, r) for r in c["rot"]], periodic=c["periodic"])
    if c["da"]:
        kw["strategy"] = "sDAQC"
        if c["gen"]:
            kw["entangler"] = hamiltonian_factory(n, Interaction(c["gen"]))
    elif c["ent"]:
        kw["entangler"] = getattr(qadence, c["ent"])
    b = identity_initialized_ansatz(n, c["depth"], **kw)
    r = np.random.default_rng(c["seed"])
    psi = r.normal(size=2**n) + 1j * r.normal(size=2**n)
    psi /= np.linalg.norm(psi)
    close(arr(run(n, b, state=torch.tensor(psi).reshape(1, -1)))[0], psi, "identity-initialised ansatz on a state", tol=1e-6)
    gs = gate_list(b)
    rots = [g for g in gs if g[0] in c["rot"] or g[0] == "RX"]
    per = (2 * len(c["rot"]) + 1) * n
    expect(len(rots) == per * c["depth"], f"{len(rots)} rotations, expected {per * c['depth']}")
    names = [p for g in rots for p in g[2]]
    expect(len(set(names)) == len(names), "two rotations share a parameter")
    if not c["da"]:
        links = n if c["periodic"] else n - 1
        e = c["ent"] or "CNOT"
        es = [g for g in gs if g[0] == e]
        expect(len(es) == 2 * links * c["depth"], f"{len(es)} entanglers, expected {2 * links * c['depth']}")
    return dict(nontrivial=c["depth"] > 1 or c["periodic"] or c["da"])


# ------------------------------------------------------------------ Rydberg ansatz
@st.composite
def ryd_case(draw):
    n = draw(st.integers(2, 4))
    return dict(topo=draw(st.sampled_from(["line", "circle", "all", "graph"])), n=n, edges=[[0, 1]] if n == 2 else [[0, 1], [0, n - 1]], layers=draw(st.integers(1, 2)),
                det=draw(st.booleans()), drive=draw(st.booleans()), phase=draw(st.booleans()), prefix=draw(st.sampled_from([None, "q"])),
                v=[draw(st.sampled_from([0.3, -0.6, 1.1, 0.8, 1.9])) for _ in range(20)])


def run_ryd(c):
    from qadence import Register, rydberg_hea
    reg, n, edges = register(c)
    reg = Register(n) if c["topo"] == "all" else reg
    b = rydberg_hea(reg, c["layers"], c["det"], c["drive"], c["phase"], c["prefix"])
    v = iter(c["v"] * 2)
    pre = "" if c["prefix"] is None else "_q"
    vals = {}
    det = [1.0] * n
    drv = [1.0] * n
    if c["det"]:
        det = [next(v) for _ in range(n)]
        vals.update({f"detmap_{i}": det[i] for i in range(n)})
    if c["drive"]:
        drv = [next(v) for _ in range(n)]
        vals.update({f"drivemap_{i}": drv[i] for i in range(n)})
    ph = 0.0
    if c["phase"]:
        ph = vals["phase"] = next(v)
    I = sum(op("N", i, n) @ op("N", j, n) for i, j in edges)
    U = np.eye(2**n)
    for k in range(c["layers"]):
        t = {x: next(v) for x in ("At", "Omega", "wait")}
        vals.update({f"{x}{pre}_{k}": y for x, y in t.items()})
        D = sum(drv[i] * (math.cos(ph) * op("X", i, n) - math.sin(ph) * op("Y", i, n)) for i in range(n))
        N = sum(det[i] * op("N", i, n) for i in range(n))
        U = expm(-1j * t["Omega"] * N) @ expm(-1j * t["wait"] * I) @ expm(-1j * t["At"] * (D + I)) @ U
    close(tensor(b, range(n), vals), U, "Rydberg ansatz", tol=1e-5)
    return dict(nontrivial=c["det"] or c["drive"] or c["phase"])


FACETS = [
    Facet("qft", qft_case, run_qft, 120, 3000, 2),
    Facet("daqc", daqc_case, run_daqc, 120, 3000, 2),
    Facet("feature-map", fm_case, run_fm, 300, 9000, 2),
    Facet("hamiltonian", ham_case, run_ham, 250, 8000, 2),
    Facet("ansatz", ansatz_case, run_ansatz, 250, 8000, 2),
    Facet("identity-ansatz", iia_case, run_iia, 80, 2000, 2),
    Facet("rydberg-ansatz", ryd_case, run_ryd, 40, 1500, 1),
]
