"""P13 registers."""
from __future__ import annotations

import copy
import math

import numpy as np
from hypothesis import strategies as st

import gen as G
from harness import Facet, Skip, Violation
from oracle import expect

RULE = "distinct register with at least three qubits (equality facet: a pair of registers, operations facet: at least two operations)"
ASSUMPTIONS = ["geometry recomputed from the constructor arguments in plain Python, relative tolerance 1e-9 (layouts from networkx: pairwise consistency only)"]
EPS = 2e-6


def num(draw, lo=1, hi=640):
    return draw(st.integers(lo, hi)) / 32


@st.composite
def reg_spec(draw, big=True):
    k = draw(st.sampled_from(["line", "circle", "square", "all_to_all", "rectangular_lattice", "triangular_lattice", "honeycomb_lattice", "from_coordinates", "graph", "int"]))
    sp = draw(st.sampled_from([1.0, 1.0, "d", num(draw), num(draw), 5, 8.0]))
    c = dict(kind=k, spacing=sp, dev=draw(st.integers(0, 4)), lattice=draw(st.booleans()))
    if k in ("line", "all_to_all", "int"):
        c["args"] = [draw(st.integers(1, 12))]
    elif k == "circle":
        c["args"] = [draw(st.integers(2, 12))]
    elif k == "square":
        c["args"] = [draw(st.integers(2, 6))]
    elif k.endswith("lattice"):
        c["args"] = [draw(st.integers(1, 4)), draw(st.integers(1, 5))]
    else:
        n = draw(st.integers(1, 7))
        pts = draw(st.lists(st.tuples(st.integers(-400, 400), st.integers(-400, 400)), min_size=n, max_size=n, unique=True))
        c["coords"] = [[a / 16, b / 16] for a, b in pts]
        if k == "graph":
            labels = list(draw(st.permutations(range(n)))) if draw(st.booleans()) else sorted(draw(st.sets(st.integers(0, 20), min_size=n, max_size=n)))
            c["labels"] = labels
            pairs = [(a, b) for i, a in enumerate(labels) for b in labels[:i]]
            c["edges"] = [list(p) for p in (draw(st.lists(st.sampled_from(pairs), max_size=6, unique=True)) if pairs else [])]
        c["spacing"] = draw(st.sampled_from([None, None, "d", 1.0, num(draw), num(draw)]))
    return c


def device(i):
    from qadence.analog import AddressingPattern, IdealDevice, RealisticDevice, RydbergDevice
    from qadence.types import Interaction

    return [IdealDevice, RealisticDevice, lambda: RydbergDevice(rydberg_level=70), lambda: RydbergDevice(interaction=Interaction.XY, coeff_xy=1234.5),
            lambda: IdealDevice(AddressingPattern(2, {0: 0.3, 1: 0.7}, {0: 0.5, 1: 0.1}, 2.0, 5.0))][i]()


def base_graph(c):
    import networkx as nx

    g = nx.Graph()
    for l, p in zip(c["labels"], c["coords"]):
        g.add_node(l, pos=tuple(p))
    g.add_edges_from([tuple(e) for e in c["edges"]])
    return g


def build(c):
    from qadence import Register

    kw = dict(device_specs=device(c["dev"]))
    if c["spacing"] != "d":
        kw["spacing"] = c["spacing"]
    k = c["kind"]
    if k == "from_coordinates":
        return Register.from_coordinates([tuple(p) for p in c["coords"]], **kw)
    if k == "graph":
        return Register(base_graph(c), **kw)
    if k == "int":
        return Register(c["args"][0], **kw)
    if c["lattice"]:
        return Register.lattice(k, *c["args"], **kw)
    return getattr(Register, k)(*c["args"], **kw)


def d2(a, b):
    return math.hypot(a[0] - b[0], a[1] - b[1])


def want_spacing(c):
    if c["spacing"] == "d":
        return None if c["kind"] == "from_coordinates" else 1.0
    return c["spacing"]


def expected(c):
    """-> (labels, edges, coords or None up to translation/rotation/scale) before spacing."""
    k = c["kind"]
    if k == "line":
        n = c["args"][0]
        return list(range(n)), {frozenset((i, i + 1)) for i in range(n - 1)}, [(float(i), 0.0) for i in range(n)]
    if k == "circle":
        n = c["args"][0]
        e = {frozenset((i, (i + 1) % n)) for i in range(n)} if n > 2 else {frozenset((0, 1))}
        return list(range(n)), e, [(math.cos(2 * math.pi * i / n), math.sin(2 * math.pi * i / n)) for i in range(n)]
    if k == "square":
        s = c["args"][0]
        n = 4 * (s - 1)
        pts = [(0, i) for i in range(s)] + [(-j, s - 1) for j in range(1, s)] + [(-(s - 1), s - 1 - j) for j in range(1, s)] + [(-(s - 1) + j, 0) for j in range(1, s - 1)]
        m = np.mean(np.array(pts, float), axis=0)
        return list(range(n)), {frozenset((i, (i + 1) % n)) for i in range(n)}, [tuple(np.array(p, float) - m) for p in pts]
    if k in ("all_to_all", "int"):
        n = c["args"][0]
        return list(range(n)), {frozenset((i, j)) for i in range(n) for j in range(i)}, None
    if k == "rectangular_lattice":
        r, q = c["args"]
        pts = [(float(i), float(j)) for i in range(q) for j in range(r)]
        return list(range(r * q)), {frozenset((a, b)) for a in range(r * q) for b in range(a) if abs(d2(pts[a], pts[b]) - 1) < EPS}, pts
    if k == "triangular_lattice":
        m, q = c["args"]
        return list(range((m + 1) * (1 + (q + 1) // 2) - (q % 2) * ((m + 1) // 2))), "unit", None
    if k == "honeycomb_lattice":
        m, q = c["args"]
        return list(range(2 * (m + 1) * (q + 1) - 2)), "unit", None
    if k == "from_coordinates":
        return list(range(len(c["coords"]))), set(), c["coords"]
    return c["labels"], {frozenset(e) for e in c["edges"]}, c["coords"]


def mind(pts):
    return min((d2(pts[a], pts[b]) for a in range(len(pts)) for b in range(a)), default=0.0)


def verify(r, c, factor=1.0, what="register"):
    labels, edges, pts = expected(c)
    sp = want_spacing(c)
    n = len(labels)
    expect(r.n_qubits == n, f"{what}: {r.n_qubits} qubits, expected {n}")
    expect(set(r.support) == set(labels) and set(r.nodes) == set(labels), f"{what}: support {r.support}")
    expect(list(r.nodes) == list(labels), f"{what}: nodes in order {list(r.nodes)}")
    co = r.coords
    expect(set(co) == set(labels) and all(len(p) == 2 for p in co.values()), f"{what}: coords {co}")
    cl = [co[l] for l in labels]
    got_edges = {frozenset(e) for e in r.edges}
    m = mind(cl)
    scale = max([1.0] + [abs(x) for p in cl for x in p])
    if sp is not None and n > 1:
        expect(abs(m - sp * factor) <= EPS * scale, f"{what}: smallest distance {m}, requested spacing {sp} times {factor}")
    if pts is not None and n > 1:
        f = factor * (sp / mind(pts) if sp is not None else 1.0)
        for l, p, w in zip(labels, cl, pts):
            expect(max(abs(p[0] - w[0] * f), abs(p[1] - w[1] * f)) <= EPS * scale, f"{what}: qubit {l} at {p}, expected {(w[0] * f, w[1] * f)}")
    if edges == "unit":
        edges = {frozenset((labels[a], labels[b])) for a in range(n) for b in range(a) if abs(d2(cl[a], cl[b]) - m) <= 1e-6 * scale}
    expect(got_edges == edges, f"{what}: edges {sorted(map(sorted, got_edges))}, expected {sorted(map(sorted, edges))}")
    # distances
    dd = r.distances
    expect(len(dd) == n * (n - 1) // 2 and {frozenset(k) for k in dd} == {frozenset((a, b)) for a in labels for b in labels if a != b}, f"{what}: distance keys {list(dd)}")
    expect({frozenset(p) for p in r.all_node_pairs} == {frozenset(k) for k in dd} and len(list(r.all_node_pairs)) == len(dd), f"{what}: node pairs {list(r.all_node_pairs)}")
    for (a, b), v in dd.items():
        expect(abs(v - d2(co[a], co[b])) <= EPS * scale, f"{what}: distance of {(a, b)} is {v}, coordinates give {d2(co[a], co[b])}")
    ed = r.edge_distances
    expect({frozenset(k) for k in ed} == got_edges, f"{what}: edge distances of {list(ed)}")
    for (a, b), v in ed.items():
        expect(abs(v - d2(co[a], co[b])) <= EPS * scale, f"{what}: edge distance of {(a, b)} is {v}")
    expect(abs(r.min_distance - m) <= EPS * scale, f"{what}: min_distance {r.min_distance}, exact {m}")
    expect(r.device_specs == device(c["dev"]), f"{what}: device {r.device_specs}")
    for l in labels:
        expect(tuple(r[l]["pos"]) == tuple(co[l]), f"{what}: register[{l}] is {r[l]}")


def check_geometry(case):
    r = build(case)
    verify(r, case)
    verify(build(case), case, what="second construction")
    return dict(nontrivial=r.n_qubits >= 3)


# ------------------------------------------------------------------ histories of operations
@st.composite
def strat_ops(draw):
    c = draw(reg_spec())
    ops = [draw(st.sampled_from(["rescale", "rescale", "roundtrip", "json", "file", "respace", "copy", "circuit", "eqself"])) for _ in range(draw(st.integers(1, 5)))]
    return dict(reg=c, ops=[[o, num(draw, 8, 128) if o in ("rescale", "respace") else None] for o in ops])


def check_ops(case):
    import json
    import os
    import tempfile

    from qadence import QuantumCircuit, Register, X, deserialize, load, save, serialize

    c = case["reg"]
    if c["dev"] == 4:
        c = dict(c, dev=0)  # addressing patterns: P11
    r = build(c)
    orig, factor = r, 1.0
    trail = [(r, 1.0, c)]
    for op, v in case["ops"]:
        if op == "rescale":
            r = r.rescale_coords(v)
            factor *= v
        elif op == "respace":
            r = Register(r.graph, spacing=v, device_specs=r.device_specs)
            if r.n_qubits > 1:
                c = dict(c, spacing=v)
                factor = 1.0
        elif op == "roundtrip":
            r = deserialize(serialize(r))
        elif op == "json":
            r = deserialize(json.loads(json.dumps(serialize(r))))
        elif op == "file":
            with tempfile.TemporaryDirectory() as d:
                save(r, d, "reg")
                r = load(os.path.join(d, "reg.json"))
        elif op == "copy":
            r = copy.deepcopy(r)
        elif op == "circuit":
            if sorted(r.nodes) != list(range(r.n_qubits)):
                continue
            r = QuantumCircuit(r, X(0)).register
        elif op == "eqself":
            expect(r == copy.deepcopy(r), f"a copy of the register compares different after {case['ops']}")
        trail.append((r, factor, c))
        # no operation changes the registers it started from
        for k, (x, f, cc) in enumerate(trail):
            verify(x, cc, f, f"register {k} after {op}" if x is r else f"earlier register {k} after {op}")
    return dict(nontrivial=orig.n_qubits >= 3 and len(case["ops"]) >= 2)


# ------------------------------------------------------------------ graphs are the user's
@st.composite
def strat_graph(draw):
    c = draw(reg_spec().filter(lambda c: c["kind"] == "graph"))
    return dict(reg=c, spacings=[draw(st.sampled_from([None, 1.0, num(draw), num(draw)])) for _ in range(draw(st.integers(2, 4)))])


def check_graph(case):
    """several registers from one user graph."""
    from qadence import Register

    c = case["reg"]
    g = base_graph(c)
    regs = []
    for sp in case["spacings"]:
        regs.append((Register(g, spacing=sp, device_specs=device(c["dev"])), dict(c, spacing=sp)))
        for i, (r, cc) in enumerate(regs):
            verify(r, cc, what=f"register {i} of {len(regs)} built from one graph")
        expect({k: tuple(v["pos"]) for k, v in g.nodes.items()} == {l: tuple(p) for l, p in zip(c["labels"], c["coords"])}, "building a register moved the nodes of the user's graph")
    return dict(nontrivial=len(c["coords"]) >= 3)


# ------------------------------------------------------------------ equality
@st.composite
def strat_eq(draw):
    c = draw(reg_spec())
    mode = draw(st.sampled_from(["same", "spacing", "device", "edge", "coord", "move_edge", "label"]))
    if mode in ("edge", "coord", "move_edge", "label"):
        c = draw(reg_spec().filter(lambda c: c["kind"] == "graph" and len(c["coords"]) >= 3))
        if mode == "move_edge" and not c["edges"]:
            mode = "edge"
    return dict(reg=c, mode=mode, k=draw(st.integers(0, 50)), delta=draw(st.sampled_from([1e-3, 0.5, 2.0])))


def check_eq(case):
    from qadence import Register

    c = copy.deepcopy(case["reg"])
    mode, k = case["mode"], case["k"]
    a, b = build(case["reg"]), None
    same = False
    c["spacing"] = c["spacing"] if mode == "spacing" else case["reg"]["spacing"]
    if mode == "same":
        same = True
        b = build(c)
    elif mode == "spacing":
        if len(expected(c)[0]) < 2:
            raise Skip
        b = build(c).rescale_coords(1 + case["delta"])
        same = all(p == q for p, q in zip(a.coords.values(), b.coords.values()))
    elif mode == "device":
        c["dev"] = (c["dev"] + 1 + k % 4) % 5
        b = build(c)
    else:
        c["spacing"] = None
        a = build(dict(case["reg"], spacing=None))
        pairs = [[x, y] for i, x in enumerate(c["labels"]) for y in c["labels"][:i]]
        have = {frozenset(e) for e in c["edges"]}
        free = [p for p in pairs if frozenset(p) not in have]
        if mode == "coord":
            c["coords"][k % len(c["coords"])][k % 2] += case["delta"]
        elif mode == "edge":
            if k % 2 and c["edges"]:
                c["edges"].pop(k % len(c["edges"]))
            elif free:
                c["edges"].append(free[k % len(free)])
            else:
                raise Skip
        elif mode == "move_edge":
            if not free:
                raise Skip
            c["edges"][k % len(c["edges"])] = free[k % len(free)]
        elif mode == "label":
            new = max(c["labels"]) + 1
            old = c["labels"][k % len(c["labels"])]
            c["labels"] = [new if x == old else x for x in c["labels"]]
            c["edges"] = [[new if x == old else x for x in e] for e in c["edges"]]
        b = build(c)
    expect((a == b) is same and (b == a) is same, f"registers that {'agree' if same else 'differ'} ({mode}) compare {'different' if same else 'equal'}")
    expect((a != b) is (not same), "!= is not the negation of ==")
    expect(not (a == 3) and not (a == None), "a register equals a non-register")  # noqa: E711
    return dict(nontrivial=a.n_qubits >= 3)


FACETS = [
    Facet("geometry", reg_spec, check_geometry, 700, 15000, 2),
    Facet("operations", strat_ops, check_ops, 350, 8000, 3),
    Facet("graph", strat_graph, check_graph, 300, 5000, 1),
    Facet("equality", strat_eq, check_eq, 500, 10000, 2),
]
