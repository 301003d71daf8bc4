"""P29 drawings and printed expressions: read back and compared with the program they came from."""
from __future__ import annotations

import json
import os
import re
import tempfile

import numpy as np
from hypothesis import strategies as st

import gen as G
import spec as S
from harness import Facet, Skip, Violation
from oracle import close, expect

RULE = "distinct program with at least two gates (expressions: at least two terms or factors)"
ASSUMPTIONS = ["the drawing is read from the graph description which graphviz lays out, not from pixels", "placeholders for idle qubits are not part of the program",
               "a box over several wires may cover wires between those it acts on", "numbers are shown with three decimals", "the tag of the outermost block is not drawn"]
GATES = ["X", "Y", "Z", "H", "S", "SDagger", "T", "N", "RX", "RY", "RZ", "PHASE", "CNOT", "CZ", "SWAP", "CRX", "CRY", "CRZ", "CPHASE", "MCRX", "MCRZ", "MCPHASE", "MCZ", "Toffoli", "U"]
INNER = {"CNOT": "X", "CZ": "Z", "MCZ": "Z", "Toffoli": "X"}
TAGS = ["A", "my tag", "FM_1", "layer 2"]
SUB = {ord(a): b for a, b in zip("₀₁₂₃₄₅₆₇₈₉", "0123456789")}


@st.composite
def tagged(draw, s):
    k = s[0]
    if k in ("chain", "kron"):
        s = [k, [draw(tagged(c)) for c in s[1]]]
        if draw(st.integers(0, 4)) == 0:
            s = ["tag", draw(st.sampled_from(TAGS)), s]
    elif k not in ("scale", "add") and draw(st.integers(0, 8)) == 0:
        s = ["tag", draw(st.sampled_from(TAGS)), s]
    return s


PARAMS = ("num", "num", "v", "f", "lin")


def param(draw, cfg):
    k = draw(st.sampled_from(PARAMS))
    if k == "num":
        return draw(st.sampled_from([G.generic(draw), G.generic(draw, -40, 40) * 1000, 12345.678, 1 / 3, 3, -2, 10.0]))
    if k == "lin":
        a = ["f", draw(st.sampled_from(cfg.fnames))]
        b = ["v", *draw(st.sampled_from([["theta_12", 0.5], ["w", 0.25]]))]
        return draw(st.sampled_from([["*", 2.5, a], ["+", a, b], ["*", a, b], ["sin", b], ["-", a, 1.25]]))
    return ["f", draw(st.sampled_from(cfg.fnames))] if k == "f" else ["v", *draw(st.sampled_from([["theta_12", 0.5], ["theta_0", 1.0], ["w", 0.25]]))]


@st.composite
def strat_draw(draw):
    n = draw(st.integers(1, 5))
    cfg = G.Cfg(gates=GATES, hamevo=True, hamevom=True, projector=True, matrix=True, add=True, scale=True, max_depth=2, max_children=3, fnames=["x", "x_1", "phi_10"])
    old, G.param = G.param, lambda d, c, kinds=None, depth=2: param(d, c)
    try:
        b = G.circuit(draw, list(range(n)), cfg, 1, 4) if draw(st.integers(0, 3)) else G.block(draw, list(range(n)), cfg)
        o = G.hermitian(draw, list(range(n)), G.Cfg(params=("num",)), max_terms=2) if draw(st.integers(0, 2)) == 0 else None
    finally:
        G.param = old
    how = draw(st.sampled_from(["block", "circuit", "circuit", "model"]))
    return dict(block=draw(tagged(b)), obs=o if how == "model" else None, how=how, extra=draw(st.integers(0, 2)),
                theme=draw(st.sampled_from(["light", "dark", "black", "white"])), layout=draw(st.sampled_from(["LR", "TB", "lr"])),
                fill=draw(st.integers(0, 3)) > 0, out=draw(st.sampled_from(["display"] * 6 + ["svg", "save"])))


# ------------------------------------------------------------------ what the program says
def events(s, frames=(), root=True):
    """in program order: [kind, acting wires, label, parameters, enclosing frames]"""
    k = s[0]
    if k == "tag":
        inner = s[2]
        return events(inner, frames if root else frames + (s[1],), root)
    if k in ("chain", "kron"):
        return [e for c in s[1] for e in events(c, frames, False)]
    if k == "scale":
        if s[2][0] == "scale":  # factors are collected
            return events(["scale", ["*", s[1], s[2][1]], s[2][2]], frames, root)
        return events(s[2], frames + (("*", s[1]),), True)
    if k == "add":
        return [["box", S.support(s), "AddBlock", [], frames]]
    if k in ("HamEvo", "HamEvoM"):
        return [["box", S.support(s), "HamEvo", S.own_params(s), frames]]
    if k in ("Projector", "Matrix"):
        name = "Projector" if k == "Projector" else "MatrixBlock"
        sup = S.leaf_support(s)
        return [["gate" if len(sup) == 1 else "box", sup, name, [], frames]]
    sup = S.leaf_support(s)
    if k == "I":
        return []
    if k == "SWAP":
        return [["swap", sup, "", [], frames]]
    name = INNER.get(k) or re.sub("^(MC|C)(?=RX|RY|RZ|PHASE)", "", k)
    return [["gate", [sup[-1]] + sup[:-1], name, S.own_params(s), frames]]


# ------------------------------------------------------------------ what the drawing says
def read(g):
    j = json.loads(g.pipe(format="json0"))
    nodes, parent, clusters = {}, {}, {}
    for o in j.get("objects", []):
        if o["name"].startswith("cluster"):
            clusters[o["_gvid"]] = o
        else:
            nodes[o["_gvid"]] = o
    for c, o in clusters.items():
        for x in o.get("subgraphs", []):
            parent[x] = c
    own = {}
    for c, o in clusters.items():
        for x in o.get("nodes", []):
            # the innermost cluster: the one which none of the node's other clusters is contained in
            if x not in own or parent.get(c) == own[x] or depth(c, parent) > depth(own[x], parent):
                own[x] = c
    return j, nodes, clusters, parent, own, [(e["tail"], e["head"], e.get("style") == "invis") for e in j.get("edges", [])]


def depth(c, parent):
    d = 0
    while c in parent:
        c, d = parent[c], d + 1
    return d


def show(p, text, what):
    """the text shows the parameter p up to three decimals"""
    t = re.sub(r"(?<=[A-Za-z])([₀-₉]+)", lambda m: "_" + m.group(1).translate(SUB), text)
    vv, ff = S.pnames(p)
    names = sorted(set(vv) | set(ff))
    for seed in (1, 2):
        r = np.random.RandomState(seed)
        env = {k: float(r.uniform(0.2, 2)) for k in names}
        want = S.peval(p, env)
        try:
            got = eval(t, {"__builtins__": {}}, {**env, "sin": np.sin, "cos": np.cos, "pi": np.pi, "I": 1j})
        except Exception as e:
            raise Violation(f"{what}: {text!r} does not show {p} ({type(e).__name__}: {e})") from None
        expect(abs(got - want) <= 1.5e-3 * (1 + sum(abs(v) for v in env.values())), f"{what}: {text!r} does not show {p}")
    seen = set(re.findall(r"[A-Za-z]\w*", t)) - {"sin", "cos", "pi", "I"}
    expect(seen == set(names), f"{what}: {text!r} shows the parameters {sorted(seen)}, expected {names}")


def split_args(text):
    out, d, cur = [], 0, ""
    for ch in text:
        d += (ch == "(") - (ch == ")")
        if ch == "," and d == 0:
            out.append(cur)
            cur = ""
        else:
            cur += ch
    return out + [cur] if cur.strip() else out


def kind_of(ps):
    vs = [S.pnames(p) for p in ps]
    if not ps:
        return "plain"
    if any(v for v, _ in vs):
        return "var"
    return "feat" if any(f for _, f in vs) else "num"


COLOURS: dict = {}


def colours(theme):
    """how the four kinds of gates look in a theme, from single gates"""
    from qadence import RX, FeatureParameter, VariationalParameter, X

    if theme not in COLOURS:
        ref = dict(plain=X(0), num=RX(0, 0.5), var=RX(0, VariationalParameter("v")), feat=RX(0, FeatureParameter("x")))
        out = {}
        for k, b in ref.items():
            (nd,) = [o for o in read(graph(b, theme=theme))[1].values() if o.get("shape") == "box"]
            out[k] = look(nd)
        expect(theme in ("black", "white") or len(set(out.values())) == 4, f"theme {theme} does not tell the kinds of gates apart: {out}")
        COLOURS[theme] = out
    return COLOURS[theme]


def look(nd):
    return tuple(nd.get(k) for k in ("color", "fillcolor", "fontcolor", "style"))


def graph(x, **kw):
    import graphviz
    from qadence.draw import display

    keep = graphviz.Graph.view, graphviz.Graph.render
    graphviz.Graph.view = graphviz.Graph.render = lambda self, *a, **k: ""
    try:
        return display(x, **kw)
    finally:
        graphviz.Graph.view, graphviz.Graph.render = keep


def verify(g, evs, n, theme, layout, obs=None):
    j, nodes, clusters, parent, own, edges = read(g)
    expect(j.get("rankdir") == layout.upper(), f"layout {j.get('rankdir')}, asked for {layout}")
    look_of = colours(theme)
    wires = {}
    for i, o in nodes.items():
        wires.setdefault(int(o["group"]), []).append(i)
    expect(sorted(wires) == list(range(n)), f"wires {sorted(wires)}, the program has {n} qubits")
    seq = {}
    for w, ids in wires.items():
        inside = set(ids)
        nxt, has = {}, set()
        for a, b, _ in edges:
            if a in inside and b in inside:
                expect(a not in nxt and b not in has, f"wire {w} branches")
                nxt[a] = b
                has.add(b)
        heads = [i for i in ids if i not in has]
        expect(len(heads) == 1 and nodes[heads[0]]["label"] == str(w), f"wire {w} starts with {[nodes[i]['label'] for i in heads]}")
        path = [heads[0]]
        while path[-1] in nxt:
            path.append(nxt[path[-1]])
        expect(len(path) == len(ids), f"wire {w} is interrupted")
        expect(nodes[path[-1]].get("shape") == "plaintext" and len(path) >= 2, f"wire {w} has no end")
        seq[w] = [i for i in path[1:-1] if nodes[i].get("shape") != "square"]
    cross = {frozenset((a, b)) for a, b, inv in edges if not inv and nodes[a]["group"] != nodes[b]["group"]}
    used, boxes, skipped = set(), {}, []
    pos = {w: 0 for w in seq}

    def box_of(i):
        c = own.get(i)
        return c if c is not None and not clusters[c].get("label") else None

    def take(w, want, what):
        while pos[w] < len(seq[w]):
            i = seq[w][pos[w]]
            pos[w] += 1
            c = box_of(i)
            if c is not None and (want != "box" or w not in boxes.get(c, [w])):
                skipped.append((c, w))
                continue
            return i
        raise Violation(f"{what} is missing on wire {w}")

    def framed(i, frames, what):
        c, got = own.get(i), []
        while c is not None:
            if clusters[c].get("label"):
                got.append(clusters[c]["label"])
            c = parent.get(c)
        got = got[::-1]
        expect(len(got) == len(frames), f"{what} is drawn inside {got}, expected {list(frames)}")
        for t, f in zip(got, frames):
            if isinstance(f, str):
                expect(t == f, f"{what} is drawn inside {got}, expected {list(frames)}")
            else:
                m = re.fullmatch(r"(?:.*: )?\[\* (.*)\]", t)
                expect(m, f"{what} is drawn inside {got}, expected {list(frames)}")
                show(f[1], m.group(1), "scale of " + what)

    for kind, sup, label, ps, frames in evs:
        what = f"{label or 'SWAP'} on {sup}"
        if kind == "gate":
            i = take(sup[0], "gate", what)
            t = nodes[i]["label"]
            m = re.fullmatch(r"(\w+)(?:\((.*)\))?", t)
            expect(m and m.group(1) == label, f"wire {sup[0]} shows {t!r}, expected {what}")
            args = split_args(m.group(2) or "")
            expect(len(args) == len(ps), f"{what}: {t!r} shows {len(args)} parameters, expected {ps}")
            for a, p in zip(args, ps):
                show(p, a.strip(), what)
            expect(look(nodes[i]) == look_of[kind_of(ps)], f"{what} with parameters {ps} is not drawn as {kind_of(ps)}")
            framed(i, frames, what)
            for c in sup[1:]:
                k = take(c, "gate", "control of " + what)
                expect(nodes[k].get("shape") == "point", f"wire {c} shows {nodes[k]['label']!r}, expected the control of {what}")
                expect(frozenset((i, k)) in cross, f"{what} is not connected to its control on {c}")
                used.add(frozenset((i, k)))
                framed(k, frames, what)
        elif kind == "swap":
            a, b = sup
            d1, a1 = take(a, "gate", what), take(a, "gate", what)
            d2, a2 = take(b, "gate", what), take(b, "gate", what)
            expect(all(nodes[i].get("shape") == "octagon" for i in (d1, a1, d2, a2)), f"{what}: drawn as {[nodes[i].get('label') for i in (d1, a1, d2, a2)]}")
            for e in (frozenset((d1, a2)), frozenset((d2, a1))):
                expect(e in cross, f"{what} does not cross its wires")
                used.add(e)
            for i in (d1, a1, d2, a2):
                framed(i, frames, what)
        else:
            ids = set()
            for w in sup:
                i = take(w, "box", what)
                expect(box_of(i) is not None, f"wire {w} shows {nodes[i]['label']!r}, expected {what}")
                ids.add(box_of(i))
            expect(len(ids) == 1, f"{what} is drawn as {len(ids)} boxes")
            (c,) = ids
            expect(c not in boxes, f"{what}: one box stands for two blocks")
            boxes[c] = sup
            text = [nodes[i]["label"] for i in nodes if own.get(i) == c and nodes[i].get("style") != "invis"]
            joined = " ".join(t for t in text if t)
            expect(label in joined, f"{what}: the box shows {joined!r}")
            if ps:
                m = re.search(r"t ?= ?(.*?)\)?$", joined)
                t = re.search(r"t ?= ?(.*)$", joined).group(1) if m else ""
                if "(t=" in joined and t.endswith(")"):
                    t = t[:-1]
                show(ps[0], t, "time of " + what)
            covered = sorted(int(nodes[i]["group"]) for i in nodes if own.get(i) == c)
            span = list(range(min(sup), max(sup) + 1))
            ok = covered == span or label == "AddBlock" and covered == list(range(covered[0], covered[-1] + 1)) and set(span) <= set(covered)  # sums are filled up with identities
            expect(ok, f"{what}: the box covers wires {covered}")
            framed([i for i in nodes if own.get(i) == c][0], frames, what)
    for w in seq:
        for i in seq[w][pos[w]:]:
            c = box_of(i)
            expect(c is not None, f"wire {w} shows {nodes[i]['label']!r} ({nodes[i].get('shape')}), which the program does not contain")
            skipped.append((c, w))
    for c, w in skipped:
        expect(c in boxes and w not in boxes[c], f"wire {w} shows a box which the program does not contain there")
    expect(cross == used, f"{len(cross - used)} connections between wires belong to no gate")


def check_draw(c):
    from qadence import QuantumCircuit, QuantumModel
    from qadence.draw import html_string, savefig

    b = c["block"]
    if S.degenerate(b):
        raise Skip
    blk = S.build(b)
    before = repr(blk)
    n = max(S.support(b)) + 1
    evs = events(b)
    x = blk
    if c["how"] != "block":
        n += c["extra"]
        x = QuantumCircuit(n, blk)
    if c["how"] == "model":
        if S.kinds(b) & {"Projector", "add", "scale", "Matrix", "U"} or c["extra"] == 2 or c["obs"] and max(S.support(c["obs"])) >= n:
            raise Skip
        obs = S.build(c["obs"]) if c["obs"] else None
        x = QuantumModel(x, observable=obs)
        if obs is not None:
            root = ["chain", [b, ["tag", "Obs.", c["obs"]]]]
            evs = events(root)
    # a box over wires that parallel blocks use is drawn on top of them in an undefined order
    if overlapping(b):
        raise Skip
    kw = dict(theme=c["theme"], layout=c["layout"], fill=c["fill"])
    g = graph(x, **kw)
    verify(g, evs, n, c["theme"], c["layout"])
    expect(repr(blk) == before, "drawing changed the block")
    if c["out"] != "display":
        with tempfile.TemporaryDirectory() as d:
            if c["out"] == "svg":
                svg = html_string(x, **kw)
            else:
                f = os.path.join(d, "my plot.svg")
                savefig(x, f, **kw)
                expect(os.path.exists(f), "savefig did not write its file")
                svg = open(f).read()
        import html

        texts = sorted(html.unescape(t) for t in re.findall(r"<text[^>]*>([^<]*)</text>", svg))
        want = sorted(t for t in [o.get("label", "") for o in json.loads(g.pipe(format="json0"))["objects"] if o.get("style") != "invis"] if t)
        expect([t.replace("\xa0", " ").strip() for t in texts] == [t.strip() for t in want], f"the picture shows {texts}, the graph {want}")
    return dict(nontrivial=len(evs) >= 2)


def overlapping(s):
    """a kron in which a box of one part covers wires of another part"""
    if s[0] == "kron":
        parts = [(S.support(c), c) for c in s[1]]
        for i, (u, c) in enumerate(parts):
            span = set()
            for e in events(c):
                if e[0] == "box":
                    span |= set(range(min(e[1]), max(e[1]) + 1))
            if span & {w for j, (v, _) in enumerate(parts) if j != i for w in v}:
                return True
    return any(overlapping(c) for c in S.children(s) if s[0] in ("chain", "kron", "tag", "scale"))


# ------------------------------------------------------------------ analog programs
@st.composite
def strat_analog(draw):
    n = draw(st.integers(1, 8))
    ops = []
    for _ in range(draw(st.integers(1, 4))):
        k = draw(st.sampled_from(["AnalogRX", "AnalogRY", "AnalogRZ", "AnalogRot", "wait", "H"]))
        sup = None if k != "H" and draw(st.booleans()) else sorted(draw(st.sets(st.integers(0, n - 1), min_size=1, max_size=n)))
        if k == "H":
            sup = sup[:1]
        ops.append([k, param(draw, G.Cfg(fnames=["x", "x_1", "phi_10"])), sup])
    if any(s for _, _, s in ops):
        ops.append(["H", 0, [0]])  # a digital chain: purely analog ones take global or parallel blocks only
    return dict(n=n, ops=ops, theme=draw(st.sampled_from(["light", "dark"])), layout=draw(st.sampled_from(["LR", "TB"])))


def check_analog(c):
    import qadence as q

    bs, evs = [], []
    n = c["n"]
    for k, p, sup in c["ops"]:
        v = S.pbuild(p)
        kw = dict(qubit_support=tuple(sup) if sup else "global")
        if k == "H":
            bs.append(q.H(sup[0]))
            evs.append((sup, ["H"], {}))
            continue
        span = list(range(min(sup), max(sup) + 1)) if sup else list(range(n))
        if k == "wait":
            bs.append(q.AnalogInteraction(v, **kw))
            evs.append((span, ["Interaction"], {"t": p}))
        elif k == "AnalogRot":
            bs.append(q.AnalogRot(duration=1500, omega=v, delta=0.25, phase=0.5, **kw))
            evs.append((span, ["AnalogRot"], {"t": 1500, "Ω": p, "δ": 0.25, "φ": 0.5}))
        else:
            bs.append(getattr(q, k)(v, **kw))
            evs.append((span, ["AnalogRot"], {"α": p}))
    j, nodes, clusters, parent, own, edges = read(graph(q.QuantumCircuit(n, q.chain(*bs)), theme=c["theme"], layout=c["layout"]))
    ids = sorted(nodes)  # nodes are created wire by wire, in program order
    expect(sorted({int(o["group"]) for o in nodes.values()}) == list(range(n)), f"wires {sorted({o['group'] for o in nodes.values()})}, the program has {n} qubits")
    order = {}
    for w in range(n):
        inside = {i for i in ids if int(nodes[i]["group"]) == w}
        nxt = {a: b for a, b, _ in edges if a in inside and b in inside}
        (cur,) = inside - set(nxt.values())
        path = []
        while cur in nxt:
            cur = nxt[cur]
            path.append(cur)
        order[w] = [i for i in path[:-1] if nodes[i].get("shape") != "square"]
    for span, names, ps in evs:
        got = []
        for w in span:
            expect(order[w], f"{names[0]} is missing on wire {w}")
            got.append(order[w].pop(0))
        cs = {own.get(i) for i in got}
        expect(len(cs) == 1, f"{names[0]} on {span} is drawn as {len(cs)} boxes")
        (b,) = cs
        if names == ["H"]:
            expect(b is None and nodes[got[0]]["label"] == "H", f"wire {span[0]} shows {nodes[got[0]]['label']!r}, expected H")
            continue
        expect(b is not None and sorted(clusters[b]["nodes"]) == sorted(got), f"the box of {names[0]} does not cover the wires {span}")
        shown = [nodes[i]["label"] for i in got if nodes[i].get("style") != "invis" and nodes[i]["label"]]
        if len(shown) == 1 and "(" in shown[0]:
            m = re.fullmatch(r"(\w+)\((.*)\)", shown[0])
            shown = [m.group(1)] + split_args(m.group(2))
        expect(shown[0] == names[0], f"the box shows {shown}, expected {names[0]}")
        args = dict(re.split(" ?= ?", t.strip(), maxsplit=1) for t in shown[1:])
        for k, p in ps.items():
            expect(k in args, f"{names[0]} does not show {k}: {shown}")
            show(p, args[k], f"{k} of {names[0]}")
    expect(not any(order.values()), "the drawing contains more than the program")
    return dict(nontrivial=len(evs) >= 2)


# ------------------------------------------------------------------ printed expressions
@st.composite
def strat_expr(draw):
    n = draw(st.integers(1, 4))

    def term(qs, d, scale=True):
        k = draw(st.sampled_from(["p", "p", "kron", "add"] + ["scale"] * scale if d else ["p"]))
        if k == "p":
            return [draw(st.sampled_from(["X", "Y", "Z", "N", "I", "H"])), draw(st.sampled_from(qs))]
        if k == "kron" and len(qs) > 1:
            cut = draw(st.integers(1, len(qs) - 1))
            return ["kron", [term(qs[:cut], d - 1), term(qs[cut:], d - 1)]]
        if k in ("add", "kron"):
            return ["add", [term(qs, d - 1) for _ in range(draw(st.integers(1, 3)))]]
        c = draw(st.sampled_from([1.0, 1, -1, 2, 0, 0.0, 0.5, 0.125, -2.25, 1234567.5, 100000, ["f", "x"], ["v", "theta_1", 0.5], ["+", ["f", "x"], 1.5], ["*", 2.5, ["f", "x"]],
                                  ["-", ["f", "x"], ["v", "w", 0.25]], ["sq", ["f", "x"]], ["c", 0.5, 1.5], ["c", 0.0, 1.0]]))
        return ["scale", c, term(qs, d - 1, False)]  # nested factors would be multiplied before they are rounded

    return dict(n=n, op=term(list(range(n)), 3), x=draw(st.integers(-100, 100)) / 64)


class Op:
    def __init__(self, m):
        self.m = m

    def __add__(self, o):
        return Op(self.m + o.m)

    def __mul__(self, o):  # products of factors on different qubits commute with numbers in between
        return Op(self.m @ o.m if isinstance(o, Op) else o * self.m)

    __matmul__ = __mul__

    def __rmul__(self, k):
        return Op(k * self.m)


def check_expr(c):
    from qadence.utils import block_to_mathematical_expression

    n, s = c["n"], c["op"]
    if S.degenerate(s):
        raise Skip
    vv = S.names(s)[0]
    env = {**vv, "x": c["x"]}
    text = block_to_mathematical_expression(S.build(s))
    want = S.mat(s, env, n)
    scope = {g: (lambda g: lambda q: Op(S.mat([g, q], {}, n)))(g) for g in "XYZNHI"}

    class Both(complex):  # I is the imaginary unit in a coefficient, the identity when called
        def __call__(self, q):
            return scope["I_"](q)

    scope["I_"] = scope["I"]
    scope["I"] = Both(0, 1)
    if text == "":
        got = 0 * want
    else:
        try:
            v = eval(text.replace("⊗", "@"), {"__builtins__": {}}, {**scope, **env})
        except Exception as e:
            raise Violation(f"{text!r} is not an expression ({type(e).__name__}: {e})") from None
        expect(isinstance(v, Op), f"{text!r} is not an operator")
        got = v.m
    close(got, want, f"operator printed as {text!r}", 1e-9)
    return dict(nontrivial=len(S.leaves(s)) >= 2)


FACETS = [Facet("draw", strat_draw, check_draw, quick=800, thorough=8000, shards=4),
          Facet("analog", strat_analog, check_analog, quick=100, thorough=2000),
          Facet("expr", strat_expr, check_expr, quick=600, thorough=10000)]
