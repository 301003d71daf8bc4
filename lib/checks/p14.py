"""P14 analog blocks evolve under the documented Rydberg Hamiltonian."""
from __future__ import annotations

import math

import json

import numpy as np
import torch
from hypothesis import strategies as st

import analog as A
import gen as G
import spec as S
from harness import Facet, Skip, Violation
from oracle import arr, close, expect

RULE = "distinct program in which interaction, drive or pattern changes the final state by more than 1e-3"
ASSUMPTIONS = ["local rotations composed in parallel are executed one after the other, each with the full background "
               "Hamiltonian (stated in parse_analog.py and shared by the pulser backend)"]


def draw_coords(draw, n, lo=6.0):
    """n points with pairwise distance at least lo (integer-ish grid plus jitter)."""
    pts = []
    cells = draw(st.permutations([(i, j) for i in range(3) for j in range(3)]))
    unit = draw(st.sampled_from([lo, lo * 1.2, lo * 1.6]))
    for i in range(n):
        jx, jy = draw(st.integers(0, 8)) / 80 * unit, draw(st.integers(0, 8)) / 80 * unit
        x, y = cells[i]
        pts.append([x * unit * 1.2 + jx, y * unit * 1.2 + jy])
    return pts


def draw_register(draw, n, cfg, pattern=True, inter=("NN", "NN", "XY"), lo=6.0, pkinds=("num", "num", "v", "f")):
    r = dict(coords=draw_coords(draw, n, lo), level=draw(st.sampled_from([60, 50, 65, 70])), inter=draw(st.sampled_from(inter)),
             c3=draw(st.sampled_from([3700.0, 1000.0, 250.5])), pattern=None)
    if pattern and draw(st.booleans()):
        def w(kinds):
            k = draw(st.sampled_from(list(kinds)))
            if k == "num":
                return draw(st.sampled_from([0, 1, 1, 2, *range(3, 17)])) / 16
            return G.param(draw, cfg, [k])

        p = dict(wa={str(i): w(pkinds) for i in range(n) if draw(st.integers(0, 3))},
                 wd={str(i): w(pkinds) for i in range(n) if draw(st.integers(0, 3))})
        if draw(st.integers(0, 3)):
            p["amp"] = draw(st.sampled_from([0.5, 1.5, 2.5, 3.5, 7.0, 40.0, 350.0])) if draw(st.integers(0, 3)) or "v" not in pkinds else G.param(draw, cfg, ["v", "f"])
        if draw(st.integers(0, 3)):
            p["det"] = draw(st.sampled_from([1.0, 4.5, -4.5, 30.0, 150.0, 600.0, -1200.0, 13000.0])) if draw(st.integers(0, 3)) or "v" not in pkinds else G.param(draw, cfg, ["v", "f"])
            if isinstance(p["det"], float) and abs(p["det"]) > 500 and draw(st.integers(0, 3)):
                p["wd"] = {str(i): draw(st.sampled_from([1, 1, 2])) / 16 for i in range(n)}
        r["pattern"] = p
    return r


def pos(draw, lo, hi):
    return float(draw(st.integers(lo, hi)))


def dur(draw, cfg, kinds):
    """positive duration in ns"""
    if draw(st.integers(0, 3)) == 0 and any(k in kinds for k in ("v", "f")):
        p = G.param(draw, cfg, [k for k in kinds if k in ("v", "f")])
        return ["*", 100.0, ["+", 2.0, ["sin", p]]]
    return pos(draw, 20, 900)


def small(draw, cfg, kinds):
    if draw(st.integers(0, 3)) == 0 and any(k in kinds for k in ("v", "f", "expr")):
        return G.param(draw, cfg, [k for k in kinds if k in ("v", "f", "expr")], 1)
    return draw(st.integers(-96, 96)) / 16


def draw_op(draw, n, cfg, kinds, local=None, kd=None):
    addp = draw(st.integers(0, 3)) != 0
    kind = draw(st.sampled_from(["rot", "rot", "rx", "ry", "rz", "wait"]))
    if kind == "rot":
        om, de = small(draw, cfg, kinds), small(draw, cfg, kinds)
        if om == 0 and de == 0:
            om = 1.5
        return ["rot", kd if kd is not None else dur(draw, cfg, kinds), om, de, small(draw, cfg, kinds), local, addp]
    if kind == "wait":
        return ["wait", kd if kd is not None else dur(draw, cfg, kinds), local, addp]
    a = kd / 1000 * math.pi if kd is not None else (["*", 0.8, ["+", 2.0, ["sin", G.param(draw, cfg, ["v", "f"])]]] if draw(st.integers(0, 3)) == 0 and "v" in kinds else pos(draw, 1, 90) / 16)
    return [kind, a, local, addp]


def draw_ops(draw, n, cfg, kinds=("v", "f", "expr"), gates=True, maxops=4):
    ops = []
    for _ in range(draw(st.integers(1, maxops))):
        k = draw(st.integers(0, 5))
        if k <= 2:
            ops.append(draw_op(draw, n, cfg, kinds))
        elif k <= 4 or not gates:
            perm = list(draw(st.permutations(range(n))))
            d = pos(draw, 20, 600)
            m = draw(st.integers(1, min(3, n)))
            cuts = sorted(draw(st.lists(st.integers(1, n - 1), min_size=m - 1, max_size=m - 1, unique=True))) if m > 1 else []
            parts = [perm[a:b] for a, b in zip([0] + cuts, cuts + [n])]
            ms = [draw_op(draw, n, cfg, kinds, local=q, kd=d) for q in parts]
            if len(ms) >= 3 and draw(st.booleans()):
                ms = [["kron", ms[:2]], *ms[2:]]
            ops.append(["kron", ms])
        else:
            ops.append(["gate", G.leaf(draw, list(range(n)), G.Cfg(gates=["X", "H", "RX", "RY", "CNOT", "RZ"] if n > 1 else ["X", "H", "RX"], params=("num", "v"), vvals=cfg.vvals))])
    if draw(st.integers(0, 4)) == 0:
        ops.append(draw(st.sampled_from(ops)))
    return ops


@st.composite
def strat(draw):
    cfg = G.Cfg()
    n = draw(st.integers(1, 4))
    r = draw_register(draw, n, cfg)
    ops = draw_ops(draw, n, cfg)
    fv = G.feature_values(draw, A.names(r, ops)[1], draw(st.sampled_from([1, 1, 2, 3])))
    return dict(reg=r, ops=ops, f=fv, init=draw(st.one_of(st.none(), st.integers(0, 50))))


def flat(op):
    return [x for y in op[1] for x in flat(y)] if op[0] == "kron" else [op]


def normal(ops):
    """nested parallel groups are one parallel group"""
    return [["kron", flat(o)] if o[0] == "kron" else o for o in ops]


def compose(ops):
    from qadence import chain

    made: dict = {}  # an operation occurring twice is one shared block
    return chain(*[made[k] if (k := json.dumps(o)) in made else made.setdefault(k, A.build_op(o)) for o in ops])


def ok_case(case, es):
    for e in es:
        if A.margin(case["reg"], e) < 1e-3:
            raise Skip
        for o in case["ops"]:
            for x in flat(o):
                if x[0] == "rot" and (not isinstance(x[2], (int, float)) or not isinstance(x[3], (int, float))):
                    # alpha / h_norm divides by the norm of the drive
                    if abs(S.peval(x[2], e)) + abs(S.peval(x[3], e)) < 1e-3:
                        raise Skip


def reference(case):
    vv, _ = A.names(case["reg"], case["ops"])
    es = G.envs(vv, case["f"])
    ok_case(case, es)
    n = len(case["reg"]["coords"])
    psi = np.zeros(2**n, complex)
    psi[0] = 1
    if case["init"] is not None:
        psi = arr(G.state_vec(case["init"], n))[0]
    out, se, eff = [], 0.0, False
    for e in es:
        segs = A.segments(case["reg"], normal(case["ops"]), e)
        if A.sens(segs) > 3000:
            raise Skip
        se = max(se, A.sens(segs))
        w = A.unitary(segs, n) @ psi
        eff = eff or bool(np.max(np.abs(w - psi)) > 1e-3)
        out.append(w)
    return np.array(out), 2e-5 + 1e-6 * se, eff, n


def check(case):
    from pulser.devices.interaction_coefficients import c6_dict
    from qadence import QuantumCircuit, QuantumModel

    lv = case["reg"]["level"]
    expect(abs(A.c6(lv) / c6_dict[lv] - 1) < 1e-9, f"C6 coefficient of level {lv}")
    want, tol, eff, n = reference(case)
    reg = A.build_register(case["reg"])
    m = QuantumModel(QuantumCircuit(reg, compose(case["ops"])))
    kw = {} if case["init"] is None else dict(state=torch.as_tensor(G.state_vec(case["init"], n)))
    got = arr(m.run(G.tensors(case["f"]), **kw))
    if len(got) == 1 and case["reg"].get("pattern") and np.max(np.abs(want - want[0])) < 1e-9:
        want = want[:1]  # features of a pattern that no block uses do not belong to the circuit
    close(got, np.broadcast_to(want, got.shape) if len(want) == 1 else want, "state after the analog program", tol, 1.0)
    expect(got.shape[0] == len(want), f"{got.shape[0]} states for {len(want)} parameter values")
    return dict(nontrivial=eff)


# ------------------------------------------------- Hamiltonian of a single block
@st.composite
def strat_ham(draw):
    cfg = G.Cfg()
    n = draw(st.integers(2, 4))
    r = draw_register(draw, n, cfg, pkinds=("num",))
    loc = list(draw(st.permutations(range(n))))[: draw(st.integers(1, n))] if draw(st.booleans()) else None
    op = draw_op(draw, n, cfg, (), local=loc)
    return dict(reg=r, ops=[op], f={}, init=None)


def check_ham(case):
    from qadence import block_to_tensor
    from qadence.analog import add_background_hamiltonian
    from qadence.operations import HamEvo

    ok_case(case, [{}])
    op = case["ops"][0]
    reg = A.build_register(case["reg"])
    n = reg.n_qubits
    b = add_background_hamiltonian(A.build_op(op), reg)
    if not isinstance(b, HamEvo):
        raise Violation(f"background Hamiltonian of one block is a {type(b).__name__}")
    (H, t), = A.segments(case["reg"], [op], {})
    got = arr(block_to_tensor(b.generator, qubit_support=tuple(range(n))))[0]
    close(got, H, "generator of the analog block", 2e-6, max(1.0, np.abs(H).max()))
    ev = np.sort(np.linalg.eigvalsh(H))
    ge = np.sort(arr(b.eigenvalues_generator).real)
    if len(ge) == len(ev):
        close(ge, ev, "spectrum of the generator", 1e-5, max(1.0, np.abs(ev).max()))
    return dict(nontrivial=bool(np.abs(H).max() > 1e-2))


# ------------------------------------------------- validity of compositions
@st.composite
def strat_bad(draw):
    n = draw(st.integers(2, 4))
    k = draw(st.sampled_from(["overlap", "duration", "global", "localchain", "zero", "ok"]))
    qs = list(draw(st.permutations(range(n))))
    cut = draw(st.integers(1, n - 1))
    return dict(kind=k, n=n, a=qs[:cut], b=qs[cut:], d=pos(draw, 10, 500), e=pos(draw, 1, 100))


def check_bad(case):
    from qadence import AnalogInteraction, AnalogRot, chain, kron

    a, b, d = tuple(case["a"]), tuple(case["b"]), case["d"]
    rot = lambda s, t=d: AnalogRot(duration=t, omega=2.0, qubit_support=s)  # noqa: E731
    fs = dict(overlap=lambda: kron(rot(a), rot(b + a[:1])), duration=lambda: kron(rot(a), rot(b, d + case["e"])),
              localchain=lambda: chain(rot(a), rot(b)), zero=lambda: AnalogRot(duration=d, omega=0, delta=0),
              ok=lambda: kron(rot(a), AnalogInteraction(d, b)))
    fs["global"] = lambda: kron(rot(a), AnalogInteraction(d))
    try:
        out = fs[case["kind"]]()
    except ValueError:
        expect(case["kind"] != "ok", "valid parallel composition rejected")
        return
    expect(case["kind"] == "ok", f"invalid analog composition ({case['kind']}) accepted")
    expect(set(out.qubit_support) == set(range(case["n"])), "support of a parallel composition")


# ------------------------------------------------- analog SWAP
def strat_swap():
    return st.permutations(range(4)).map(lambda p: dict(pair=list(p)[:2], n=4))


def check_swap(case):
    from qadence import AnalogSWAP, block_to_tensor

    c, t = case["pair"]
    U = arr(block_to_tensor(AnalogSWAP(c, t), qubit_support=tuple(range(4))))[0]
    W = S.embed(S.SW, [c, t], 4)
    ph = np.trace(W.conj().T @ U) / 16
    expect(abs(abs(ph) - 1) < 1e-4, f"AnalogSWAP is not a SWAP up to a phase (overlap {abs(ph)})")


FACETS = [
    Facet("program", strat, check, 140, 5000, 5),
    Facet("hamiltonian", strat_ham, check_ham, 60, 2000, 2),
    Facet("composition", strat_bad, check_bad, 30, 200, 1),
    Facet("swap", strat_swap, check_swap, 6, 12, 1),
]
