"""P11 serialization round trips."""
from __future__ import annotations

import copy
import json
import logging
import os
import tempfile

import numpy as np
from hypothesis import strategies as st

import gen as G
import spec as S
from checks.p13 import reg_spec
from harness import Facet, Skip, Violation
from oracle import arr, close, expect

RULE = "distinct object with at least two leaves or a parametric expression (registers: at least two qubits; noise: at least one channel)"
ASSUMPTIONS = ["the rebuilt object is judged by the dense numpy model of the specification it came from", "analog blocks are outside: their _to_dict is declared not implemented"]
logging.disable(logging.CRITICAL)

CFG = dict(gates=G.UNITARY_GATES + ["N", "N0", "TDagger"], add=True, scale=True, complex_scale=True, hamevo=True, hamevom=True, projector=True, matrix=True,
           gen_params=("num", "v", "f"), max_depth=3)
HOW = ["dict", "json", "json", "file", "pt"]
TAGS = ["A", "my tag", "x_1", "Trainable Ansatz", "ä"]


def roundtrip(obj, how, name="obj"):
    from qadence import deserialize, load, save, serialize
    from qadence.types import SerializationFormat as F

    if how == "dict":
        d = serialize(obj)
        keep = copy.deepcopy(d)
        out = deserialize(d)
        expect(json.dumps(d) == json.dumps(keep), "deserialising changed the dictionary it was given")
        return out
    if how == "json":
        return deserialize(json.loads(json.dumps(serialize(obj))))
    with tempfile.TemporaryDirectory() as d:
        if how == "file":
            save(obj, d, name)
            return load(os.path.join(d, name + ".json"))
        save(obj, d, name, format=F.PT)
        return load(os.path.join(d, name + ".pt"))


def text(obj):
    from qadence import serialize

    d = serialize(obj)
    expect(bool(d), f"serialising {type(obj).__name__} returned an empty dictionary")
    return json.dumps(d)


def tags_of(b):
    out = [(type(b).__name__, b.tag)]
    for c in getattr(b, "blocks", ()) or ():
        out += tags_of(c)
    if type(b).__name__ == "ScaleBlock":
        out += tags_of(b.block)
    if type(b).__name__ == "HamEvo" and hasattr(b.generator, "tag"):
        out += tags_of(b.generator)
    return out


def param_table(b):
    import sympy
    from qadence.blocks.utils import parameters

    return sorted((p.name, bool(p.trainable), bool(p.is_time), round(float(p.value), 12) if p.trainable else None) for p in parameters(b) if isinstance(p, sympy.Symbol))


@st.composite
def tagged(draw, s, depth=0):
    k = s[0]
    r = list(s)
    if k in S.COMPOSITE:
        r = [k, [draw(tagged(c, depth + 1)) for c in s[1]]]
    elif k == "scale":
        r = [k, s[1], draw(tagged(s[2], depth + 1))]
    elif k == "HamEvo":
        r = [k, draw(tagged(s[1], depth + 1)), s[2]]
    if draw(st.integers(0, 5)) == 0:
        r = ["tag", draw(st.sampled_from(TAGS)), r]
    return r


@st.composite
def strat_block(draw):
    cfg = G.Cfg(**CFG)
    n = draw(st.integers(1, 4))
    qs = sorted(draw(st.sets(st.integers(0, 12), min_size=n, max_size=n)))
    b = G.block(draw, qs, cfg, draw(st.integers(0, 3)))
    b = draw(tagged(b))
    return dict(block=b, f=G.feature_values(draw, S.names(b)[1], draw(st.sampled_from([1, 2]))), how=draw(st.sampled_from(HOW)))


def check_block(case):
    from qadence import block_to_tensor

    b = case["block"]
    if S.degenerate(b):
        raise Skip
    es = G.envs(S.names(b)[0], case["f"])
    bound = max(S.opbound(b, e) for e in es)
    if not bound < 1e4 or max(S.sens(b, e) for e in es) > 3000:
        raise Skip
    blk = S.build(b)
    before = text(blk)
    table, tags = param_table(blk), tags_of(blk)
    got = roundtrip(blk, case["how"])
    expect(text(blk) == before, "serialising changed the block")
    expect(type(got) is type(blk), f"a {type(blk).__name__} came back as {type(got).__name__}")
    expect(tuple(got.qubit_support) == tuple(blk.qubit_support), f"qubit support {got.qubit_support}, was {blk.qubit_support}")
    expect(param_table(got) == table, f"parameters {param_table(got)}, were {table}")
    expect(tags_of(got) == tags, f"tree and tags {tags_of(got)}, were {tags}")
    expect(text(got) == before, f"second serialisation differs from the first:\n{text(got)}\n{before}")
    sup = S.support(b)
    want = np.array([S.submatrix_embed(b, e, sup) for e in es])
    m = arr(block_to_tensor(got, G.tensors(case["f"]), qubit_support=tuple(sup)))
    base = arr(block_to_tensor(blk, G.tensors(case["f"]), qubit_support=tuple(sup)))
    if m.shape[0] == 1 and len(want) > 1:
        m, base = (np.repeat(x, len(want), 0) for x in (m, base))
    close(m, base, "matrix of the rebuilt block against the original", 1e-9, bound)
    if not (S.kinds(b) & {"Projector"}):  # P02 owns the projector convention
        close(m, want, "matrix of the rebuilt block against the model", S.tol(b, es) * max(1, bound), 1.0)
    expect(got == blk, "the rebuilt block compares different from the original")
    return dict(nontrivial=len(S.leaves(b)) >= 2 or any(not isinstance(p, (int, float)) for p in S.all_params(b)))


# ------------------------------------------------------------------ circuits
@st.composite
def strat_circuit(draw):
    cfg = G.Cfg(max_depth=2, hamevo=True)
    n = draw(st.integers(1, 4))
    c = dict(n=n, how=draw(st.sampled_from(HOW + ["to_json"])), kind=draw(st.sampled_from(["int", "line", "circle", "coords"])), spacing=draw(st.integers(1, 80)) / 8,
             dev=draw(st.integers(0, 3)))
    b = G.circuit(draw, list(range(n)), cfg, 1, 5)
    c["block"] = draw(tagged(b)) if draw(st.booleans()) else b
    c["f"] = G.feature_values(draw, S.names(b)[1], draw(st.sampled_from([1, 2])))
    c["pts"] = [[x / 8, y / 8] for x, y in draw(st.lists(st.tuples(st.integers(-80, 80), st.integers(-80, 80)), min_size=n, max_size=n, unique=True))]
    return c


def circuit_register(c):
    from checks.p13 import device
    from qadence import Register

    n, kw = c["n"], dict(spacing=c["spacing"], device_specs=device(c["dev"]))
    if c["kind"] == "line":
        return Register.line(n, **kw)
    if c["kind"] == "circle" and n > 1:
        return Register.circle(n, **kw)
    if c["kind"] == "coords":
        return Register.from_coordinates([tuple(p) for p in c["pts"]], device_specs=kw["device_specs"])
    return Register(n, **kw)


def geometry(r):
    return ({k: tuple(map(float, v)) for k, v in r.coords.items()}, {frozenset(e) for e in r.edges}, r.device_specs)


def check_circuit(case):
    from qadence import QuantumCircuit, run

    b, n = case["block"], case["n"]
    if S.degenerate(b):
        raise Skip
    es = G.envs(S.names(b)[0], case["f"])
    if max(S.sens(b, e) for e in es) > 2000:
        raise Skip
    reg = circuit_register(case)
    circ = QuantumCircuit(reg, S.build(b))
    before, geo = text(circ), geometry(reg)
    if case["how"] == "to_json":
        with tempfile.TemporaryDirectory() as d:
            circ._to_json(os.path.join(d, "c.json"))
            got = QuantumCircuit._from_json(os.path.join(d, "c.json"))
    else:
        got = roundtrip(circ, case["how"])
    expect(text(circ) == before and geometry(circ.register) == geo, "serialising changed the circuit")
    expect(isinstance(got, QuantumCircuit) and got.n_qubits == n, f"circuit on {got.n_qubits} qubits, was {n}")
    expect(geometry(got.register) == geo, f"register {geometry(got.register)}, was {geo}")
    expect(text(got) == before, "second serialisation differs from the first")
    expect(param_table(got.block) == param_table(circ.block), "parameters differ")
    expect(tags_of(got.block) == tags_of(circ.block), f"tags {tags_of(got.block)}, were {tags_of(circ.block)}")
    expect(got == circ, "the rebuilt circuit compares different")
    want = np.array([S.mat(b, e, n)[:, 0] for e in es])
    close(run(got, values=G.tensors(case["f"])), want, "state of the rebuilt circuit", S.tol(b, es), 1.0)
    return dict(nontrivial=len(S.leaves(b)) >= 2)


# ------------------------------------------------------------------ registers and devices
@st.composite
def strat_register(draw):
    c = draw(reg_spec())
    one = lambda hi, nm: draw(st.one_of(st.integers(0, hi).map(lambda i: i / 16), st.just(nm)))  # noqa: E731
    w = lambda nm: {str(k): one(16, nm) for k in draw(st.sets(st.integers(0, 2), max_size=3))}  # noqa: E731
    pat = None
    if draw(st.integers(0, 2)) == 0:
        pat = dict(n=3, wa=w("pat_a"), wd=w("pat_d"), amp=one(48, "pat_amp"), det=one(160, "pat_det"), obj=draw(st.booleans()), val=G.generic(draw, 0, 1))
    dev = dict(interaction=draw(st.sampled_from(["NN", "XY"])), level=draw(st.sampled_from([50, 60, 75])), xy=draw(st.integers(1, 64)) * 100.0,
               det=draw(st.integers(1, 400)) / 8, amp=draw(st.integers(1, 400)) / 8, type=draw(st.sampled_from(["IDEALIZED", "REALISTIC"])), pattern=pat)
    return dict(reg=c, dev=dev, how=draw(st.sampled_from(HOW)))


def make_device(d):
    from qadence.analog import AddressingPattern, RydbergDevice
    from qadence.types import DeviceType, Interaction

    p = d["pattern"]
    pat = None
    if p is not None:
        from qadence import VariationalParameter

        v = lambda x: VariationalParameter(x, value=p["val"]) if isinstance(x, str) and p["obj"] else x  # noqa: E731
        pat = AddressingPattern(p["n"], {int(k): v(x) for k, x in p["wa"].items()}, {int(k): v(x) for k, x in p["wd"].items()}, v(p["amp"]), v(p["det"]))
    return RydbergDevice(interaction=getattr(Interaction, d["interaction"]), rydberg_level=d["level"], coeff_xy=d["xy"], max_detuning=d["det"], max_amp=d["amp"],
                         type=getattr(DeviceType, d["type"]), pattern=pat)


def pattern_table(p):
    if p is None:
        return None
    from qadence.parameters import evaluate

    ev = lambda v: round(float(evaluate(v)) if hasattr(v, "free_symbols") else float(v), 6)  # noqa: E731
    return (p.n_qubits, {int(k): ev(v) for k, v in p.weights_amp.items()}, {int(k): ev(v) for k, v in p.weights_det.items()}, ev(p.amp), ev(p.det),
            {int(k): ev(v) for k, v in p.local_constr_amp.items()}, {int(k): ev(v) for k, v in p.local_constr_det.items()}, ev(p.global_constr_amp), ev(p.global_constr_det))


def check_register(case):
    from checks.p13 import build
    from qadence import Register

    r0 = build(dict(case["reg"], dev=0))
    dev = make_device(case["dev"])
    r = Register(r0.graph, spacing=None, device_specs=dev)
    geo, tab, before = geometry(r)[:2], pattern_table(dev.pattern), text(r)
    got = roundtrip(r, case["how"])
    expect(isinstance(got, Register), f"a register came back as {type(got)}")
    expect(geometry(r)[:2] == geo and text(r) == before, "serialising changed the register")
    expect(geometry(got)[:2] == geo, f"register {geometry(got)[:2]}, was {geo}")
    g = got.device_specs
    for f in ("interaction", "rydberg_level", "coeff_xy", "max_detuning", "max_amp", "type", "coeff_ising"):
        expect(getattr(g, f) == getattr(dev, f) and type(getattr(g, f)) is type(getattr(dev, f)) or f in ("interaction", "type") and str(getattr(g, f)) == str(getattr(dev, f)),
               f"device field {f}: {getattr(g, f)!r}, was {getattr(dev, f)!r}")
    expect(pattern_table(g.pattern) == tab, f"pattern {pattern_table(g.pattern)}, was {tab}")
    expect(text(got) == before, "second serialisation differs from the first")
    expect(got == r, "the rebuilt register compares different")
    return dict(nontrivial=r.n_qubits >= 2)


# ------------------------------------------------------------------ noise
DIG = ["BITFLIP", "PHASEFLIP", "DEPOLARIZING", "AMPLITUDE_DAMPING", "PHASE_DAMPING", "PAULI_CHANNEL", "GENERALIZED_AMPLITUDE_DAMPING"]


@st.composite
def noise_spec(draw):
    kind = draw(st.sampled_from(["digital", "digital", "mixed", "readout", "analog"]))
    p = lambda: draw(st.integers(0, 32)) / 100  # noqa: E731
    if kind == "analog":
        return [["ANALOG", draw(st.sampled_from(["DEPOLARIZING", "DEPHASING"])), dict(noise_probs=p())]]
    out = []
    if kind != "readout":
        for _ in range(draw(st.integers(1, 3))):
            n = draw(st.sampled_from(DIG))
            k = {"PAULI_CHANNEL": 3, "GENERALIZED_AMPLITUDE_DAMPING": 2}.get(n, 1)
            out.append(["DIGITAL", n, dict(error_probability=p() if k == 1 else [p() for _ in range(k)])])
    if kind in ("readout", "mixed"):
        out.append(["READOUT", "INDEPENDENT", dict(error_probability=p(), seed=draw(st.integers(0, 5)))])
    return out


def make_noise(spec):
    from qadence import NoiseHandler, NoiseProtocol

    return NoiseHandler([getattr(getattr(NoiseProtocol, a), b) for a, b, _ in spec], [{k: tuple(v) if isinstance(v, list) else v for k, v in o.items()} for _, _, o in spec])


@st.composite
def strat_noise(draw):
    return dict(noise=draw(noise_spec()), where=draw(st.sampled_from(["handler", "X", "RX", "U", "CNOT", "CRX", "MCZ", "Toffoli", "CSWAP", "N", "PHASE", "SWAP", "T"])),
                n=draw(st.integers(1, 3)), how=draw(st.sampled_from(HOW)))


def noisy_block(kind, noise):
    import qadence as q

    a = {"X": (0,), "T": (0,), "N": (0,), "RX": (1, 0.5), "PHASE": (1, "a"), "U": (0, 0.1, 0.2, 0.3), "CNOT": (1, 0), "SWAP": (0, 1), "CRX": (0, 1, "b"), "MCZ": ((0, 1), 2),
         "Toffoli": ((0, 2), 1), "CSWAP": (0, 1, 2)}[kind]
    return getattr(q, kind)(*a, noise=noise)


def noise_table(n):
    from qadence import NoiseProtocol

    fam = lambda p: [f for f in ("DIGITAL", "READOUT", "ANALOG") if isinstance(p, getattr(NoiseProtocol, f))]  # noqa: E731
    return [(fam(p), str(p), {k: v for k, v in o.items()}) for p, o in zip(n.protocol, n.options)], len(n.protocol), len(n.options)


def check_noise(case):
    from qadence import NoiseHandler, chain, kron

    n = make_noise(case["noise"])
    tab = noise_table(n)
    if case["where"] == "handler":
        d = n._to_dict()
        got = NoiseHandler._from_dict(json.loads(json.dumps(d)) if case["how"] != "dict" else d)
        expect(json.dumps(got._to_dict()) == json.dumps(d), "second serialisation differs")
    else:
        blk = chain(noisy_block(case["where"], n), noisy_block("X", None))
        before = text(blk)
        out = roundtrip(blk, case["how"])
        expect(text(out) == before, "second serialisation differs")
        got = out.blocks[0].noise
        expect(out.blocks[1].noise is None, "a noiseless gate came back noisy")
        expect(got is not None, f"the noise of {case['where']} is gone")
    expect(noise_table(n) == tab, "serialising changed the noise")
    expect(noise_table(got) == tab, f"noise {noise_table(got)}, was {tab}")
    expect(got == n, "the rebuilt noise compares different")
    return dict(nontrivial=True)


# ------------------------------------------------------------------ expressions
@st.composite
def strat_expr(draw):
    cfg = G.Cfg(fnames=["x", "phi", "θ", "x_1", "a b"])
    p = G.param(draw, cfg, ("v", "f", "expr", "expr"), 3)
    k = draw(st.integers(0, 6))
    scale = draw(st.sampled_from([1e-12, 1e-5, 3.14e-3, 1e8, 1.5e22, 7.0, 1 / 3]))
    return dict(p=["*", scale, p] if k == 0 else (["+", p, scale] if k == 1 else p), how=draw(st.sampled_from(HOW)), pi=draw(st.integers(0, 5)) == 0,
                vals=[G.generic(draw, -2, 2) for _ in range(6)])


def check_expr(case):
    import sympy
    from qadence import Parameter

    e = S.pbuild(case["p"])
    if not getattr(e, "free_symbols", None):
        raise Skip
    if case["pi"]:
        e = e * sympy.pi + sympy.Rational(2, 7)
    names = sorted(s.name for s in e.free_symbols)
    tab = sorted((s.name, s.trainable, s.value) for s in e.free_symbols)
    before = text(e)
    got = roundtrip(e, case["how"])
    gs = sorted(got.free_symbols, key=lambda s: s.name)
    expect([s.name for s in gs] == names and all(isinstance(s, Parameter) for s in gs), f"symbols {gs}, were {names}")
    expect(sorted((s.name, s.trainable, s.value) for s in gs) == tab, f"parameter attributes {[(s.name, s.trainable, s.value) for s in gs]}, were {tab}")
    expect(text(got) == before, "second serialisation differs")
    for shift in (0.0, 0.37):
        env = {n: v + shift for n, v in zip(names, case["vals"])}
        a = complex(sympy.N(e.xreplace({s: sympy.Float(env[s.name]) for s in e.free_symbols})))
        b = complex(sympy.N(got.xreplace({s: sympy.Float(env[s.name]) for s in got.free_symbols})))
        expect(abs(a - b) <= 1e-12 * max(1, abs(a)), f"expression evaluates to {b}, was {a}")
    return dict(nontrivial=not isinstance(e, Parameter))


# ------------------------------------------------------------------ time-dependent and other evolutions
@st.composite
def strat_time(draw):
    n = draw(st.integers(1, 3))
    return dict(ops=[[draw(st.sampled_from("XYZ")), draw(st.integers(0, n - 1)), G.generic(draw, -2, 2)] for _ in range(draw(st.integers(1, 3)))],
                kind=draw(st.sampled_from(["time", "time_dur", "noise_ops", "swap", "expr"])), how=draw(st.sampled_from(HOW)), dur=draw(st.integers(1, 32)) / 16)


def check_time(case):
    import qadence as q
    import sympy

    t = q.TimeParameter("t")
    h = q.add(*[c * getattr(q, o)(i) for o, i, c in case["ops"]])
    k = case["kind"]
    if k == "swap":
        b = q.AnalogSWAP(0, 1) if case["dur"] > 1 else q.AnalogSWAP(1, 0, case["dur"])
    elif k == "noise_ops":
        b = q.HamEvo(h, q.FeatureParameter("x") * case["dur"], noise_operators=[q.X(case["ops"][0][1])])
    elif k == "expr":
        b = q.HamEvo(q.VariationalParameter("a", value=0.3) * h, q.FeatureParameter("x") + case["dur"])
    else:
        g = q.add(sympy.sin(t) * h, t * q.Z(case["ops"][0][1]))
        b = q.HamEvo(g, t, **({"duration": case["dur"]} if k == "time_dur" else {}))
    before, table = text(b), param_table(b)
    td = b.is_time_dependent
    got = roundtrip(b, case["how"])
    expect(type(got) is type(b), f"{type(b).__name__} came back as {type(got).__name__}")
    expect(text(got) == before, "second serialisation differs")
    expect(param_table(got) == table, f"parameters {param_table(got)}, were {table}")
    expect(got.is_time_dependent == td, f"time dependence {got.is_time_dependent}, was {td}")
    expect(len(got.noise_operators) == len(b.noise_operators) and all(x == y for x, y in zip(got.noise_operators, b.noise_operators)), "noise operators differ")
    expect(got == b, "the rebuilt evolution compares different")
    if k in ("swap", "expr"):
        import torch

        v = {"x": torch.tensor([0.4])} if k == "expr" else {}
        close(q.block_to_tensor(got, v), arr(q.block_to_tensor(b, v)), "matrix of the rebuilt evolution", 1e-9)
    elif k != "noise_ops":
        import torch

        v = {} if k == "time_dur" else {"duration": torch.tensor(case["dur"])}
        n = b.n_qubits
        close(q.run(n, got, values=v), arr(q.run(n, b, values=v)), "state of the rebuilt evolution", 1e-6)
    return dict(nontrivial=True)


FACETS = [
    Facet("blocks", strat_block, check_block, 700, 20000, 4),
    Facet("circuits", strat_circuit, check_circuit, 250, 6000, 2),
    Facet("registers", strat_register, check_register, 300, 6000, 2),
    Facet("noise", strat_noise, check_noise, 300, 4000, 1),
    Facet("expressions", strat_expr, check_expr, 250, 5000, 2),
    Facet("evolutions", strat_time, check_time, 80, 1500, 2),
]
