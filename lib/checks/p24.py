"""P24 histories of evaluations on shared objects: nothing changes, and nothing depends on what ran before."""
from __future__ import annotations

import copy
import json
import logging
import re

import numpy as np
from hypothesis import strategies as st

import analog as A
import gen as G
import spec as S
from checks.p03 import observable
from harness import Facet, Known, Skip
from oracle import arr, close, expect

RULE = "distinct history with at least two different operations on a circuit with at least two gates"
ASSUMPTIONS = ["observed state: block tree (class, identity of the sub-blocks, support, tag, noise, matrices, parameters with identifier, value and trainability), registers, values, states, configuration options, noise and measurement options, models' parameters, torch defaults",
               "each operation's result is compared with the same operation on freshly built equal objects, run in the opposite order; identifiers are renamed before comparing",
               "operations documented to work in place (set_trainable, set_noise, tag, reset_vparams, ...) and the construction of a parameter with an existing name are not part of the histories",
               "random operations (shots, shadows) are run from a fixed seed"]
logging.disable(logging.CRITICAL)

UUID = re.compile(r"[0-9a-f]{8}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{12}")


# --- fingerprints -----------------------------------------------------------
def fp_expr(e):
    import sympy

    ps = sorted((s.name, bool(getattr(s, "trainable", False)), repr(getattr(s, "value", None)), bool(getattr(s, "is_time", False))) for s in getattr(e, "free_symbols", ()))
    return [sympy.srepr(e) if isinstance(e, sympy.Basic) else repr(e), ps]


def fp_tensor(t):
    return None if t is None else [list(t.shape), str(t.dtype), t.detach().cpu().numpy().tobytes().hex(), t.requires_grad, t.grad is None]


def fp_noise(n):
    return None if n is None else json.dumps(n._to_dict(), sort_keys=True, default=str)


def fp_block(b):
    import torch
    from qadence.blocks import CompositeBlock, ScaleBlock

    out = [type(b).__name__, id(b), list(b.qubit_support), b.tag, fp_noise(getattr(b, "noise", None)), repr(b)]
    ps = getattr(b, "parameters", None)
    if ps is not None:
        out.append([[k, ps._uuid_dict[k] if hasattr(ps, "_uuid_dict") else None, fp_expr(e)] for k, e in ps.items()])
    if hasattr(b, "matrix") and isinstance(b.matrix, torch.Tensor):
        out.append(fp_tensor(b.matrix))
    g = getattr(b, "generator", None) if type(b).__name__ == "HamEvo" else None
    if g is not None:
        out.append(fp_tensor(g) if isinstance(g, torch.Tensor) else fp_block(g) if hasattr(g, "qubit_support") else fp_expr(g))
    if isinstance(b, ScaleBlock):
        out.append(fp_block(b.block))
    elif isinstance(b, CompositeBlock):
        out.append([fp_block(x) for x in b.blocks])
    return out


def fp_register(r):
    return json.dumps([r._to_dict(), {str(k): [float(x) for x in v] for k, v in r.coords.items()}, sorted(map(str, r.edges)), r.n_qubits, repr(r.device_specs), id(r.device_specs)], sort_keys=True, default=str)


def fp_circuit(c):
    return [id(c.block), fp_block(c.block), fp_register(c.register), c.n_qubits, [str(p) for p in c.unique_parameters]]


def fp_model(m):
    return [[[k, fp_tensor(v)] for k, v in sorted(m.state_dict().items())], {k: p.requires_grad for k, p in m._params.items()}, m.training, [fp_block(o) for o in m._observable_blocks] if hasattr(m, "_observable_blocks") else None]


def fp_config(c):
    return {k: repr(v) for k, v in vars(c).items() if not k.startswith("_")}


def fp_global():
    import torch

    return [str(torch.get_default_dtype()), torch.is_grad_enabled(), logging.root.manager.disable]


def fingerprint(w):
    out = {"torch and logging defaults": fp_global()}
    for k, v in w.items():
        kind = k.split("_")[0]
        if kind == "block" or kind == "obs":
            out[k] = fp_block(v)
        elif kind == "circuit":
            out[k] = fp_circuit(v)
        elif kind == "register":
            out[k] = fp_register(v)
        elif kind == "values":
            out[k] = [[n, id(t), fp_tensor(t)] for n, t in v.items()]
        elif kind == "state":
            out[k] = fp_tensor(v)
        elif kind == "config":
            out[k] = fp_config(v)
        elif kind in ("noise",):
            out[k] = fp_noise(v)
        elif kind == "measurement":
            out[k] = [str(v.protocol), repr(v.options)]
        elif kind == "model":
            out[k] = fp_model(v)
        elif kind == "list":
            out[k] = [id(x) for x in v]
    return {k: json.dumps(v, default=str) for k, v in out.items()}


def diff(a, b):
    for k in a:
        if a[k] != b[k]:
            i = next((i for i, (x, y) in enumerate(zip(a[k], b[k])) if x != y), min(len(a[k]), len(b[k])))
            return k, f"{k}: ...{a[k][max(0, i - 60):i + 60]}... became ...{b[k][max(0, i - 60):i + 60]}..."
    return None


# --- results ------------------------------------------------------------------
def canon(r):
    import torch

    if isinstance(r, torch.Tensor):
        return arr(r)
    if isinstance(r, (list, tuple)):
        return [canon(x) for x in r]
    if isinstance(r, dict):
        return {str(k): canon(v) for k, v in r.items()}
    if isinstance(r, str):
        seen: dict = {}
        return UUID.sub(lambda m: seen.setdefault(m.group(0), f"<id{len(seen)}>"), r)
    return r


def same(a, b, what):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        expect(isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.shape == b.shape, f"{what}: shapes differ")
        expect(np.allclose(a, b, rtol=1e-6, atol=1e-7, equal_nan=True), f"{what}: {np.abs(a - b).max()} apart: {a.reshape(-1)[:4]} and {b.reshape(-1)[:4]}")
    elif isinstance(a, list):
        expect(isinstance(b, list) and len(a) == len(b), f"{what}: {a} and {b}")
        for x, y in zip(a, b):
            same(x, y, what)
    elif isinstance(a, dict):
        expect(isinstance(b, dict) and set(a) == set(b), f"{what}: {sorted(a)} and {sorted(b)}")
        for k in a:
            same(a[k], b[k], f"{what}[{k}]")
    elif isinstance(a, float):
        expect(isinstance(b, float) and (abs(a - b) <= 1e-6 * max(1, abs(a)) or a != a and b != b), f"{what}: {a} and {b}")
    else:
        expect(a == b, f"{what}: {str(a)[:300]} and {str(b)[:300]}")


# --- the digital world -----------------------------------------------------------
OPS = ["run", "run", "run_state", "expectation", "expectation", "grad", "grad", "sample", "model_run", "model_exp", "model_exp", "model_grad", "model_sample", "model_dict", "new_model", "qnn",
       "tensor", "dagger", "eigen", "arith", "flatten", "compose", "scale_only", "fill", "invert", "reassign", "serialize", "deepcopy", "repr", "eq", "queries",
       "tomography", "shadow", "readout", "digital_noise", "overlap", "dagger_circuit", "decompose", "repeat_same", "scaled_obs", "put", "horqrux", "shared_obs"]


@st.composite
def strat(draw):
    cfg = G.Cfg(max_depth=2, hamevo=draw(st.booleans()), projector=False, matrix=draw(st.integers(0, 3)) == 0, scale=draw(st.integers(0, 3)) == 0, gates=[g for g in G.UNITARY_GATES if g != "T"], params=("num", "v", "v", "f", "expr"), gen_params=draw(st.sampled_from([("num",), ("num", "v", "f")])))
    n = draw(st.integers(1, 3))
    qs = list(range(n))
    b = G.circuit(draw, qs, cfg, 2, 4)
    obs = [observable(draw, qs, cfg, ("num", "v", "f")) for _ in range(2)]
    vv, fn = S.names(b, *obs)
    k = draw(st.integers(2, 7))
    ops = [[draw(st.sampled_from(OPS)), draw(st.integers(0, 1)), draw(st.sampled_from(["ad", "gpsr", "adjoint", None])), draw(st.integers(0, 999))] for _ in range(k)]
    heavy = False
    for o in ops:  # one compilation per history
        if o[0] == "horqrux":
            if heavy or draw(st.integers(0, 3)):
                o[0] = "run"
            heavy = True
    return dict(n=n, block=b, obs=obs, f=G.feature_values(draw, fn, draw(st.sampled_from([1, 2]))), ops=ops, seed=draw(st.integers(0, 99)), tag=draw(st.booleans()), noisy=draw(st.integers(0, 4)) == 0,
                comp=draw(st.booleans()), mode=draw(st.sampled_from(["ad", "gpsr", None])), gates_noise=draw(st.integers(0, 5)) == 0)


def supported(mode, c):
    kinds = {s[0] for s in S.walk(c["block"])}
    if mode == "gpsr" and (any(S.names(o)[0] or S.names(o)[1] for o in c["obs"]) or kinds & {"HamEvo", "HamEvoM", "U", "scale", "Matrix"} or any(k.startswith("MC") for k in kinds)):
        return "ad"
    if mode == "adjoint" and not kinds <= {"chain", "kron", "RX", "RY", "RZ", "X", "Y", "Z", "H", "CNOT", "CRX", "CZ"}:
        return "ad"
    return mode


def world(c):
    import torch
    from qadence import Measurements, NoiseHandler, NoiseProtocol, QuantumCircuit, QuantumModel, Register, add, chain
    from qadence.backends.pyqtorch import Configuration

    n = c["n"]
    b0 = S.build(c["block"])
    items = list(b0.blocks)
    if c["tag"]:
        items[0].tag = "first"
    b1 = chain(b0, items[-1], items[0])
    o0, o1 = (S.build(o) for o in c["obs"])
    w = dict(block_0=b0, block_1=b1, obs_0=o0, obs_1=o1, obs_2=add(o0, o1))
    w["list_obs"] = [o0, w["obs_2"]]
    w["register_0"] = Register.line(n, spacing=7.0)
    w["circuit_0"] = QuantumCircuit(n, b0)
    w["circuit_1"] = QuantumCircuit(w["register_0"], b1)
    w["values_0"] = G.tensors(c["f"])
    w["state_0"] = torch.tensor(np.asarray(G.state_vec(c["seed"], n, 1)))
    w["config_0"] = Configuration(use_single_qubit_composition=c["comp"])
    given = fp_config(w["config_0"])
    w["noise_0"] = NoiseHandler(NoiseProtocol.READOUT.INDEPENDENT, dict(error_probability=0.11, seed=3))
    w["noise_1"] = NoiseHandler(NoiseProtocol.DIGITAL.BITFLIP, dict(error_probability=0.2))
    w["measurement_0"] = Measurements("tomography", dict(n_shots=23))
    w["measurement_1"] = Measurements("shadow", dict(accuracy=0.4, confidence=0.3))
    w["model_0"] = QuantumModel(w["circuit_0"], w["list_obs"], diff_mode=supported(c["mode"], c) or "ad", configuration=w["config_0"])
    expect(fp_config(w["config_0"]) == given, f"making a model changed the configuration it was given: {given} became {fp_config(w['config_0'])}")
    return w


def seed_all(k):
    import random

    import torch

    random.seed(k)
    np.random.seed(k)
    torch.manual_seed(k)


def apply(w, op, c):
    """Run one operation; its result as plain data."""
    import torch
    from qadence import QNN, Overlap, QuantumCircuit, QuantumModel, add, expectation, kron, run, sample
    from qadence.blocks.utils import assert_same_block, expression_to_uuids, parameters, primitive_blocks, uuid_to_expression
    from qadence.serialization import deserialize, serialize
    from qadence import transpile as T
    from qadence.types import Endianness

    name, i, mode, seed = op
    n = c["n"]
    circ, blk, obs, vals, m = w[f"circuit_{i}"], w[f"block_{i}"], w[f"obs_{i}"], w["values_0"], w["model_0"]
    seed_all(seed)
    mode = supported(mode, c)
    if name == "digital_noise" and any(x[0] in ("HamEvo", "HamEvoM", "Matrix", "scale", "CSWAP") for x in S.walk(c["block"])):
        return None
    T_ = lambda b: b.tensor(vals)  # noqa: E731
    if name == "run":
        return run(circ, values=vals)
    if name == "run_state":
        return run(circ, values=vals, state=w["state_0"], endianness=Endianness.LITTLE if seed % 2 else Endianness.BIG)
    if name == "expectation":
        return expectation(circ, w["list_obs"] if seed % 2 else obs, values=vals, diff_mode=mode, state=w["state_0"] if seed % 3 == 0 else None, configuration=w["config_0"])
    if name in ("grad", "model_grad"):
        x = {k: v.clone().requires_grad_(True) for k, v in vals.items()}
        e = expectation(circ, obs, values=x, diff_mode=mode or "ad", configuration=w["config_0"]) if name == "grad" else m.expectation(x)
        wrt = list(x.values()) + ([p for p in m.parameters() if p.requires_grad] if name == "model_grad" else [])
        if not wrt or not e.requires_grad:
            return e.detach()
        g = torch.autograd.grad(e.sum(), wrt, allow_unused=True)
        return [e.detach()] + [t if t is None else t.detach() for t in g]
    if name == "sample":
        return [dict(s) for s in sample(circ, values=vals, n_shots=37)]
    if name == "model_run":
        return m.run(vals, state=w["state_0"] if seed % 2 else None).detach()
    if name == "model_exp":
        return m.expectation(vals).detach()
    if name == "model_sample":
        return [dict(s) for s in m.sample(vals, n_shots=31)]
    if name == "model_dict":
        return novalues(m._to_dict(save_params=seed % 2 == 0))
    if name == "new_model":
        m2 = QuantumModel(circ, w["list_obs"], diff_mode=mode or "ad", configuration=w["config_0"])
        m2.reset_vparams([0.375] * m2.num_vparams)
        return [m2.run(vals).detach(), m2.expectation(vals).detach()]
    if name == "qnn":
        if not {f for f in S.names(*c["obs"], c["block"])[1]}:
            return None
        q = QNN(circ, w["list_obs"], inputs=sorted(S.names(*c["obs"], c["block"])[1]))
        return q(vals).detach()
    if name == "tensor":
        return [T_(blk), T_(obs)]
    if name == "dagger":
        return T_(blk.dagger())
    if name == "eigen":
        out = []
        for p in primitive_blocks(blk):
            if not parameters(p) and type(p).__name__ not in ("MatrixBlock",):
                out.append(sorted(np.round(arr(p.eigenvalues), 6).tolist(), key=lambda z: (z.real, z.imag) if isinstance(z, complex) else (z, 0)))
        return json.dumps(out, default=str)
    if name == "arith":
        k = seed % 6
        r = [lambda: blk + obs, lambda: 2 * blk, lambda: blk * obs, lambda: -obs, lambda: obs - blk, lambda: obs + obs][k]()
        if k == 0:
            r += blk
        return T_(r)
    if name == "flatten":
        r = T.flatten(blk, [type(blk)]) if seed % 2 else T.flatten(blk)
        return [T_(r), T_(T.flatten(obs)), T_(T.flatten(w["obs_2"]))]
    if name == "compose":
        return T_(T.chain_single_qubit_ops(blk))
    if name == "scale_only":
        return T_(T.scale_primitive_blocks_only(obs))
    if name == "fill":
        return run(T.fill_identities(circ), values=vals) if not any(s[0] in ("scale",) for s in S.walk(c["block"])) else None
    if name == "invert":
        return T_(T.invert_endianness(blk)) if seed % 2 else T.invert_endianness(w["state_0"])
    if name == "reassign":
        m_ = {q: n - 1 - q for q in range(n)}
        return T_(T.reassign(blk, m_))
    if name == "serialize":
        d = serialize(blk if seed % 3 else circ)
        r = deserialize(copy.deepcopy(d))
        return novalues(serialize(r))
    if name == "deepcopy":
        x = copy.deepcopy([blk, obs, circ, vals])
        return T_(x[0])
    if name == "repr":
        return [repr(blk), str(obs), re.sub("0x[0-9a-f]+", "", repr(circ) + repr(w["register_0"]))]
    if name == "eq":
        return [blk == blk, blk == copy.deepcopy(blk), blk == obs, circ == circ, circ == w["circuit_0"], obs == w["obs_1"]]
    if name == "queries":
        return [len(parameters(blk)), len(uuid_to_expression(blk)), len(expression_to_uuids(blk)), blk.depth if not any(s[0] == "scale" for s in S.walk(c["block"])) else 0, blk.n_qubits, list(blk.qubit_support), str(sorted(map(str, circ.unique_parameters))),
                [type(b).__name__ for b in circ.get_blocks_by_tag("first")], len(primitive_blocks(blk)), blk.is_parametric]
    if name == "tomography":
        return twice(lambda: expectation(circ, obs, values=vals, diff_mode="ad", measurement=w["measurement_0"]), seed)
    if name == "shadow":
        return twice(lambda: expectation(circ, obs, values=vals, diff_mode="ad", measurement=w["measurement_1"]), seed)
    if name == "readout":
        return [dict(s) for s in sample(circ, values=vals, n_shots=29, noise=w["noise_0"])]
    if name == "digital_noise":
        return run_noisy(w, circ, vals, obs)
    if name == "overlap":
        if len(vals) > 1 or any(len(v) > 1 for v in vals.values()):
            return None  # overlaps take one feature
        f = lambda x: {k: v for k, v in vals.items() if k in {p.name for p in x.unique_parameters}}  # noqa: E731
        ov = Overlap(circ, w["circuit_0"])
        return ov(bra_param_values=f(circ), ket_param_values=f(w["circuit_0"])).detach()
    if name == "dagger_circuit":
        return run(circ.dagger(), values=vals)
    if name == "decompose":
        out = []
        for b in primitive_blocks(blk):
            if type(b).__name__ == "HamEvo" and not hasattr(b.generator, "shape"):
                try:
                    out.append(T_(b.digital_decomposition()))
                except NotImplementedError:
                    out.append(None)
        return out
    if name == "repeat_same":
        a, b = run(circ, values=vals), run(circ, values=vals)
        same(arr(a), arr(b), "two equal runs")
        a, b = m.expectation(vals), m.expectation(vals)
        same(arr(a), arr(b), "two equal expectation calls")
        return a.detach()
    if name == "scaled_obs":
        return expectation(circ, 0.5 * obs + obs, values=vals)
    if name == "put":
        return T_(kron(blk)) if seed % 2 else T_(add(blk, blk))
    if name == "horqrux":
        if any(s[0] not in set(G.HORQRUX_GATES) | {"chain", "kron"} for s in S.walk(c["block"])) or any(len(v) > 1 for v in c["f"].values()):
            return None
        return torch.tensor(np.asarray(run(w["circuit_0"], values=vals, backend="horqrux")))
    if name == "shared_obs":
        m2 = QuantumModel(circ, [obs, obs, w["obs_2"]])
        return m2.expectation(vals).detach()
    raise AssertionError(name)


def novalues(d):
    """The value of a feature parameter is drawn at random when it is made."""
    txt = json.dumps(d, default=lambda t: t.tolist() if hasattr(t, "tolist") else str(t))
    return re.sub(r'"value": [^,}]*', "", txt)


def twice(f, seed):
    """The order in which the strings of an observable are measured is not specified: compare on the same objects only."""
    seed_all(seed)
    a = canon(f().detach())
    seed_all(seed)
    same(a, canon(f().detach()), "measured twice from the same seed")


def run_noisy(w, circ, vals, obs):
    from qadence import expectation

    return expectation(circ, obs, values=vals, diff_mode="ad", noise=w["noise_1"])


def nodes(b):
    out = [b]
    for x in getattr(b, "blocks", None) or ([b.block] if hasattr(b, "block") else []):
        out += nodes(x)
    return out


def check(c):
    if S.degenerate(c["block"], *c["obs"]):
        raise Skip
    es = G.envs(S.names(c["block"], *c["obs"])[0], c["f"])
    if max(S.sens(c["block"], e) for e in es) > 2000 or max(S.gen_norm(o, e) for o in c["obs"] for e in es) > 2000:
        raise Skip
    base = {}
    known = None
    for k in reversed(range(len(c["ops"]))):
        base[k] = canon(apply(world(c), c["ops"][k], c))
    w = world(c)
    before = fingerprint(w)
    for k, op in enumerate(c["ops"]):
        r = canon(apply(w, op, c))
        d = diff(before, fingerprint(w))
        if d:
            if op[0] in ("digital_noise", "readout"):
                # listed finding: the noise of the call stays on the gates; undo it and go on
                for b in nodes(w["circuit_1"].block):
                    if getattr(b, "_noise", None) is None:
                        continue
                    expect(b._noise is None or b._noise is w["noise_0" if op[0] == "readout" else "noise_1"], f"{op} left {b._noise} on {b}")
                    b._noise = None
                known = known or f"{op} changed {d[1]}"
                d = diff(before, fingerprint(w))
            if d:
                expect(False, f"{op} changed {d[1]}")
        same(base[k], r, f"{op} after {[o[0] for o in c['ops'][:k]]} and on fresh objects")
    # and the answers are right
    n = c["n"]
    psi = np.array([S.mat(c["block"], e, n)[:, 0] for e in es])
    got = apply(w, ["run", 0, None, 0], c)
    if got.shape[0] != psi.shape[0] and got.shape[0] == 1:
        psi = psi[:1]
    close(got, psi, "final state", S.tol(c["block"], es), max(1.0, np.abs(psi).max()))
    if known:
        raise Known("P24-noise-left-on-circuit", known)


# --- the analog world -----------------------------------------------------------------
AOPS = ["run", "expectation", "sample", "pulser_run", "pulser_exp", "pulser_sample", "pulser_noisy", "pulser_noisy", "pulser_noisy", "background", "model_exp", "pulser_model", "pulser_model", "pulser_model", "repr", "deepcopy", "queries", "register", "eq", "tensor"]


@st.composite
def strat_analog(draw):
    n = draw(st.integers(1, 2))
    blocks = []
    for _ in range(draw(st.integers(1, 3))):
        k = draw(st.sampled_from(["rx", "ry", "rot", "wait"]))
        ang = draw(st.sampled_from([["f", "x"], 0.75, ["v", "a", 0.5], ["*", 2.0, ["f", "x"]]]))
        if k in ("rx", "ry"):
            blocks.append([k, ang, None, True])
        elif k == "rot":
            blocks.append(["rot", draw(st.sampled_from([200.0, 350.0])), 4.0, draw(st.sampled_from([0.0, 1.5])), 0.0, None, True])
        else:
            blocks.append(["wait", 300.0, None, True])
    ops = [[draw(st.sampled_from(AOPS)), draw(st.integers(0, 1)), None, draw(st.integers(0, 99))] for _ in range(draw(st.integers(2, 6)))]
    return dict(n=n, ops_block=blocks, pattern=draw(st.booleans()), ideal=draw(st.booleans()), x=[round(draw(st.floats(0.2, 2.5)), 3) for _ in range(draw(st.sampled_from([1, 1, 2])))], ops=ops,
                wd=[round(draw(st.floats(0.1, 1.0)), 2) for _ in range(n)])


def analog_world(c):
    import torch
    from qadence import AddressingPattern, IdealDevice, NoiseHandler, NoiseProtocol, QuantumCircuit, QuantumModel, RealisticDevice, Register, X, Z, add, chain
    from qadence.backends.pulser import Configuration as PulserConfiguration
    from qadence.backends.pyqtorch import Configuration

    n = c["n"]
    pat = AddressingPattern(n_qubits=n, det=1.5, amp=1.0, weights_det={i: c["wd"][i] for i in range(n)}, weights_amp={i: c["wd"][-1 - i] for i in range(n)}) if c["pattern"] else None
    dev = IdealDevice(pattern=pat) if c["ideal"] else RealisticDevice(pattern=pat)
    items = [A.build_op(o) for o in c["ops_block"]]
    w = dict(register_0=Register.line(n, spacing=8.0, device_specs=dev))
    w["block_0"] = chain(*items)
    w["block_1"] = chain(items[-1], *items)
    w["obs_0"] = Z(0)
    w["obs_1"] = add(X(0), 0.5 * Z(n - 1))
    w["circuit_0"] = QuantumCircuit(w["register_0"], w["block_0"])
    w["circuit_1"] = QuantumCircuit(w["register_0"], w["block_1"])
    w["values_0"] = {"x": torch.tensor(c["x"])} if any("f" in json.dumps(o) and '"x"' in json.dumps(o) for o in c["ops_block"]) else {}
    w["config_0"] = Configuration()
    w["config_1"] = PulserConfiguration()
    w["noise_0"] = NoiseHandler(NoiseProtocol.ANALOG.DEPOLARIZING, {"noise_probs": 0.2})
    w["model_0"] = QuantumModel(w["circuit_0"], [w["obs_0"]], configuration=w["config_0"])
    w["model_1"] = QuantumModel(w["circuit_1"], [w["obs_1"]], backend="pulser", diff_mode="gpsr", configuration=w["config_1"])
    return w


def apply_analog(w, op, c):
    from qadence import expectation, run, sample
    from qadence.analog.parse_analog import add_background_hamiltonian

    name, i, _, seed = op
    circ, obs, vals, blk = w[f"circuit_{i}"], w[f"obs_{i}"], w["values_0"], w[f"block_{i}"]
    seed_all(seed)
    if name == "run":
        return run(circ, values=vals, configuration=w["config_0"])
    if name == "expectation":
        return expectation(circ, [obs, w["obs_0"]], values=vals, configuration=w["config_0"])
    if name == "sample":
        return [dict(s) for s in sample(circ, values=vals, n_shots=31)]
    if name == "pulser_run":
        return run(circ, values=vals, backend="pulser", configuration=w["config_1"])
    if name == "pulser_exp":
        return expectation(circ, obs, values=vals, backend="pulser", configuration=w["config_1"])
    if name == "pulser_sample":
        return [dict(s) for s in sample(circ, values=vals, backend="pulser", n_shots=31, configuration=w["config_1"])]
    if name == "pulser_noisy":
        if seed % 3:
            w["model_1"].expectation(vals, noise=w["noise_0"])
            return None
        expectation(circ, obs, values=vals, backend="pulser", noise=w["noise_0"], configuration=w["config_1"])
        return None
    if name == "background":
        return str(sorted(add_background_hamiltonian(circ).block.qubit_support))
    if name == "model_exp":
        return w["model_0"].expectation(vals).detach()
    if name == "pulser_model":
        return w["model_1"].expectation(vals).detach()
    if name == "repr":
        return re.sub("0x[0-9a-f]+|t=[-0-9.e]+", "", repr(circ) + repr(blk) + repr(w["register_0"]))
    if name == "deepcopy":
        return run(copy.deepcopy(circ), values=copy.deepcopy(vals))
    if name == "queries":
        from qadence.blocks.utils import expression_to_uuids, parameters, uuid_to_expression

        return [len(parameters(blk)), len(uuid_to_expression(blk)), len(expression_to_uuids(blk)), list(blk.qubit_support), str(sorted(map(str, circ.unique_parameters)))]
    if name == "register":
        r = w["register_0"]
        return [str(r.rescale_coords(2.0).coords), str(r.distances), str(r.all_node_pairs), r.n_qubits]
    if name == "eq":
        return [w["register_0"] == copy.deepcopy(w["register_0"]), obs == w["obs_0"]]  # analog blocks have no equality
    if name == "tensor":
        return obs.tensor()
    raise AssertionError(name)


def check_analog(c):
    base = {}
    for k in reversed(range(len(c["ops"]))):
        base[k] = canon(apply_analog(analog_world(c), c["ops"][k], c))
    w = analog_world(c)
    before = fingerprint(w)
    for k, op in enumerate(c["ops"]):
        r = canon(apply_analog(w, op, c))
        d = diff(before, fingerprint(w))
        if d:
            expect(False, f"{op} changed {d[1]}")
        same(base[k], r, f"{op} after {[o[0] for o in c['ops'][:k]]} and on fresh objects")


FACETS = [
    Facet("histories", strat, check, 112, 6000, 8, nontrivial=lambda c: len({o[0] for o in c["ops"]}) > 1 and len(S.leaves(c["block"])) > 1),
    Facet("analog", strat_analog, check_analog, 32, 1200, 4, nontrivial=lambda c: len({o[0] for o in c["ops"]}) > 1),
]
