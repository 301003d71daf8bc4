"""P12 models through histories of updates, resets, freezing, saving, loading and copying."""
from __future__ import annotations

import copy
import json
import logging
import os
import tempfile
from pathlib import Path

import numpy as np
from hypothesis import strategies as st

import gen as G
import spec as S
from checks.p03 import observable
from harness import Facet, Known, Skip
from checks.p05 import rename_block
from oracle import arr, close, expect

RULE = "distinct history with at least two operations on a model with at least one variational parameter"
ASSUMPTIONS = ["values after each operation are tracked by a dictionary in the test; outputs are compared with the dense numpy reference at those values",
               "parameter values travel only through formats that document it (.pt, dictionaries with save_params, load_params_from_dict)"]
logging.disable(logging.CRITICAL)

OPS = ["reset", "reset", "sgd", "load_params", "load_partial", "state_dict", "fix", "free", "save_pt", "save_pt_fn", "save_dir", "config", "dict", "json", "deepcopy", "double", "noise_call", "eval"]


@st.composite
def strat(draw):
    cfg = G.Cfg(max_depth=2, hamevo=draw(st.booleans()), gates=G.UNITARY_GATES, params=("num", "v", "v", "f", "expr"))
    n = draw(st.integers(1, 3))
    qs = list(range(n))
    b = G.circuit(draw, qs, cfg, 1, 4)
    vn = draw(st.sampled_from(G.VNAMES))
    if not S.names(b)[0]:
        b = ["chain", b[1] + [["RX", 0, ["v", vn, cfg.vvals.setdefault(vn, 0.25)]]]]
    obs = [observable(draw, qs, cfg, ("num", "v", "f")) for _ in range(draw(st.integers(1, 2)))]
    qnn = draw(st.booleans())
    if not qnn and draw(st.integers(0, 5)) == 0:
        obs = []
    if draw(st.booleans()):
        # names that are prefixes of each other
        near = {**{x: x for x in G.FNAMES}, "a": "t", "parameter": "t_1", "theta_1": "t_11", "E": "t_1_1"}
        b, obs = rename_block(b, near), [rename_block(o, near) for o in obs]
    vv, fn = S.names(b, *obs)
    ops = []
    for _ in range(draw(st.integers(1, 6))):
        ops.append([draw(st.sampled_from(OPS)), draw(st.integers(0, 999)), [draw(st.booleans()) for _ in range(6)]])
    meas = draw(st.sampled_from([None, None, "tomography", "shadow"]))
    return dict(n=n, block=b, obs=obs, f=G.feature_values(draw, fn, draw(st.sampled_from([1, 2]))), qnn=qnn, order=draw(st.permutations(sorted(fn))), ops=ops, meas=meas,
                mode=draw(st.sampled_from(["ad", "ad", "gpsr"])), idm=draw(st.sampled_from(["ad", "fd"])), noise=draw(st.integers(0, 4)) == 0,
                cfg=dict(use_single_qubit_composition=draw(st.booleans())), entry=draw(st.integers(0, 2)))


def make(case, vals=None):
    from qadence import QNN, Measurements, NoiseHandler, NoiseProtocol, QuantumCircuit, QuantumModel

    obs = [S.build(o) for o in case["obs"]]
    kw = dict(diff_mode=case["mode"], configuration=dict(case["cfg"]))
    if case["meas"]:
        kw["measurement"] = Measurements(case["meas"], dict(n_shots=17) if case["meas"] == "tomography" else dict(accuracy=0.3, confidence=0.2))
    if case["noise"]:
        kw["noise"] = NoiseHandler(NoiseProtocol.READOUT.INDEPENDENT, dict(error_probability=0.11, seed=3))
    circ = QuantumCircuit(case["n"], S.build(case["block"]))
    if case["qnn"]:
        return QNN(circ, obs, inputs=list(case["order"]), input_diff_mode=case["idm"], **kw)
    return QuantumModel(circ, obs or None, **kw)


def settings(m):
    out = dict(kind=type(m).__name__, mode=str(m._diff_mode), backend=str(m._backend_name), inputs=[str(i) for i in m.inputs] if type(m).__name__ == "QNN" else sorted(str(i) for i in m.inputs),
               meas=None if m._measurement is None else (str(m._measurement.protocol), m._measurement.options), nobs=m.out_features,
               noise=None if m._noise is None else [(str(p), o) for p, o in zip(m._noise.protocol, m._noise.options)], comp=m.backend.backend.config.use_single_qubit_composition)
    if out["kind"] == "QNN":
        out["idm"] = str(m.input_diff_mode)
    return out


class Hist:
    def __init__(self, case):
        import torch

        self.torch = torch
        self.case = case
        self.m = make(case)
        vv, _ = S.names(case["block"], *case["obs"])
        self.cur = {k: float(v) for k, v in vv.items()}
        self.fixed: dict = {}
        self.double = False
        self.settings = settings(self.m)
        self.noisy_call = False

    # ---- observations
    def values(self):
        return {**G.tensors(self.case["f"]), **{k: self.torch.tensor([v], dtype=self.torch.float64) for k, v in self.fixed.items()}}

    def check(self, what):
        case, m = self.case, self.m
        live = {k: v for k, v in self.cur.items() if k not in self.fixed}
        vp = {k: float(v) for k, v in m.vparams.items()}
        expect(set(vp) == set(live), f"{what}: variational parameters {sorted(vp)}, expected {sorted(live)}")
        for k in live:
            expect(abs(vp[k] - live[k]) <= 2e-7 * max(1, abs(live[k])), f"{what}: parameter {k} is {vp[k]}, expected {live[k]}")
        expect(np.allclose(arr(m.vals_vparams).reshape(-1), list(vp.values())), f"{what}: vals_vparams {m.vals_vparams} disagrees with vparams {vp}")
        expect(m.num_vparams == len(live), f"{what}: num_vparams {m.num_vparams}, expected {len(live)}")
        train = {k for k, p in m._params.items() if p.requires_grad}
        expect(train == set(live), f"{what}: trainable entries {sorted(train)}, expected {sorted(live)}")
        byopt = {k.split(".")[-1] for k, p in m.named_parameters() if p.requires_grad}
        expect(byopt == set(live), f"{what}: parameters seen by an optimiser {sorted(byopt)}, expected {sorted(live)}")
        expect(settings(m) == self.settings, f"{what}: settings {settings(m)}, expected {self.settings}")
        es = G.envs({**self.cur, **self.fixed}, case["f"])
        if max(S.sens(case["block"], e) for e in es) > 2000:
            raise Skip
        psi = np.array([S.mat(case["block"], e, case["n"])[:, 0] for e in es])
        got = m.run(self.values())
        close(got, psi, f"{what}: state", S.tol(case["block"], es), 1.0)
        if case["obs"] and not case["meas"] and not case["noise"]:
            bound = max(max(1, S.gen_norm(o, e)) for o in case["obs"] for e in es)
            if bound > 2000:
                raise Skip
            want = np.array([[np.vdot(p, S.mat(o, e, case["n"]) @ p).real for o in case["obs"]] for p, e in zip(psi, es)])
            close(m.expectation(self.values()), want, f"{what}: expectation", (S.tol(case["block"], es) + max(S.tol(o, es) for o in case["obs"])) * bound, 1.0)
            if case["qnn"] and case["order"] and not self.fixed:
                b = len(es)
                x = self.torch.tensor([[e[k] for k in case["order"]] for e in es], dtype=self.torch.float64)
                close(m(x), want, f"{what}: output for a tensor", (S.tol(case["block"], es) + max(S.tol(o, es) for o in case["obs"])) * bound, 1.0)
                del b

    def read(self, k):
        return float(self.m.vparams[k])

    # ---- operations
    def step(self, op, seed, mask):
        torch, m, case = self.torch, self.m, self.case
        if self.noisy_call and op in ("save_pt", "save_pt_fn", "save_dir", "dict", "json", "fix", "free"):
            from qadence.blocks.utils import primitive_blocks

            left = [b for b in primitive_blocks(m._circuit.original.block) if b.noise is not None]
            if left:
                raise Known("P12-noise-left-on-circuit", f"{op} after an expectation call with noise: {left[0]} of the model's circuit still carries the noise of that call")
        r = np.random.RandomState(seed)
        live = [k for k in m.vparams]
        if op == "reset":
            new = [float(np.float32(v)) for v in r.uniform(-3, 3, len(live))]
            m.reset_vparams(new if mask[0] else torch.tensor(new, dtype=torch.float64))
            self.cur.update(zip(live, new))
        elif op == "sgd":
            if not live or case["mode"] != "ad" or case["meas"] or case["noise"] or not case["obs"]:
                return
            opt = torch.optim.SGD(m.parameters(), lr=0.125)
            opt.zero_grad()
            m.expectation(self.values()).sum().backward()
            g = {k: (0.0 if p.grad is None else float(p.grad)) for k, p in m._params.items() if p.requires_grad}
            if not all(abs(v) < 50 for v in g.values()):
                raise Skip
            opt.step()
            for k in live:
                self.cur[k] = self.cur[k] - 0.125 * g[k]
                expect(abs(self.read(k) - self.cur[k]) <= 1e-5, f"update of {k}: {self.read(k)}, expected {self.cur[k]}")
                self.cur[k] = self.read(k)
        elif op in ("load_params", "load_partial"):
            d = m._to_dict(save_params=True)
            d = dict(d, param_dict={k: v.detach().clone() for k, v in d["param_dict"].items()})
            for i, k in enumerate(live):
                if op == "load_partial" and mask[i % 6]:
                    del d["param_dict"][k]
                    continue
                v = float(np.float32(r.uniform(-3, 3)))
                d["param_dict"][k] = torch.full_like(d["param_dict"][k], v)
                self.cur[k] = v
            if op == "load_partial":
                d["param_dict"]["no_such_parameter"] = torch.tensor([0.5])
            m.load_params_from_dict(d, strict=op == "load_params")
        elif op == "state_dict":
            sd = copy.deepcopy(m.state_dict())
            if live:
                m.reset_vparams([0.5] * len(live))
            m.load_state_dict(sd)
        elif op == "fix":
            names = [k for i, k in enumerate(live) if mask[i % 6]]
            if not names or case["qnn"]:
                return
            m.set_as_fixed(names)
            for k in names:
                self.fixed[k] = self.cur[k]
            if self.double:
                m.to(torch.cdouble)
            self.settings = dict(self.settings, inputs=settings(m)["inputs"])
        elif op == "free":
            names = [k for i, k in enumerate(sorted(self.fixed)) if mask[i % 6]]
            if not names or case["qnn"]:
                return
            m.set_as_variational(names)
            for k in names:
                del self.fixed[k]
                self.cur[k] = self.read(k)
            if self.double:
                m.to(torch.cdouble)
            self.settings = dict(self.settings, inputs=settings(m)["inputs"])
        elif op in ("save_pt", "save_pt_fn"):
            from qadence import load, save
            from qadence.types import SerializationFormat

            with tempfile.TemporaryDirectory() as d:
                if op == "save_pt":
                    m.save(d, "m.pt")
                    self.m = type(m).load(os.path.join(d, "m.pt"), as_torch=True)
                else:
                    save(m, d, "m", format=SerializationFormat.PT)
                    self.m = load(os.path.join(d, "m.pt"))
            self.inputs_after_load()
        elif op == "save_dir":
            # a folder of numbered files, the newest of which is this model
            with tempfile.TemporaryDirectory() as d:
                old = copy.deepcopy(m)
                if live:
                    old.reset_vparams([0.625] * len(live))
                name = type(m).__name__
                a, b = [(7, 12), (99, 100), (998, 1000), (9, 10)][seed % 4]
                order = [(old, a), (m, b)] if mask[0] else [(m, b), (old, a)]
                for mm, k in order:
                    mm.save(d, f"model_{name}_ckpt_{k:03n}_device_cpu.pt")
                self.m = type(m).load(d if mask[1] else Path(d), as_torch=True)
            self.inputs_after_load()
        elif op == "config":
            m.change_config(dict(loop_expectation=mask[0], use_gradient_checkpointing=mask[1]))
        elif op == "dict":
            from qadence import deserialize, serialize

            self.m = deserialize(serialize(m, save_params=True), as_torch=True)
            self.inputs_after_load()
        elif op == "json":
            from qadence import deserialize, serialize

            keep = {"param_dict": {k: v.detach().clone() for k, v in m._to_dict(save_params=True)["param_dict"].items()}}
            self.m = deserialize(json.loads(json.dumps(serialize(m))))
            if self.double:
                self.m.to(torch.cdouble)
            self.m.load_params_from_dict(keep)
            self.inputs_after_load()
        elif op == "deepcopy":
            c = copy.deepcopy(m)
            if live:
                m.reset_vparams([0.375] * len(live))
            self.m = c
        elif op == "double":
            m.to(torch.cdouble)
            self.double = True
        elif op == "noise_call":
            from qadence import NoiseHandler, NoiseProtocol

            if case["obs"] and not case["meas"] and not case["noise"]:
                nz = NoiseHandler(NoiseProtocol.DIGITAL.BITFLIP, dict(error_probability=0.2))
                self.noisy_call = True
                try:
                    m.expectation(self.values(), noise=nz)
                except Exception:
                    pass
        elif op == "eval":
            m.run(self.values())
            m.sample(self.values(), n_shots=3)

    def inputs_after_load(self):
        # a model rebuilt after fixing parameters counts them as inputs, as a fresh model would
        if self.fixed and not self.case["qnn"]:
            self.settings = dict(self.settings, inputs=settings(self.m)["inputs"])


def check(case):
    import torch

    if S.degenerate(case["block"], *case["obs"]):
        raise Skip
    vv, _ = S.names(case["block"], *case["obs"])
    if not vv:
        raise Skip
    torch.manual_seed(0)
    h = Hist(case)
    h.check("fresh model")
    for i, (op, seed, mask) in enumerate(case["ops"]):
        h.step(op, seed, mask)
        h.check(f"after operation {i + 1} ({op})")
    return dict(nontrivial=len(case["ops"]) >= 2)


FACETS = [Facet("histories", strat, check, 600, 10000, 4)]
