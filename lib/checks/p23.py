"""P23 checkpoints: model-based histories of writing, damaging and loading checkpoints; resumed training against an uninterrupted one."""
from __future__ import annotations

import contextlib
import copy
import io
import logging
import math
import os
import tempfile
from pathlib import Path

import numpy as np
from hypothesis import strategies as st

from harness import Facet, Skip
from oracle import close, expect

RULE = ("distinct history with at least two checkpoints and a load (files), at least two segments with three or more updates (resume), "
        "or at least two improvements of the validation result (best)")
ASSUMPTIONS = ["checkpoints are on the CPU and one folder belongs to one model class and one optimiser class",
               "damage is a missing, truncated, emptied or overwritten file, as left behind by a crash; flipped bits inside a complete archive are not detected by torch itself",
               "best-only checkpoints compare the validations after iteration 0, as callbacks are not called at iteration 0",
               "resuming is compared by the sequence of updates: the resumed run repeats the number of the saved iteration, not its updates"]
MODELS = ["lin", "adopter", "model_opt_net", "buffer", "qm", "qnn"]
OPTS = ["sgd", "momentum", "adam", "adamw", "lbfgs", "remodel"]


def build_model(kind, seed):
    import torch
    from torch import nn

    torch.manual_seed(seed)
    if kind == "lin":
        return nn.Linear(2, 1).double()
    if kind in ("adopter", "model_opt_net"):
        cls = type("Adopter" if kind == "adopter" else "model_opt_net", (nn.Sequential,), {})
        return cls(nn.Linear(2, 2), nn.Tanh(), nn.Linear(2, 1)).double()
    if kind == "buffer":
        class WithBuffer(nn.Module):
            def __init__(self):
                super().__init__()
                self.w = nn.Parameter(torch.rand(2))
                self.s = nn.Parameter(torch.rand(()))
                self.register_buffer("count", torch.zeros(()))

            def forward(self, x):
                self.count += 1
                return (x * self.w).sum(-1, keepdim=True) * self.s

        return WithBuffer().double()
    from qadence import QNN, RX, RY, CNOT, FeatureParameter, QuantumCircuit, QuantumModel, VariationalParameter, Z, add, chain

    r = np.random.RandomState(seed)
    b = chain(RX(0, VariationalParameter("a", value=float(r.uniform(0, 2)))), RY(1, FeatureParameter("x")), RX(1, FeatureParameter("y")), CNOT(0, 1), RY(0, VariationalParameter("b", value=float(r.uniform(0, 2)))))
    c = QuantumCircuit(2, b)
    o = add(Z(0), VariationalParameter("w", value=float(r.uniform(0, 2))) * Z(1))
    return QNN(c, [o], inputs=["x", "y"]) if kind == "qnn" else QuantumModel(c, [o])


def remodel(optim):
    """An optimiser class of the user, importable so that it can be pickled."""
    if "Remodel_" not in globals():
        globals()["Remodel_"] = type("Remodel_", (optim.Adam,), {"__module__": __name__})
    return globals()["Remodel_"]


def build_opt(kind, m, lr=0.05):
    from torch import optim

    ps = list(m.parameters())
    return {"sgd": lambda: optim.SGD(ps, lr=lr), "momentum": lambda: optim.SGD(ps, lr=lr, momentum=0.9), "adam": lambda: optim.Adam(ps, lr=lr), "adamw": lambda: optim.AdamW(ps, lr=lr),
            "lbfgs": lambda: optim.LBFGS(ps, lr=lr, max_iter=2), "remodel": lambda: remodel(optim)(ps, lr=lr)}[kind]()


def forward(m, x):
    from qadence import QNN, QuantumModel

    if isinstance(m, QuantumModel) and not isinstance(m, QNN):
        return m.expectation({"x": x[:, 0], "y": x[:, 1]})
    return m(x)


def lossfn(m, b):
    d = forward(m, b[0]) - b[1]
    v = (d**2).mean()
    return v, {"mae": d.abs().mean().detach()}


def data(seed, n=3):
    import torch

    r = np.random.RandomState(seed)
    return torch.tensor(r.uniform(-1, 1, (n, 2))), torch.tensor(r.uniform(-1, 1, (n, 1)))


def update(m, o, b):
    def closure():
        o.zero_grad()
        v, _ = lossfn(m, b)
        v.backward()
        return v.item()

    o.step(closure)


def snap(m):
    return {k: v.detach().clone() for k, v in m.state_dict().items()}


def osnap(o):
    return copy.deepcopy(o.state_dict())


def same_sd(m, want, what):
    import torch

    got = m.state_dict()
    expect(got.keys() == want.keys(), f"{what}: entries {sorted(got)}, expected {sorted(want)}")
    for k in want:
        expect(torch.equal(got[k], want[k]), f"{what}: {k} is {got[k]}, expected {want[k]}")


def same_osd(o, want, what):
    import torch

    def eq(a, b):
        if isinstance(a, torch.Tensor):
            return isinstance(b, torch.Tensor) and a.shape == b.shape and torch.equal(a, b)
        if isinstance(a, dict):
            return isinstance(b, dict) and a.keys() == b.keys() and all(eq(a[k], b[k]) for k in a)
        if isinstance(a, (list, tuple)):
            return isinstance(b, (list, tuple)) and len(a) == len(b) and all(eq(x, y) for x, y in zip(a, b))
        return a == b

    expect(eq(o.state_dict(), want), f"{what}: state {o.state_dict()}, expected {want}")


# ---------------------------------------------------------------- histories of files
@st.composite
def files_case(draw):
    ops = []
    for _ in range(draw(st.integers(2, 8))):
        k = draw(st.sampled_from(["write", "write", "write", "train", "load", "load", "named", "damage"]))
        if k == "write":
            ops.append([k, draw(st.one_of(st.integers(0, 20), st.sampled_from([9, 10, 99, 100, 999, 1000, 1001, 9999, 10000, 123456]), st.just("best")))])
        elif k == "damage":
            ops.append([k, draw(st.sampled_from(["model", "opt"])), draw(st.sampled_from(["truncate", "truncate", "empty", "garbage", "delete"])), draw(st.integers(0, 999)), draw(st.booleans())])
        else:
            ops.append([k, draw(st.integers(0, 999))])
    ops.append(["load", draw(st.integers(0, 999))])
    return dict(model=draw(st.sampled_from(MODELS)), opt=draw(st.sampled_from(OPTS)), seed=draw(st.integers(0, 99)), ops=ops, extra=draw(st.booleans()), strfolder=draw(st.booleans()))


def latest(files):
    its = [k for k in files if isinstance(k, int)]
    if its:
        return max(its)
    return "best" if "best" in files else None


def run_files(c):
    from qadence.ml_tools.callbacks.saveload import load_checkpoint, write_checkpoint

    logging.getLogger("ml_tools").setLevel(logging.CRITICAL)
    m = build_model(c["model"], c["seed"])
    o = build_opt(c["opt"], m)
    fm: dict = {}  # iteration -> (snapshot or None when damaged)
    fo: dict = {}
    nw = 0
    with tempfile.TemporaryDirectory() as d:
        folder = Path(d) / "ck"
        r = load_checkpoint(str(folder) if c["strfolder"] else folder, m, o)
        expect(r[0] is m and r[1] is o and r[2] == 0, "loading from a missing folder does not return the given model and optimiser at iteration 0")
        if c["extra"]:
            (folder / "notes.txt").write_text("x")
            (folder / "model.png").write_text("x")
        for j, op in enumerate(c["ops"]):
            what = f"operation {j + 1} ({op[0]})"
            if op[0] == "train":
                update(m, o, data(op[1]))
            elif op[0] == "write":
                update(m, o, data(j))
                before = snap(m)
                write_checkpoint(folder, m, o, op[1])
                same_sd(m, before, f"{what}: model after writing")
                fm[op[1]], fo[op[1]] = snap(m), osnap(o)
                nw += 1
            elif op[0] == "damage":
                fs = sorted(f for f in os.listdir(folder) if f.startswith(op[1] + "_") and f.endswith(".pt"))
                if not fs:
                    continue
                which = fm if op[1] == "model" else fo
                key = latest(which) if op[4] else sorted(which, key=str)[op[3] % len(which)]
                tag = "best" if key == "best" else f"{key:03d}"
                cand = [f for f in fs if f"_ckpt_{tag}_" in f]
                expect(len(cand) == 1, f"{what}: files {fs} do not contain one {op[1]} checkpoint of iteration {key}")
                p = folder / cand[0]
                raw = p.read_bytes()
                if op[2] == "delete":
                    p.unlink()
                    del which[key]
                    continue
                p.write_bytes(b"" if op[2] == "empty" else (b"\x80\x04garbage" * 20 if op[2] == "garbage" else raw[: len(raw) * op[3] // 1000]))
                which[key] = None
            else:
                m2 = build_model(c["model"], c["seed"] + 1 + op[1])
                o2 = build_opt(c["opt"], m2, 0.01)
                if op[1] % 2:
                    update(m2, o2, data(op[1]))
                s2, os2 = snap(m2), osnap(o2)
                km, ko = latest(fm), latest(fo)
                names = {}
                if op[0] == "named":
                    if not fm or not fo:
                        continue
                    km = sorted(fm, key=str)[op[1] % len(fm)]
                    ko = sorted(fo, key=str)[op[1] // 7 % len(fo)]
                    for kind, key in (("model", km), ("opt", ko)):
                        tag = "best" if key == "best" else f"{key:03d}"
                        names[kind + "_ckpt_name"] = [f for f in os.listdir(folder) if f.startswith(kind + "_") and f"_ckpt_{tag}_" in f][0]
                got = load_checkpoint(str(folder) if c["strfolder"] else folder, m2, o2, **names)
                good = fm.get(km) is not None
                expect(got[2] == (km if good else 0), f"{what}: iteration {got[2]!r}, expected {km if good else 0!r} (checkpoints {sorted(fm, key=str)})")
                same_sd(got[0], fm[km] if good else s2, f"{what}: model from {'iteration ' + str(km) if good else 'a damaged or missing file'}")
                goodo = fo.get(ko) is not None
                same_osd(got[1], fo[ko] if goodo else os2, f"{what}: optimiser from {'iteration ' + str(ko) if goodo else 'a damaged or missing file'}")
                if good and goodo and km == ko:
                    # the restored pair continues like the original
                    a, b = build_model(c["model"], 0), None
                    a.load_state_dict(fm[km])
                    b = build_opt(c["opt"], a)
                    b.load_state_dict(copy.deepcopy(fo[ko]))
                    for s in range(2):
                        update(a, b, data(s))
                        update(got[0], got[1], data(s))
                    for k, v in a.state_dict().items():
                        close(got[0].state_dict()[k], v.detach().numpy(), f"{what}: {k} after two further updates", 1e-12)
    return dict(nontrivial=nw >= 2)


# ---------------------------------------------------------------- resumed training
@st.composite
def resume_case(draw):
    segs = [dict(max_iter=draw(st.integers(0, 4)), every=draw(st.integers(1, 4)), seed=draw(st.integers(0, 99)), stop=draw(st.sampled_from([None, None, None, 1, 2, 3])), per_run=False) for _ in range(draw(st.integers(2, 3)))]
    return dict(model=draw(st.sampled_from(MODELS)), opt=draw(st.sampled_from(OPTS)), segs=segs, n=draw(st.integers(1, 5)), bs=draw(st.integers(1, 3)), dseed=draw(st.integers(0, 99)),
                val_every=draw(st.sampled_from([0, 0, 1, 2])), same=draw(st.booleans()), crash=draw(st.sampled_from([None, None, "raise"])))


def run_resume(c):
    with contextlib.redirect_stdout(io.StringIO()):
        return do_resume(c)


class Dummy:
    def __getattr__(self, name):
        return lambda *a, **k: None


class Crash(Exception):
    pass


def do_resume(c):
    import torch
    from torch.utils.data import DataLoader, TensorDataset

    from qadence.ml_tools import TrainConfig, Trainer
    from qadence.ml_tools.callbacks import Callback

    logging.getLogger("ml_tools").setLevel(logging.CRITICAL)
    X, Y = data(c["dseed"], c["n"])
    batches = [(X[i : i + c["bs"]], Y[i : i + c["bs"]]) for i in range(0, c["n"], c["bs"])]
    ref = build_model(c["model"], c["segs"][0]["seed"])
    ro = build_opt(c["opt"], ref)
    saved: dict = {}
    step = 0
    updates = 0
    with tempfile.TemporaryDirectory() as d:
        tr = None
        for j, s in enumerate(c["segs"]):
            what = f"training {j + 1}"
            crash = s["stop"] is not None and c["crash"] == "raise"
            m = build_model(c["model"], s["seed"])
            o = build_opt(c["opt"], m)
            cbs = []
            if s["stop"] is not None:
                def f(trainer, config, writer, e=Crash if crash else KeyboardInterrupt):
                    raise e

                cbs = [Callback(on="train_epoch_start", called_every=1, callback=f, callback_condition=lambda r, k=s["stop"]: r.iteration == k)]
            cfg = TrainConfig(log_folder=Path(d) / "run", max_iter=s["max_iter"], checkpoint_every=s["every"], val_every=c["val_every"], callbacks=cbs, verbose=False)
            dl = DataLoader(TensorDataset(X, Y), batch_size=c["bs"])
            tr = Trainer(m, o, cfg, loss_fn=lossfn, train_dataloader=dl, val_dataloader=dl if c["val_every"] else None)
            tr.callback_manager.writer = Dummy()
            crashed = False
            try:
                tr.fit()
            except Crash:
                crashed = True
            # reference: restore the latest checkpoint, then continue
            if saved:
                step = max(saved)
                ref.load_state_dict(copy.deepcopy(saved[step][0]))
                ro.load_state_dict(copy.deepcopy(saved[step][1]))
            elif j:
                ref = build_model(c["model"], s["seed"])
                ro = build_opt(c["opt"], ref)
                step = 0

            def evaluate():
                ref.eval()
                with torch.no_grad():
                    for b in batches:
                        lossfn(ref, b)

            def save(it):
                saved[it] = (snap(ref), osnap(ro))

            if c["val_every"]:
                evaluate()
                save(step)
            cur = step
            end = True
            for ep in range(step, step + s["max_iter"] + 1):
                cur = ep
                if s["stop"] is not None and ep == s["stop"] and ep != 0:
                    end = not crash
                    break
                for b in batches:
                    update(ref, ro, b)
                    updates += 1
                if ep and ep % s["every"] == 0:
                    save(ep)
                if c["val_every"] and ep % c["val_every"] == 0:
                    evaluate()
            expect(crashed == (not end), f"{what}: the interruption was {'not ' if not crashed else ''}raised")
            if end:
                save(cur)
            for k, v in ref.state_dict().items():
                if not torch.all(torch.isfinite(v)) or float(v.abs().max()) > 1e3:
                    raise Skip
                close(tr.model.state_dict()[k], v.detach().numpy(), f"{what}: {k} compared with uninterrupted training", 1e-10)
            names = {p.name for p in (Path(d) / "run").iterdir() if p.name.startswith("model_")}
            its = {int(x.split("_ckpt_")[1].split("_")[0]) for x in names}
            expect(its == set(saved), f"{what}: checkpoints of iterations {sorted(its)}, expected {sorted(saved)}")
        # what the folder holds
        from qadence.ml_tools.callbacks.saveload import load_checkpoint

        if saved:
            m = build_model(c["model"], 12345)
            o = build_opt(c["opt"], m)
            m, o, it = load_checkpoint(Path(d) / "run", m, o)
            expect(it == max(saved), f"latest checkpoint is of iteration {it}, expected {max(saved)}")
            for k, v in saved[it][0].items():
                close(m.state_dict()[k], v.numpy(), f"{k} of the latest checkpoint", 1e-10)
    return dict(nontrivial=updates >= 3)


# ---------------------------------------------------------------- best-only checkpoints
@st.composite
def best_case(draw):
    return dict(model=draw(st.sampled_from(MODELS)), opt=draw(st.sampled_from(["sgd", "momentum", "adam"])), seed=draw(st.integers(0, 99)), max_iter=draw(st.integers(1, 8)), val_every=draw(st.integers(1, 3)),
                vals=[draw(st.sampled_from([1.0, 0.5, 0.75, 0.25, 2.0, 0.50000001, 0.1])) for _ in range(12)], eps=draw(st.sampled_from([1e-5, 0.0, 0.3])), mode=draw(st.sampled_from(["min", "max"])),
                every=draw(st.sampled_from([0, 1])), nb=draw(st.integers(1, 2)), again=draw(st.booleans()))


def run_best(c):
    with contextlib.redirect_stdout(io.StringIO()):
        return do_best(c)


def do_best(c):
    import torch
    from torch.utils.data import DataLoader, TensorDataset

    from qadence.ml_tools import TrainConfig, Trainer
    from qadence.ml_tools.callbacks.saveload import load_checkpoint

    logging.getLogger("ml_tools").setLevel(logging.CRITICAL)
    X, Y = data(c["seed"])
    ref = build_model(c["model"], c["seed"])
    ro = build_opt(c["opt"], ref)
    m = build_model(c["model"], c["seed"])
    o = build_opt(c["opt"], m)
    V = data(7, c["nb"])
    calls = [0]
    vals = c["vals"]

    def fn(model, b):
        if not torch.is_grad_enabled():
            # scripted validation losses; the mean over the batches of validation k is vals[k]
            k, i = divmod(calls[0], c["nb"])
            calls[0] += 1
            off = 0.125 if c["nb"] == 2 and i == 0 else (-0.125 if c["nb"] == 2 else 0.0)
            return torch.tensor(vals[k % len(vals)] + off), {}
        return lossfn(model, b)

    crit = (lambda v, best, eps: bool(v < best - eps)) if c["mode"] == "min" else (lambda v, best, eps: bool(best == float("inf") or v > best + eps))
    with tempfile.TemporaryDirectory() as d:
        cfg = TrainConfig(log_folder=Path(d) / "run", max_iter=c["max_iter"], checkpoint_best_only=True, val_every=c["val_every"], checkpoint_every=c["every"], validation_criterion=crit, val_epsilon=c["eps"], verbose=False)
        tr = Trainer(m, o, cfg, loss_fn=fn, train_dataloader=DataLoader(TensorDataset(X, Y), batch_size=3), val_dataloader=DataLoader(TensorDataset(*V), batch_size=1))
        tr.callback_manager.writer = Dummy()
        tr.fit()
        best = float("inf")
        keep = None
        k = 1  # validation 0 is the initial one
        hits = 0
        for ep in range(c["max_iter"] + 1):
            update(ref, ro, (X, Y))
            if ep % c["val_every"] == 0:
                v = vals[k % len(vals)]
                k += 1
                if ep and crit(v, best, c["eps"]):
                    if best != float("inf") and abs(abs(v - best) - c["eps"]) < 1e-9:
                        raise Skip
                    best, keep = v, (snap(ref), osnap(ro))
                    hits += 1
        files = sorted(p.name for p in (Path(d) / "run").iterdir() if p.name.endswith(".pt"))
        expect(all("_ckpt_best_" in f for f in files) and len(files) == (2 if keep else 0), f"checkpoint files {files}, expected {'one best model and optimiser' if keep else 'none'}")
        if keep:
            m2 = build_model(c["model"], 999)
            o2 = build_opt(c["opt"], m2)
            m2, o2, it = load_checkpoint(Path(d) / "run", m2, o2)
            expect(it == "best", f"iteration {it!r} of the best checkpoint")
            for key, v in keep[0].items():
                if key == "count":
                    continue  # counts evaluations, and the scripted validation does not evaluate the model
                close(m2.state_dict()[key], v.numpy(), f"{key} of the best checkpoint (validation losses {vals[1:k]})", 1e-10)
            if c["again"]:
                # resuming from a best checkpoint starts from its parameters
                m3 = build_model(c["model"], 998)
                o3 = build_opt(c["opt"], m3)
                cfg3 = TrainConfig(log_folder=Path(d) / "run", max_iter=0, verbose=False)
                t3 = Trainer(m3, o3, cfg3, loss_fn=lossfn, train_dataloader=DataLoader(TensorDataset(X, Y), batch_size=3))
                t3.callback_manager.writer = Dummy()
                t3.fit()
                ref.load_state_dict(keep[0])
                ro.load_state_dict(keep[1])
                update(ref, ro, (X, Y))
                for key, v in ref.state_dict().items():
                    if key != "count":
                        close(m3.state_dict()[key], v.detach().numpy(), f"{key} after resuming from the best checkpoint", 1e-10)
    return dict(nontrivial=hits >= 2)


# ---------------------------------------------------------------- gradient-free optimisers
@st.composite
def ng_case(draw):
    return dict(name=draw(st.sampled_from(["OnePlusOne", "PSO", "DE", "CMA"])), n=draw(st.integers(1, 4)), seed=draw(st.integers(0, 99)), steps=draw(st.integers(1, 12)), more=draw(st.integers(1, 5)), its=draw(st.lists(st.integers(0, 2000), min_size=1, max_size=3, unique=True)))


def run_ng(c):
    import nevergrad as ng
    import torch
    from torch import nn

    from qadence.ml_tools.callbacks.saveload import load_checkpoint, write_checkpoint

    logging.getLogger("ml_tools").setLevel(logging.CRITICAL)

    def make():
        o = getattr(ng.optimizers, c["name"])(parametrization=c["n"], budget=100)
        o.parametrization.random_state = np.random.RandomState(c["seed"])
        o.enable_pickling()
        return o

    m, o = nn.Linear(c["n"], 1).double(), make()
    f = lambda v: float(((np.asarray(v) - 0.3) ** 2).sum())
    with tempfile.TemporaryDirectory() as d:
        keep = {}
        for it in c["its"]:
            for _ in range(c["steps"]):
                x = o.ask()
                o.tell(x, f(x.value))
            write_checkpoint(Path(d), m, o, it)
            keep[it] = (snap(m), copy.deepcopy(o))
        m2, o2 = nn.Linear(c["n"], 1).double(), make()
        m2, o2, it = load_checkpoint(Path(d), m2, o2)
        expect(it == max(c["its"]), f"iteration {it}, expected {max(c['its'])}")
        same_sd(m2, keep[it][0], "model")
        ref = keep[it][1]
        expect(o2.num_tell == ref.num_tell and o2.num_ask == ref.num_ask, f"optimiser has {o2.num_ask} requests and {o2.num_tell} results, expected {ref.num_ask} and {ref.num_tell}")
        for i in range(c["more"]):
            a, b = o2.ask(), ref.ask()
            expect(np.allclose(a.value, b.value), f"candidate {i} after loading: {a.value}, expected {b.value}")
            o2.tell(a, f(a.value))
            ref.tell(b, f(b.value))
    return dict(nontrivial=len(c["its"]) > 1)


FACETS = [Facet("files", files_case, run_files, 220, 6000, 2), Facet("resume", resume_case, run_resume, 120, 4000, 2), Facet("best", best_case, run_best, 120, 4000, 2), Facet("gradient-free", ng_case, run_ng, 30, 600, 1)]
