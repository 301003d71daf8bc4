"""P22 training: a hand-written training loop and event schedule as the reference."""
from __future__ import annotations

import contextlib
import copy
import io
import logging
import math
import tempfile
from pathlib import Path

import numpy as np
from hypothesis import strategies as st

import gen as G
from harness import Facet, Skip, Violation
from oracle import arr, close, expect

RULE = ("distinct training history with at least two epochs and either several batches, validation, a callback that fires conditionally, "
        "a learning-rate schedule, early stopping, an interruption or several fit/test calls")
ASSUMPTIONS = ["one process on the CPU; data loaders are TensorDataset or InfiniteTensorDataset loaders, or dictionaries of them",
               "epochs are numbered from the starting iteration to starting iteration + max_iter inclusive, and callbacks other than those at the start and end of training are not called at iteration 0, as the code and its tests have it",
               "several fits with one configuration resume from the latest checkpoint of the log folder, as documented",
               "with closure-based optimisers that evaluate the loss several times per step only the parameters are compared, not the reported loss"]
STAGES = ["train_start", "train_end", "train_epoch_start", "train_epoch_end", "train_batch_start", "train_batch_end", "val_epoch_start", "val_epoch_end",
          "val_batch_start", "val_batch_end", "test_batch_start", "test_batch_end"]


class Stop(BaseException):
    pass


# ---------------------------------------------------------------- cases
@st.composite
def loader(draw, kind, infinite_ok=True):
    if kind == "none":
        return None
    n = draw(st.integers(1, 7))
    k = dict(n=n, bs=draw(st.integers(1, 4)), seed=draw(st.integers(0, 99)), mode=draw(st.sampled_from(["plain", "plain", "plain", "drop"] + (["infinite", "shuffle"] if infinite_ok else []))))
    if kind == "dict":
        k["n2"] = draw(st.integers(1, 7))
        k["bs2"] = draw(st.integers(1, 4))
    if k["mode"] == "drop" and k["bs"] > n:
        k["mode"] = "plain"
    return k


@st.composite
def history(draw):
    model = draw(st.sampled_from(["lin", "lin", "mlp", "mlp", "qnn", "free"]))
    kind = "none" if model == "free" else draw(st.sampled_from(["pair", "pair", "dict"]))
    opt = draw(st.sampled_from(["sgd", "momentum", "adam", "adamw", "rmsprop", "lbfgs"]))
    loss = "custom" if kind != "pair" else draw(st.sampled_from(["custom", "custom", "custom", "mse", "cross_entropy"]))
    if loss == "cross_entropy" and model == "qnn":
        loss = "mse"
    inf = loss == "custom" and opt != "lbfgs"
    val_every = 0 if kind == "none" else draw(st.sampled_from([0, 0, 1, 1, 2, 3]))
    cbs = []
    for _ in range(draw(st.integers(0, 4))):
        cbs.append(dict(kind="rec", on=draw(st.sampled_from(STAGES)), every=draw(st.sampled_from([1, 1, 2, 3, 0])), cond=draw(st.sampled_from([None, None, None, "odd", "late"]))))
    lr = draw(st.sampled_from([None, None, "step", "cyclic", "cosine"]))
    if lr:
        c = dict(kind=lr, on=draw(st.sampled_from(["train_epoch_end", "train_batch_end", "train_epoch_start", "val_epoch_end"])), every=draw(st.sampled_from([1, 1, 2])))
        if lr == "step":
            c["gamma"] = draw(st.sampled_from([0.5, 0.75, 0.9]))
        elif lr == "cyclic":
            c.update(base=0.001, top=draw(st.sampled_from([0.01, 0.05])), size=draw(st.integers(1, 4)))
        else:
            c.update(tmax=draw(st.integers(1, 6)), low=draw(st.sampled_from([0.0, 0.001])))
        cbs.insert(draw(st.integers(0, len(cbs))), c)
    if opt != "lbfgs" and draw(st.integers(0, 3)) == 0:
        on = draw(st.sampled_from(["train_epoch_end", "val_epoch_end"])) if val_every else "train_epoch_end"
        ph = on.split("_")[0]
        mon = draw(st.sampled_from([f"{ph}_loss"] + ([f"{ph}_mae", f"{ph}_drift"] if loss == "custom" else [])))
        cbs.append(dict(kind="early", on=on, every=draw(st.sampled_from([1, 1, 2])), monitor=mon, patience=draw(st.integers(1, 3)), mode=draw(st.sampled_from(["min", "max"]))))
    if draw(st.integers(0, 4)) == 0:
        cbs.append(dict(kind="grad", on="train_batch_end", every=draw(st.sampled_from([1, 2]))))
    nops = draw(st.integers(1, 3))
    if draw(st.integers(0, 5)) == 0:
        # an interruption of the validation before training is not handled by the training loop
        cbs.insert(draw(st.integers(0, len(cbs))), dict(kind="interrupt", on=draw(st.sampled_from(["train_batch_start", "train_batch_end", "train_epoch_end"] + (["val_epoch_end"] if nops == 1 else []))), every=draw(st.integers(1, 3))))
    return dict(
        model=model, kind=kind, opt=opt, lr=draw(st.sampled_from([0.01, 0.05])), groups=model == "mlp" and opt != "lbfgs" and draw(st.booleans()), frozen=model == "mlp" and draw(st.booleans()),
        loss=loss, mseed=draw(st.integers(0, 999)), train=draw(loader(kind, inf)), val=draw(loader(kind, inf)) if val_every else None, test=draw(loader(kind, inf)),
        max_batches=draw(st.sampled_from([None, None, 1, 2])), max_iter=draw(st.integers(0, 5)), val_every=val_every,
        write_every=draw(st.sampled_from([0, 1, 2])), print_every=draw(st.sampled_from([0, 0, 2])), plot_every=draw(st.sampled_from([0, 0, 1, 3])), ckpt_every=draw(st.sampled_from([0, 0, 1, 2])),
        hyper=draw(st.booleans()), verbose=draw(st.booleans()), reduce=draw(st.integers(0, 3)) == 0, folder=draw(st.sampled_from(["root", "log", "per_run"])), cbs=cbs,
        step=draw(st.sampled_from(["default", "default", "default", "clip"])) if opt != "lbfgs" else "default",
        ops=[[draw(st.sampled_from(["fit", "fit", "fit_new", "test", "test_new", "fit_other"])), draw(loader(kind, inf)), draw(loader(kind, inf))] for _ in range(nops)],
    )


# ---------------------------------------------------------------- building blocks shared by both sides
def dims(c):
    return (1, 1) if c["model"] == "qnn" else (2, 2 if c["loss"] == "cross_entropy" else 1)


def tensors(c, k, second=False):
    r = np.random.RandomState(k["seed"] + (1000 if second else 0))
    n = k["n2"] if second else k["n"]
    import torch

    i, o = dims(c)
    x = torch.tensor(r.uniform(-1, 1, (n, i)))
    y = torch.tensor(np.eye(2)[r.randint(0, 2, n)] if c["loss"] == "cross_entropy" else r.uniform(-1, 1, (n, o)))
    return x, y


def make_loader(c, k):
    from torch import Generator
    from torch.utils.data import DataLoader, TensorDataset

    from qadence.ml_tools import DictDataLoader, to_dataloader

    if k is None:
        return None

    def one(second):
        ts = tensors(c, k, second)
        bs = k["bs2"] if second else k["bs"]
        if k["mode"] == "shuffle":
            return DataLoader(TensorDataset(*ts), batch_size=bs, shuffle=True, generator=Generator().manual_seed(k["seed"]))
        if k["mode"] == "drop" and not second:
            return DataLoader(TensorDataset(*ts), batch_size=bs, drop_last=True)
        return to_dataloader(*ts, batch_size=bs, infinite=k["mode"] == "infinite")

    return DictDataLoader({"a": one(False), "b": one(True)}) if c["kind"] == "dict" else one(False)


class Source:
    """The batches a loader should give, written independently of the library."""

    def __init__(self, c, k):
        import torch

        self.c, self.k, self.torch = c, k, torch

    def order(self, second):
        k = self.k
        n, bs = (k["n2"], k["bs2"]) if second else (k["n"], k["bs"])
        out = [list(range(n))[i : i + bs] for i in range(0, n, bs)]
        if k["mode"] == "drop" and not second and len(out[-1]) < bs:
            out.pop()
        return out

    def logged(self, log, seen, sizes):
        """The next batch of the trainer's log; every sample must be one of the given ones, used at most once more than the others."""
        b = log.next_batch()
        if b is None:
            raise Violation("the loss was evaluated fewer times than there are batches")
        for key, second in [("a", False), ("b", True)] if self.c["kind"] == "dict" else [(None, False)]:
            if key is not None and not isinstance(b, dict):
                raise Violation(f"batch of a dictionary of loaders is {type(b)}")
            x, y = b[key] if key is not None else b
            X, Y = tensors(self.c, self.k, second)
            expect(x.shape[0] == sizes[second] and y.shape[0] == x.shape[0], f"batch of {x.shape[0]} samples, expected {sizes[second]}")
            cnt = seen.setdefault(second, [0] * X.shape[0])
            for u, v in zip(x, y):
                hit = [i for i in range(X.shape[0]) if self.torch.equal(X[i], u) and self.torch.equal(Y[i], v)]
                expect(len(hit) == 1, f"sample {u}, {v} is not one of the given pairs")
                cnt[hit[0]] += 1
            expect(max(cnt) - min(cnt) <= 1, f"samples are repeated before all are used: {cnt}")
        return b

    def epoch(self, limit, log):
        """Batches of one pass; batches of infinite or shuffled data are taken from the log after checking them."""
        k = self.k
        if k is None:
            yield None
            return
        if k["mode"] == "infinite":
            yield lambda: self.logged(log, {}, [k["bs"], k.get("bs2")])
            return
        nb = math.ceil(k["n"] / k["bs"])
        nb = nb if limit is None else min(limit, nb)
        A = self.order(False)
        if k["mode"] == "shuffle":
            B = self.order(True) if self.c["kind"] == "dict" else A
            seen: dict = {}
            for i in range(min(nb, len(A), len(B))):
                yield lambda i=i: self.logged(log, seen, [len(A[i]), len(B[i])])
            return
        if self.c["kind"] == "dict":
            B = self.order(True)
            XA, XB = tensors(self.c, k, False), tensors(self.c, k, True)
            for i in range(min(nb, len(A), len(B))):
                yield {"a": [t[A[i]] for t in XA], "b": [t[B[i]] for t in XB]}
        else:
            X = tensors(self.c, k)
            for ids in A[:nb]:
                yield tuple(t[ids] for t in X)


def make_model(c):
    import torch
    from torch import nn

    torch.manual_seed(c["mseed"])
    i, o = dims(c)
    if c["model"] == "lin":
        m = nn.Linear(i, o)
    elif c["model"] == "mlp":
        m = nn.Sequential(nn.Linear(i, 3), nn.Tanh(), nn.Linear(3, o))
        if c["frozen"]:
            m[0].bias.requires_grad_(False)
    elif c["model"] == "free":
        class Free(nn.Module):
            def __init__(self):
                super().__init__()
                self.w = nn.Parameter(torch.rand(3))
                self.v = nn.Parameter(torch.rand(()))

            def forward(self, x=None):
                return (self.w.sin().sum() + self.v**2).reshape(1, 1)

        m = Free()
    else:
        from qadence import QNN, RX, RY, FeatureParameter, QuantumCircuit, VariationalParameter, Z, chain

        return QNN(QuantumCircuit(1, chain(RX(0, VariationalParameter("a", value=0.1 + c["mseed"] / 700)), RY(0, FeatureParameter("x")), RX(0, VariationalParameter("b", value=0.7)))), [Z(0)], inputs=["x"])
    return m.double()


def make_opt(c, m):
    from torch import optim

    ps = [p for p in m.parameters()] if c["frozen"] else list(m.parameters())
    if c["groups"]:
        ps = [dict(params=ps[:2]), dict(params=ps[2:], lr=c["lr"] / 2)]
    lr = c["lr"]
    return {"sgd": lambda: optim.SGD(ps, lr=lr), "momentum": lambda: optim.SGD(ps, lr=lr, momentum=0.9, nesterov=True), "adam": lambda: optim.Adam(ps, lr=lr),
            "adamw": lambda: optim.AdamW(ps, lr=lr, weight_decay=0.1), "rmsprop": lambda: optim.RMSprop(ps, lr=lr), "lbfgs": lambda: optim.LBFGS(ps, lr=lr, max_iter=3)}[c["opt"]]()


def loss_value(c, model, batch, drift):
    import torch

    if c["loss"] == "mse":
        d = model(batch[0]) - batch[1]
        v = (d * d).sum() / d.numel()
        return v, {"mse": v}
    if c["loss"] == "cross_entropy":
        z = model(batch[0])
        v = -(batch[1] * (z - torch.logsumexp(z, 1, keepdim=True))).sum() / z.shape[0]
        return v, {"cross_entropy": v}
    if batch is None:
        out = model(None)
        d = out - 0.5
        extra = 0.0
    elif isinstance(batch, dict):
        d = model(batch["a"][0]) - batch["a"][1]
        extra = 0.5 * (model(batch["b"][0]) ** 2).mean() + 0.1 * batch["b"][1].mean()
    else:
        d = model(batch[0]) - batch[1]
        extra = 0.0
    v = (d**2).mean() + extra
    return v, {"mae": d.abs().mean(), "drift": torch.tensor(float(drift))}


class Log:
    """Loss evaluations of the trainer, in order."""

    def __init__(self):
        self.calls, self.pos = [], 0

    def add(self, model, batch):
        import torch

        cp = {k: [t.clone() for t in v] for k, v in batch.items()} if isinstance(batch, dict) else (None if batch is None else tuple(t.clone() for t in batch))
        self.calls.append((torch.is_grad_enabled(), model.training, cp))

    def next_batch(self):
        return self.calls[self.pos][2] if self.pos < len(self.calls) else None


def flat(m):
    import torch

    return torch.cat([p.detach().reshape(-1).clone() for p in m.parameters()])


def same_batch(a, b):
    import torch

    if a is None or b is None:
        return a is b
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(same_batch(tuple(a[k]), tuple(b[k])) for k in a)
    return len(a) == len(b) and all(torch.equal(x, y) for x, y in zip(a, b))


def clip_step(model, optimizer, loss_fn, xs, device=None, dtype=None):
    optimizer.zero_grad()
    loss, metrics = loss_fn(model, xs)
    loss.backward()
    for p in model.parameters():
        if p.grad is not None:
            p.grad.clamp_(-0.3, 0.3)
    optimizer.step()
    return loss, metrics


COND = {"odd": lambda it: it % 2 == 1, "late": lambda it: it >= 2}


# ---------------------------------------------------------------- reference
class Sim:
    def __init__(self, c, log):
        self.c, self.log = c, log
        self.m = make_model(c)
        self.opt = make_opt(c, self.m)
        self.src = {k: Source(c, c[k]) for k in ("train", "val", "test")}
        self.global_step = self.epoch = 0
        self.events, self.writes, self.prints, self.plots, self.hyper = [], [], [], [], 0
        self.calls, self.files, self.drift, self.fits = [], {}, 0, 0
        self.cbs = None
        self.best_loss = self.losses = self.vlosses = None
        self.initial = {}

    def emit(self, stage, it, metrics=None, loss=None, write=True):
        c = self.c
        if self.cbs is None:
            return
        always = stage in ("train_start", "train_end")
        for i, cb in enumerate(self.cbs):
            if cb["on"] != stage:
                continue
            fires = always or (it != 0 and cb["every"] != 0 and it % cb["every"] == 0 and (cb.get("cond") is None or COND[cb["cond"]](it)))
            if fires:
                self.act(i, cb, stage, it, metrics, loss)
        if not write:
            return

        def due(every):
            return every and it != 0 and it % every == 0

        if stage == "train_start":
            self.plots.append(it)
            if c["val_every"]:
                self.writes.append((it, metrics))
                self.save(it)
        elif stage == "train_epoch_end":
            if due(c["ckpt_every"]):
                self.save(it)
            if c["verbose"] and due(c["print_every"]):
                self.prints.append((it, loss))
            if due(c["plot_every"]):
                self.plots.append(it)
            if due(c["write_every"]):
                self.writes.append((it, metrics))
        elif stage == "val_epoch_end":
            if due(c["val_every"]):
                self.writes.append((it, metrics))
        elif stage == "train_end":
            if c["hyper"]:
                self.hyper += 1
            if c["plot_every"]:
                self.plots.append(it)
            if c["ckpt_every"]:
                self.save(it)
            if c["write_every"]:
                self.writes.append((it, metrics))

    def act(self, i, cb, stage, it, metrics, loss):
        k = cb["kind"]
        if k == "rec":
            self.events.append((i, stage, it, None if stage.endswith("start") else loss, flat(self.m)))
        elif k == "step":
            for g in self.opt.param_groups:
                g["lr"] = g["lr"] * cb["gamma"]
        elif k == "cyclic":
            ph = it % (2 * cb["size"])
            tri = ph / cb["size"] if ph <= cb["size"] else 2 - ph / cb["size"]
            for g in self.opt.param_groups:
                g["lr"] = cb["base"] + (cb["top"] - cb["base"]) * tri
        elif k == "cosine":
            for j, g in enumerate(self.opt.param_groups):
                g["lr"] = cb["low"] + (self.initial[id(self.opt)][j] - cb["low"]) * (1 + math.cos(math.pi * it / cb["tmax"])) / 2
        elif k == "early":
            v = float(metrics[cb["monitor"]])
            if cb["best"] is not None and abs(v - cb["best"]) < 1e-12 * max(1, abs(v)) and v != cb["best"]:
                raise Skip
            better = cb["best"] is None or (v < cb["best"] if cb["mode"] == "min" else v > cb["best"])
            if better:
                cb["best"], cb["count"] = v, 0
            else:
                cb["count"] += 1
            if cb["count"] >= cb["patience"]:
                self.stop = True
        elif k == "grad":
            d = {}
            for n, p in self.m.named_parameters():
                if p.grad is not None:
                    g = p.grad.detach().reshape(-1).numpy()
                    d[n + "_mean"], d[n + "_max"], d[n + "_min"] = g.mean(), g.max(), g.min()
                    if g.size > 1:
                        d[n + "_std"] = np.std(g, ddof=1)
            self.writes.append((it, d))
        elif k == "interrupt":
            raise Stop

    def save(self, it):
        self.files[it] = (copy.deepcopy(self.m.state_dict()), copy.deepcopy(self.opt.state_dict()))

    def lossfn(self, batch):
        import torch

        if callable(batch):
            batch = batch()
        self.calls.append((torch.is_grad_enabled(), self.m.training, batch))
        self.log.pos += 1
        self.drift += 1
        return loss_value(self.c, self.m, batch, self.drift)

    def batches(self, which, phase):
        src = self.src[which]
        return src.epoch(self.c["max_batches"], self.log)

    def train_step(self, batch):
        out = {}

        def closure():
            self.opt.zero_grad()
            out["v"], out["m"] = self.lossfn(batch)
            out["v"].backward()
            return float(out["v"])

        if self.c["step"] == "clip":
            clip_step(self.m, self.opt, lambda m, b: self.lossfn(b), batch)
            v, me = None, None
        else:
            self.opt.step(closure)
            v, me = out["v"], out["m"]
        return v, me

    def result(self, phase, v, me):
        d = {f"{phase}_{k}": float(x) for k, x in me.items()}
        d[f"{phase}_loss"] = float(v)
        return float(v), d

    @staticmethod
    def mean(rs):
        if not rs:
            return None, {}
        return float(np.mean([r[0] for r in rs])), {k: float(np.mean([r[1][k] for r in rs])) for k in rs[0][1]}

    def evaluate(self, which, phase, it):
        import torch

        self.m.eval()
        rs = []
        for b in self.batches(which, phase):
            self.emit(f"{phase}_batch_start", it)
            with torch.no_grad():
                v, me = self.lossfn(b)
            r = self.result(phase, v, me)
            rs.append(r)
            self.emit(f"{phase}_batch_end", it, r[1], r[0])
        return rs

    def validation(self):
        it = self.epoch
        self.emit("val_epoch_start", it)
        rs = self.evaluate("val", "val", it)
        v, d = self.mean(rs)
        self.emit("val_epoch_end", it, d, v)
        return rs, (v, d)

    def fit(self):
        c = self.c
        self.fits += 1
        self.stop = False
        self.epoch = self.global_step
        self.cbs = [dict(cb, best=None, count=0) for cb in c["cbs"]]
        new = c["folder"] == "per_run" or (c["folder"] == "root" and self.fits == 1)
        if new:
            self.files = {}
        else:
            it = max(self.files, default=None)
            if it is not None:
                sd, od = self.files[it]
                self.m.load_state_dict(copy.deepcopy(sd))
                self.opt.load_state_dict(copy.deepcopy(od))
            self.global_step = self.epoch = it or 0
        self.initial.setdefault(id(self.opt), [g["lr"] for g in self.opt.param_groups])
        last = (None, {})
        if c["val_every"]:
            _, last = self.validation()
        self.emit("train_start", self.epoch, last[1], last[0])
        self.losses, self.vlosses = [], []
        for ep in range(self.global_step, self.global_step + c["max_iter"] + 1):
            if self.stop:
                break
            try:
                self.epoch = ep
                self.emit("train_epoch_start", ep)
                self.m.train()
                rs = []
                for b in self.batches("train", "train"):
                    self.emit("train_batch_start", ep)
                    if c["step"] == "clip":
                        keep = {}

                        def fn(m, bb):
                            keep["r"] = self.lossfn(bb)
                            return keep["r"]

                        clip_step(self.m, self.opt, fn, b)
                        v, me = keep["r"]
                    else:
                        v, me = self.train_step(b)
                    r = self.result("train", v, me)
                    rs.append(r)
                    self.emit("train_batch_end", ep, r[1], r[0])
                v, d = self.mean(rs)
                self.emit("train_epoch_end", ep, d, v)
                self.losses.append(rs)
                if c["val_every"] and ep % c["val_every"] == 0:
                    vr, _ = self.validation()
                    self.vlosses.append(vr)
            except Stop:
                self.stop = True
        v, d = self.mean(self.losses[-1] if self.losses else [])
        self.emit("train_end", self.epoch, d, v)

    def test(self):
        return self.evaluate("test", "test", self.epoch)


# ---------------------------------------------------------------- the library side
class Rec:
    def __init__(self):
        self.writes, self.prints, self.plots, self.hyper = [], [], [], 0

    def open(self, *a, **k):
        pass

    def close(self):
        pass

    def write(self, it, metrics):
        self.writes.append((it, {k: float(v) for k, v in metrics.items()}))

    def print_metrics(self, r):
        self.prints.append((r.iteration, None if r.loss is None else float(r.loss)))

    def plot(self, model, it, fns):
        self.plots.append(it)

    def log_hyperparams(self, h):
        self.hyper += 1

    def log_model(self, *a, **k):
        pass


def callbacks(c, events):
    from qadence.ml_tools.callbacks import Callback, EarlyStopping, GradientMonitoring, LRSchedulerCosineAnnealing, LRSchedulerCyclic, LRSchedulerStepDecay

    out = []
    for i, cb in enumerate(c["cbs"]):
        k, on, ev = cb["kind"], cb["on"], cb["every"]
        if k == "rec":
            def f(trainer, config, writer, i=i, on=on):
                r = trainer.opt_result
                events.append((i, on, r.iteration, None if on.endswith("start") or r.loss is None else float(r.loss), flat(trainer.model)))

            cond = None if cb["cond"] is None else (lambda r, g=COND[cb["cond"]]: g(r.iteration))
            out.append(Callback(on=on, called_every=ev, callback=f, callback_condition=cond))
        elif k == "interrupt":
            def g(trainer, config, writer):
                raise KeyboardInterrupt

            out.append(Callback(on=on, called_every=ev, callback=g))
        elif k == "step":
            out.append(LRSchedulerStepDecay(on, ev, cb["gamma"]))
        elif k == "cyclic":
            out.append(LRSchedulerCyclic(on, ev, cb["base"], cb["top"], cb["size"]))
        elif k == "cosine":
            out.append(LRSchedulerCosineAnnealing(on, ev, cb["tmax"], cb["low"]))
        elif k == "early":
            out.append(EarlyStopping(on, ev, cb["monitor"], cb["patience"], cb["mode"]))
        elif k == "grad":
            out.append(GradientMonitoring(on, ev))
    return out


def cmp_results(got, want, what):
    expect(len(got) == len(want), f"{what}: {len(got)} batches, expected {len(want)}")
    for j, ((gv, gm), (wv, wm)) in enumerate(zip(got, want)):
        close(float(gv), np.float64(wv), f"{what}: loss of batch {j}", 1e-9)
        cmp_metrics(gm, wm, f"{what}: metrics of batch {j}")


def cmp_metrics(g, w, what):
    g = {k: float(v) for k, v in g.items()}
    expect(set(w) <= set(g) and not {k for k in set(g) - set(w) if not k.endswith("_std")}, f"{what}: {sorted(g)}, expected {sorted(w)}")
    for k in w:
        expect(abs(g[k] - w[k]) <= 1e-8 * max(1, abs(w[k])), f"{what}: {k} = {g[k]}, expected {w[k]}")


def run_history(c):
    with contextlib.redirect_stdout(io.StringIO()):
        return train_history(c)


def train_history(c):
    import torch

    from qadence.ml_tools import TrainConfig, Trainer
    from qadence.ml_tools.config import TrainConfig as _TC  # noqa: F401

    logging.getLogger("ml_tools").setLevel(logging.CRITICAL)
    log, events, rec = Log(), [], Rec()
    drift = [0]

    def custom(model, batch):
        log.add(model, batch)
        drift[0] += 1
        return loss_value(c, model, batch, drift[0])

    class T(Trainer):
        def on_train_end(self, train_losses, val_losses=None):
            self.got = (train_losses, val_losses)

    with tempfile.TemporaryDirectory() as d:
        d = Path(d)
        kw = dict(log_folder=d / "log") if c["folder"] == "log" else dict(root_folder=d / "root", create_subfolder_per_run=c["folder"] == "per_run")
        cfg = TrainConfig(max_iter=c["max_iter"], val_every=c["val_every"], write_every=c["write_every"], print_every=c["print_every"], plot_every=c["plot_every"],
                          checkpoint_every=c["ckpt_every"], hyperparams={"a": 1.5} if c["hyper"] else {}, verbose=c["verbose"], all_reduce_metrics=c["reduce"],
                          callbacks=callbacks(c, events), **kw)
        model = make_model(c)
        opt = make_opt(c, model)
        kw = dict(optimize_step=clip_step) if c["step"] == "clip" else {}
        tr = T(model, opt, cfg, loss_fn=custom if c["loss"] == "custom" else c["loss"], train_dataloader=make_loader(c, c["train"]), val_dataloader=make_loader(c, c["val"]),
               test_dataloader=make_loader(c, c["test"]), max_batches=c["max_batches"], **kw)
        tr.callback_manager.writer = rec
        sim = Sim(c, log)
        sim.initial[id(sim.opt)] = [g["lr"] for g in sim.opt.param_groups]
        nfit = 0
        for j, (op, l1, l2) in enumerate(c["ops"]):
            what = f"operation {j + 1} ({op})"
            before = flat(tr.model)
            if op == "fit_other" and (c["ckpt_every"] or c["val_every"] or c["opt"] == "lbfgs"):
                op = "fit"
            swap = None
            if op in ("fit", "fit_new", "fit_other"):
                nfit += 1
                a = b = None
                if op == "fit_new":
                    a = make_loader(c, l1)
                    sim.src["train"] = Source(c, l1) if l1 is not None else sim.src["train"]
                    if c["val_every"]:
                        b = make_loader(c, l2)
                        sim.src["val"] = Source(c, l2) if l2 is not None else sim.src["val"]
                if op == "fit_other":
                    other, swap = torch.optim.SGD(tr.model.parameters(), lr=0.02), (sim.opt, torch.optim.SGD(sim.m.parameters(), lr=0.02))
                    with tr.enable_grad_opt(other):
                        ret = tr.fit(a, b)
                    expect(tr.optimizer is opt, f"{what}: the optimiser is not restored after training with another one")
                else:
                    ret = tr.fit(a, b)
                expect(ret[0] is tr.model, f"{what}: fit does not return the model")
                if swap:
                    sim.opt = swap[1]
                sim.fit()
                if swap:
                    sim.opt = swap[0]
                if c["opt"] != "lbfgs":
                    gt, gv = tr.got
                    expect(len(gt) == len(sim.losses), f"{what}: {len(gt)} epochs, expected {len(sim.losses)}")
                    for e, (g, w) in enumerate(zip(gt, sim.losses)):
                        cmp_results(g, w, f"{what}: epoch {e}")
                    expect(len(gv) == len(sim.vlosses), f"{what}: {len(gv)} validations, expected {len(sim.vlosses)}")
                    for e, (g, w) in enumerate(zip(gv, sim.vlosses)):
                        cmp_results(g, w, f"{what}: validation {e}")
                else:
                    expect(len(tr.got[0]) == len(sim.losses) and [len(x) for x in tr.got[0]] == [len(x) for x in sim.losses], f"{what}: batches per epoch {[len(x) for x in tr.got[0]]}, expected {[len(x) for x in sim.losses]}")
                for g, w in zip((swap and [other] or [tr.optimizer])[0].param_groups, (swap[1] if swap else sim.opt).param_groups):
                    expect(abs(g["lr"] - w["lr"]) <= 1e-12, f"{what}: learning rate {g['lr']}, expected {w['lr']}")
            else:
                if op == "test_new" and l1 is not None:
                    got = tr.test(make_loader(c, l1))
                    sim.src["test"] = Source(c, l1)
                else:
                    got = tr.test()
                want = sim.test()
                cmp_results(got, want, what)
                expect(torch.equal(before, flat(tr.model)), f"{what}: testing changed the parameters")
            w = flat(sim.m)
            if float(w.abs().max()) > 1e3:
                raise Skip
            close(flat(tr.model), w.numpy(), f"{what}: parameters", 1e-9)
        # loss evaluations
        if c["loss"] == "custom":
            g, w = log.calls, sim.calls
            expect(len(g) == len(w), f"{len(g)} loss evaluations, expected {len(w)}")
            for i, (x, y) in enumerate(zip(g, w)):
                expect(x[0] == y[0] and x[1] == y[1], f"loss evaluation {i}: gradients {x[0]} and training mode {x[1]}, expected {y[0]} and {y[1]}")
                expect(same_batch(x[2], y[2]), f"loss evaluation {i}: batch {x[2]}, expected {y[2]}")
        # callbacks
        ge, we = [e[:3] for e in events], [e[:3] for e in sim.events]
        expect(ge == we, f"callbacks fired at {ge[:12]}..., expected {we[:12]}..." if len(we) > 12 or len(ge) > 12 else f"callbacks fired at {ge}, expected {we}")
        for g, w in zip(events, sim.events):
            close(g[4], w[4].numpy(), f"parameters seen by the callback at {g[:3]}", 1e-9)
            if c["opt"] != "lbfgs" and not g[1].endswith("start"):
                expect((g[3] is None) == (w[3] is None) and (g[3] is None or abs(g[3] - w[3]) <= 1e-8 * max(1, abs(w[3]))), f"loss seen by the callback at {g[:3]}: {g[3]}, expected {w[3]}")
        # writer
        expect([x[0] for x in rec.writes] == [x[0] for x in sim.writes], f"metrics written at {[x[0] for x in rec.writes]}, expected {[x[0] for x in sim.writes]}")
        if c["opt"] != "lbfgs":
            for g, w in zip(rec.writes, sim.writes):
                cmp_metrics(g[1], w[1] or {}, f"metrics written at iteration {g[0]}")
        expect([x[0] for x in rec.prints] == [x[0] for x in sim.prints], f"metrics printed at {[x[0] for x in rec.prints]}, expected {[x[0] for x in sim.prints]}")
        expect(rec.plots == sim.plots, f"plots at {rec.plots}, expected {sim.plots}")
        expect(rec.hyper == sim.hyper, f"hyperparameters logged {rec.hyper} times, expected {sim.hyper}")
    many = c["val_every"] or c["cbs"] or len(c["ops"]) > 1 or (c["train"] and c["train"]["n"] > c["train"]["bs"])
    return dict(nontrivial=bool(c["max_iter"] >= 1 and nfit and many))


# ---------------------------------------------------------------- schedules of single callbacks
@st.composite
def schedule(draw):
    kind = draw(st.sampled_from(["every", "step", "cyclic", "cosine", "early"]))
    long = draw(st.booleans())
    its = sorted(draw(st.lists(st.integers(0, 10**5 if long else 30), min_size=1, max_size=25, unique=True)))
    vals = [draw(st.sampled_from([0.0, 0.5, 0.25, -1.0, 2.0, 0.125, 3.5])) for _ in its]
    return dict(kind=kind, its=its, vals=vals, every=draw(st.integers(1, 7)), lrs=[draw(st.sampled_from([0.1, 0.02, 1.0])) for _ in range(draw(st.integers(1, 3)))],
                gamma=draw(st.sampled_from([0.5, 0.9, 0.1, 1.5])), base=draw(st.sampled_from([0.0, 0.001, 0.5])), top=draw(st.sampled_from([0.6, 0.75, 2.0])), size=draw(st.integers(1, 4000 if long else 6)),
                tmax=draw(st.integers(1, 50000 if long else 20)), low=draw(st.sampled_from([0.0, 0.005])), patience=draw(st.integers(1, 4)), mode=draw(st.sampled_from(["min", "max"])),
                on=draw(st.sampled_from(["train_epoch_end", "train_batch_end", "val_epoch_end", "train_epoch_start", "test_batch_end"])), other=draw(st.sampled_from(STAGES)), mod=draw(st.booleans()))


def run_schedule(c):
    from types import SimpleNamespace

    import torch

    from qadence.ml_tools import OptimizeResult
    from qadence.ml_tools.callbacks import Callback, EarlyStopping, LRSchedulerCosineAnnealing, LRSchedulerCyclic, LRSchedulerStepDecay
    from qadence.ml_tools.stages import TrainingStage

    logging.getLogger("ml_tools").setLevel(logging.CRITICAL)
    opt = torch.optim.SGD([dict(params=[torch.nn.Parameter(torch.rand(1))], lr=x) for x in c["lrs"]], lr=0.1)
    tr = SimpleNamespace(optimizer=opt, _stop_training=torch.tensor(0), opt_result=None)
    fired = []
    k, on = c["kind"], c["on"]
    if k == "every":
        cb = Callback(on=on, called_every=c["every"], callback=lambda t, a, b: fired.append((t.opt_result.iteration, dict(t.opt_result.extra))),
                      callback_condition=lambda r: r.loss > 0.2, modify_optimize_result={"note": 7} if c["mod"] else None)
    elif k == "step":
        cb = LRSchedulerStepDecay(on, c["every"], c["gamma"])
    elif k == "cyclic":
        cb = LRSchedulerCyclic(on, c["every"], c["base"], c["top"], c["size"])
    elif k == "cosine":
        cb = LRSchedulerCosineAnnealing(on, c["every"], c["tmax"], c["low"])
    else:
        cb = EarlyStopping(on, c["every"], "m", c["patience"], c["mode"])
    lrs, best, count, stop = list(c["lrs"]), None, 0, False
    want = []
    for it, v in zip(c["its"], c["vals"]):
        tr.opt_result = OptimizeResult(it, None, opt, torch.tensor(v), {"m": torch.tensor(v)})
        if c["other"] != on:
            cb(TrainingStage(c["other"]), tr, None, None)
        cb(TrainingStage(on), tr, None, None)
        due = it != 0 and it % c["every"] == 0
        if k == "every":
            if due and v > 0.2:
                want.append((it, {"note": 7} if c["mod"] else {}))
        elif due:
            if k == "step":
                lrs = [x * c["gamma"] for x in lrs]
            elif k == "cyclic":
                ph = it % (2 * c["size"])
                lrs = [c["base"] + (c["top"] - c["base"]) * (min(ph, 2 * c["size"] - ph) / c["size"])] * len(lrs)
            elif k == "cosine":
                lrs = [c["low"] + (x - c["low"]) * math.cos(math.pi * it / c["tmax"] / 2) ** 2 for x in c["lrs"]]
            else:
                if best is None or (v < best if c["mode"] == "min" else v > best):
                    best, count = v, 0
                else:
                    count += 1
                stop = stop or count >= c["patience"]
        got = [g["lr"] for g in opt.param_groups]
        expect(all(abs(a - b) <= 1e-9 * max(1.0, abs(b)) for a, b in zip(got, lrs)), f"learning rates {got} after iteration {it}, expected {lrs}")
        expect(bool(tr._stop_training > 0) == stop, f"training {'is' if not stop else 'is not'} stopped after iteration {it} (metrics so far {c['vals'][: c['its'].index(it) + 1]})")
    expect(fired == want, f"callback fired at {fired}, expected {want}")
    return dict(nontrivial=len(c["its"]) > 3)


# ---------------------------------------------------------------- gradient-free optimisation
@st.composite
def free_case(draw):
    return dict(model=draw(st.sampled_from(["lin", "mlp", "free", "qnn"])), kind="pair", loss="custom", groups=False, frozen=draw(st.booleans()), mseed=draw(st.integers(0, 999)),
                train=dict(n=draw(st.integers(1, 5)), bs=draw(st.integers(1, 3)), seed=draw(st.integers(0, 99)), mode="plain"), max_iter=draw(st.integers(1, 6)),
                name=draw(st.sampled_from(["OnePlusOne", "NGOpt", "PSO", "DE", "CMA"])), seed=draw(st.integers(0, 99)), fits=draw(st.integers(1, 2)), val_every=draw(st.sampled_from([0, 2])))


def run_free(c):
    import nevergrad as ng
    import torch

    from qadence.ml_tools import TrainConfig, Trainer, num_parameters
    from qadence.ml_tools.parameters import get_parameters

    logging.getLogger("ml_tools").setLevel(logging.CRITICAL)
    c = dict(c, frozen=c["frozen"] and c["model"] == "mlp")
    if c["model"] == "free":
        c = dict(c, train=None, kind="none", val_every=0)
    model = make_model(c)
    n0 = sum(p.numel() for p in model.parameters() if p.requires_grad)
    expect(num_parameters(model) == n0, f"num_parameters {num_parameters(model)}, expected {n0}")
    opt = getattr(ng.optimizers, c["name"])(parametrization=n0, budget=50)
    opt.parametrization.random_state = np.random.RandomState(c["seed"])
    asked, told, losses = [get_parameters(model).detach().numpy().copy()], [], []
    ask, tell = opt.ask, opt.tell

    def rask():
        x = ask()
        asked.append(np.array(x.value, copy=True).reshape(-1))
        return x

    def rtell(cand, loss, *a, **k):
        told.append((np.array(cand.value, copy=True).reshape(-1), float(loss)))
        return tell(cand, loss, *a, **k)

    opt.ask, opt.tell = rask, rtell
    opt.enable_pickling = lambda: None

    def fn(m, b):
        v = loss_value(c, m, b, 0)
        if not m.training:
            return v
        losses.append((flat_train(m), float(v[0]), None if b is None else [t.clone() for t in b]))
        return v

    frozen = [p.detach().clone() for p in model.parameters() if not p.requires_grad]
    with tempfile.TemporaryDirectory() as d, contextlib.redirect_stdout(io.StringIO()):
        tr = Trainer(model, None, TrainConfig(max_iter=c["max_iter"], root_folder=Path(d), create_subfolder_per_run=True, val_every=c["val_every"], verbose=False), loss_fn=fn,
                     train_dataloader=make_loader(c, c["train"]), val_dataloader=make_loader(c, c["train"]) if c["val_every"] else None)
        tr.callback_manager.writer = Rec()
        starts = []
        with tr.disable_grad_opt(opt):
            for _ in range(c["fits"]):
                starts.append(len(told))
                tr.fit()
        expect(tr.use_grad is True and tr.optimizer is None, "the gradient-based mode and optimiser are not restored")
    per = 1 if c["train"] is None else math.ceil(c["train"]["n"] / c["train"]["bs"])
    total = per * (c["max_iter"] + 1) * c["fits"]
    expect(len(told) == len(losses) == total, f"{len(told)} candidates reported and {len(losses)} losses evaluated, expected {total}")
    expect(len(asked) == total + 1, f"{len(asked) - 1} candidates requested, expected {total}")
    for i, ((tv, tl), (lp, lv, _)) in enumerate(zip(told, losses)):
        expect(np.allclose(tv, asked[i], atol=1e-12), f"step {i}: reported candidate {tv}, expected the requested one {asked[i]}")
        expect(np.allclose(lp, tv, atol=1e-12), f"step {i}: the loss was evaluated at {lp}, but reported for {tv}")
        expect(abs(tl - lv) <= 1e-12 * max(1, abs(lv)), f"step {i}: reported loss {tl}, expected {lv}")
    expect(np.allclose(flat_train(model), asked[-1], atol=1e-12), "the parameters after training are not the last candidate")
    for p, q in zip([p for p in model.parameters() if not p.requires_grad], frozen):
        expect(torch.equal(p, q), "a fixed parameter changed")
    return dict(nontrivial=total >= 4)


def flat_train(m):
    return np.concatenate([p.detach().reshape(-1).numpy().copy() for p in m.parameters() if p.requires_grad])


# ---------------------------------------------------------------- parameter vectors and data sources
@st.composite
def param_case(draw):
    return dict(shapes=[draw(st.sampled_from([[], [1], [3], [2, 3], [1, 2, 2], [4, 1]])) for _ in range(draw(st.integers(1, 5)))], train=[draw(st.booleans()) for _ in range(5)], seed=draw(st.integers(0, 999)),
                n=draw(st.integers(1, 9)), bs=draw(st.integers(1, 5)), passes=draw(st.integers(1, 5)), k=draw(st.integers(1, 3)), inf=draw(st.booleans()))


def run_param(c):
    import torch
    from torch import nn

    from qadence.ml_tools import num_parameters, to_dataloader
    from qadence.ml_tools.parameters import get_parameters, set_parameters

    r = np.random.RandomState(c["seed"])
    m = nn.Module()
    for i, s in enumerate(c["shapes"]):
        m.register_parameter(f"p{i}", nn.Parameter(torch.tensor(r.uniform(-1, 1, s)), requires_grad=c["train"][i]))
    tr = [p for p in m.parameters() if p.requires_grad]
    if tr:
        fixed = [(p, p.detach().clone()) for p in m.parameters() if not p.requires_grad]
        v = np.concatenate([p.detach().numpy().reshape(-1) for p in tr])
        close(get_parameters(m), v, "get_parameters", 0)
        expect(num_parameters(m) == v.size, f"num_parameters {num_parameters(m)}, expected {v.size}")
        w = r.uniform(-2, 2, v.size)
        set_parameters(m, torch.tensor(w))
        close(get_parameters(m), w, "get_parameters after set_parameters", 0)
        j = 0
        for p in tr:
            close(p, w[j : j + p.numel()].reshape(tuple(p.shape)), "parameter after set_parameters", 0)
            expect(p.requires_grad, "a parameter is no longer trainable after set_parameters")
            j += p.numel()
        expect(all(torch.equal(p, q) for p, q in fixed), "set_parameters changed a fixed parameter")
    ts = [torch.tensor(r.uniform(-1, 1, (c["n"], *([2] * i)))) for i in range(c["k"])]
    dl = to_dataloader(*ts, batch_size=c["bs"], infinite=c["inf"])
    if not c["inf"]:
        got = [[t for t in b] for b in dl]
        expect(all(torch.equal(torch.cat([g[i] for g in got]), t) for i, t in enumerate(ts)), "a finite loader does not give the samples in order, once each")
        expect([len(g[0]) for g in got] == [len(x) for x in np.array_split(np.arange(c["n"]), range(c["bs"], c["n"], c["bs"]))], "batch sizes of a finite loader")
        return dict(nontrivial=c["n"] > c["bs"])
    it = iter(dl)
    ids = []
    while len(ids) < c["n"] * c["passes"]:
        b = next(it)
        expect(all(len(t) == c["bs"] for t in b), f"batch sizes {[len(t) for t in b]} of an infinite loader, expected {c['bs']}")
        for row in zip(*b):
            hit = [i for i in range(c["n"]) if all(torch.equal(t[i], x) for t, x in zip(ts, row))]
            expect(len(hit) == 1, f"sample {row} of an infinite loader is not one of the given ones")
            ids.append(hit[0])
    for p in range(c["passes"]):
        one = ids[p * c["n"] : (p + 1) * c["n"]]
        expect(sorted(one) == list(range(c["n"])), f"pass {p} over an infinite loader uses the samples {one}")
    return dict(nontrivial=c["passes"] > 1 and c["n"] > 1)


FACETS = [Facet("histories", history, run_history, 320, 12000, 4), Facet("schedules", schedule, run_schedule, 400, 8000, 1), Facet("gradient-free", free_case, run_free, 50, 1500, 2),
          Facet("parameters-and-data", param_case, run_param, 200, 4000, 1)]
