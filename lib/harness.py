"""Property-based-testing harness: seeds, sharding, shrinking, replay files, evidence, known findings.

A *facet* is one executable form of a property: a Hypothesis strategy producing JSON-able cases and a
check function that builds the case with the real library, runs it and compares with an oracle.
"""
from __future__ import annotations

import hashlib
import importlib
import json
import multiprocessing as mp
import multiprocessing.connection
import os
import sys
import time
import traceback
import warnings
from dataclasses import dataclass, field
from typing import Any, Callable

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
EVID = os.path.join(ROOT, "evidence")
KNOWN = os.path.join(ROOT, "known_findings.json")
NPROC = int(os.environ.get("VERIF_JOBS", "8"))


class Violation(Exception):
    """The property does not hold on this case."""


class Known(Violation):
    """A violation that matches the exact deviation described by a listed known finding."""

    def __init__(self, ident: str, msg: str) -> None:
        super().__init__(f"[{ident}] {msg}")


def _known_prefix(case: Any, msg: str) -> str | None:
    return msg[1:].split("]")[0] if msg.startswith("[") and "]" in msg else None


class Skip(Exception):
    """The case is outside the property's precondition."""


@dataclass
class Facet:
    name: str
    strategy: Callable[[], Any]  # called in the worker, returns a hypothesis strategy
    check: Callable[[Any], Any]
    quick: int
    thorough: int
    shards: int = 1
    nontrivial: Callable[[Any], bool] = lambda case: True
    known: Callable[[Any, str], str | None] = _known_prefix
    rule: str = ""
    explicit: list = field(default_factory=list)  # always-run cases


def chash(case: Any) -> str:
    return hashlib.sha1(json.dumps(case, sort_keys=True, default=str).encode()).hexdigest()[:16]


def mix(*parts: Any) -> int:
    return int.from_bytes(hashlib.sha256(repr(parts).encode()).digest()[:7], "big")


def load_known() -> list[dict]:
    if not os.path.exists(KNOWN):
        return []
    return json.load(open(KNOWN))["findings"]


def _seed_all(k: int) -> None:
    import random

    import numpy as np
    import torch

    random.seed(k)
    np.random.seed(k % (2**32))
    torch.manual_seed(k)


def run_case(facet: Facet, case: Any) -> tuple[str, str, Any]:
    """-> (status, message, info) with status in ok/skip/violation/error."""
    from hypothesis.errors import HypothesisException, UnsatisfiedAssumption

    try:
        _seed_all(mix("case", facet.name, chash(case)) % (2**31))
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            info = facet.check(case)
        return "ok", "", info
    except (Skip, UnsatisfiedAssumption):
        return "skip", "", None
    except Violation as e:
        return "violation", str(e), None
    except HypothesisException:
        raise
    except (KeyboardInterrupt, MemoryError):
        raise
    except BaseException as e:  # noqa: BLE001
        tb = traceback.extract_tb(e.__traceback__)
        inrepo = [f for f in tb if f.filename.startswith(REPO + "/")]
        msg = f"{type(e).__name__}: {e}"
        if isinstance(e, (ImportError, NameError)) and not inrepo:
            return "error", msg + "\n" + "".join(traceback.format_exc()), None
        where = f"{inrepo[-1].filename}:{inrepo[-1].lineno}" if inrepo else (f"{tb[-1].filename}:{tb[-1].lineno}" if tb else "?")
        return "violation", f"valid input raised {msg} (at {where})", None


def _worker(modname: str, facet_name: str, shard: int, n: int, seed: int, conn: Any, opts: dict) -> None:
    out = dict(facet=facet_name, shard=shard, evaluations=0, skipped=0, hashes=[], samples=[], failure=None, error=None, known_hits={})
    try:
        os.setpgid(0, 0)
    except OSError:
        pass
    try:
        _worker_inner(modname, facet_name, shard, n, seed, out, opts)
    except BaseException as e:  # noqa: BLE001
        if out["failure"] is None:
            out["error"] = f"{type(e).__name__}: {e}\n" + traceback.format_exc()
    try:
        conn.send(out)
    finally:
        conn.close()
        sys.stdout.flush()
        os._exit(0)


def _worker_inner(modname, facet_name, shard, n, seed, out, opts):
    from hypothesis import HealthCheck, Phase, given, settings
    from hypothesis import seed as hseed

    mod = importlib.import_module(modname)
    facet = {f.name: f for f in mod.FACETS}[facet_name]
    known_ids = set(opts["known_ids"])
    soft = opts["t0"] + opts["soft"]
    seen: set[str] = set()
    fail: dict = {}
    cur = opts["curfile"]

    def attempt(case: Any) -> None:
        now = time.time()
        if fail and now > fail["t"] + opts["shrink_s"]:
            return
        if not fail and now > soft:
            out["truncated"] = True
            return
        with open(cur, "w") as fh:
            json.dump(dict(facet=facet_name, case=case, t=now), fh, default=str)
        status, msg, info = run_case(facet, case)
        if status == "skip":
            out["skipped"] += 1
            from hypothesis import reject

            reject()
        if status == "error":
            raise RuntimeError("harness error: " + msg)
        if status == "violation":
            k = facet.known(case, msg)
            if k is not None and k in known_ids:
                out["known_hits"][k] = out["known_hits"].get(k, 0) + 1
                return
            size = len(json.dumps(case, default=str))
            if not fail or size <= fail["size"]:
                fail.update(case=case, msg=msg, size=size)
            fail.setdefault("t", now)
            raise Violation(msg)
        if not fail:
            out["evaluations"] += 1
            nt = info["nontrivial"] if isinstance(info, dict) and "nontrivial" in info else facet.nontrivial(case)
            if nt:
                h = chash(case)
                if h not in seen:
                    seen.add(h)
                    if len(out["samples"]) < 3 or (len(seen) % 97 == 0 and len(out["samples"]) < 6):
                        out["samples"].append(case)

    strat = facet.strategy()

    @settings(max_examples=n, database=None, deadline=None, suppress_health_check=list(HealthCheck),
              phases=[Phase.generate, Phase.shrink], report_multiple_bugs=False, print_blob=False)
    @hseed(mix(seed, modname, facet_name, shard))
    @given(strat)
    def t(case):
        attempt(case)

    try:
        if shard == 0:
            for c in facet.explicit:
                try:
                    attempt(c)
                except Violation:
                    raise
        t()
    except BaseException as e:  # noqa: BLE001
        if not fail:
            from hypothesis.errors import Unsatisfiable

            if isinstance(e, Unsatisfiable):
                pass
            else:
                raise
    out["hashes"] = list(seen)
    if fail:
        out["failure"] = dict(case=fail["case"], msg=fail["msg"])


def write_replay(prop: str, facet: str, case: Any, msg: str) -> str:
    d = os.path.join(ROOT, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{prop}-{facet}-{chash(case)}.json")
    with open(path, "w") as f:
        json.dump(dict(property=prop, facet=facet, case=case, message=msg,
                       how=f"/verif/check {prop} replay {path}"), f, indent=1, default=str)
    return path


def run_property(prop: str, tier: str, only: str | None = None) -> int:
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    modname = f"checks.{prop.lower()}"
    import qadence

    if not qadence.__file__.startswith(REPO + "/"):
        print(f"ERROR qadence imported from {qadence.__file__}, not {REPO}")
        return 2
    mod = importlib.import_module(modname)
    facets: list[Facet] = mod.FACETS
    if only:
        facets = [f for f in facets if f.name == only]
    known = [k for k in load_known() if k["property"] == prop and k["status"] == "known"]
    # known findings: replay each listed input
    byname = {f.name: f for f in mod.FACETS}
    import tempfile

    tmp = tempfile.mkdtemp(prefix=f"verif_{prop}_")
    os.environ["VERIF_TMP"] = tmp
    cwd0 = os.getcwd()
    os.chdir(tmp)
    ctx = mp.get_context("fork")
    soft = float(os.environ.get("VERIF_SOFT_S", "330" if tier == "quick" else "3000"))
    hard = soft + 300
    tasks = []
    for f in facets:
        n = f.quick if tier == "quick" else f.thorough
        sh = f.shards if tier == "quick" else max(f.shards, min(8, n // 50 or 1))
        for s in range(sh):
            tasks.append((f.name, s, max(1, n // sh)))
    # heavy first
    cost = {f.name: getattr(f, "quick", 1) for f in facets}
    opts_base = dict(t0=t0, soft=soft, shrink_s=45.0, known_ids=[k["id"] for k in known])
    for k in known:
        f = byname.get(k["facet"])
        if f is None:
            continue
        # run in a child so that a crash or state change cannot leak
        r, w = ctx.Pipe(False)

        def go(f=f, k=k, w=w):
            w.send(run_case(f, k["case"])[:2])
            w.close()
            os._exit(0)

        pr = ctx.Process(target=go)
        pr.start()
        w.close()
        try:
            st = r.recv() if r.poll(200) else ("error", "timeout")
        except EOFError:
            st = ("error", "child died")
        pr.join(5)
        if pr.is_alive():
            pr.kill()
        if st[0] == "violation":
            print(f"KNOWN-FINDING: property={prop} {k['id']}: {k['what']}", flush=True)
        else:
            print(f"note: known finding {k['id']} did not reproduce ({st[0]})", flush=True)
    running: dict = {}
    pending = list(tasks)
    results: list[dict] = []
    violation = None
    errors: list[str] = []
    while (pending or running) and violation is None:
        while pending and len(running) < NPROC:
            fn, s, n = pending.pop(0)
            r, w = ctx.Pipe(False)
            cur = os.path.join(tmp, f"cur_{fn}_{s}.json")
            pr = ctx.Process(target=_worker, args=(modname, fn, s, n, seed, w, dict(opts_base, curfile=cur)))
            pr.start()
            w.close()
            running[pr.pid] = (pr, r, fn, s, cur)
        mp.connection.wait([x[1] for x in running.values()], timeout=2.0)
        for pid in list(running):
            pr, r, fn, s, cur = running[pid]
            res = None
            dead = False
            if r.poll(0):
                try:
                    res = r.recv()
                except EOFError:
                    dead = True
            elif not pr.is_alive():
                dead = True
            if res is not None:
                results.append(res)
                pr.join(5)
                if pr.is_alive():
                    pr.kill()
                del running[pid]
                if res["failure"]:
                    violation = (res["facet"], res["failure"]["case"], res["failure"]["msg"])
                    break
                if res["error"]:
                    errors.append(f"{fn}/{s}: {res['error']}")
                continue
            if dead:
                del running[pid]
                errors.append(f"{fn}/{s}: worker died (exit {pr.exitcode})")
                continue
            try:
                c = json.load(open(cur))
                if time.time() - c["t"] > 240 and time.time() - t0 > 240:
                    pr.kill()
                    violation = (fn, c["case"], "evaluation of this case did not terminate within 240 s")
                    del running[pid]
                    break
            except (OSError, ValueError):
                pass
        if time.time() - t0 > hard:
            errors.append("hard time limit reached")
            break
    for pid, (pr, *_r) in running.items():
        try:
            os.killpg(pid, 9)
        except OSError:
            pr.kill()
    os.chdir(cwd0)
    import shutil

    shutil.rmtree(tmp, ignore_errors=True)
    per: dict[str, dict] = {}
    for res in results:
        d = per.setdefault(res["facet"], dict(evaluations=0, skipped=0, h=set(), samples=[], known=0))
        d["evaluations"] += res["evaluations"]
        d["skipped"] += res["skipped"]
        d["h"] |= set(res["hashes"])
        d["samples"] += res["samples"]
        d["known"] += sum(res["known_hits"].values())
    ev = dict(
        property=prop, tier=tier, seed=seed, level="exploration",
        coverage=dict(
            evaluations=sum(d["evaluations"] for d in per.values()),
            distinct_nontrivial=sum(len(d["h"]) for d in per.values()),
            rule=getattr(mod, "RULE", "every generated case; distinct by content"),
            samples=[dict(facet=f, case=c) for f, d in per.items() for c in d["samples"][:2]][:24],
            facets={f: dict(evaluations=d["evaluations"], distinct_nontrivial=len(d["h"]), skipped=d["skipped"], known_hits=d["known"]) for f, d in per.items()},
        ),
        assumptions=getattr(mod, "ASSUMPTIONS", []),
        wall_s=round(time.time() - t0, 2),
        violations=0 if violation is None else 1,
    )
    os.makedirs(EVID, exist_ok=True)
    rc = 0
    if violation:
        path = write_replay(prop, *violation)
        ev["replay"] = path
        print(f"facet={violation[0]} case={json.dumps(violation[1], default=str)[:1500]}")
        print(f"reason: {violation[2][:1500]}")
        print(f"VIOLATION property={prop} replay={path}", flush=True)
        rc = 1
    elif errors:
        for e in errors:
            print("HARNESS-ERROR", e)
        rc = 2
    with open(os.path.join(EVID, f"{prop}.json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=str)
    if rc == 0 or os.environ.get("VERIF_VERBOSE"):
        print(f"{prop} {tier}: {ev['coverage']['evaluations']} cases, {ev['coverage']['distinct_nontrivial']} distinct non-trivial, "
              f"{ev['wall_s']} s; " + ", ".join(f"{f}={d['evaluations']}" for f, d in per.items()))
    return rc


def replay(prop: str, path: str) -> int:
    d = json.load(open(path))
    mod = importlib.import_module(f"checks.{prop.lower()}")
    facet = {f.name: f for f in mod.FACETS}[d["facet"]]
    import tempfile

    tmp = tempfile.mkdtemp(prefix=f"verif_{prop}_")
    os.environ["VERIF_TMP"] = tmp
    os.chdir(tmp)
    status, msg, _ = run_case(facet, d["case"])
    import shutil

    os.chdir("/")
    shutil.rmtree(tmp, ignore_errors=True)
    print(status, msg)
    if status == "violation":
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    return 0 if status in ("ok", "skip") else 2


def main(argv: list[str]) -> int:
    prop, tier = argv[0], argv[1]
    sys.path.insert(0, os.path.join(ROOT, "lib"))
    sys.path.insert(0, REPO)
    import logging

    warnings.filterwarnings("ignore")
    logging.disable(logging.CRITICAL)
    import torch

    torch.set_num_threads(1)
    if tier == "replay":
        return replay(prop, argv[2])
    return run_property(prop, tier, argv[2] if len(argv) > 2 else None)
