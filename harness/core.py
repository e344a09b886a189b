"""Common machinery of the checks: worker pool, evidence, verdicts."""

from __future__ import annotations

import importlib
import json
import multiprocessing as mp
import os
import random
import signal
import sys
import time
import traceback
from multiprocessing.connection import wait
from pathlib import Path
from typing import Any

VERIF = Path(__file__).resolve().parent.parent
CASE_TIMEOUT = 90
NPROC = int(os.environ.get("VP_NPROC", "8"))


class Hang(Exception):
    pass


def _alarm(*_):
    raise Hang("no answer within the time limit")


def _run_one(fn, case):
    try:
        signal.alarm(CASE_TIMEOUT)
        r = fn(case)
    except Hang as e:
        r = {"fails": [f"hang: {e}"], "n": 0}
    except Exception as e:  # noqa: BLE001  (any error on a valid case is a verdict)
        tb = traceback.extract_tb(e.__traceback__)
        where = " <- ".join(f"{Path(f.filename).name}:{f.lineno} {f.name}" for f in reversed(tb[-4:]))
        r = {"fails": [f"exception {type(e).__name__}: {str(e)[:200]} at {where}"], "n": 0}
    finally:
        signal.alarm(0)
    return r


def _worker(conn, modname, fname):
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    signal.signal(signal.SIGALRM, _alarm)
    import warnings

    warnings.simplefilter("ignore")
    fn = getattr(importlib.import_module(modname), fname)
    while True:
        try:
            msg = conn.recv()
        except EOFError:
            return
        if msg is None:
            return
        out = []
        for i, case in msg:
            out.append((i, _run_one(fn, case)))
        conn.send(out)


def run_cases(target: str, cases: list[Any], chunk: int = 8, nproc: int = NPROC):
    """Runs ``module:function`` on every case; returns results in order."""
    modname, fname = target.split(":")
    n = len(cases)
    results: list[Any] = [None] * n
    if n == 0:
        return results
    ctx = mp.get_context("fork")
    chunk = max(1, min(chunk, n // (2 * nproc) + 1))
    queue = [list(range(i, min(i + chunk, n))) for i in range(0, n, chunk)]
    queue.reverse()
    workers: dict[Any, Any] = {}

    def spawn():
        a, b = ctx.Pipe()
        p = ctx.Process(target=_worker, args=(b, modname, fname), daemon=True)
        p.start()
        b.close()
        workers[a] = [p, None, 0.0]
        return a

    def give(c):
        if queue:
            ids = queue.pop()
            workers[c][1] = ids
            workers[c][2] = time.time()
            c.send([(i, cases[i]) for i in ids])
        else:
            workers[c][1] = None

    def dead(c, why):
        p, ids, _ = workers.pop(c)
        p.kill()
        p.join()
        c.close()
        if len(ids) == 1:
            results[ids[0]] = {"fails": [why], "n": 0}
        else:
            for i in ids:
                queue.append([i])
        if queue:
            give(spawn())

    for _ in range(min(nproc, len(queue))):
        give(spawn())
    while any(w[1] is not None for w in workers.values()):
        busy = [c for c, w in workers.items() if w[1] is not None]
        for c in wait(busy, timeout=5):
            try:
                for i, r in c.recv():
                    results[i] = r
                give(c)
            except (EOFError, ConnectionResetError):
                dead(c, "the process died (crash in native code)")
        now = time.time()
        for c, w in list(workers.items()):
            if w[1] is not None and now - w[2] > CASE_TIMEOUT * (1 if len(w[1]) == 1 else 2) + 30:
                dead(c, "hang: killed after the time limit")
    for c, w in list(workers.items()):
        try:
            c.send(None)
        except OSError:
            pass
        w[0].join(timeout=5)
        if w[0].is_alive():
            w[0].kill()
    return results


class Check:
    """Collects what a run covered and gives the verdict."""

    def __init__(self, pid: str):
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.rng = random.Random(self.seed)
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.comparisons = 0
        self.samples: list[Any] = []
        self.violations: list[tuple[str, Any, list[str]]] = []
        self.parts: dict[str, Any] = {}
        self.assumptions: list[str] = []
        self.exhaustive_parts: list[str] = []

    @property
    def thorough(self) -> bool:
        return self.tier == "thorough"

    def tlc(self, run, what: str):
        self.states += run.distinct
        self.transitions += run.states
        self.parts.setdefault("tlc", []).append(
            {"what": what, "module": run.module, "states": run.distinct,
             "generated": run.states, "records": len(run.records), "wall_s": round(run.wall, 1)})
        return run.records

    def replay(self, what: str, target: str, cases: list[Any], chunk: int = 8):
        t = time.time()
        res = run_cases(target, cases, chunk)
        nf = 0
        ncmp = 0
        extra: dict[str, int] = {}
        for c, r in zip(cases, res):
            if r is None:
                r = {"fails": ["no result"], "n": 0}
            ncmp += r.get("n", 0)
            for k, v in (r.get("count") or {}).items():
                extra[k] = extra.get(k, 0) + v
            if r["fails"]:
                nf += 1
                self.violations.append((target, c, r["fails"]))
        self.traces += len(cases)
        self.comparisons += ncmp
        self.parts.setdefault("replay", []).append(
            {"what": what, "cases": len(cases), "comparisons": ncmp, "failed": nf,
             "wall_s": round(time.time() - t, 1), **extra})
        for c in cases[: 2]:
            self.samples.append({"what": what, "case": _short(c)})
        return res

    def fail(self, target: str, case: Any, fails: list[str]):
        self.violations.append((target, case, fails))

    def known(self) -> list[dict[str, Any]]:
        p = VERIF / "known_findings.json"
        if not p.exists():
            return []
        return [k for k in json.loads(p.read_text()).get("open", []) if k["property"] == self.pid]

    def finish(self) -> int:
        known = self.known()
        new = []
        hit: dict[str, int] = {}
        for target, c, fails in self.violations:
            rest = []
            for f in fails:
                k = next((k for k in known if k["match"] in f"{target} {f}"), None)
                if k is None:
                    rest.append(f)
                else:
                    hit[k["what"]] = hit.get(k["what"], 0) + 1
            if rest:
                new.append((target, c, rest))
        for k in known:
            print(f"KNOWN-FINDING: property={self.pid} {k['what']}")
        cov: dict[str, Any] = {
            "states": self.states,
            "transitions": self.transitions,
            "traces_validated_against_impl": self.traces,
            "comparisons": self.comparisons,
            "samples": self.samples[:8] or ["none"],
            **self.parts,
        }
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed,
            "level": "model_checking", "coverage": cov,
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 1),
            "violations": len(new),
        }
        (VERIF / "evidence").mkdir(exist_ok=True)
        (VERIF / "evidence" / f"{self.pid}.json").write_text(json.dumps(ev, indent=1, default=str))
        if not new:
            print(f"{self.pid} {self.tier}: held on {self.traces} behaviours, "
                  f"{self.comparisons} comparisons, {self.states} states "
                  f"({ev['wall_s']} s)")
            return 0
        rep = VERIF / "replays"
        rep.mkdir(exist_ok=True)
        for n, (target, c, fails) in enumerate(new[:5]):
            path = rep / f"{self.pid}-{n}.json"
            path.write_text(json.dumps({"property": self.pid, "target": target, "case": c,
                                        "fails": fails}, indent=1, default=str))
            if n == 0:
                print(f"VIOLATION property={self.pid} replay={path}")
            for f in fails[:4]:
                print(f"  {f}")
        print(f"{len(new)} of {self.traces} behaviours violate {self.pid}")
        return 1


def _short(c):
    s = json.dumps(c, default=str)
    return json.loads(s) if len(s) < 3000 else s[:3000] + "..."


def close(got, exp, tol) -> bool:
    """got within tol of exp (a NaN or None is never close)."""
    try:
        g, e = float(got), float(exp)
    except (TypeError, ValueError):
        return False
    return abs(g - e) <= tol


class Cmp:
    """Collects comparisons of one case."""

    def __init__(self):
        self.fails: list[str] = []
        self.n = 0

    def near(self, what, got, exp, tol):
        self.n += 1
        if not close(got, exp, float(tol)):
            self.fails.append(f"{what}: got {got!r}, specified {float(exp)!r} (tolerance {float(tol):.3g})")

    def eq(self, what, got, exp):
        self.n += 1
        if got != exp:
            self.fails.append(f"{what}: got {got!r}, specified {exp!r}")

    def true(self, what, cond):
        self.n += 1
        if not cond:
            self.fails.append(what)

    def result(self, **count):
        return {"fails": self.fails[:12], "n": self.n, "count": count}
