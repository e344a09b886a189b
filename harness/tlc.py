"""Running TLC and reading the behaviours it prints."""

from __future__ import annotations

import json
import os
import re
import shutil
import subprocess
import tempfile
from dataclasses import dataclass, field
from pathlib import Path
from typing import Any

SPEC = Path(__file__).resolve().parent.parent / "spec"


class TLCError(Exception):
    """TLC itself failed (a machinery failure, not a verdict on the code)."""


class SpecViolation(Exception):
    """An invariant of the specification is violated on the specification."""


@dataclass
class Run:
    module: str
    records: list[Any] = field(default_factory=list)
    states: int = 0
    distinct: int = 0
    cmd: str = ""
    wall: float = 0.0
    invariants: list[str] = field(default_factory=list)


def cfg_text(
    constants: dict[str, Any],
    overrides: dict[str, str],
    invariants: list[str],
    spec: str | None = "Spec",
    postcondition: str | None = None,
    constraint: str | None = None,
    properties: list[str] | None = None,
    view: str | None = None,
) -> str:
    out = []
    if spec:
        out.append(f"SPECIFICATION {spec}")
    if constants or overrides:
        out.append("CONSTANTS")
        for k, v in constants.items():
            out.append(f"  {k} = {v}")
        for k, v in overrides.items():
            out.append(f"  {k} <- {v}")
    for i in invariants:
        out.append(f"INVARIANT {i}")
    for p in properties or []:
        out.append(f"PROPERTY {p}")
    if constraint:
        out.append(f"CONSTRAINT {constraint}")
    if view:
        out.append(f"VIEW {view}")
    if postcondition:
        out.append(f"POSTCONDITION {postcondition}")
    out.append("CHECK_DEADLOCK FALSE")
    return "\n".join(out) + "\n"


def start(
    module: str,
    cfg: str,
    *,
    simulate: int | None = None,
    depth: int = 100,
    seed: int = 1,
    workers: int = 1,
    env: dict[str, str] | None = None,
    heap: str = "2g",
):
    """Starts TLC; finish() collects."""
    work = tempfile.mkdtemp(prefix="tlc_")
    cfgp = Path(work) / f"{module}.cfg"
    cfgp.write_text(cfg)
    cmd = [
        "java", f"-Xmx{heap}", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2",
        "-Dtlc2.TLC.stopAfter=900",
        "-cp", os.environ.get("TLA_CP", "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"),
        "tlc2.TLC", "-noGenerateSpecTE", "-metadir", work + "/meta", "-config", str(cfgp),
        "-workers", str(workers), "-fp", "1", "-seed", str(seed),
    ]
    if simulate is not None:
        cmd += ["-simulate", f"num={simulate}", "-depth", str(depth)]
    cmd.append(str(SPEC / f"{module}.tla"))
    e = dict(os.environ)
    e.update(env or {})
    outp = open(Path(work) / "out", "w+")
    p = subprocess.Popen(cmd, stdout=outp, stderr=subprocess.STDOUT, cwd=work, env=e)
    return (module, cmd, work, outp, p)


def finish(h, timeout: float = 840.0) -> Run:
    module, cmd, work, outp, p = h
    import time

    t0 = time.time()
    try:
        try:
            rc = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            raise TLCError(f"TLC timed out on {module}") from None
        outp.flush()
        outp.seek(0)
        run = Run(module=module, cmd=" ".join(cmd[6:]))
        tail: list[str] = []
        bad = None
        for line in outp:
            if line.startswith('"@@'):
                try:
                    run.records.append(json.loads(json.loads(line)[2:]))
                except json.JSONDecodeError as exc:
                    raise TLCError(f"unreadable record from {module}: {line[:300]}") from exc
                continue
            tail.append(line)
            if len(tail) > 400:
                del tail[:200]
            m = re.search(r"([\d,]+) states generated, ([\d,]+) distinct states", line)
            if m:
                run.states = int(m.group(1).replace(",", ""))
                run.distinct = int(m.group(2).replace(",", ""))
            m = re.search(r"The number of states generated: ([\d,]+)", line)
            if m:
                run.states = int(m.group(1).replace(",", ""))
                run.distinct = run.states
            if "is violated" in line or "Postcondition" in line and "false" in line:
                bad = line.strip()
        if bad:
            raise SpecViolation(f"{module}: {bad}\n" + "".join(tail[-60:]))
        if rc != 0:
            raise TLCError(f"TLC exit {rc} on {module}\n" + "".join(tail[-40:]))
        run.wall = time.time() - t0
        return run
    finally:
        if p.poll() is None:
            p.kill()
            p.wait()
        outp.close()
        shutil.rmtree(work, ignore_errors=True)


def run(module: str, cfg: str, **kw: Any) -> Run:
    timeout = kw.pop("timeout", 840.0)
    return finish(start(module, cfg, **kw), timeout)
