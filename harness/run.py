"""Entry point: run.py <PROPERTY> | run.py replay <file>."""

from __future__ import annotations

import importlib
import json
import sys
import traceback
from pathlib import Path

sys.path.insert(0, str(Path(__file__).resolve().parent))

import core  # noqa: E402
import tlc  # noqa: E402


def main() -> int:
    if sys.argv[1] == "replay":
        rec = json.loads(Path(sys.argv[2]).read_text())
        mod, fn = rec["target"].split(":")
        import signal

        signal.signal(signal.SIGALRM, core._alarm)
        r = core._run_one(getattr(importlib.import_module(mod), fn), rec["case"])
        print(json.dumps(r, indent=1, default=str))
        return 1 if r["fails"] else 0
    if sys.argv[1] == "selftest":
        import common

        print(f"{len(common.tab()['catalogue'])} retrievals specified")
        return 0
    pid = sys.argv[1]
    chk = core.Check(pid)
    try:
        importlib.import_module(pid.lower()).run(chk)
        return chk.finish()
    except tlc.SpecViolation as e:
        print(f"specification law violated (machinery failure): {e}", file=sys.stderr)
    except tlc.TLCError as e:
        print(f"TLC failed: {e}", file=sys.stderr)
    except Exception:  # noqa: BLE001
        traceback.print_exc()
    # the verdict on what was replayed before the machinery failed still counts
    if chk.violations:
        return chk.finish()
    return 2


if __name__ == "__main__":
    sys.exit(main())
