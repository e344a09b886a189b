"""plant.py SPEC.py : plants a bug in a scratch copy, confirms it, keeps it in /verif/seeded.

SPEC.py defines ID, PROP, NEEDS, BREAKS, EDITS = [(file, old, new)], DEMO (python source).
A second argument runs that property's check(s) against the scratch copy too.
"""
import json, os, shutil, subprocess, sys, pathlib
ns = {}
exec(open(sys.argv[1]).read(), ns)
ID = ns["ID"]
work = pathlib.Path("/tmp/plant") / ID
shutil.rmtree(work, ignore_errors=True)
work.parent.mkdir(exist_ok=True)
subprocess.run(["git", "clone", "-q", "/repo", str(work)], check=True)
for f, old, new, *nth in ns["EDITS"]:   # a fourth item picks one of several places
    p = work / "src/sectionproperties" / f
    s = p.read_text()
    parts = s.split(old)
    assert len(parts) == 2 or (nth and len(parts) > 1), (f, len(parts) - 1, old)
    k = (nth[0] if nth else 0) % (len(parts) - 1)
    p.write_text(old.join(parts[:k + 1]) + new + old.join(parts[k + 1:]))
patch = subprocess.run(["git", "diff"], cwd=work, capture_output=True, text=True).stdout
out = pathlib.Path("/verif/seeded") / ID
out.mkdir(parents=True, exist_ok=True)
(out / "patch.diff").write_text(patch)
(out / "demo.py").write_text(ns["DEMO"])
(out / "demo.sh").write_text('#!/bin/bash\nexport NUMBA_CACHE_DIR=$(mktemp -d) MPLBACKEND=agg PYTHONDONTWRITEBYTECODE=1\ntrap \'rm -rf "$NUMBA_CACHE_DIR"\' EXIT\n/opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
(out / "meta.json").write_text(json.dumps({"property": ns["PROP"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, indent=1))
env = dict(os.environ, OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", NUMBA_NUM_THREADS="1",
           MPLBACKEND="agg", PYTHONDONTWRITEBYTECODE="1", NUMBA_CACHE_DIR=f"/tmp/plant/numba_{ID}")
def demo(src):
    r = subprocess.run(["bash", str(out / "demo.sh")], env=dict(env, PYTHONPATH=src), cwd="/repo", capture_output=True, text=True)
    return r.returncode, (r.stdout + r.stderr)[-300:]
a = demo("/repo/src"); b = demo(str(work / "src"))
print(ID, "demo clean", a[0], "planted", b[0], b[1].strip().split("\n")[-1][:200])
if a[0] != 0: print(a[1])
ok = a[0] == 0 and b[0] != 0
r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "-n", "4", "--dist", "loadfile",
                    "--benchmark-disable", "-x", "tests"], cwd=work, env=dict(env, PYTHONPATH=str(work / "src")), capture_output=True, text=True)
print(ID, "tests", r.returncode, r.stdout.strip().split("\n")[-1][:150])
if r.returncode: print("\n".join(l for l in r.stdout.split("\n") if l.startswith(("FAILED", "ERROR")))[:400])
if not ok or r.returncode:
    print(ID, "REJECTED"); shutil.rmtree(out); shutil.rmtree(work); sys.exit(1)
props = [ns["PROP"]] + sys.argv[2:]
for p in props:
    r = subprocess.run(["bash", "/verif/check.sh", p, "quick"], env=dict(os.environ, VP_REPO=str(work)), capture_output=True, text=True)
    v = [l for l in r.stdout.split("\n") if l.strip()]
    print(ID, p, "->", r.returncode, " | ".join(x[:160] for x in v[:2]))
shutil.rmtree(work); shutil.rmtree(f"/tmp/plant/numba_{ID}", ignore_errors=True)
