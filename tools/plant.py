"""Plant bugs: apply each to a copy of /repo, confirm it (demo, stable tests), run the check.

usage: plant.py BUGS.py [ids...] [--jobs N] [--no-tests] [--no-check] [--keep]
BUGS.py defines BUGS, a list of dicts: id, prop, edits [(file, old, new)...], demo, needs, breaks.
Confirmed bugs are written in seeded/<id>/; a report line is printed for each.
"""
import concurrent.futures as cf
import json
import os
import re
import runpy
import shutil
import subprocess
import sys
import tempfile
import xml.etree.ElementTree as ET

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PLANT_REPO", "/repo")
BASE = "e52d432"
SCRATCH = "/tmp/exp/w"
PY = "/opt/venv/bin/python"
ENV = dict(
    os.environ, PIP_NO_INDEX="1", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
    MPLBACKEND="agg", PYVISTA_OFF_SCREEN="true", JAX_PLATFORMS="cpu",
    OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1",
)
DEMO_SH = """#!/bin/bash
# exit 0 when the behaviour is right, nonzero when it is not; run with cwd the repository
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1
export MPLBACKEND=agg PYVISTA_OFF_SCREEN=true JAX_PLATFORMS=cpu PYTHONWARNINGS=ignore
unset NANNOS_BACKEND NANNOS_GPU
py=/opt/venv/bin/python
[ -x "$py" ] || py=python3
here="$(cd "$(dirname "$0")" && pwd)"
PYTHONPATH="$PWD" timeout 280 "$py" "$here/demo.py"
"""


def sh(cmd, cwd=None, env=None, timeout=900):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env or ENV, timeout=timeout,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b"").decode() if isinstance(e.stdout, bytes) else (e.stdout or "")


def base_lines(path):
    """line numbers of path that come from the original repository"""
    rc, out = sh(["git", "blame", "-s", f"{BASE}..", "--", path], cwd=REPO)
    return {i for i, l in enumerate(out.splitlines(), 1) if l.startswith("^")}


def removed_lines(diff):
    out, path = [], None
    for line in diff.splitlines():
        if line.startswith("--- "):
            path = line[6:]
        elif line.startswith("@@"):
            n = int(re.match(r"@@ -(\d+)", line).group(1))
        elif line.startswith("-"):
            out.append((path, n)); n += 1
        elif line.startswith("+") or line.startswith("\\"):
            pass
        elif path and line.startswith(" "):
            n += 1
    return out


def tests(copy):
    """stable tests that do not pass in copy"""
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    rep = tempfile.mkdtemp(dir=SCRATCH)
    args = [PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-p", "no:sugar", "--timeout=300",
            "--continue-on-collection-errors", "--tb=short", "-o", "junit_family=xunit2"]
    runs = [(b, b, ["-n", "4", "test/basic"]) for b in ("numpy", "scipy", "autograd", "torch", "jax")]
    runs += [("common", "numpy", ["test/common"]), ("conda", "numpy", ["test/conda_test.py"])]
    for prefix, backend, rest in runs:
        sh(args + [f"--junitprefix={prefix}", f"--junitxml={rep}/{prefix}.xml"] + rest, cwd=copy,
           env=dict(ENV, NANNOS_BACKEND=backend), timeout=1500)
    passed = set()
    for f in os.listdir(rep):
        for t in ET.parse(os.path.join(rep, f)).iter("testcase"):
            if not any(c.tag in ("failure", "error", "skipped") for c in t):
                passed.add(f"{t.get('classname')}::{t.get('name')}")
    shutil.rmtree(rep)
    return sorted(stable - passed)


def one(bug, opts):
    id_, prop = bug["id"], bug["prop"]
    copy = f"{SCRATCH}/{id_}"
    shutil.rmtree(copy, ignore_errors=True)
    demo = f"{SCRATCH}/{id_}.demo"
    shutil.rmtree(demo, ignore_errors=True)
    try:
        sh(["cp", "-a", REPO, copy])
        for f, old, new in bug["edits"]:
            p = f"{copy}/nannos/{f}"
            s = open(p).read()
            if s.count(old) != 1:
                return id_, prop, f"EDIT: {s.count(old)} matches in {f}", ""
            open(p, "w").write(s.replace(old, new))
        _, diff = sh(["git", "diff"], cwd=copy)
        rem = removed_lines(diff)
        if not rem:
            return id_, prop, "EDIT: no line of the original changed", ""
        for path, n in rem:
            if n not in base_lines(path):
                return id_, prop, f"EDIT: {path}:{n} is not an original line", ""
        os.makedirs(demo)
        open(f"{demo}/demo.py", "w").write(bug["demo"].lstrip())
        open(f"{demo}/demo.sh", "w").write(DEMO_SH)
        os.chmod(f"{demo}/demo.sh", 0o755)
        rc0, out0 = sh(["bash", f"{demo}/demo.sh"], cwd=REPO)
        if rc0:
            return id_, prop, f"DEMO: exits {rc0} on the unchanged tree", out0[-1500:]
        rc1, out1 = sh(["bash", f"{demo}/demo.sh"], cwd=copy)
        if not rc1:
            return id_, prop, "DEMO: exits 0 with the change", out1[-500:]
        fails = tests(copy) if opts["tests"] else []
        if fails:
            return id_, prop, f"TESTS: {len(fails)} fail, e.g. {fails[0]}", ""
        if opts["tests"]:
            dest = f"{VERIF}/seeded/{id_}"
            shutil.rmtree(dest, ignore_errors=True)
            shutil.copytree(demo, dest)
            open(f"{dest}/patch.diff", "w").write(diff)
            json.dump({"property": prop, "needs": bug["needs"], "what_it_breaks": bug["breaks"]},
                      open(f"{dest}/meta.json", "w"), indent=1)
        res, out = "confirmed", out1.strip().splitlines()[-1:][0][:150] if out1.strip() else ""
        if opts["check"]:
            for p in [prop] + bug.get("also", []):
                rc, out = sh([f"{VERIF}/bin/check", p, "quick"],
                             env=dict(ENV, VERIF_REPO=copy, VERIF_SEED="1", VERIF_TIER="quick",
                                      VERIF_EVIDENCE=f"{SCRATCH}/{id_}.ev"))
                v = [l for l in out.splitlines() if l.startswith("VIOLATION")]
                ok = rc == 1 and any(f"property={p}" in l for l in v)
                res += f"; {p} {'CAUGHT' if ok else 'MISSED rc=%d' % rc}"
                out = (v[0] if ok else out[-300:])
        return id_, prop, res, out
    finally:
        if not opts["keep"]:
            shutil.rmtree(copy, ignore_errors=True)
            shutil.rmtree(demo, ignore_errors=True)


def main():
    args = sys.argv[1:]
    opts = dict(tests="--no-tests" not in args, check="--no-check" not in args, keep="--keep" in args)
    jobs = int(args[args.index("--jobs") + 1]) if "--jobs" in args else 3
    names = [a for i, a in enumerate(args) if not a.startswith("--") and args[i - 1] != "--jobs"]
    bugs = runpy.run_path(names[0])["BUGS"]
    if names[1:]:
        bugs = [b for b in bugs if any(re.fullmatch(n, b["id"]) for n in names[1:])]
    os.makedirs(SCRATCH, exist_ok=True)
    with cf.ThreadPoolExecutor(jobs) as ex:
        for f in cf.as_completed([ex.submit(one, b, opts) for b in bugs]):
            print(*f.result(), sep=" | ", flush=True)


if __name__ == "__main__":
    main()
