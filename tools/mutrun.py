"""mutrun.py BUDGET PROP...: runs cases of the checks in one process until one
reports a violation (used by mutate.py)."""
import importlib
import os
import random
import sys
import time

sys.path[:0] = [os.environ["VERIF_REPO"], os.path.dirname(os.path.dirname(os.path.abspath(__file__)))]
from mon import env

budget = float(sys.argv[1])
try:
    nn = env.load()
except BaseException as e:
    print("IMPORT", repr(e)[:200])
    os._exit(0)
from mon import common

for prop in sys.argv[2:]:
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)
        os.dup2(devnull, 2)
        mod = importlib.import_module("mon.checks." + prop.lower())
        specs = mod.cases("quick", 1)
        idx = list(range(len(specs)))
        random.Random(5).shuffle(idx)
        t0 = time.time()
        n = 0
        msg = ""
        for i in idx:
            if time.time() - t0 > budget:
                break
            res = common.run_one(mod, specs[i], 60)
            n += 1
            if res["violations"]:
                msg = f"V case {i} after {n}: {res['violations'][0]['what'][:160]}"
                break
            if res["status"] == "harness":
                msg = f"H case {i}: {(res['err'] or '')[-160:]}"
                break
        os.write(w, (msg or f"- {n}/{len(specs)}").encode().replace(b"\n", b" "))
        os._exit(0)
    os.close(w)
    buf = b""
    while True:
        c = os.read(r, 65536)
        if not c:
            break
        buf += c
    os.close(r)
    os.waitpid(pid, 0)
    s = buf.decode()
    if s.startswith(("V", "H")) or not s:
        print("KILLED", prop, s or "child died")
        os._exit(0)
print("SURVIVED")
os._exit(0)
