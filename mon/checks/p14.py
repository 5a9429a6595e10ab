"""Switching of backend, precision and device: state and results after any history of switches."""
import os
import subprocess
import sys

import numpy as np

import nannos as nn

from .. import gen, hist
from ..common import rng_for, to_np
from ..env import REPO

LEVEL = "exploration"
RULE = (
    "random histories of 3 to 10 calls to set_backend (valid, repeated, unknown), use_32_bit, use_gpu (there is no GPU "
    "here), each followed by a look at every loaded nannos module and sometimes by solving a problem; plus new "
    "interpreters started with the NANNOS_BACKEND / NANNOS_GPU variables; non-trivial: two different backends used"
)
ASSUMPTIONS = ["objects created before a switch are not used after it"]
MIN_EVENTS = {"state": 500, "result": 200, "unknown": 30, "environment": 60}
CASE_TIMEOUT = 300
BACKENDS = ["numpy", "scipy", "autograd", "torch", "jax"]
ENVS = [
    ({"NANNOS_BACKEND": b}, b) for b in BACKENDS
] + [({"NANNOS_BACKEND": "nonsense"}, "numpy"), ({}, "numpy"), ({"NANNOS_GPU": "1"}, "numpy"), ({"NANNOS_GPU": "1", "NANNOS_BACKEND": "torch"}, "torch"),
     ({"NANNOS_BACKEND": "scipy", "SET": "torch"}, "torch"), ({"NANNOS_BACKEND": "torch", "SET": "numpy"}, "numpy"), ({"NANNOS_BACKEND": "autograd", "SET": "autograd"}, "autograd"),
     # optional packages that are not installed
     ({"SET": "torch", "BLOCK": "torch"}, "numpy"), ({"SET": "jax", "BLOCK": "jax"}, "numpy"), ({"SET": "torch", "BLOCK": "jax"}, "torch"),
     ({"SET": "autograd,torch", "BLOCK": "torch,jax"}, "numpy"), ({"SET": "scipy,jax", "BLOCK": "torch,jax"}, "numpy"),
     ({"SET": "scipy", "BLOCK": "torch,jax"}, "scipy"), ({"SET": "torch,autograd", "BLOCK": "torch"}, "autograd"), ({"SET": "jax,torch", "BLOCK": "jax"}, "torch"),
     ({"NANNOS_BACKEND": "torch", "BLOCK": "torch"}, "numpy"), ({"NANNOS_BACKEND": "jax", "BLOCK": "torch,jax"}, "numpy"), ({"SET": "autograd", "BLOCK": "nlopt,torch,jax"}, "autograd"),
     ({"SET": "torch", "BLOCK": "nlopt"}, "torch"), ({"BLOCK": "nlopt,jax"}, "numpy")]


def cases(tier, seed):
    n = 140 if tier == "quick" else 2500
    out = []
    for k, (e, b) in enumerate(ENVS):
        out.append({"kind": "env", "env": e, "want": b})
    out.append({"kind": "history", "seed": 0, "steps": [["backend", "jax"], ["gpu", True], ["gpu", False], ["solve"], ["backend", "numpy"], ["solve"]]})
    for i in range(n):
        rng = rng_for(seed, "P14", i)
        steps = []
        usejax = i % 10 == 0
        for _ in range(int(rng.integers(3, 11))):
            r = rng.random()
            if r < 0.5:
                b = str(rng.choice(BACKENDS if usejax else BACKENDS[:4]))
                steps.append(["backend", b])
            elif r < 0.6:
                steps.append(["unknown", str(rng.choice(["cupy", "", "NumPy", "tensorflow", "torch ", "None"]))])
            elif r < 0.75:
                steps.append(["bits", bool(rng.random() < 0.5)])
            elif r < 0.82:
                steps.append(["gpu", bool(rng.random() < 0.5) and not usejax])
            if rng.random() < 0.5:
                steps.append(["solve"])
        steps.append(["solve"])
        out.append({"kind": "history", "seed": int(rng.integers(2**31)), "steps": steps})
    return out


def look(m, backend, bits):
    nb = nn.get_backend()
    m.check(nb == backend, "state: get_backend is the last backend set", got=nb, want=backend)
    f, c = nn.get_types()
    m.check(("32" in str(f)) == bits and ("64" in str(c)) == bits, "state: get_types is the last precision set", got=str((f, c)), bits=bits)
    mod = {"numpy": "numpy", "scipy": "numpy", "autograd": "autograd.numpy", "torch": "torch", "jax": "jax.numpy"}[backend]
    for name, mo in list(sys.modules.items()):
        if not (name == "nannos" or name.startswith("nannos.")):
            continue
        for attr in ("bk", "backend"):
            b = getattr(mo, attr, None)
            if b is not None and hasattr(b, "__name__") and not name.endswith("log"):
                m.check(b.__name__ == mod, f"state: module {name} uses another backend", got=b.__name__, want=mod)
        if hasattr(mo, "BACKEND"):
            m.check(mo.BACKEND == backend, f"state: {name}.BACKEND is stale", got=mo.BACKEND)
        for attr in ("FLOAT", "COMPLEX"):
            if hasattr(mo, attr):
                m.check(str(getattr(mo, attr)) == str(f if attr == "FLOAT" else c), f"state: {name}.{attr} is stale")


def problem(seed):
    rng = np.random.default_rng(seed)
    spec = gen.rand_stack(rng, nh=(9, 9), oned=False, n_inner=(1, 2), patterned=0.7, thick=0, zero=0, kinds=["circle", "rect", "stripesx"])
    spec["lattice"].update(trunc="parallelogrammic", disc=[9, 8], harmonics=None)
    return spec


def solve(spec):
    sim = gen.build(nn, spec)
    R, T = sim.diffraction_efficiencies(orders=True)
    F = sim.get_field_fourier(0, 0.0)
    h = to_np(sim.harmonics)
    o = np.lexsort(h)
    return np.concatenate([to_np(R)[o], to_np(T)[o], to_np(F)[..., o].ravel()]), to_np(F).dtype


def run_case(spec, m):
    if spec["kind"] == "env":
        return environment(spec, m)
    m.note(spec["seed"], str(spec["steps"]))
    backend, bits, gpu = "numpy", False, False
    used = set()
    prob = problem(spec["seed"])
    want, _ = solve(prob)
    sc = max(1.0, np.max(np.abs(want)))
    try:
        look(m, backend, bits)
        for s in spec["steps"]:
            if s[0] == "backend":
                nn.set_backend(s[1])
                backend = s[1]
            elif s[0] == "unknown":
                try:
                    nn.set_backend(s[1])
                    ok = False
                except ValueError:
                    ok = True
                m.check(ok, "unknown: an unknown backend is refused", name=s[1])
            elif s[0] == "bits":
                nn.use_32_bit(s[1])
                bits = s[1]
            elif s[0] == "gpu":
                nn.use_gpu(s[1])
                if s[1]:
                    if nn.backend.__name__ == "jax.numpy":
                        try:
                            v = float(nn.Lattice(((1.0, 0), (0, 1.0)), 4).area)
                            ok = abs(v - 1) < 1e-6
                            err = None
                        except Exception as e:
                            ok, err = False, repr(e)[:200]
                        m.check(ok, "jax: use_gpu(True) without a GPU does not fall back to the CPU", key="jax gpu fallback", error=err)
                    else:
                        m.check(nn.get_device() == "cpu", "state: without a GPU the device is the CPU")
            else:
                used.add(backend)
                got, dt = solve(prob)
                m.check(dt == (np.complex64 if bits else np.complex128), "result: precision of the results", dtype=str(dt), bits=bits, backend=backend)
                m.close(got, want, 5e-2 if bits else 1e-6, f"result: after {s}", scale=sc, key="result", backend=backend, bits=bits, steps=spec["steps"])
            look(m, backend, bits)
    finally:
        nn.use_gpu(False)
        nn.use_32_bit(False)
        nn.set_backend("numpy")
    if len(used) > 1:
        m.nontrivial()


CODE = """
import os, sys, warnings
warnings.filterwarnings("ignore")
sys.dont_write_bytecode = True
sys.pycache_prefix = "/nonexistent-verif"
want, setb, block = sys.argv[1:]
block = block.split(",") if block else []
class Finder:
    def find_spec(self, name, path=None, target=None):
        if name.split(".")[0] in block:
            raise ModuleNotFoundError(f"No module named {name!r}", name=name)
sys.meta_path.insert(0, Finder())
import nannos as nn
start = nn.get_backend()
for b in setb.split(",") if setb else []: nn.set_backend(b)
print("RESULT", nn.get_backend(), nn.backend.__name__, nn.BACKEND, nn.get_device(), start)
print("AVAILABLE", *nn.available_backends)
lat = nn.Lattice(((1.0, 0), (0.0, 1.0)), discretization=8, truncation="parallelogrammic")
sim = nn.Simulation([lat.Layer("a"), lat.Layer("s", thickness=0.3, epsilon=2.25), lat.Layer("b")], nn.PlaneWave(1.0, (20, 30, 40)), nh=1)
R, T = sim.diffraction_efficiencies()
print("RT", float(R), float(T))
if want in ("autograd", "torch"):
    bk = nn.backend
    opt = nn.optimize.TopologyOptimizer(lambda x, proj_level=None: bk.sum((x - 0.25) ** 2), [0.5, 0.75, 0.25], method="nlopt", threshold=(0, 1), maxiter=20)
    x, f = opt.minimize()
    print("OPT", opt.method, *[float(v) for v in x])
"""


def environment(spec, m):
    env = {k: v for k, v in os.environ.items() if not k.startswith("NANNOS")}
    env.update({k: v for k, v in spec["env"].items() if k.startswith("NANNOS")})
    env["PYTHONPATH"] = REPO
    block = spec["env"].get("BLOCK", "")
    p = subprocess.run([sys.executable, "-c", CODE, spec["want"], spec["env"].get("SET", ""), block], env=env, capture_output=True, text=True, timeout=250)
    m.note("env", spec["env"], spec["want"])
    m.check(p.returncode == 0, "environment: import with environment variables", stderr=p.stderr[-1500:])
    out = dict(l.split(" ", 1) for l in p.stdout.splitlines() if " " in l)
    if "RESULT" in out:
        got = out["RESULT"].split()
        m.check(got[0] == got[2] == spec["want"], "environment: backend at start", got=got, want=spec["want"])
        if "SET" in spec["env"]:
            first = spec["env"].get("NANNOS_BACKEND", "numpy")
            m.check(got[4] == (first if first not in block.split(",") else "numpy"), "environment: backend before the switch", got=got)
        m.check(got[3] == "cpu", "environment: device", got=got)
        blocked = block.split(",")
        listed = out["AVAILABLE"].split()
        m.check(sorted(listed) == sorted(b for b in BACKENDS if b not in blocked), "environment: list of the backends available", got=listed, missing=blocked)
        m.close(sum(float(v) for v in out["RT"].split()), 1.0, 1e-9, "environment: energy conservation")
        if spec["want"] in ("autograd", "torch"):
            o = out["OPT"].split()
            m.check(o[0] == ("scipy" if "nlopt" in blocked else "nlopt"), "environment: solver used by the optimizer", got=o[0], missing=blocked)
            m.close([float(v) for v in o[1:]], [0.25, 0.25, 0.25], 1e-2, "environment: optimum")
    m.nontrivial()
