"""Repeated work needs no more memory: what stays alive after each repetition is measured."""
import copy
import gc
import os
import threading
import tracemalloc

import numpy as np

import nannos as nn

from .. import gen, hist
from ..common import rng_for, to_np, using

LEVEL = "exploration"
RULE = (
    "hundreds of repetitions of a piece of work (new problems on new or kept lattices and layers, copies, a kept simulation "
    "modified and reset or asked again, rejected requests, gradients, optimizations, density helpers, samplings, parallel "
    "loops, switches of backend) in the five backends, with parameters that never repeat; memory held by arrays, tensors, "
    "objects, files and threads is measured along the way; non-trivial: the memory was measured at all checkpoints"
)
ASSUMPTIONS = [
    "a memory of up to 100 results would be accepted: only growth in the second half of the repetitions counts",
    "allocations are those reported by tracemalloc (numpy, python), live tensors (torch), live buffers (jax)",
]
MIN_EVENTS = {"memory": 40, "objects": 40, "resources": 40, "freed": 30, "repetition": 6000}
BUDGET = {"quick": 400, "thorough": 720}
CASE_TIMEOUT = 400
KINDS = ["new", "lattice", "layers", "copies", "reset", "ask", "rejected", "gradient", "optimize", "helpers", "sampler", "parloop", "switch", "tangents"]
SOLVER = KINDS[:7]
LIMIT = 500.0  # bytes per repetition


def cases(tier, seed):
    n = 96 if tier == "quick" else 1200
    out = []
    for i in range(n):
        rng = rng_for(seed, "P31", i)
        kind = KINDS[i % len(KINDS)] if i % 3 else str(rng.choice(SOLVER))
        bk = str(rng.choice(["numpy", "numpy", "scipy", "autograd", "torch", "torch"]))
        if kind in ("gradient", "optimize"):
            bk = str(rng.choice(["autograd", "torch"]))
        if i % 24 == 5 and kind != "switch":
            bk = "jax" if kind not in ("gradient", "optimize", "helpers") else bk
        oned = bool(rng.random() < 0.3)
        forms = ("original",) if kind in ("gradient",) else ("original", "original", "tangent", "jones", "pol")
        spec = gen.rand_stack(rng, nh=(3, 9), oned=oned, formulations=forms, n_inner=(1, 2), aniso=0.15, patterned=0.9,
                              tangents=("user", "fft") if bk != "jax" else ("user",), sup_thick=0.3, thick=0)
        spec["lattice"]["disc"] = [int(v) for v in rng.integers(17, 22, 2)]
        if oned:
            spec["lattice"]["disc"] = [257, 1]
        if kind == "tangents":
            bk = "numpy" if bk == "jax" else bk
        spec.update(kind=kind, backend=bk, seed2=int(rng.integers(2**31)), single=bool(rng.random() < 0.1) and bk == "numpy")
        out.append(spec)
    return out


def alive():
    """Objects of the library, tensors and their bytes, bytes of jax buffers."""
    gc.collect()
    objs, ten, nbytes = 0, 0, 0
    torch = None
    if nn.get_backend() == "torch":
        import torch
    for o in gc.get_objects():
        t = type(o)
        if str(getattr(t, "__module__", "")).startswith("nannos.") and t.__name__ in ("Simulation", "Layer", "Lattice", "PlaneWave", "TopologyOptimizer"):
            objs += 1
        elif torch is not None and t is torch.Tensor:
            ten += 1
            nbytes += o.untyped_storage().nbytes()
    if nn.get_backend() == "jax":
        import jax

        live = jax.live_arrays()
        ten, nbytes = len(live), sum(a.nbytes for a in live)
    return objs, ten, nbytes


def usage():
    objs, ten, nbytes = alive()
    return {"bytes": tracemalloc.get_traced_memory()[0] + nbytes, "objects": objs, "tensors": ten,
            "files": len(os.listdir("/proc/self/fd")), "threads": threading.active_count()}


def questions(sim, spec, rng, n=3):
    for _ in range(n):
        hist.run_query(sim, spec, hist.rand_query(rng, spec, noop=False))


def change(spec, k):
    """The same structure with parameters never used before."""
    s = copy.deepcopy(spec)
    s["wl"] = spec["wl"] * (1 + 1e-5 * k)
    for L in s["layers"][1:-1]:
        L["thickness"] = L["thickness"] * (1 + 1e-4 * k) + 1e-4
        if isinstance(L["eps"], dict):
            L["eps"]["a"] = [L["eps"]["a"][0] + 1e-4 * k, L["eps"]["a"][1]] if isinstance(L["eps"].get("a"), list) else L["eps"].get("a")
    return s


def workload(spec):
    """A function of the repetition number."""
    rng = np.random.default_rng(spec["seed2"])
    kind = spec["kind"]
    form, nh = spec["formulation"], spec["nh"]
    if kind == "new":
        return lambda k: questions(gen.build(nn, change(spec, k)), spec, rng)
    if kind == "lattice":
        lat = gen.make_lattice(nn, spec["lattice"])

        def f(k):
            s = change(spec, k)
            questions(nn.Simulation(gen.build_layers(nn, s, lat)[1], gen.make_wave(nn, s), nh=nh, formulation=form), s, rng)

        return f
    if kind in ("layers", "copies"):
        _, layers = gen.build_layers(nn, spec)

        def f(k):
            s = change(spec, k)
            used = layers
            if kind == "copies":
                used = [l if j in (0, len(layers) - 1) else l.copy(name=l.name) for j, l in enumerate(layers)]
            for l, L in zip(used[1:-1], s["layers"][1:-1]):
                l.thickness = L["thickness"]
            questions(nn.Simulation(used, gen.make_wave(nn, s), nh=nh, formulation=form), s, rng)

        return f
    if kind in ("reset", "ask", "rejected"):
        sim = gen.build(nn, spec)
        sim.diffraction_efficiencies()

        def f(k):
            s = spec
            if kind == "reset":
                s = change(spec, k)
                sim.excitation = gen.make_wave(nn, s)
                for l, L in zip(sim.layers[1:-1], s["layers"][1:-1]):
                    l.thickness = L["thickness"]
                sim.reset()
            if kind == "rejected":
                bad = [lambda: sim.get_field_fourier("no such layer"), lambda: nn.PlaneWave(1.0, (0,)), lambda: sim.get_layer(1.5),
                       lambda: nn.Simulation(sim.layers, sim.excitation, nh=nh, formulation="nonsense"), lambda: sim.get_layer(97)]
                for b in bad:
                    try:
                        b()
                    except Exception:
                        pass
            questions(sim, s, rng, 2)

        return f
    n = 24
    if kind == "helpers":
        # noqa: the helpers of topology optimization
        x0 = rng.random((40, 40))

        def f(k):
            x = nn.array(x0 * (1 - 1e-6 * k))
            x = nn.optimize.apply_filter(x, 2 + 1e-3 * k)
            x = nn.optimize.project(x, 2.0 + 1e-3 * k, 0.5)
            nn.optimize.simp(x, 1.0, 3.0 + 1e-3 * k, 1)

        return f
    if kind == "sampler":
        def f(k):
            nn.adaptive_sampler(lambda x: float(np.exp(-((x - 0.4 - 1e-4 * k) ** 2) / 0.01)), np.linspace(0, 1 + 1e-5 * k, 9))

        return f
    if kind == "parloop":
        big = rng.random((40, 40))
        g = nn.parloop(n_jobs=2, prefer="threads")(lambda x, m: float((x * m).sum()))
        return lambda k: g([1.0 * k, 2.0 * k, 3.0], big + k)
    if kind == "switch":
        seq = ["scipy", "autograd", "torch", "numpy"]

        def f(k):
            nn.set_backend(seq[k % 4])
            questions(gen.build(nn, change(spec, k)), spec, rng, 1)

        return f
    if kind == "tangents":
        lat = gen.make_lattice(nn, {"basis": gen.rand_basis(rng), "disc": [17, 19], "trunc": "circular"})
        harm = nn.array(np.array([[0, 1, -1, 0, 0], [0, 0, 0, 1, -1]]))
        maps = 1 + 2.0 * (rng.random((4, 17, 19)) > 0.6)

        def f(k):
            lay = lat.Layer("p", thickness=0.1, tangent_field_type=["opt", "fft"][k % 2])
            lay.epsilon = nn.array(maps[k % 4] + 1e-4 * k) * (1 + 0j)
            lay.get_tangent_field(harm, normalize=bool(k & 2))

        return f
    bk = nn.backend
    if kind == "gradient":
        lat = gen.make_lattice(nn, spec["lattice"])
        shape = gen.shape_of(spec)
        x0 = 2 + rng.random(shape)

        def objective(x):
            pat = lat.Layer("p", thickness=0.2)
            pat.epsilon = bk.reshape(x, shape) * (1 + 0j)
            sim = nn.Simulation([lat.Layer("a"), pat, lat.Layer("b", epsilon=1.7)], gen.make_wave(nn, spec), nh=3)
            return sim.diffraction_efficiencies()[0]

        g = nn.grad(objective)
        return lambda k: to_np(g(nn.array((x0 + 1e-5 * k).ravel())))
    # optimize
    c = rng.random(400)
    kept = nn.optimize.TopologyOptimizer(lambda x, *a: bk.sum((x - nn.array(c)) ** 2), rng.random(400), method="scipy", threshold=(0, 2), maxiter=2)

    def f(k):
        if k % 2:
            kept.minimize()
            return
        ck = nn.array(c * (1 - 1e-4 * k))
        opt = nn.optimize.TopologyOptimizer(lambda x, *a: bk.sum((x - ck) ** 2), c[::-1].copy(), method=["scipy", "nlopt"][k // 2 % 2], threshold=(0, 1), maxiter=2)
        opt.minimize()

    return f


def run_case(spec, m):
    kind, bk = spec["kind"], spec["backend"]
    m.note(kind, *gen.describe(spec), bk)
    N = 48 if bk == "jax" else {"switch": 48, "tangents": 96}.get(kind, 320)
    if spec["formulation"] != "original" and N == 320 and any(L.get("tangent") == "fft" for L in spec["layers"]) and kind in SOLVER:
        N = 240
    with using(nn, bk if kind != "switch" else "numpy", spec["single"]):
        start = alive()[0]
        work = workload(spec)
        # compilations, imports and lazy tables are not measured
        for k in range(4):
            work(k)
        marks = []
        tracemalloc.start()
        try:
            for k in range(4, N + 4):
                work(k)
                if (k - 3) % (N // 8) == 0:
                    marks.append(usage())
        finally:
            tracemalloc.stop()
        m.count("repetition", N)
        q = N // 8
        b = [u["bytes"] for u in marks]
        slack = 4 if bk == "jax" or kind in ("switch", "tangents") else 1
        rate = min((b[5] - b[3]) / (2 * q), (b[7] - b[5]) / (2 * q))
        m.margins["memory"] = max(m.margins.get("memory", 0), rate / (slack * LIMIT))
        m.check(rate < slack * LIMIT, "memory: grows at each repetition", key="memory", rate=rate, marks=b, kind=kind, backend=bk, n=N)
        o = [u["objects"] for u in marks]
        m.check(o[7] <= o[5] or o[5] <= o[3], "objects: objects of the library accumulate", marks=o, kind=kind, backend=bk)
        t = [u["tensors"] for u in marks]
        if kind != "switch":
            m.check(min(t[7] - t[5], t[5] - t[3]) < q, "memory: tensors accumulate", key="memory", marks=t, kind=kind, backend=bk)
        for r in ("files", "threads"):
            v = [u[r] for u in marks]
            m.check(min(v[7] - v[5], v[5] - v[3]) <= 1, f"resources: {r} accumulate", marks=v, kind=kind, backend=bk)
        del work
        if kind != "switch":
            end = alive()[0]
            m.check(end <= start, "freed: objects of the library survive those who used them", before=start, after=end, kind=kind, backend=bk)
    m.nontrivial()
