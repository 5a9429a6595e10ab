"""Mutation and reset: a simulation that was changed and reset answers as a new one."""
import copy

import numpy as np

import nannos as nn

from .. import gen, hist
from ..common import rng_for, to_np

LEVEL = "exploration"
RULE = (
    "random stacks and random histories alternating changes of layers (thickness then reset('S') or reset('all'); "
    "permittivity, of the superstrate too, or tangent field, assigned or written in place, or the plane wave, then reset('all'); layers reset) with public queries; each answer is "
    "compared with a new simulation built from the current description; non-trivial: a change after the simulation was "
    "solved, in a stack with a patterned layer"
)
ASSUMPTIONS = ["as in the examples: the S-matrix is reset after a change of thickness, everything after a change of material"]
MIN_EVENTS = {"thickness": 200, "epsilon": 200, "tangent": 20, "answer": 1000, "superstrate": 60, "excitation": 60, "layer reset": 60}


def cases(tier, seed):
    n = 1000 if tier == "quick" else 12000
    out = []
    for i in range(n):
        rng = rng_for(seed, "P11", i)
        oned = rng.random() < 0.3
        form = ("original", "tangent") if oned else ("original", "original", "tangent", "jones", "pol")
        spec = gen.rand_stack(
            rng, nh=(1, 12) if i % 60 != 37 else (45, 80), oned=oned, formulations=form, n_inner=(1, 4), aniso=0.1, harmonics=0.2,
            patterned=0.65, tangents=("user", "fft", "opt") if rng.random() < 0.3 else ("user", "fft"), copies=0.3, sup_thick=0.5,
        )
        spec["seed2"] = int(rng.integers(2**31))
        spec["steps"] = int(rng.integers(2, 6))
        out.append(spec)
    return out


def mutate(rng, spec, sim, m):
    """One change of a layer; returns the resets that make it visible."""
    if rng.random() < 0.12:
        spec["wl"] *= float(rng.uniform(0.8, 1.3))
        spec["angles"] = gen.rand_angles(rng)
        sim.excitation = gen.make_wave(nn, spec)
        m.count("excitation")
        return "all"
    inner = list(range(len(spec["layers"])))
    i = int(rng.choice(inner))
    L, lay = spec["layers"][i], sim.layers[i]
    shape = gen.shape_of(spec)
    r = rng.random()
    if r < 0.4:
        L["thickness"] = float(spec["wl"] * rng.uniform(0, 0.9))
        lay.thickness = L["thickness"]
        m.count("thickness")
        return "S" if rng.random() < 0.7 else "all"
    pat = isinstance(L["eps"], dict)
    if r < 0.85 or not isinstance(L.get("tangent"), dict):
        if pat:
            new = gen.rand_pattern(rng)
            if "aniso" in L["eps"]:
                new["aniso"] = gen.rand_aniso(rng)
            L["eps"] = new
            arr = gen.pattern_array(new, shape, spec["lattice"]["basis"])
            shared = any(l is not lay and l.epsilon is lay.epsilon for l in sim.layers)
            if rng.random() < 0.4 and not shared:
                lay.epsilon[...] = arr
            else:
                lay.epsilon = nn.backend.array(arr)
        else:
            L["eps"] = gen.rand_eps(rng, str(rng.choice(["diel", "high", "lossy", "one"] if i else ["diel", "one", "high"])))
            if i == 0:
                m.count("superstrate")
            lay.epsilon = nn.backend.array(gen.cplx(L["eps"]) + 0j)
        m.count("epsilon")
    else:
        t = gen.rand_tangent(rng)
        if spec["formulation"] == "jones" and t["kind"] == "complex":
            t["kind"] = "angle"
        L["tangent"] = t
        lay.tangent_field = nn.backend.array(gen.tangent_array(t, shape))
        m.count("tangent")
    return "all"


def run_case(spec, m):
    m.note(*gen.describe(spec), spec["seed2"])
    rng = np.random.default_rng(spec["seed2"])
    sim = gen.build(nn, spec)
    if not spec["haspat"] and spec["lattice"].get("harmonics") is None:
        m.count("uniform")
    spec = copy.deepcopy(spec)
    solved = False
    log = []
    for step in range(spec["steps"]):
        if rng.random() < 0.8:
            q = hist.rand_query(rng, spec)
            hist.run_query(sim, spec, q)
            log.append(q)
            solved = True
        reset = "S"
        for _ in range(int(rng.integers(1, 3))):
            if mutate(rng, spec, sim, m) == "all":
                reset = "all"
        sim.reset(reset)
        if rng.random() < 0.15:
            sim.layers[int(rng.integers(len(sim.layers)))].reset(str(rng.choice(["all", "eig", "matrix"])))
            m.count("layer reset")
        log.append(["change, reset", reset])
        tw = copy.deepcopy(spec)
        for L in tw["layers"]:
            L.pop("copy_of", None)
        w = 2 * np.pi / spec["wl"]
        # a change of permittivity may put an order on a Rayleigh anomaly
        new = gen.build(nn, tw)
        k2 = np.abs(to_np(new.kx)) ** 2 + np.abs(to_np(new.ky)) ** 2
        if any(np.min(np.abs(gen.cplx(L["eps"]) * w**2 - k2)) < 1e-4 * w**2 for L in tw["layers"] if not isinstance(L["eps"], dict)):
            m.count("near a Rayleigh anomaly")
            continue
        for _ in range(int(rng.integers(1, 4))):
            q = hist.rand_query(rng, spec, noop=False)
            got = hist.run_query(sim, spec, q)
            m.count("answer")
            log.append(q)
            hist.compare(m, got, hist.reference(nn, tw, q), 1e-6, q[0], key=f"stale answer ({q[0]})", history=log)
    if spec["haspat"] and solved:
        m.nontrivial()
