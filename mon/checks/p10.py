"""Query order: every answer equals the answer of a simulation asked nothing else."""
import numpy as np

import nannos as nn

from .. import gen, hist
from ..common import rng_for

LEVEL = "exploration"
RULE = (
    "random stacks (with layer copies, anisotropy, user harmonics, all formulations) and random histories of 3 to 12 "
    "public queries, resets and solves on one simulation; each answer compared with a new simulation asked only that; "
    "inputs hashed before and after; non-trivial: at least one patterned layer and two different queries"
)
MIN_EVENTS = {"eff": 300, "fourier": 300, "grid": 200, "S": 200, "stress": 80, "inputs": 1000, "list": 300}


def cases(tier, seed):
    n = 1000 if tier == "quick" else 12000
    out = []
    for i in range(n):
        rng = rng_for(seed, "P10", i)
        oned = rng.random() < 0.3
        form = ("original", "tangent") if oned else ("original", "original", "tangent", "jones", "pol")
        spec = gen.rand_stack(
            rng, nh=(1, 12) if i % 60 != 37 else (45, 80), oned=oned, formulations=form, n_inner=(0, 4), aniso=0.15, harmonics=0.25,
            patterned=0.65, tangents=("user", "fft", "opt") if rng.random() < 0.3 else ("user", "fft"), copies=0.35, sup_thick=0.5,
        )
        n_q = int(rng.integers(3, 13))
        qs = [hist.rand_query(rng, spec) for _ in range(n_q)]
        for k in range(1, n_q):
            if rng.random() < 0.25:  # ask again
                qs[k] = qs[int(rng.integers(k))]
        spec["queries"] = qs
        out.append(spec)
    return out


def run_case(spec, m):
    m.note(*gen.describe(spec), str(spec["queries"]))
    _, given = gen.build_layers(nn, spec)
    sim = nn.Simulation(given, gen.make_wave(nn, spec), nh=spec["nh"], formulation=spec["formulation"])
    # what the caller does with the list afterwards does not matter
    mine = list(given)
    k = int(spec["nh"]) % 3
    if k == 0:
        given.reverse()
    elif k == 1:
        given.pop()
    if k < 2:
        m.count("list")
    before = hist.snapshot(sim)
    layers = mine
    refs = {}
    for k, q in enumerate(spec["queries"]):
        got = hist.run_query(sim, spec, q)
        key = str(q)
        if key not in refs:
            refs[key] = hist.reference(nn, spec, q)
        if got:
            hist.compare(m, got, refs[key], 1e-7, q[0], key=f"answer depends on earlier queries ({q[0]})", step=k, history=spec["queries"][: k + 1])
        after = hist.snapshot(sim)
        m.check(after == before, "inputs: a query changed the layers, lattice or excitation", query=q)
    m.check(len(sim.layers) == len(layers) and all(a is b for a, b in zip(sim.layers, layers)), "inputs: the layers of the simulation are the ones given")
    if spec["haspat"] and len(refs) > 1:
        m.nontrivial()
