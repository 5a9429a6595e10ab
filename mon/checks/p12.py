"""Isolation: simulations sharing layers, lattice and excitation do not influence each other."""
import copy
import pickle

import numpy as np

import nannos as nn

from .. import gen, hist
from ..common import rng_for, to_np

LEVEL = "exploration"
RULE = (
    "two to four simulations built on the same layer objects (other excitation, number of harmonics, formulation, "
    "subset or order of the layers), or copied (deepcopy, pickle), before or between queries, and random interleavings of their public queries "
    "and resets; each answer compared with an isolated new simulation; non-trivial: a shared patterned layer and "
    "queries alternating between simulations after both were solved"
)
MIN_EVENTS = {"eff": 300, "fourier": 300, "grid": 200, "S": 200, "stress": 80, "switch": 500, "copied": 150}


def cases(tier, seed):
    n = 1600 if tier == "quick" else 11000
    out = []
    for i in range(n):
        rng = rng_for(seed, "P12", i)
        oned = rng.random() < 0.3
        forms = ("original", "tangent") if oned else ("original", "original", "tangent", "jones", "pol")
        spec = gen.rand_stack(
            rng, nh=(3, 13) if i % 60 != 37 else (45, 80), oned=oned, formulations=("original",) if oned else ("tangent",), n_inner=(1, 4), aniso=0.1 if not oned else 0,
            harmonics=0.15, patterned=0.7, tangents=("user", "fft", "opt") if rng.random() < 0.6 else ("user", "fft"), copies=0.3, sup_thick=0.5,
        )
        for L in spec["layers"]:
            if isinstance(L.get("tangent"), dict) and L["tangent"]["kind"] == "complex":
                L["tangent"]["kind"] = "angle"
        N = len(spec["layers"])
        sims = []
        for k in range(int(rng.integers(2, 5))):
            s = {"nh": spec["nh"], "wl": spec["wl"], "angles": spec["angles"], "formulation": str(rng.choice(forms)), "keep": list(range(N))}
            if k and rng.random() < 0.6:
                s["wl"] = float(spec["wl"] * rng.uniform(0.7, 1.4))
            if k and rng.random() < 0.5:
                s["angles"] = gen.rand_angles(rng)
            if k and rng.random() < 0.4:
                s["nh"] = int(rng.integers(1, spec["nh"] + 1))
            if k and rng.random() < 0.4 and N > 3:
                inner = [j for j in range(1, N - 1) if rng.random() < 0.6] or [1]
                if rng.random() < 0.4:
                    inner = inner[::-1]
                s["keep"] = [0] + inner + [N - 1]
            if k and rng.random() < 0.2 and not isinstance(spec["layers"][-1]["eps"], dict) and gen.cplx(spec["layers"][-1]["eps"]).imag == 0 and gen.cplx(spec["layers"][-1]["eps"]).real > 0:
                s["keep"] = s["keep"][::-1]
            sims.append(s)
        spec["sims"] = sims
        spec["seed2"] = int(rng.integers(2**31))
        spec["steps"] = int(rng.integers(4, 14))
        out.append(spec)
    return out


def twin(spec, s):
    tw = copy.deepcopy(spec)
    for L in tw["layers"]:
        L.pop("copy_of", None)
    tw["layers"] = [tw["layers"][k] for k in s["keep"]]
    for k in ("nh", "wl", "angles", "formulation"):
        tw[k] = s[k]
    return tw


def singular(spec, sim):
    w = 2 * np.pi / spec["wl"]
    k2 = np.abs(to_np(sim.kx)) ** 2 + np.abs(to_np(sim.ky)) ** 2
    return any(np.min(np.abs(gen.cplx(L["eps"]) * w**2 - k2)) < 1e-4 * w**2 for L in spec["layers"] if not isinstance(L["eps"], dict))


def run_case(spec, m):
    m.note(*gen.describe(spec), spec["seed2"])
    rng = np.random.default_rng(spec["seed2"])
    lat, layers = gen.build_layers(nn, spec)
    waves = {}
    sims, specs, bad = [], [], []

    def new(s):
        tw = twin(spec, s)
        key = (s["wl"], tuple(s["angles"]))
        if key not in waves:  # the excitation object is shared too
            waves[key] = gen.make_wave(nn, tw)
        used = [layers[k] for k in s["keep"]]
        for j in range(1, len(used) - 1):  # copies made now, of layers in any state, used instead or as well
            u = rng.random()
            if u > 0.25:
                continue
            cp = used[j].copy(name=used[j].name if u < 0.12 else None)
            L = copy.deepcopy(tw["layers"][j])
            L["name"] = cp.name
            if rng.random() < 0.6:
                L["thickness"] = cp.thickness = float(s["wl"] * rng.uniform(0.05, 0.6))
            if rng.random() < 0.4:
                if isinstance(L["eps"], dict):
                    L["eps"] = dict(gen.rand_pattern(rng), **({"aniso": gen.rand_aniso(rng)} if "aniso" in L["eps"] else {}))
                    cp.epsilon = nn.backend.array(gen.pattern_array(L["eps"], gen.shape_of(spec), spec["lattice"]["basis"]), dtype=nn.get_types()[1])
                else:
                    L["eps"] = gen.rand_eps(rng, "lossy")
                    cp.epsilon = nn.backend.array(gen.cplx(L["eps"]), dtype=nn.get_types()[1])
            if isinstance(L["eps"], dict) and L.get("tangent") in ("fft", "opt") and rng.random() < 0.3:
                L["tangent"] = cp.tangent_field_type = "opt" if L["tangent"] == "fft" else "fft"
            if u < 0.12:
                used[j], tw["layers"][j] = cp, L
            else:
                k = int(rng.integers(1, len(used)))
                if cp.name in [l.name for l in used]:
                    continue
                used.insert(k, cp)
                tw["layers"].insert(k, L)
            m.count("copied layer")
            if u >= 0.12:
                break
        sim = nn.Simulation(used, waves[key], nh=s["nh"], formulation=s["formulation"])
        sims.append(sim)
        specs.append(tw)
        bad.append(singular(tw, sim))

    todo = list(spec["sims"])
    for _ in range(int(rng.integers(1, len(todo) + 1))):
        new(todo.pop(0))
    log, last, asked = [], None, set()
    for step in range(spec["steps"]):
        if todo and rng.random() < 0.3:
            new(todo.pop(0))
        k = int(rng.integers(len(sims)))
        if rng.random() < 0.12:  # a copy of a simulation, in its current state, is one more simulation
            sims.append(copy.deepcopy(sims[k]) if rng.random() < 0.5 else pickle.loads(pickle.dumps(sims[k])))
            specs.append(specs[k])
            bad.append(bad[k])
            log.append([k, "copied"])
            m.count("copied")
        q = hist.rand_query(rng, specs[k], noop=rng.random() < 0.5)
        if bad[k]:
            continue
        log.append([k, q])
        got = hist.run_query(sims[k], specs[k], q)
        if last not in (None, k) and k in asked:
            m.count("switch")
        last = k
        asked.add(k)
        if got:
            hist.compare(m, got, hist.reference(nn, specs[k], q), 1e-6, q[0], key=f"simulations interfere ({q[0]})", history=log, sim=k)
    if spec["haspat"] and len(asked) > 1:
        m.nontrivial()
