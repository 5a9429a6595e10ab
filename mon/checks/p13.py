"""Backend equivalence: the same problem in the five backends and in single precision."""
import numpy as np

import nannos as nn

from .. import gen, hist, ref
from ..common import Skip, rng_for, to_np, using

LEVEL = "exploration"
RULE = (
    "random stacks solved with numpy and then with scipy, autograd, torch and jax (in random order), in double and "
    "single precision; efficiencies, amplitudes, fields, S-matrices, stress, reconstructed permittivity, harmonics, "
    "masks, filters and tangent fields compared with the numpy ones; non-trivial: a patterned layer"
)
ASSUMPTIONS = [
    "jax compiles every new shape, so its cases use two fixed shapes",
]
MIN_EVENTS = {"scipy": 500, "autograd": 500, "torch": 500, "jax": 100, "single": 200}
CASE_TIMEOUT = 200
SIMPLE = ("harmonics", "mask", "mask2", "filter", "project", "simp", "kx", "ky", "epsilon")


def cases(tier, seed):
    n = 480 if tier == "quick" else 6000
    out = []
    for i in range(n):
        rng = rng_for(seed, "P13", i)
        oned = rng.random() < 0.3
        single = rng.random() < 0.25
        form = ("original", "tangent") if oned else ("original", "original", "tangent", "jones", "pol")
        jax = i % 8 == 0
        spec = gen.rand_stack(
            rng, nh=((1, 12) if i % 60 != 37 else (45, 80)) if not jax else ((5, 5) if oned else (9, 9)), oned=oned, formulations=form,
            n_inner=(1, 3) if not jax else (1, 2), aniso=0.15, harmonics=0.2 if not jax else 0, patterned=0.8,
            tangents=("user", "fft", "opt") if not jax else ("user",), copies=0.15, sup_thick=0.3, thick=0,
        )
        bs = ["scipy", "autograd", "torch"]
        if jax:
            bs = ["jax"]
            if not oned:
                spec["lattice"]["trunc"] = "parallelogrammic"
                spec["lattice"]["disc"] = [9, 8]
            else:
                spec["lattice"]["disc"] = [16, 1]
        spec["backends"] = [str(b) for b in rng.permutation(bs)]
        spec["single"] = single
        spec["double_eps"] = [None, None, "init", "assign"][int(rng.integers(4))]  # permittivities always in double precision
        spec["seed2"] = int(rng.integers(2**31))
        out.append(spec)
    return out


def results(spec, rng, single, backend):
    """Everything compared, in an order of harmonics that does not depend on the backend."""
    sim = gen.build(nn, spec)
    out = {}
    h = to_np(sim.harmonics)
    o = np.lexsort(h)
    out["harmonics"] = h[:, o]
    N = len(spec["layers"])
    R, T = sim.diffraction_efficiencies(orders=True)
    out["R orders"], out["T orders"] = to_np(R)[o], to_np(T)[o]
    R, T = sim.diffraction_efficiencies()
    out["RT"] = np.array([float(R), float(T)])
    r, t = sim.diffraction_efficiencies(orders=True, complex=True)
    out["r"], out["t"] = to_np(r)[:, o], to_np(t)[:, o]
    i = int(rng.integers(N))
    z = float(rng.random() * spec["layers"][i]["thickness"])
    out["fields"] = to_np(sim.get_field_fourier(i, z))[..., o]
    out["stress"] = np.array([float(v) for v in sim.get_z_stress_tensor_integral(i, z)])
    E, H = sim.get_field_grid(i, z)
    out["E grid"], out["H grid"] = to_np(E), to_np(H)
    S = sim.get_S_matrix(indices=(0, N - 1))
    n = sim.nh
    oo = np.concatenate([o, o + n])
    for a in range(2):
        for b in range(2):
            out[f"S{a}{b}"] = to_np(S[a][b])[np.ix_(oo, oo)]
    out["epsilon"] = to_np(sim.get_epsilon(i))
    lat = sim.lattice
    if not lat.is_1D:
        c, rad = rng.uniform(0, 1, 2), float(rng.uniform(0.1, 0.5))
        out["mask"] = to_np(lat.circle(tuple(c), rad)).astype(float)
        out["mask2"] = to_np(lat.rectangle(tuple(c), (rad, 2 * rad), rotate=30)).astype(float)
    x = nn.backend.array(rng.random(gen.shape_of(spec)))
    rf = float(rng.uniform(0.5, 3))
    if backend != "jax":
        out["filter"] = to_np(nn.apply_filter(x, rf))
    b = float(rng.uniform(0.5, 10))
    out["project"] = to_np(nn.optimize.project(x, b, 0.4))
    out["simp"] = to_np(nn.optimize.multi_simp(x, [1.0, 2.5, 6.0], 2))
    out["kx"] = to_np(sim.kx)[o]
    out["ky"] = to_np(sim.ky)[o]
    return out


def tangents(spec, m, jobs):
    fields = {}
    for bk, single in [("numpy", False)] + jobs:
        with using(nn, bk, single):
            sim = gen.build(nn, spec)
            for i, L in enumerate(spec["layers"]):
                if isinstance(L.get("tangent"), str):
                    t = to_np(sim.layers[i].get_tangent_field(sim.harmonics, normalize=False))
                    fields.setdefault(i, {})[bk, single] = t
            if single:  # solved with these fields
                R, T = [to_np(v) for v in sim.diffraction_efficiencies(orders=True)]
                m.check(np.all(np.isfinite(R)) and np.all(np.isfinite(T)), "efficiencies in single precision are finite", event="single")
    for i, f in fields.items():
        a = f["numpy", False]
        for bk, single in jobs:
            m.close(f[bk, single], a, 2e-5 if not single else 0.02, f"tangent field with the {bk} backend{' in single precision' if single else ''}",
                    event="single" if single else bk, key=f"{bk} tangent")
    m.nontrivial()


def run_case(spec, m):
    m.note(*gen.describe(spec), spec["backends"], spec["single"])
    seed = spec["seed2"]
    base = results(spec, np.random.default_rng(seed), False, "numpy")
    sim = ref.spy(gen.build(nn, spec))
    sim.solve()
    a, b = ref.with_sensitivity(spec, sim, gen)
    f, g = a.fields(0, 0.0), b.fields(0, 0.0)
    s = max(np.max(abs(f - g)), np.max(abs(a.efficiencies()[0] - b.efficiencies()[0])))
    jobs = [(bk, False) for bk in spec["backends"]]
    tang = any("tangent" in L and not isinstance(L["tangent"], dict) for L in spec["layers"])
    if spec["single"]:
        jobs.append(("numpy", True))
        jobs += [(bk, True) for bk in spec["backends"]]
    if tang:
        # rounding changes the direction of a field where it vanishes: the fields are compared instead
        tangents(spec, m, jobs)
        return
    for bk, single in jobs:
        tol = 1e-8 + 1e4 * s if not single else 1e-3 + s / 1e-11 * 1e-5
        if tol > (1e-3 if not single else 3e-2):
            m.count("too sensitive")
            continue
        with using(nn, bk, single):
            got = results(spec, np.random.default_rng(seed), single, bk)
        for k, v in got.items():
            w = base[k]
            if single and k == "mask":
                continue
            sc = max(1.0, float(np.max(np.abs(w))))
            t = tol
            if not single:
                if k in SIMPLE:
                    t = 1e-11
                elif k != "RT":
                    t = 100 * tol
            m.close(v, w, t, f"{k} with the {bk} backend{' in single precision' if single else ''}", scale=sc,
                    event="single" if single else bk, key=f"{bk}{' single' if single else ''}")
    if spec["haspat"]:
        m.nontrivial()
