"""Patterned stacks against an independent RCWA reference."""
import numpy as np

import nannos as nn

from .. import gen, ref
from ..common import rng_for, to_np

LEVEL = "exploration"
RULE = (
    "random 1D/2D stacks with patterned layers (isotropic, anisotropic, lossy, metallic), all formulations, tangent "
    "fields given by the user or computed; compared with mon/ref.py (first order E-field system, one dense solve); "
    "non-trivial: at least one patterned layer"
)
ASSUMPTIONS = [
    "the reference uses the harmonics reported by the simulation (their choice is judged by P07)",
    "anisotropic layers with the 1D 'tangent' formulation are not supported by the code and not generated",
]
MIN_EVENTS = {"efficiency": 1000, "complex": 1000, "neighbour": 200}


def cases(tier, seed):
    n = 2400 if tier == "quick" else 20000
    out = []
    for i in range(n):
        rng = rng_for(seed, "P03", i)
        form = ("original",) if rng.random() < 0.35 else ("tangent", "jones", "pol")
        oned = rng.random() < 0.25
        if oned:
            form = ("original", "tangent")
        big = rng.random() < (0.05 if tier == "quick" else 0.12)
        spec = (
            gen.rand_stack(
                rng, nh=(2, 22) if not big else (25, 50), oned=oned, formulations=form, n_inner=(1, 4), metal=True, aniso=0.3,
                harmonics=0.2, patterned=0.75, tangents=("user", "user", "fft", "opt") if not big else ("user", "fft"),
                copies=0.15, big=big,
            )
        )
        spec["next"] = int(rng.integers(2**31)) if rng.random() < 0.25 and not big else None
        out.append(spec)
    for i in range(20 if tier == "quick" else 100):  # many harmonics
        rng = rng_for(seed, "P03 large", i)
        oned = i % 5 < 3
        spec = gen.rand_stack(
            rng, nh=(131, 190) if oned else (110, 160), oned=oned, formulations=("original", "tangent"), n_inner=(1, 1), metal=False,
            aniso=0.3 if not oned else 0, patterned=1.0, tangents=("user",), big=True,
        )
        spec["next"] = None
        out.append(spec)
    return out


def run_case(spec, m):
    one_stack(spec, m)
    if spec.get("next") is not None:  # another stack solved in the same process just after this one
        new = gen.neighbour(np.random.default_rng(spec["next"]), spec)
        if new is not None:
            m.count("neighbour")
            one_stack(new, m)


def one_stack(spec, m):
    m.note(*gen.describe(spec))
    sim = ref.spy(gen.build(nn, spec))
    R, T = [to_np(v) for v in sim.diffraction_efficiencies(orders=True)]
    r, t = [to_np(v) for v in sim.diffraction_efficiencies(orders=True, complex=True)]
    a, b = ref.with_sensitivity(spec, sim, gen)
    (Ra, Ta), (Rb, Tb) = a.efficiencies(), b.efficiencies()
    s = max(np.max(abs(Ra - Rb)), np.max(abs(Ta - Tb)))
    tol = 1e-8 + 300 * s
    if tol > 1e-4:
        m.count("too sensitive")
        return
    m.close(R, Ra, tol, "efficiency: reflected orders")
    m.close(T, Ta, tol, "efficiency: transmitted orders")
    Rs, Ts = [to_np(v) for v in sim.diffraction_efficiencies()]
    m.close(Rs, Ra.sum(), 10 * tol, "efficiency: reflectance")
    m.close(Ts, Ta.sum(), 10 * tol, "efficiency: transmittance")
    (ra, ta), (rb, tb) = a.complex_orders(), b.complex_orders()
    tol = 1e-7 + 300 * max(np.max(abs(ra - rb)), np.max(abs(ta - tb)))
    m.close(r, ra, tol, "complex: reflected amplitudes")
    m.close(t, ta, tol, "complex: transmitted amplitudes")
    if spec["haspat"]:
        m.nontrivial()
