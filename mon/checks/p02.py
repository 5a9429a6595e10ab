"""Energy balance, passivity and monotone power flow."""
import numpy as np

import nannos as nn

from .. import gen, ref
from ..common import rng_for, to_np

LEVEL = "exploration"
RULE = (
    "random 1D/2D stacks; lossless ones with the energy-conserving formulations ('original', and 'tangent' in 1D), "
    "also with Hermitian anisotropic inclusions; lossy ones; non-trivial: at least one patterned layer whose "
    "diffraction couples power or evanescent orders"
)
ASSUMPTIONS = ["2D 'tangent', 'jones' and 'pol' conserve energy only in the limit of many harmonics and are not judged here"]
MIN_EVENTS = {"lossless": 50, "lossy": 50, "evanescent": 50, "flux": 200, "modeflux": 200}


def cases(tier, seed):
    n = 3000 if tier == "quick" else 25000
    out = []
    for i in range(n):
        rng = rng_for(seed, "P02", i)
        lossless = rng.random() < 0.6
        oned = rng.random() < 0.35
        big = rng.random() < (0.06 if tier == "quick" else 0.15)
        spec = gen.rand_stack(
            rng, nh=(3, 24) if not big else (30, 60), oned=oned, formulations=("original", "tangent") if oned else ("original",),
            n_inner=(1, 4), lossless=lossless, metal=not lossless and rng.random() < 0.5, aniso=0.25, harmonics=0.15,
            patterned=0.75, copies=0.15, sub_lossy=0.3, big=big, neglossless=rng.random() < 0.2,
        )
        spec["lossless"] = lossless
        spec["u"] = [float(v) for v in np.sort(rng.random(3))]
        out.append(spec)
    return out


def check_flux(m, sim, j, z, F, tol):
    """the flux of each order computed from mode amplitudes is the one of the fields"""
    n = len(sim.layers) - 1
    eye = np.eye(2 * sim.nh)
    S = [[to_np(v) for v in r] for r in sim.get_S_matrix([0, j])] if j else [[eye, 0 * eye], [0 * eye, eye]]
    P = [[to_np(v) for v in r] for r in sim.get_S_matrix([j, n])] if j < n else [[eye, 0 * eye], [0 * eye, eye]]
    a = np.linalg.solve(eye - S[0][1] @ P[1][0], S[0][0] @ to_np(sim.a0))
    b = P[1][0] @ a
    lay = sim.layers[j]
    q = to_np(lay.eigenvalues)
    t = lay.thickness or 0
    a, b = a * np.exp(1j * q * z), b * np.exp(1j * q * (t - z))
    fwd, bwd = [to_np(v) for v in sim.get_z_poynting_flux(lay, nn.backend.array(a), nn.backend.array(b))]
    per = np.real(F[0, 0] * np.conj(F[1, 1]) - F[0, 1] * np.conj(F[1, 0]))
    scale = max(1.0, float(np.sum(np.abs(F[0, :2]) * np.abs(F[1, 1::-1]))))
    m.close(fwd + bwd, per, tol * scale, "modeflux: the z Poynting flux of the modes is that of the fields", layer=j)


def run_case(spec, m):
    m.note(*gen.describe(spec))
    sim = gen.build(nn, spec)
    R, T = [to_np(v) for v in sim.diffraction_efficiencies(orders=True)]
    Rt, Tt = [float(to_np(v)) for v in sim.diffraction_efficiencies()]
    h = to_np(sim.harmonics)
    # the conditioning of the truncated problem bounds the attainable accuracy
    c = ref.ref_from(spec, sim, gen).condition()
    if c > 1e6:
        m.count("skipped")
        return
    tol = 1e-8 * max(1.0, c / 100)
    w = 2 * np.pi / spec["wl"]
    b = spec["lattice"]["basis"]
    bm = np.array([[b, 0], [0, 1.0]]) if np.isscalar(b) else np.array(b)
    g = 2 * np.pi * np.linalg.inv(bm)
    th, ph, _ = np.deg2rad(spec["angles"])
    n0 = gen.cplx(spec["layers"][0]["eps"]).real ** 0.5
    k0 = n0 * w * np.sin(th) * np.array([np.cos(ph), np.sin(ph)])
    k2 = np.sum((k0[:, None] + g @ h) ** 2, axis=0)
    esub = gen.cplx(spec["layers"][-1]["eps"])
    m.check(abs(R.sum() - Rt) < tol and abs(T.sum() - Tt) < tol, "sum: R and T are the sums over the orders")
    m.check(R.min() > -tol and T.min() > -tol, "positive: every diffraction efficiency is >= 0", R=R.min(), T=T.min())
    ev = k2 > (n0 * w) ** 2
    m.close(R[ev], 0 * R[ev], tol, "evanescent: evanescent reflected orders carry no power")
    if esub.imag == 0:
        ev = k2 > esub.real * w**2
        m.close(T[ev], 0 * T[ev], tol, "evanescent: evanescent transmitted orders carry no power")
    inc = np.real(np.cos(th) / n0)
    # power flow through every layer from the fields
    last = None
    for j, L in enumerate(spec["layers"]):
        t = L["thickness"]
        zs = [0.0] + [u * t for u in spec["u"]] + [t] if t else [0.0]
        F = to_np(sim.get_field_fourier(j, zs))
        fl = np.real(np.sum(F[:, 0, 0] * np.conj(F[:, 1, 1]) - F[:, 0, 1] * np.conj(F[:, 1, 0]), axis=-1)) / inc
        if j < 2 or spec["u"][0] < 0.3:
            # the same from the amplitudes of the modes
            check_flux(m, sim, j, zs[len(zs) // 2], F[len(zs) // 2], tol)
        if j == 0:
            m.close(fl, np.full(len(fl), 1 - Rt), tol, "flux: power entering the stack is 1 - R")
        for v in fl:
            if last is not None:
                m.check(v <= last + tol, "flux: power flow never increases with depth", layer=j, before=last, after=v)
            last = v
        e = L["eps"]
        lay_lossless = (gen.cplx(e).imag == 0) if not isinstance(e, dict) else (spec["lossless"])
        if lay_lossless:
            m.close(fl, np.full(len(fl), fl[0]), tol, "flux: power flow is constant in a lossless layer", layer=j)
    m.close(last, Tt, tol, "flux: power leaving the stack is T") if esub.imag == 0 else None
    if spec["lossless"]:
        m.check(abs(Rt + Tt - 1) <= tol, "lossless: R + T = 1", R=Rt, T=Tt, cnd=c)
    else:
        m.check(Rt + Tt <= 1 + tol, "lossy: R + T <= 1", R=Rt, T=Tt)
    if spec["haspat"] and np.sum(~ev) >= 1:
        m.nontrivial()
