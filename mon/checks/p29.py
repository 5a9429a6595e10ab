"""Plane waves: documented angles, polarization and wavelength, in every backend, and as seen in the fields."""
import copy

import numpy as np

import nannos as nn

from .. import gen
from ..common import rng_for, to_np, using

LEVEL = "exploration"
RULE = (
    "random wavelengths (tiny to huge) and angles (special, negative, above 360 degrees, close to grazing), given as tuples, "
    "lists, arrays, integers or numbers of the backend, in the five backends and both precisions; attributes of the wave, "
    "and fields of the wave in a transparent stack on random lattices; non-trivial: oblique incidence"
)
ASSUMPTIONS = ["the polarization is p (electric field in the plane of incidence) for psi = 0 and s for psi = 90 degrees, as in the documentation and examples"]
MIN_EVENTS = {"numbers": 500, "wavevector": 500, "polarization": 500, "fields": 500, "flux": 300, "inputs": 500}
BACKENDS = ["numpy", "scipy", "autograd", "torch"]
SPECIAL = [0, 30, 45, 60, 90, 180, 270, 360, -45, -90, 720, 1e-3, -1e-6, 135]


def cases(tier, seed):
    n = 640 if tier == "quick" else 12000
    out = []
    for i in range(n):
        rng = rng_for(seed, "P29", i)
        th = float(rng.choice([0, 30, 45, 60, -20, 75, 1e-3, 85])) if rng.random() < 0.4 else float(rng.uniform(-88, 88))
        ph, ps = [float(rng.choice(SPECIAL)) if rng.random() < 0.5 else float(rng.uniform(-400, 400)) for _ in range(2)]
        wl = float(10 ** rng.uniform(-9, 9)) if rng.random() < 0.3 else float(rng.uniform(0.3, 4))
        as_ = str(rng.choice(["tuple", "list", "array", "int"]))
        if as_ == "int":
            th, ph, ps = [float(round(v)) for v in (th, ph, ps)]
        out.append({"wl": wl, "angles": [th, ph, ps], "as": as_, "backend": BACKENDS[i % 4] if rng.random() < 0.92 else "jax",
                    "bits32": bool(rng.random() < 0.2), "basis": gen.rand_basis(rng, scale=1.0) if rng.random() < 0.7 else 1.0,
                    "eps": float(rng.choice([1.0, rng.uniform(1, 9)])), "seed": int(rng.integers(2**31))})
    return out


def run_case(spec, m):
    with using(nn, spec["backend"], spec["bits32"]):
        body(spec, m)


def body(spec, m):
    rng = np.random.default_rng(spec["seed"])
    bk, wl, ang = nn.backend, spec["wl"], spec["angles"]
    b32 = spec["bits32"]
    tol = 5e-5 if b32 else 1e-11
    how = spec["as"]
    given = {"tuple": tuple(ang), "list": list(ang), "array": np.array(ang), "int": tuple(int(a) for a in ang)}[how]
    if how == "array" and spec["backend"] == "torch":
        given = bk.array(ang, dtype=bk.float64)
    before = copy.deepcopy(given)
    m.note(spec["backend"], b32, how, np.round(ang), round(np.log10(wl)))
    th, ph, ps = np.deg2rad(ang)
    k0 = 2 * np.pi / wl
    khat = np.array([np.sin(th) * np.cos(ph), np.sin(th) * np.sin(ph), np.cos(th)])
    phat = np.array([np.cos(th) * np.cos(ph), np.cos(th) * np.sin(ph), -np.sin(th)])
    shat = np.array([-np.sin(ph), np.cos(ph), 0])
    amp = np.cos(ps) * phat + np.sin(ps) * shat
    ta = tol * max(1.0, np.abs(ang).max() / 90)
    pw = nn.PlaneWave(wavelength=wl, angles=given)
    other = nn.PlaneWave(wavelength=wl * 1.7, angles=(11.0, 22.0, 33.0))  # another wave changes nothing
    ft = np.float32 if b32 else np.float64
    m.close(float(to_np(pw.wavelength)), wl, tol, "numbers: wavelength", scale=wl)
    m.close(float(to_np(pw.frequency_scaled)), 1 / wl, tol, "numbers: frequency", scale=1 / wl)
    m.close(float(to_np(pw.wavenumber)), k0, tol, "numbers: wavenumber", scale=k0)
    m.close(to_np(pw.angles_deg), ang, tol, "numbers: angles in degrees", scale=max(1, np.abs(ang).max()))
    m.close([float(to_np(pw.theta)), float(to_np(pw.phi)), float(to_np(pw.psi))], [th, ph, ps], tol, "numbers: angles in radians", scale=max(1, abs(ph), abs(ps)))
    for name in ("wavelength", "frequency_scaled", "wavenumber", "wavevector", "angles", "amplitude"):
        dt = to_np(getattr(pw, name)).dtype
        m.check(dt == ft, f"numbers: precision of the {name}", got=str(dt))
    m.close(to_np(pw.wavevector), k0 * khat, ta, "wavevector: direction of the angles, length 2 pi / wavelength", scale=k0)
    a = to_np(pw.amplitude)
    m.close(a, amp, ta, "polarization: p for psi = 0, s for psi = 90 degrees")
    m.close(np.linalg.norm(a), 1, ta, "polarization: unit length")
    m.close(a @ to_np(pw.wavevector) / k0, 0, ta, "polarization: transverse")
    m.check(np.array_equal(to_np(given), to_np(before)) and type(given) is type(before), "inputs: angles are not modified")
    d = nn.PlaneWave()
    m.close(np.concatenate([to_np(d.wavevector), to_np(d.amplitude)]), [0, 0, 2 * np.pi, 1, 0, 0], tol, "numbers: default wave")
    # the wave in a transparent stack
    n = spec["eps"] ** 0.5
    basis = spec["basis"]
    sc = wl * float(rng.uniform(0.4, 1.5))
    oned = np.isscalar(basis)
    if (b32 or spec["backend"] == "jax") and rng.random() < 0.5:
        return
    basis = basis * sc if oned else tuple(tuple(float(x) for x in v) for v in np.array(basis) * sc)
    N = [int(v) for v in rng.integers(4, 8, 2)]
    lat = nn.Lattice(basis, discretization=N[0] if oned else tuple(N))
    t = [float(wl * rng.uniform(0.1, 0.7)) for _ in range(2)]
    st = [lat.Layer("a", epsilon=spec["eps"], thickness=t[0] if rng.random() < 0.5 else 0), lat.Layer("b", epsilon=spec["eps"], thickness=t[1]), lat.Layer("c", epsilon=spec["eps"])]
    sim = nn.Simulation(st, pw, nh=int(rng.integers(1, 9)))
    R, T = sim.diffraction_efficiencies()
    ts = 100 * ta / max(abs(np.cos(th)), 0.03) ** 2
    m.close([float(R), float(T)], [0, 1], ts, "flux: everything is transmitted")
    m.close(float(to_np(sim.incident_flux)), np.cos(th) / n, ts, "flux: power of the wave")
    # phase origin at the top of the superstrate
    top = [0.0, st[0].thickness, st[0].thickness + t[1]]
    M = np.array([[basis, 0], [0, 1.0]]) if oned else np.array(basis).T
    shp = (N[0], 1) if oned else tuple(N)
    U = np.array(np.meshgrid(np.arange(shp[0]) / shp[0], np.arange(shp[1]) / shp[1], indexing="ij"))
    X = np.tensordot(M, U, (1, 0))
    kx, ky = n * k0 * khat[:2]
    H = np.cross(khat, amp)  # n E x ... : E = amp / n, H = k x E / w
    for j in range(3):
        z = float(rng.uniform(0, 1) * (st[j].thickness or 0.3 * wl))
        f = to_np(sim.get_field_fourier(j, z=z))[0]
        zero = sim.get_order_index((0, 0))
        ph_ = np.exp(1j * n * k0 * khat[2] * (top[j] + z))
        tz = ts * max(1, k0 * (top[j] + z))
        m.close(f[0, :, zero], amp / n * ph_, tz, "fields: electric field of the wave", layer=j)
        m.close(f[1, :, zero], H * ph_, tz, "fields: magnetic field of the wave", layer=j)
        g = sim.get_field_grid(j, z=z)
        if oned is False or True:
            E = np.array([to_np(c)[..., 0] for c in g[0]])
            m.close(E, np.broadcast_to((amp / n * ph_)[:, None, None], E.shape), tz, "fields: periodic part of the field is uniform", layer=j)
    if abs(th) > 0.05:
        m.nontrivial()
    assert other is not pw
