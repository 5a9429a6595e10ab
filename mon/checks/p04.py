"""Fields: reference, interface continuity, Maxwell residual, incident wave, real-space synthesis."""
import numpy as np

import nannos as nn

from .. import gen, ref
from ..common import rng_for, to_np

LEVEL = "exploration"
RULE = (
    "random stacks as in P03; fields queried in every layer at random depths (scalars, lists, arrays; layer given by "
    "index, name or object), default and custom real-space grids; non-trivial: at least one patterned layer"
)
ASSUMPTIONS = ["get_field_grid returns the periodic part of the fields (no Bloch phase), as documented by its use in the examples"]
MIN_EVENTS = {"reference": 1000, "continuity": 500, "grid": 500, "selection": 100, "incident": 50}


def cases(tier, seed):
    n = 1800 if tier == "quick" else 15000
    out = []
    for i in range(n):
        rng = rng_for(seed, "P04", i)
        oned = rng.random() < 0.3
        form = ("original", "tangent") if oned else ("original", "original", "tangent", "jones", "pol")
        spec = gen.rand_stack(
            rng, nh=(2, 18) if i % 60 != 37 else (45, 80), oned=oned, formulations=form, n_inner=(0, 4), metal=True, aniso=0.25, harmonics=0.2,
            patterned=0.7, tangents=("user", "user", "fft"), copies=0.15, sup_thick=0.4,
        )
        spec["u"] = [float(v) for v in rng.random(3)]
        spec["qseed"] = int(rng.integers(2**31))
        out.append(spec)
    return out


def synth(sim, u, shape):
    """sum_g u_g exp(2 pi i (g_x i/Nx + g_y j/Ny)), independent of any FFT."""
    h = to_np(sim.harmonics)
    ex = np.exp(2j * np.pi * np.outer(np.arange(shape[0]) / shape[0], h[0]))
    ey = np.exp(2j * np.pi * np.outer(np.arange(shape[1]) / shape[1], h[1]))
    return np.einsum("ig,jg,g->ij", ex, ey, u)


def run_case(spec, m):
    m.note(*gen.describe(spec))
    rng = np.random.default_rng(spec["qseed"])
    sim = ref.spy(gen.build(nn, spec))
    N = len(spec["layers"])
    order = rng.permutation(N)
    got = {}
    for j in order:
        j = int(j)
        t = spec["layers"][j]["thickness"]
        zs = [u * t for u in spec["u"]] + [0.0, t]
        if j == 0:
            zs.append(-0.15 * spec["wl"] * rng.random())
        if j == N - 1:
            zs.append(0.5 * spec["wl"] * rng.random())
        ident = [j, spec["layers"][j]["name"], sim.layers[j], j - len(sim.layers)][int(rng.integers(4))]
        F = to_np(sim.get_field_fourier(ident, [zs, np.array(zs), tuple(zs)][int(rng.integers(3))]))
        m.check(F.shape == (len(zs), 2, 3, sim.nh), "selection: shape of get_field_fourier is (nz, 2, 3, nh)", shape=F.shape)
        k = int(rng.integers(len(zs)))
        F1 = to_np(sim.get_field_fourier(ident, zs[k]))
        m.close(F1[0], F[k], 1e-12, "selection: scalar depth gives the same field as a list of depths")
        got[j] = (zs, F)
    a, b = ref.with_sensitivity(spec, sim, gen)
    amp = max(1.0, max(np.max(abs(F)) for z, F in got.values()))
    for j, (zs, F) in got.items():
        for i, z in enumerate(zs):
            fa, fb = a.fields(j, z), b.fields(j, z)
            s = np.max(abs(fa - fb))
            tol = 1e-7 + 300 * s
            if tol > 1e-3 * amp:
                m.count("too sensitive")
                continue
            m.close(F[i], fa, tol, "reference: field harmonics", layer=j, z=z)
    # tangential continuity at every interface, from the code alone
    stab = 1e-6 * amp
    for j in range(N - 1):
        zs, F = got[j]
        top = to_np(sim.get_field_fourier(j + 1, 0.0))[0]
        bot = to_np(sim.get_field_fourier(j, spec["layers"][j]["thickness"]))[0]
        s = np.max(abs(a.fields(j + 1, 0.0) - b.fields(j + 1, 0.0)))
        if s > 1e-6 * amp:
            continue
        m.close(bot[:, :2], top[:, :2], stab + 300 * s, "continuity: tangential E and H across an interface", interface=j)
        m.close(bot[1, 2], top[1, 2], stab + 300 * s, "continuity: normal H across an interface", interface=j)
    # the incident part in the superstrate is the documented plane wave
    th, ph, ps = np.deg2rad(spec["angles"])
    n0 = gen.cplx(spec["layers"][0]["eps"]).real ** 0.5
    kk = np.array([np.sin(th) * np.cos(ph), np.sin(th) * np.sin(ph), np.cos(th)])
    pol = np.array([
        np.cos(ps) * np.cos(th) * np.cos(ph) - np.sin(ps) * np.sin(ph),
        np.cos(ps) * np.cos(th) * np.sin(ph) + np.sin(ps) * np.cos(ph),
        -np.cos(ps) * np.sin(th),
    ])
    w = 2 * np.pi / spec["wl"]
    q = n0 * w * np.cos(th)
    t0 = spec["layers"][0]["thickness"]
    i0 = a.zero
    z1, z2 = t0 - 0.11 / q, t0 - 1.02 / q
    if np.max(a.lay[0].q.imag) * abs(z2) < 300:
        F = to_np(sim.get_field_fourier(0, [z1, z2]))[:, 0, :, i0]
        # E(z) = A e^{iqz} + B e^{-iqz}: separate the two waves
        M = np.array([[np.exp(1j * q * z1), np.exp(-1j * q * z1)], [np.exp(1j * q * z2), np.exp(-1j * q * z2)]])
        A = np.linalg.solve(M, F)[0]
        m.close(A, pol / n0, 1e-6, "incident: the downward wave in the superstrate is the incident plane wave")
    # Maxwell residual in k space: Hz and Ez from the other components
    kx, ky = a.kx, a.ky
    m.close(to_np(sim.kx), kx, 1e-9, "incident: in-plane wavevectors of the harmonics", scale=max(1, np.max(abs(kx))))
    m.close(to_np(sim.ky), ky, 1e-9, "incident: in-plane wavevectors of the harmonics", scale=max(1, np.max(abs(ky))))
    for j, (zs, F) in got.items():
        E, H = F[:, 0], F[:, 1]
        m.close(w * H[:, 2], kx * E[:, 1] - ky * E[:, 0], 1e-9 * amp, "maxwell: curl E along z", scale=w)
        if not isinstance(spec["layers"][j]["eps"], dict):
            e = gen.cplx(spec["layers"][j]["eps"])
            div = kx * H[:, 0] + ky * H[:, 1]
            i = int(rng.integers(len(zs)))
            dz = 1e-4 / max(w, np.max(abs(a.lay[j].q)))
            Fd = to_np(sim.get_field_fourier(j, [zs[i] - dz, zs[i] + dz]))
            dH = (Fd[1, 1] - Fd[0, 1]) / (2 * dz)
            dE = (Fd[1, 0] - Fd[0, 0]) / (2 * dz)
            sc = max(1.0, np.max(abs(Fd)) * max(w, np.max(abs(a.lay[j].q))))
            m.close(1j * div[i] + dH[2], 0 * div[i], 2e-6, "maxwell: div H = 0", scale=sc)
            m.close(1j * ky * E[i, 2] - dE[1], 1j * w * H[i, 0], 2e-6, "maxwell: curl E along x", scale=sc)
            m.close(dH[0] - 1j * kx * H[i, 2], -1j * w * e * E[i, 1], 2e-6, "maxwell: curl H along y", scale=sc)
    # real space
    j = int(rng.integers(N))
    zs, F = got[j]
    nz = int(rng.integers(1, 3))
    zz, Fz = zs[:nz], F[:nz]
    mx = int(np.max(abs(to_np(sim.harmonics)))) if sim.nh > 1 else 0
    shape = None
    if rng.random() < 0.6:
        shape = (2 * mx + 1 + int(rng.integers(0, 9)), 2 * mx + 1 + int(rng.integers(0, 9)))
        if np.isscalar(spec["lattice"]["basis"]) and rng.random() < 0.7:
            shape = (shape[0], 1)
    ident = [j, spec["layers"][j]["name"], sim.layers[j], j - len(sim.layers)][int(rng.integers(4))]
    E, H = [to_np(v) for v in sim.get_field_grid(ident, zz, shape=shape)]
    shp = shape or gen.shape_of(spec)
    m.check(E.shape == (3,) + tuple(shp) + (nz,) and H.shape == E.shape, "selection: shape of get_field_grid", shape=E.shape)
    for iz in range(nz):
        for c in range(3):
            m.close(E[c, :, :, iz], synth(sim, Fz[iz, 0, c], shp), 1e-9 * amp, "grid: E is the Fourier sum of its harmonics")
            m.close(H[c, :, :, iz], synth(sim, Fz[iz, 1, c], shp), 1e-9 * amp, "grid: H is the Fourier sum of its harmonics")
    for c, name in enumerate("xyz"):
        e1 = to_np(sim.get_Efield_grid(ident, zz, shape=shape, component=name))
        h1 = to_np(sim.get_Hfield_grid(ident, zz, shape=shape, component=name))
        e2, h2 = [to_np(v) for v in sim.get_field_grid(ident, zz, shape=shape, component=name)]
        m.close(e1, E[c], 1e-12, "selection: E component", scale=amp)
        m.close(h1, H[c], 1e-12, "selection: H component", scale=amp)
        m.close(e2, E[c], 1e-12, "selection: E component", scale=amp)
        m.close(h2, H[c], 1e-12, "selection: H component", scale=amp)
    m.close(to_np(sim.get_Efield_grid(ident, zz, shape=shape)), E, 1e-12, "selection: E field", scale=amp)
    m.close(to_np(sim.get_Hfield_grid(ident, zz, shape=shape)), H, 1e-12, "selection: H field", scale=amp)
    if spec["haspat"]:
        m.nontrivial()
