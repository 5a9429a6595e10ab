"""Numerical robustness: extreme thickness, number of layers, periods, contrasts, units and angles."""
import copy

import numpy as np

import nannos as nn

from .. import gen, ref
from ..common import Skip, rng_for, to_np
from .p05 import flat, star

LEVEL = "exploration"
RULE = (
    "stacks pushed to extremes: layers of 10 to 1e5 wavelengths, 64 to 1024 layers, periods of 2e-4 to 0.02 wavelengths and many "
    "harmonics, strongly evanescent gaps, permittivities of 1e4 or -1e4, incidence within 1e-3 degrees of grazing, contrasts down to "
    "1e-13, lengths in any unit from 1e-9 to 1e9; judged by splitting, doubling, composition, effective media, limits, "
    "conservation and scaling; non-trivial: a patterned layer or more than 30 layers"
)
ASSUMPTIONS = ["numpy backend in double precision (the other backends are compared with it by P13)"]
MIN_EVENTS = {"finite": 500, "thick": 100, "many": 30, "effective": 50, "contrast": 50, "grazing": 50, "degenerate": 50, "units": 50, "gap": 50}
KINDS = ["thicklossless", "thicklossy", "many", "effective", "contrast", "grazing", "degenerate", "units", "gap", "static"]
CASE_TIMEOUT = 300


def cases(tier, seed):
    n = 1200 if tier == "quick" else 8000
    return [{"kind": KINDS[i % len(KINDS)], "i": i, "seed": int(rng_for(seed, "P23", i).integers(2**31)), "big": tier != "quick"} for i in range(n)]


def problem(rng, **kw):
    a = dict(nh=(3, 15), n_inner=(1, 3), lossless=True, patterned=1.0, thick=0, zero=0, sub_lossy=0, sup_thick=0)
    a["oned"] = bool(rng.random() < 0.5)
    a["formulations"] = ("original", "tangent") if a["oned"] else ("original",)
    a.update(kw)
    return gen.rand_stack(rng, **a)


def results(m, spec, fields=True):
    sim = gen.build(nn, spec)
    R, T = [to_np(v) for v in sim.diffraction_efficiencies(orders=True)]
    ok = m.check(np.all(np.isfinite(R)) and np.all(np.isfinite(T)), "finite: efficiencies are finite", R=R[:4], T=T[:4])
    if fields:
        n = len(spec["layers"])
        for j in {0, n // 2, n - 1}:
            t = spec["layers"][j]["thickness"]
            F = to_np(sim.get_field_fourier(j, [0.0, 0.5 * t, t]))
            ok &= m.check(np.all(np.isfinite(F)), "finite: fields are finite", layer=j)
    return sim, R, T, ok


def order(sim):
    h = to_np(sim.harmonics)
    return np.lexsort(h)


def same(m, what, A, B, tol):
    (sa, Ra, Ta), (sb, Rb, Tb) = A, B
    oa, ob = order(sa), order(sb)
    m.close(np.concatenate([Ra[oa], Ta[oa]]), np.concatenate([Rb[ob], Tb[ob]]), tol, what)


def sensitivity(spec, d=1e-11):
    """Change of the answer when all the materials change by d: what the data itself determine."""
    s2 = copy.deepcopy(spec)
    s2["wl"] *= 1 + d
    a = gen.build(nn, spec)
    b = gen.build(nn, s2)
    return max(np.max(np.abs(to_np(x) - to_np(y))) for x, y in zip(a.diffraction_efficiencies(orders=True), b.diffraction_efficiencies(orders=True)))


def thicklossless(spec, rng, m):
    s = problem(rng, neglossless=bool(rng.random() < 0.5))
    j = int(rng.integers(1, len(s["layers"]) - 1))
    s["layers"][j]["thickness"] = float(s["wl"] * 10 ** rng.uniform(1, 5))
    sens = sensitivity(s)
    if not sens < 1e-5:
        raise Skip("too sensitive")
    tol = 1e-7 + 100 * sens
    sim, R, T, ok = results(m, s)
    m.check(abs(R.sum() + T.sum() - 1) < tol, "thick: energy is conserved", total=R.sum() + T.sum())
    k = int(rng.choice([2, 3, 8]))
    s2 = copy.deepcopy(s)
    L = s2["layers"][j]
    L["thickness"] /= k
    for i in range(k - 1):
        c = copy.deepcopy(L)
        c["name"] += f" part {i}"
        s2["layers"].insert(j + 1, c)
    sim2, R2, T2, ok = results(m, s2, False)
    same(m, "thick: a thick layer split in several", (sim2, R2, T2), (sim, R, T), tol)


def thicklossy(spec, rng, m):
    s = problem(rng)
    j = int(rng.integers(1, len(s["layers"]) - 1))
    L = s["layers"][j]
    # a layer that absorbs everything
    L["eps"] = dict(gen.rand_pattern(rng), kind=L["eps"]["kind"]) if False else L["eps"]
    arr = gen.pattern_array(L["eps"], gen.shape_of(s), s["lattice"]["basis"])
    if np.ndim(arr) != 2:
        raise Skip("anisotropic")
    n = float(np.sqrt(np.max(np.abs(arr))))
    loss = float(rng.uniform(0.2, 3))

    def go(wls):
        s2 = copy.deepcopy(s)
        sim = None
        lat, layers = gen.build_layers(nn, s2)
        layers[j].epsilon = nn.backend.array(arr + 1j * loss)
        layers[j].thickness = wls * s["wl"]
        sim = nn.Simulation(layers, gen.make_wave(nn, s2), nh=s2["nh"], formulation=s2["formulation"])
        R, T = [to_np(v) for v in sim.diffraction_efficiencies(orders=True)]
        F = to_np(sim.get_field_fourier(j, [0.0, 0.5 * wls * s["wl"], wls * s["wl"]]))
        G = to_np(sim.get_field_fourier(len(layers) - 1, 0.0))
        m.check(np.all(np.isfinite(R)) and np.all(np.isfinite(T)) and np.all(np.isfinite(F)) and np.all(np.isfinite(G)), "finite: very lossy thick layers", wavelengths=wls)
        return sim, R, T

    a = go(60.0 * n / loss)
    for f in (2.0, 10 ** rng.uniform(2, 4)):
        b = go(60.0 * n / loss * f)
        same(m, "thick: an opaque layer hides its substrate", b, a, 1e-7)
        m.check(np.max(np.abs(b[2])) < 1e-12, "thick: nothing is transmitted through an opaque layer")


def many(spec, rng, m):
    s = problem(rng, nh=(1, 7), n_inner=(1, 2), patterned=0.7)
    p = int(rng.choice([5, 6, 7] if not spec["big"] else [6, 8, 9, 10]))
    cell = s["layers"][1:-1]
    n = 2**p
    sens = 0.0
    lat, end = gen.build_layers(nn, dict(s, layers=[s["layers"][0], dict(s["layers"][0], name="end", thickness=0.0)]))
    proto = gen.build_layers(nn, dict(s, layers=cell), lat)[1]

    def stack(k, copies):
        out = [end[0]]
        for i in range(k):
            for q, L in enumerate(proto):
                c = L.copy(name=f"{i}-{q}") if copies else gen.make_layer(nn, lat, dict(cell[q], name=f"{i}-{q}"), s)
                out.append(c)
        return nn.Simulation(out + [end[1]], gen.make_wave(nn, s), nh=s["nh"], formulation=s["formulation"])

    copies = bool(rng.random() < 0.5)
    one = stack(1, False)
    S = one.get_S_matrix()
    S = [[to_np(S[i][k]) for k in range(2)] for i in range(2)]
    # remove the propagation through the superstrate, which is only above the first cell
    s0 = copy.deepcopy(s)
    t0 = s["layers"][0]["thickness"]
    if t0:
        raise Skip("superstrate with a thickness")
    for _ in range(p):
        S = star(S, S)
    whole = stack(n, copies)
    W = flat(whole.get_S_matrix())
    C = np.block(S)
    m.count("many", W.size)
    m.check(np.all(np.isfinite(W)), "finite: S-matrix of many layers")
    # lossless periodic stacks have resonances: tolerance from the same cascade with perturbed data
    s2 = dict(s, wl=s["wl"] * (1 + 1e-11))
    w2 = nn.Simulation(whole.layers, gen.make_wave(nn, s2), nh=s["nh"], formulation=s["formulation"])
    sens = np.max(np.abs(flat(w2.get_S_matrix()) - W))
    tol = 1e-6 + 1e3 * sens
    if tol > 1e-2:
        m.count("too sensitive")
    else:
        m.close(W, C, tol, "many: S-matrix of a periodic stack", scale=max(1.0, float(np.max(np.abs(C)))), n=n)
    sim = stack(n, copies)
    R, T = [float(to_np(v)) for v in sim.diffraction_efficiencies()]
    m.check(abs(R + T - 1) < max(1e-6, tol), "many: energy is conserved", R=R, T=T, n=n)
    m.nontrivial()


def effective(spec, rng, m):
    # gratings much finer than the wavelength
    fine = 10 ** rng.uniform(-3.7, -1.7)
    th, ph = rng.uniform(0, 75), rng.uniform(0, 360)
    wl = 10 ** rng.uniform(-1, 1)
    nx = int(rng.choice([64, 100, 128]))
    f = rng.integers(10, nx - 10) / nx
    e1, e2 = rng.uniform(1, 4), rng.uniform(5, 12)
    prof = np.where(np.arange(nx) < round(f * nx), e2, e1)
    mean, harm = prof.mean(), 1 / np.mean(1 / prof)
    oned = rng.random() < 0.6
    t = wl * rng.uniform(0.05, 0.6)
    along = rng.random() < 0.5
    # plane of incidence across (phi = 0) or along the lines (phi = 90)
    phi, psi, eff = ((0.0, 90.0, mean) if along else (90.0, 0.0, None))
    nh = int(rng.integers(9, 31))
    if oned:
        lat = nn.Lattice(fine * wl, nx)
        shape = (nx, 1)
    else:
        lat = nn.Lattice(((fine * wl, 0), (0, fine * wl * rng.uniform(0.7, 1.4))), (nx, 8 + nx // 4), truncation="circular")
        shape = (nx, 8 + nx // 4)
    esub = rng.uniform(1, 4)
    tol = 1e-5 + 0.1 * fine + 300 * fine**2 + 1e-14 * (nh / fine) ** 2

    def run(eps, psi, nh, form="original"):
        lay = lat.Layer("grating", thickness=t)
        lay.epsilon = eps
        sim = nn.Simulation([lat.Layer("sup"), lay, lat.Layer("sub", epsilon=esub)], nn.PlaneWave(wl, (th, phi, psi)), nh=nh, formulation=form)
        return [float(to_np(v)) for v in sim.diffraction_efficiencies()]

    E = np.ones(shape) * prof[:, None]
    if phi == 0.0:
        # E along the lines: the mean, for any number of harmonics
        R, T = run(E, 90.0, nh)
        R0, T0 = run(mean, 90.0, 1)
        m.check(np.isfinite(R) and np.isfinite(T), "finite: fine gratings")
        m.close([R, T], [R0, T0], tol, "effective: E along the lines of a fine grating", fine=fine, th=th)
        if oned:
            # H along the lines: the closed form of a uniaxial slab of optical axis x
            R, T = run(E, 0.0, nh, "tangent")
            exx, ezz = (harm, harm) if False else (harm, mean)
            R0, T0 = uniaxial(exx, ezz, esub, th, t / wl)
            m.close([R, T], [R0, T0], tol, "effective: H along the lines of a fine grating", fine=fine, th=th)
    else:
        # normal incidence on lines, E across them
        th = 0.0
        phi = 0.0
        if oned:
            R, T = run(E, 0.0, nh, "tangent")
            R0, T0 = run(harm, 0.0, 1)
            m.close([R, T], [R0, T0], tol, "effective: E across the lines of a fine grating", fine=fine)
        else:
            R, T = run(E, 90.0, nh)
            R0, T0 = run(mean, 90.0, 1)
            m.close([R, T], [R0, T0], tol, "effective: E along the lines of a fine grating in 2D", fine=fine)
    m.count("effective")
    m.note(fine, th, nh, oned)
    m.nontrivial()


def uniaxial(exx, ezz, esub, th, d):
    """p polarized slab with eps = diag(exx, ., ezz) between air and esub."""
    k0 = 2 * np.pi
    kx = np.sin(np.deg2rad(th)) * k0
    q0 = np.sqrt(k0**2 - kx**2 + 0j)
    q2 = np.sqrt(esub * k0**2 - kx**2 + 0j)
    q1 = np.sqrt(exx * (k0**2 - kx**2 / ezz) + 0j)
    y0, y1, y2 = 1 / q0, exx / q1, esub / q2
    # impedance of Ex/Hy = q/(eps k0)
    z0, z1, z2 = 1 / y0, 1 / y1, 1 / y2
    r01, r12 = (z1 - z0) / (z1 + z0), (z2 - z1) / (z2 + z1)
    e = np.exp(2j * q1 * d)
    r = (r01 + r12 * e) / (1 + r01 * r12 * e)
    R = abs(r) ** 2
    return R, 1 - R


def contrast(spec, rng, m):
    s = problem(rng, nh=(3, 11), formulations=("original",), n_inner=(1, 2))
    j = 1
    arr = np.real(gen.pattern_array(s["layers"][j]["eps"], gen.shape_of(s), s["lattice"]["basis"]))
    if arr.ndim != 2:
        raise Skip("anisotropic")
    u = (arr - arr.min()) / max(1e-9, arr.max() - arr.min())
    big = float(10 ** rng.uniform(2, 4) * rng.choice([1, -1]))
    lossy = rng.random() < 0.5
    eps = 1 + u * (big - 1) + 1j * lossy * u * 10 ** rng.uniform(-2, 3)
    if min(np.linalg.svd(ref.toeplitz(eps, np.array(gen_h(s))))[1]) < 1e-3:
        raise Skip("singular convolution matrix")

    def run(e):
        lat, layers = gen.build_layers(nn, s)
        layers[j].epsilon = nn.backend.array(e + 0j)
        layers[j].thickness = float(0.05 * s["wl"])
        return nn.Simulation(layers, gen.make_wave(nn, s), nh=s["nh"], formulation=s["formulation"])

    sim = run(eps)
    R, T = [to_np(v) for v in sim.diffraction_efficiencies(orders=True)]
    m.check(np.all(np.isfinite(R)) and np.all(np.isfinite(T)), "finite: high contrast")
    sim2 = run(eps * (1 + 1e-10))
    R2, T2 = [to_np(v) for v in sim2.diffraction_efficiencies(orders=True)]
    tol = 1e-6 + 1e3 * max(np.max(abs(R - R2)), np.max(abs(T - T2)))
    m.count("contrast")
    if tol < 1e-2:
        tot = R.sum() + T.sum()
        if lossy:
            m.check(tot <= 1 + tol, "contrast: no power is created", total=tot)
        else:
            m.check(abs(tot - 1) < tol, "contrast: energy is conserved", total=tot)
        m.check(R.min() > -tol and T.min() > -tol, "contrast: efficiencies are positive")
        m.nontrivial()


def gen_h(s):
    lat = gen.make_lattice(nn, s["lattice"])
    return to_np(lat.get_harmonics(s["nh"])[0]).astype(int)


def grazing(spec, rng, m):
    s = problem(rng)
    s["angles"][0] = float(90 - 10 ** rng.uniform(-3, 0))
    gen.safe_wavelength(s, tol=1e-9)
    if s["angles"][0] < 88.9:
        raise Skip("moved away from an anomaly")
    sens = sensitivity(s)
    if not sens < 1e-5:
        raise Skip("too sensitive")
    sim, R, T, ok = results(m, s)
    tol = 1e-6 + 100 * sens
    m.check(abs(R.sum() + T.sum() - 1) < tol, "grazing: energy is conserved", total=R.sum() + T.sum(), theta=s["angles"][0])
    # reflection becomes total: 1 - R = O(cos theta)
    s2 = copy.deepcopy(s)
    s2["angles"][0] = 90 - 1e-4
    sim, R, T, ok = results(m, s2, False)
    z = int(np.nonzero(np.all(to_np(sim.harmonics) == 0, axis=0))[0][0])
    m.count("grazing")
    if sensitivity(s2) < 1e-6:
        m.check(R[z] > 1 - 1e-2, "grazing: reflection is total in the limit", R=R[z])


def degenerate(spec, rng, m):
    s = problem(rng, nh=(3, 15), n_inner=(1, 3), patterned=0.4)
    j = 1
    c = float(10 ** rng.uniform(-15, -9))
    e0 = float(rng.choice([1.0, 2.25, rng.uniform(1, 9)]))
    u = rng.standard_normal(gen.shape_of(s))
    if rng.random() < 0.3:
        u = np.sign(u)

    def run(e):
        lat, layers = gen.build_layers(nn, s)
        layers[j].epsilon = e
        if rng_t is not None and not np.isscalar(e) and s["formulation"] != "original" and not np.isscalar(s["lattice"]["basis"]):
            layers[j].tangent_field = rng_t
        return nn.Simulation(layers, gen.make_wave(nn, s), nh=s["nh"], formulation=s["formulation"])

    rng_t = None
    gen.safe_wavelength(dict(s, layers=s["layers"] + [{"eps": e0}]))
    w = dict(s, layers=s["layers"] + [{"name": "x", "eps": e0, "thickness": 0.0}])
    gen.safe_wavelength(w)
    s["wl"], s["angles"] = w["wl"], w["angles"]
    A, B = run(e0), run(nn.backend.array(e0 * (1 + c * u) + 0j))
    ra = [to_np(v) for v in A.diffraction_efficiencies(orders=True)]
    rb = [to_np(v) for v in B.diffraction_efficiencies(orders=True)]
    m.count("degenerate")
    if len(ra[0]) != len(rb[0]):
        ra, rb = [v.sum() for v in ra], [v.sum() for v in rb]
        if np.ndim(ra[0]) == 0:
            ra, rb = np.array(ra), np.array(rb)
            m.close(rb, ra, 1e-6 + 1e3 * c, "degenerate: an almost uniform layer is the uniform one", contrast=c)
        return
    same(m, "degenerate: an almost uniform layer is the uniform one", (B, *rb), (A, *ra), 1e-6 + 1e3 * c)
    z = float(s["layers"][j]["thickness"])
    Fa, Fb = [to_np(x.get_field_fourier(j, [0.0, 0.3 * z])) for x in (A, B)]
    m.close(Fb[..., order(B)], Fa[..., order(A)], 1e-5 + 1e4 * c, "degenerate: fields in an almost uniform layer", contrast=c)
    m.nontrivial()


def units(spec, rng, m):
    s = problem(rng, lossless=False, metal=True, thick=0.1)
    sens = sensitivity(s)
    if not sens < 1e-6:
        raise Skip("too sensitive")
    A = gen.build(nn, s)
    ra = [to_np(v) for v in A.diffraction_efficiencies(orders=True)]
    f = float(10 ** rng.choice([-9, -6, -3, 3, 6, 9, rng.uniform(-9, 9)]))
    s2 = copy.deepcopy(s)
    b = s["lattice"]["basis"]
    s2["lattice"]["basis"] = b * f if np.isscalar(b) else [[x * f for x in v] for v in b]
    s2["wl"] *= f
    for L in s2["layers"]:
        L["thickness"] *= f
    # patterns are described in fractions of the cell only if they keep the same array
    arrs = [gen.pattern_array(L["eps"], gen.shape_of(s), b) if isinstance(L["eps"], dict) else None for L in s["layers"]]
    lat, layers = gen.build_layers(nn, s2)
    for lay, a in zip(layers, arrs):
        if a is not None:
            lay.epsilon = nn.backend.array(a + 0j)
    B = nn.Simulation(layers, gen.make_wave(nn, s2), nh=s2["nh"], formulation=s2["formulation"])
    m.count("units")
    if B.nh != A.nh:
        m.fail("units: the set of harmonics depends on the unit of length", f=f)
        return
    rb = [to_np(v) for v in B.diffraction_efficiencies(orders=True)]
    same(m, "units: results do not depend on the unit of length", (B, *rb), (A, *ra), 1e-6 + 1e3 * sens)
    j = len(s["layers"]) // 2
    t = s["layers"][j]["thickness"]
    Fa = to_np(A.get_field_fourier(j, [0.3 * t]))
    Fb = to_np(B.get_field_fourier(j, [0.3 * t * f]))
    m.close(Fb[..., order(B)], Fa[..., order(A)], 1e-5 + 1e3 * sens, "units: fields do not depend on the unit of length", f=f)
    m.nontrivial()


def gap(spec, rng, m):
    # frustrated total reflection through very thick evanescent gaps
    lat = nn.Lattice(((1.0, 0), (0.2, 0.9)), (16, 18)) if rng.random() < 0.5 else nn.Lattice(1.0, 32)
    n = rng.uniform(1.5, 3.5)
    th = np.rad2deg(np.arcsin(1 / n)) + rng.uniform(3, 15)
    th = min(th, 85.0)
    wl = rng.uniform(0.3, 3)
    psi = float(rng.choice([0.0, 90.0]))
    d = wl * 10 ** rng.uniform(-1, 4)
    nh = int(rng.choice([1, 9, 15]))
    pat = rng.random() < 0.6
    layers = [lat.Layer("a", epsilon=n**2), lat.Layer("gap", thickness=d), lat.Layer("b", epsilon=n**2)]
    if pat:
        g = lat.Layer("grating", thickness=0.2 * wl)
        shape = (16, 18) if len(np.shape(lat.basis_vectors)) == 2 and not np.isscalar(lat.basis_vectors) and nh and lat.discretization[1] != 1 else (32, 1)
        g.epsilon = nn.backend.array(np.where(np.random.default_rng(spec["seed"]).random(shape) < 0.5, n**2, 1.0) + 0j)
        layers.insert(2, g)
    sim = nn.Simulation(layers, nn.PlaneWave(wl, (th, rng.uniform(0, 360), psi)), nh=nh)
    R, T = [to_np(v) for v in sim.diffraction_efficiencies(orders=True)]
    F = to_np(sim.get_field_fourier(1, [0.0, 0.5 * d, d]))
    m.check(np.all(np.isfinite(R)) and np.all(np.isfinite(T)) and np.all(np.isfinite(F)), "finite: evanescent gaps")
    m.count("gap")
    if not pat:
        k0 = 2 * np.pi / wl
        kx = n * np.sin(np.deg2rad(th)) * k0
        q, k = np.sqrt(n**2 * k0**2 - kx**2), np.sqrt(kx**2 - k0**2)
        a, b = (k, q) if psi == 90.0 else (k, q / n**2)
        # closed form of the transmission by a tunnel barrier
        x = k * d
        g2 = ((a**2 + b**2) / (2 * a * b)) ** 2
        want = 1 / (1 + g2 * np.sinh(x) ** 2) if x < 300 else 0.0
        m.close(T.sum(), want, 1e-9, "gap: tunneling through a gap", d=d / wl)
    m.check(abs(R.sum() + T.sum() - 1) < 1e-6, "gap: energy is conserved", total=R.sum() + T.sum())
    if pat:
        m.nontrivial()


def static(spec, rng, m):
    # wavelengths much larger than everything: the structure disappears
    s = problem(rng, sub_lossy=0)
    s["wl"] = float(s["wl"] * 10 ** rng.uniform(2.5, 4.5))
    s["angles"][0] = float(rng.uniform(0, 80))
    sim, R, T, ok = results(m, s)
    z = int(np.nonzero(np.all(to_np(sim.harmonics) == 0, axis=0))[0][0])
    e1, e2 = gen.cplx(s["layers"][0]["eps"]).real, gen.cplx(s["layers"][-1]["eps"]).real
    th, ph, ps = np.deg2rad(s["angles"])
    c1 = np.cos(th)
    c2 = np.sqrt(1 - e1 / e2 * np.sin(th) ** 2 + 0j)
    n1, n2 = e1**0.5, e2**0.5
    rs = (n1 * c1 - n2 * c2) / (n1 * c1 + n2 * c2)
    rp = (n2 * c1 - n1 * c2) / (n2 * c1 + n1 * c2)
    want = np.sin(ps) ** 2 * abs(rs) ** 2 + np.cos(ps) ** 2 * abs(rp) ** 2
    per = max(L["thickness"] for L in s["layers"]) / s["wl"]
    m.count("static")
    if abs(c2) > 0.05:
        m.close(R[z], want, 1e-6 + 300 * per + 1e-3, "static: a structure much smaller than the wavelength is invisible", ratio=per)
    m.check(abs(R.sum() + T.sum() - 1) < 3e-5, "static: energy is conserved", total=R.sum() + T.sum())


RUN = {k: globals()[k] for k in KINDS}


def run_case(spec, m):
    rng = np.random.default_rng(spec["seed"])
    m.note(spec["kind"], spec["seed"])
    RUN[spec["kind"]](spec, rng, m)
    if spec["kind"] not in ("effective", "many", "contrast", "gap", "degenerate", "units"):
        m.nontrivial()
