"""Random scenarios: JSON-able specs, and their construction with the public API."""
import copy

import numpy as np

from .common import to_np

NAMES = [
    "Superstrate", "Substrate", "air", "glass", "L1", "L2", "1", "0", "grating",
    "slab A", "über", "layer", "x", "cap", "spacer", "metal", "film-7", "q", "z", "core",
    "clad", "-1", "None", "sub", "sup", "copy",
]


def cplx(v):
    return complex(v[0], v[1]) if isinstance(v, (list, tuple)) else complex(v)


def rand_basis(rng, kind=None, scale=None):
    s = scale if scale is not None else float(np.exp(rng.uniform(np.log(0.4), np.log(2.5))))
    kind = kind or rng.choice(["square", "rect", "hex", "oblique", "rot", "general", "swap"])
    if kind == "square":
        b = np.array([[1, 0], [0, 1.0]])
    elif kind == "rect":
        b = np.array([[1, 0], [0, rng.uniform(0.4, 2.2)]])
    elif kind == "hex":
        b = np.array([[1, 0], [0.5 * rng.choice([-1, 1]), 3**0.5 / 2]])
    elif kind == "oblique":
        b = np.array([[1, 0], [rng.uniform(-0.6, 0.6), rng.uniform(0.6, 1.6)]])
    elif kind == "rot":
        a = rng.uniform(0, 2 * np.pi)
        r = np.array([[np.cos(a), np.sin(a)], [-np.sin(a), np.cos(a)]])
        b = np.array([[1, 0], [0, rng.uniform(0.5, 2)]]) @ r
    elif kind == "swap":  # left-handed
        b = np.array([[0.0, rng.uniform(0.5, 1.5)], [1, rng.uniform(-0.3, 0.3)]])
    else:
        while True:
            b = rng.uniform(-1.3, 1.3, (2, 2))
            d = abs(np.linalg.det(b))
            n = np.linalg.norm(b, axis=1)
            if d > 0.35 * n[0] * n[1] and n.min() > 0.3:
                break
    return (b * s).tolist()


def rand_eps(rng, kind=None):
    kind = kind or rng.choice(["diel", "diel", "lossy", "high", "metal", "one"])
    if kind == "one":
        return [1.0, 0.0]
    if kind == "diel":
        return [float(rng.uniform(1.0, 6.0)), 0.0]
    if kind == "high":
        return [float(rng.uniform(6, 16)), 0.0]
    if kind == "lossy":
        return [float(rng.uniform(1, 9)), float(10 ** rng.uniform(-4, 0.8))]
    if kind == "metal":
        return [float(-rng.uniform(1.5, 30)), float(10 ** rng.uniform(-1, 1))]
    if kind == "gaplossless":  # negative lossless
        v = float(-rng.uniform(1.5, 8))
        return [v, 0.0 if int(v * 1e6) % 2 else -0.0]  # of any sign, as given by -(2 + 0j)
    raise ValueError(kind)


PATTERNS = ["circle", "rect", "polygon", "stripesx", "stripesy", "noise", "smooth", "checker", "multi", "corner"]


def rand_pattern(rng, lossless=False, metal=False, kinds=None):
    k = str(rng.choice(kinds or PATTERNS))
    mats = ["diel", "high", "one"] if lossless else ["diel", "high", "lossy", "one"]
    if metal:
        mats = mats + ["metal"]
    a = rand_eps(rng, str(rng.choice(mats)))
    b = rand_eps(rng, str(rng.choice(mats)))
    if abs(cplx(a) - cplx(b)) < 0.2:
        b = [b[0] + 2.0, b[1]]
    c = rand_eps(rng, str(rng.choice(mats)))
    return {
        "kind": k,
        "a": a,
        "b": b,
        "c": c,
        "seed": int(rng.integers(2**31)),
    }


def pattern_mask(p, shape, basis):
    """Integer map (0, 1, 2) on the unit cell; pixel (i, j) is at fractions i/Nx, j/Ny."""
    rng = np.random.default_rng(p["seed"])
    Nx, Ny = shape
    u, v = np.meshgrid(np.arange(Nx) / Nx, np.arange(Ny) / Ny, indexing="ij")
    k = p["kind"]
    c = rng.random(2)
    if Ny == 1:
        c[1] = 0.0

    def wrap(d):
        return (d + 0.5) % 1.0 - 0.5

    du, dv = wrap(u - c[0]), wrap(v - c[1])
    m = np.zeros(shape, dtype=int)
    if k in ("circle", "corner"):
        r = rng.uniform(0.15, 0.4)
        if k == "corner":
            du, dv = wrap(u), wrap(v) if Ny > 1 else 0 * v
        m[du**2 + dv**2 <= r * r] = 1
    elif k == "rect":
        w = rng.uniform(0.15, 0.45, 2)
        m[(abs(du) <= w[0]) & (abs(dv) <= w[1])] = 1
    elif k == "polygon":
        ang = rng.uniform(0, np.pi)
        for q in range(3):
            t = ang + q * 2 * np.pi / 3
            m += (np.cos(t) * du + np.sin(t) * dv <= rng.uniform(0.1, 0.25)).astype(int)
        m = (m == 3).astype(int)
    elif k == "stripesx":
        m[abs(du) <= rng.uniform(0.1, 0.4)] = 1
    elif k == "stripesy":
        m[abs(dv if Ny > 1 else du) <= rng.uniform(0.1, 0.4)] = 1
    elif k == "noise":
        m = (rng.random(shape) < rng.uniform(0.3, 0.7)).astype(int)
    elif k == "checker":
        nx, ny = rng.integers(1, 3), rng.integers(1, 3)
        m = ((np.floor(2 * nx * u) + np.floor(2 * ny * v)) % 2).astype(int)
    elif k == "multi":
        m[du**2 + dv**2 <= 0.05] = 1
        d2u, d2v = wrap(u - c[0] - 0.4), wrap(v - c[1] - 0.3) if Ny > 1 else 0 * v
        m[d2u**2 + d2v**2 <= 0.03] = 2
    if m.min() == m.max():
        m[: max(1, Nx // 3), :] = 1 - m[0, 0] if m[0, 0] < 2 else 0
    return m


def pattern_scalar(p, shape, basis):
    vals = np.array([cplx(p["a"]), cplx(p["b"]), cplx(p["c"])])
    if p["kind"] == "smooth":
        rng = np.random.default_rng(p["seed"])
        Nx, Ny = shape
        u, v = np.meshgrid(np.arange(Nx) / Nx, np.arange(Ny) / Ny, indexing="ij")
        f = np.zeros(shape)
        for _ in range(4):
            a, b = rng.integers(-2, 3), rng.integers(-2, 3) if Ny > 1 else 0
            f += rng.uniform(-1, 1) * np.cos(2 * np.pi * (a * u + b * v + rng.random()))
        if f.max() - f.min() < 1e-9:
            f = np.cos(2 * np.pi * u)
        f = (f - f.min()) / (f.max() - f.min())
        return vals[0] * (1 - f) + vals[1] * f
    return vals[pattern_mask(p, shape, basis)]


def pattern_array(p, shape, basis):
    """complex array (Nx, Ny), or (3, 3, Nx, Ny) with p['aniso']."""
    e = pattern_scalar(p, shape, basis)
    an = p.get("aniso")
    if not an:
        return e
    out = np.zeros((3, 3) + tuple(shape), dtype=complex)
    m = (pattern_mask(p, shape, basis) > 0) if p["kind"] != "smooth" else (abs(e - cplx(p["a"])) > 0)
    # tensor entries of the inclusion; isotropic background
    out[0, 0] = np.where(m, cplx(an["xx"]), e)
    out[1, 1] = np.where(m, cplx(an["yy"]), e)
    out[2, 2] = np.where(m, cplx(an["zz"]), e)
    out[0, 1] = np.where(m, cplx(an["xy"]), 0)
    out[1, 0] = np.where(m, cplx(an["yx"]), 0)
    return out


def rand_aniso(rng, lossless=False):
    xx, yy, zz = rng.uniform(1.5, 6, 3)
    kind = rng.choice(["diag", "sym", "gyro"])
    xy = yx = 0
    if kind == "sym":
        xy = yx = rng.uniform(-0.8, 0.8)
    elif kind == "gyro":
        g = rng.uniform(-0.8, 0.8)
        xy, yx = 1j * g, -1j * g
    l = 0 if lossless else 10 ** rng.uniform(-3, -0.5)

    def c(v):
        v = complex(v)
        return [v.real, v.imag]

    return {"xx": c(xx + 1j * l), "yy": c(yy + 1j * l), "zz": c(zz + 1j * l), "xy": c(xy), "yx": c(yx), "kind": str(kind)}


def rand_tangent(rng):
    return {"kind": str(rng.choice(["angle", "const", "radial", "complex", "scaled"])), "seed": int(rng.integers(2**31))}


def tangent_array(t, shape):
    rng = np.random.default_rng(t["seed"])
    Nx, Ny = shape
    u, v = np.meshgrid(np.arange(Nx) / Nx, np.arange(Ny) / Ny, indexing="ij")
    k = t["kind"]
    if k == "const":
        a = rng.uniform(0, 2 * np.pi) + 0 * u
    elif k == "radial":
        a = np.arctan2(np.sin(2 * np.pi * (v - 0.3)), np.sin(2 * np.pi * (u - 0.4)) + 1e-3) + np.pi / 2
    else:
        a = 2 * np.pi * (rng.random() + 0.2 * np.cos(2 * np.pi * (u + rng.random())) + 0.3 * np.sin(2 * np.pi * (v + rng.random())))
    t = np.array([np.cos(a), np.sin(a)])
    if k == "complex":
        t = t * np.exp(1j * rng.uniform(0, 6)) + 0.2j * t[::-1]
    if k == "scaled":
        t = t * (0.5 + rng.random(shape))
    return t


def choose_disc(rng, maxn, oned=False, big=False):
    lo = 2 * maxn + 1
    cand = [lo, lo + 1, lo + 2, lo + 5, 2 * lo + 1, 24, 31, 32, 45, 48] + ([64, 81, 96] if big else [])
    cand = [c for c in cand if c >= lo]
    n = [int(rng.choice(cand)), int(rng.choice(cand))]
    if rng.random() < 0.35:
        n[1] = n[0]
    if n == [3, 3]:  # a (3, 3) permittivity is a uniform tensor
        n = [5, 4]
    return n


def rand_angles(rng, normal=0.15):
    r = rng.random()
    if r < normal:
        th = 0.0
    elif r < 0.8:
        th = float(rng.uniform(0, 85))
    elif r < 0.9:
        th = float(-rng.uniform(0, 80))
    else:
        th = float(rng.choice([30.0, 45.0, 60.0, 75.0, 88.0]))
    ph = float(rng.choice([0, 45, 90, 180, 270, -30])) if rng.random() < 0.3 else float(rng.uniform(-200, 400))
    ps = float(rng.choice([0, 90, 45, 180, -90, 270])) if rng.random() < 0.4 else float(rng.uniform(-180, 360))
    return [th, ph, ps]


def max_harmonic(lat_spec, nh):
    """Upper bound of the largest integer index kept by the truncation."""
    if lat_spec.get("harmonics") is not None:
        return int(np.max(np.abs(lat_spec["harmonics"])))
    if np.isscalar(lat_spec["basis"]):
        return max(1, nh // 2)
    if lat_spec["trunc"] == "parallelogrammic":
        return max(1, int(nh**0.5) // 2 + 1)
    b = np.array(lat_spec["basis"]).T
    r = 2 * np.pi * np.linalg.inv(b).T
    g = np.array([(i, j) for i in range(-nh, nh + 1) for j in range(-nh, nh + 1)]) if nh <= 60 else None
    if g is None:
        g = np.array([(i, j) for i in range(-60, 61) for j in range(-60, 61)])
    n = np.linalg.norm(g @ r.T, axis=1)
    o = np.argsort(n)[: nh + 1]
    return max(1, int(np.abs(g[o]).max()))


def rand_lattice(rng, nh, oned=None, harmonics=0.0, big=False):
    if oned is None:
        oned = rng.random() < 0.3
    lat = {"trunc": "circular", "harmonics": None}
    if oned:
        lat["basis"] = float(np.exp(rng.uniform(np.log(0.4), np.log(2.5))))
    else:
        lat["basis"] = rand_basis(rng)
        if rng.random() < 0.3:
            lat["trunc"] = "parallelogrammic"
    if rng.random() < harmonics:
        lat["harmonics"] = rand_harmonics(rng, nh, oned)
    mx = max_harmonic(lat, nh)
    lat["disc"] = choose_disc(rng, mx, oned, big)
    return lat


def rand_harmonics(rng, nh, oned):
    if oned:
        pool = [(i, 0) for i in range(-nh, nh + 1) if i]
    else:
        pool = [(i, j) for i in range(-4, 5) for j in range(-4, 5) if (i, j) != (0, 0)]
        pool.sort(key=lambda g: g[0] ** 2 + g[1] ** 2)
        pool = pool[: 2 * nh + 6]
    n = min(max(1, nh - 1), len(pool))
    idx = rng.permutation(len(pool))[:n]
    h = [pool[i] for i in idx]
    h.insert(int(rng.integers(0, len(h) + 1)), (0, 0))
    return np.array(h).T.tolist()


def safe_wavelength(spec, tol=8e-4, nmax=40):
    """Moves the wavelength away from Rayleigh anomalies of the uniform layers."""
    b = spec["lattice"]["basis"]
    bm = np.array([[b, 0], [0, 1.0]]) if np.isscalar(b) else np.array(b)
    r = 2 * np.pi * np.linalg.inv(bm)
    eps = [cplx(l["eps"]) for l in spec["layers"] if not isinstance(l["eps"], dict)]
    rngs = range(-12, 13)
    G = np.array([(i, j) for i in rngs for j in ([0] if np.isscalar(b) else rngs)])
    if spec["lattice"].get("harmonics") is not None:
        G = np.array(spec["lattice"]["harmonics"]).T
    wl0 = spec["wl"]
    for it in range(8 * nmax):
        if it and it % nmax == 0:
            spec["wl"] = wl0
            spec["angles"][0] = spec["angles"][0] * 0.93 + 0.7
        w = 2 * np.pi / spec["wl"]
        th, ph, _psi = np.deg2rad(spec["angles"])
        k0 = w * cplx(spec["layers"][0]["eps"]) ** 0.5 * np.sin(th) * np.array([np.cos(ph), np.sin(ph)])
        k = k0 + G @ r.T
        k2 = np.sum(k * k, axis=1)
        bad = any(np.min(np.abs(e * w * w - k2)) < tol * w * w for e in eps)
        if not bad:
            return spec
        spec["wl"] *= 1.0173
    return spec


def rand_stack(rng, nh=(3, 25), oned=None, formulations=("original",), n_inner=(0, 4), lossless=False,
               metal=False, aniso=0.0, harmonics=0.0, patterned=None, tangents=("user",), copies=0.0,
               big=False, kinds=None, sup_thick=0.2, sub_lossy=0.15, thick=0.05, zero=0.08, neglossless=False):
    n = int(rng.integers(nh[0], nh[1] + 1))
    lat = rand_lattice(rng, n, oned, harmonics, big)
    is1d = np.isscalar(lat["basis"])
    form = str(rng.choice([f for f in formulations if not (is1d and f in ("jones", "pol"))] or ["original"]))
    period = lat["basis"] if is1d else float(np.sqrt(abs(np.linalg.det(np.array(lat["basis"])))))
    wl = float(period * np.exp(rng.uniform(np.log(0.45), np.log(4.0))))
    ni = int(rng.integers(n_inner[0], n_inner[1] + 1))
    names = [str(x) for x in rng.permutation(NAMES)[: ni + 2]]
    mats = ["diel", "one", "high"] + ([] if lossless else ["lossy"]) + (["metal"] if metal and not lossless else [])
    if neglossless:
        mats = mats + ["gaplossless"]
    layers = []
    sup = rand_eps(rng, str(rng.choice(["one", "one", "diel"])))
    layers.append({"name": names[0], "eps": sup, "thickness": float(wl * rng.uniform(0.1, 0.8)) if rng.random() < sup_thick else 0.0})
    haspat = False
    for i in range(ni):
        r = rng.random()
        if r < zero:
            t = 0.0
        elif r < zero + thick:
            t = float(wl * rng.uniform(2, 6))
        else:
            t = float(wl * rng.uniform(0.02, 0.9))
        L = {"name": names[i + 1], "thickness": t}
        pat = rng.random() < 0.6 if patterned is None else rng.random() < patterned
        if pat:
            haspat = True
            L["eps"] = rand_pattern(rng, lossless, metal, kinds)
            if rng.random() < aniso and not (is1d and form != "original"):
                L["eps"]["aniso"] = rand_aniso(rng, lossless)
            if form != "original" and not is1d:
                tk = str(rng.choice(tangents))
                L["tangent"] = rand_tangent(rng) if tk == "user" else tk
                if form == "jones" and tk == "user" and L["tangent"]["kind"] == "complex":
                    L["tangent"]["kind"] = "angle"  # the Jones field is built from a real field
        else:
            L["eps"] = rand_eps(rng, str(rng.choice(mats)))
        if copies and i > 0 and rng.random() < copies:
            j = int(rng.integers(1, i + 1))
            if "copy_of" not in layers[j]:
                L = {"name": names[i + 1], "thickness": t if rng.random() < 0.5 else layers[j]["thickness"],
                     "eps": layers[j]["eps"], "copy_of": j}
                if "tangent" in layers[j]:
                    L["tangent"] = layers[j]["tangent"]
        layers.append(L)
    sub = rand_eps(rng, "lossy" if (not lossless and rng.random() < sub_lossy) else str(rng.choice(["one", "diel", "high"])))
    if metal and not lossless and rng.random() < 0.15:
        sub = rand_eps(rng, "metal")
    layers.append({"name": names[-1], "eps": sub, "thickness": float(wl * rng.uniform(0.1, 0.8)) if rng.random() < sup_thick else 0.0})
    spec = {"lattice": lat, "nh": n, "formulation": form, "wl": wl, "angles": rand_angles(rng), "layers": layers}
    spec["haspat"] = haspat
    return safe_wavelength(spec)


def near_rayleigh(spec, tol=8e-4):
    """An order of a uniform layer is close to grazing propagation."""
    b = spec["lattice"]["basis"]
    bm = np.array([[b, 0], [0, 1.0]]) if np.isscalar(b) else np.array(b)
    r = 2 * np.pi * np.linalg.inv(bm)
    rngs = range(-12, 13)
    G = np.array([(i, j) for i in rngs for j in ([0] if np.isscalar(b) else rngs)])
    if spec["lattice"].get("harmonics") is not None:
        G = np.array(spec["lattice"]["harmonics"]).T
    w = 2 * np.pi / spec["wl"]
    th, ph, _psi = np.deg2rad(spec["angles"])
    k0 = w * cplx(spec["layers"][0]["eps"]) ** 0.5 * np.sin(th) * np.array([np.cos(ph), np.sin(ph)])
    k2 = np.sum((k0 + G @ r.T) ** 2, axis=1)
    eps = [cplx(l["eps"]) for l in spec["layers"] if not isinstance(l["eps"], dict)]
    return any(np.min(np.abs(e * w * w - k2)) < tol * w * w for e in eps)


NEIGHBOURS = ["psi", "samekx", "samekx", "samek", "flip", "wl", "eps", "epsim", "thick", "swap", "nh", "disc", "scale", "sup", "sub", "rot"]


def neighbour(rng, spec, kinds=None):
    """A scenario that shares all of its parameters but one with `spec` (None if it cannot be made).

    What a process computed for one simulation must not leak in the next one.
    """
    new = copy.deepcopy(spec)
    inner = [j for j in range(1, len(spec["layers"]) - 1)]
    th, ph, ps = np.deg2rad(spec["angles"])
    for kind in rng.permutation(kinds or NEIGHBOURS):
        kind = str(kind)
        if kind == "psi":
            new["angles"][2] = float(spec["angles"][2] + rng.choice([90.0, 37.0, -60.0]))
        elif kind in ("samekx", "samek"):
            if kind == "samek":  # same modulus
                new["angles"][1] = float(spec["angles"][1] + rng.choice([90.0, 180.0, 60.0, 23.0]))
            else:  # same x or y component of the wavevector
                kx, ky = np.sin(th) * np.cos(ph), np.sin(th) * np.sin(ph)
                k2 = rng.choice([-1, 1]) * rng.uniform(0, 0.95)
                if rng.random() < 0.5:
                    kx = k2
                else:
                    ky = k2
                s = np.hypot(kx, ky)
                if s > 0.99:
                    continue
                new["angles"][0] = float(np.rad2deg(np.arcsin(s)))
                new["angles"][1] = float(np.rad2deg(np.arctan2(ky, kx)))
        elif kind == "flip":
            new["angles"][0] = -spec["angles"][0]
        elif kind == "wl":
            new["wl"] = float(spec["wl"] * rng.choice([2.0, 0.5, 1.25, 1.01]))
        elif kind in ("eps", "epsim", "swap", "thick"):
            un = [j for j in inner if not isinstance(spec["layers"][j]["eps"], dict)]
            if kind == "thick":
                if not inner:
                    continue
                j = int(rng.choice(inner))
                new["layers"][j]["thickness"] = float(spec["wl"] * rng.uniform(0.05, 1))
            elif kind == "swap":
                if len(inner) < 2 or any("copy_of" in l for l in spec["layers"]) or spec.get("maps"):
                    continue
                i, j = [int(v) for v in rng.permutation(inner)[:2]]
                new["layers"][i], new["layers"][j] = new["layers"][j], new["layers"][i]
            else:
                if not un or any("copy_of" in l for l in spec["layers"]):
                    continue
                j = int(rng.choice(un))
                e = spec["layers"][j]["eps"]
                if kind == "eps":
                    e = [e[0] + float(rng.choice([1.0, 0.5, 0.01])) * (1 if e[0] > 0 else -1), e[1]]
                else:
                    e = [e[0], e[1] + float(rng.choice([0.3, 2.0]))]
                new["layers"][j]["eps"] = e
        elif kind in ("sup", "sub"):
            j = 0 if kind == "sup" else -1
            e = spec["layers"][j]["eps"]
            if isinstance(e, dict) or e[0] < 0:
                continue
            new["layers"][j]["eps"] = [e[0] + float(rng.choice([1.0, 0.3])), e[1]]
        elif kind == "nh":
            if spec["lattice"].get("harmonics") is not None or spec["nh"] < 3 or spec["nh"] > 30:
                continue
            new["nh"] = int(spec["nh"] - rng.integers(1, 3))
        elif kind == "disc":
            d = list(spec["lattice"]["disc"])
            d[int(rng.integers(2))] += int(rng.integers(1, 4))
            if d == [3, 3]:
                continue
            new["lattice"]["disc"] = d
        elif kind == "scale":
            f = float(rng.choice([2.0, 0.5, 1.25]))
            b = spec["lattice"]["basis"]
            new["lattice"]["basis"] = b * f if np.isscalar(b) else (np.array(b) * f).tolist()
        elif kind == "rot":  # same lengths of the lattice vectors
            b = spec["lattice"]["basis"]
            if np.isscalar(b):
                continue
            c, s = np.cos(0.5), np.sin(0.5)
            new["lattice"]["basis"] = (np.array(b) @ np.array([[c, s], [-s, c]])).tolist()
        if new["lattice"].get("harmonics") is None and kind in ("scale", "rot", "disc", "nh"):
            mx = max_harmonic(new["lattice"], new["nh"])
            if min(new["lattice"]["disc"][: 1 if np.isscalar(new["lattice"]["basis"]) else 2]) < 2 * mx + 1:
                new = copy.deepcopy(spec)
                continue
        if near_rayleigh(new):
            new = copy.deepcopy(spec)
            continue
        new["neighbour"] = kind
        return new
    return None


# ------------------------------------------------------------------ construction


def shape_of(spec):
    d = spec["lattice"]["disc"]
    return (int(d[0]), 1) if np.isscalar(spec["lattice"]["basis"]) else (int(d[0]), int(d[1]))


def make_lattice(nn, lat):
    b = lat["basis"]
    kw = {}
    if lat.get("harmonics") is not None:
        kw["harmonics_array"] = nn.backend.array(np.array(lat["harmonics"]))
    if not np.isscalar(b):
        b = tuple(tuple(float(x) for x in v) for v in b)
    d = lat["disc"]
    return nn.Lattice(b, discretization=tuple(int(x) for x in d) if not np.isscalar(d) else d,
                      truncation=lat["trunc"], **kw)


def make_layer(nn, lat, L, spec, layers=None):
    shape = shape_of(spec)
    if "copy_of" in L and layers is not None:
        cp = layers[L["copy_of"]].copy(name=L["name"])
        cp.thickness = L["thickness"]
        return cp
    kw = {}
    t = L.get("tangent")
    if isinstance(t, dict):
        kw["tangent_field"] = nn.backend.array(tangent_array(t, shape))
    elif isinstance(t, str):
        kw["tangent_field_type"] = t
    if isinstance(L["eps"], dict):
        lay = lat.Layer(L["name"], thickness=L["thickness"], **kw)
        ctype = {} if spec.get("double_eps") else {"dtype": nn.get_types()[1]}
        eps = nn.backend.array(pattern_array(L["eps"], shape, spec["lattice"]["basis"]), **ctype)
        if spec.get("double_eps") == "init":
            lay = lat.Layer(L["name"], thickness=L["thickness"], epsilon=eps, **kw)
        else:
            lay.epsilon = eps
        return lay
    e = cplx(L["eps"])
    return lat.Layer(L["name"], thickness=L["thickness"], epsilon=e if e.imag or np.signbit(e.imag) else e.real, **kw)


def build_layers(nn, spec, lat=None):
    lat = lat or make_lattice(nn, spec["lattice"])
    layers = []
    for L in spec["layers"]:
        layers.append(make_layer(nn, lat, L, spec, layers))
    return lat, layers


def make_wave(nn, spec):
    return nn.PlaneWave(wavelength=spec["wl"], angles=tuple(spec["angles"]))


def build(nn, spec):
    lat, layers = build_layers(nn, spec)
    return nn.Simulation(layers, make_wave(nn, spec), nh=spec["nh"], formulation=spec["formulation"])


def describe(spec):
    """Coarse signature of a scenario."""
    b = spec["lattice"]["basis"]
    return [
        "1D" if np.isscalar(b) else "2D", spec["lattice"]["trunc"], spec["nh"], spec["formulation"],
        tuple(spec["lattice"]["disc"]) if not np.isscalar(spec["lattice"]["disc"]) else spec["lattice"]["disc"],
        len(spec["layers"]), round(spec["wl"], 3), [round(a) for a in spec["angles"]],
        [(l["eps"]["kind"] if isinstance(l["eps"], dict) else "u") for l in spec["layers"]],
    ]


__all__ = [k for k in dir() if not k.startswith("_")]
