"""Lamellar gratings, compared with the exact modal solution (no Fourier series)."""
import numpy as np

import nannos as nn

from .. import exact, gen
from ..common import Skip, rng_for, to_np

LEVEL = "exploration"
RULE = (
    "random stacks with one or two lamellar layers of two to four stripes (transparent, lossy and, with the fast "
    "converging formulations, metallic), uniform layers between them, any polarization and incidence, conical or not; "
    "on 1D lattices (original, tangent) and on 2D lattices of any shape with stripes along either lattice vector and the "
    "harmonics of that direction (original, tangent, jones, pol; tangent fields given or computed); the efficiencies of "
    "all propagating orders, and the absorption, are compared with exact lamellar modes matched to plane waves; "
    "non-trivial: some diffracted order differs from that of the averaged grating"
)
ASSUMPTIONS = [
    "the exact solution is matched with as many plane waves: its own uncertainty is measured with more of them",
    "tolerances are the convergence errors expected with the number of harmonics used",
]
MIN_EVENTS = {"1D original": 30, "1D tangent": 40, "2D original": 10, "2D tangent": 25, "2D pol": 10, "2D jones": 10}
KINDS = ["1D original"] * 3 + ["1D tangent"] * 4 + ["2D original"] + ["2D tangent"] * 3 + ["2D pol"] + ["2D jones"]
CASE_TIMEOUT = 120


def cases(tier, seed):
    n = 364 if tier == "quick" else 5000
    out = []
    for i in range(n):
        rng = rng_for(seed, "P30", i)
        kind = KINDS[i % len(KINDS)]
        s = {"kind": kind, "seed": int(rng.integers(2**31)), "formulation": kind.split()[1]}
        oned = kind.startswith("1D")
        b = float(np.exp(rng.uniform(-0.7, 0.7))) if oned else gen.rand_basis(rng)
        s["basis"] = b
        s["along"] = 0 if oned else int(rng.integers(2))  # stripes are invariant along the other vector
        d = b if oned else period(b, s["along"])[0]
        s["wl"] = float(d * np.exp(rng.uniform(np.log(0.7), np.log(3.0))))
        s["angles"] = gen.rand_angles(rng)
        s["angles"][0] = float(np.clip(s["angles"][0], -70, 70))
        s["sup"], s["sub"] = float(rng.choice([1.0, 1.0, rng.uniform(1, 3)])), float(rng.uniform(1, 6))
        fast = s["formulation"] != "original"
        s["N"] = int(rng.integers(1500, 4000)) if oned else int(rng.integers(800, 1600))
        s["nh"] = int(rng.integers(41, 91)) | 1 if fast else int(rng.integers(71, 122)) | 1
        if not oned:
            s["nh"] = int(rng.integers(31, 72)) | 1
        s["other"] = 1 if oned else s["nh"] + int(rng.integers(1, 6))
        s["tangent"] = "given" if oned or s["formulation"] in ("jones",) or rng.random() < 0.6 else "fft"
        s["layers"] = []
        for _ in range(int(rng.integers(1, 3))):
            if rng.random() < 0.25:
                s["layers"].append({"eps": gen.rand_eps(rng, "diel"), "t": float(s["wl"] * rng.uniform(0.05, 0.5))})
            k = int(rng.choice([2, 2, 3, 4]))
            cut = np.sort(rng.uniform(0, 1, k - 1)) if k > 2 else np.array([rng.uniform(0.2, 0.8)])
            cut = [0] + [int(v) for v in np.round((0.1 + 0.8 * cut) * s["N"])] + [s["N"]]
            w = np.diff(cut)
            if w.min() < 0.08 * s["N"]:
                cut = [0, int(0.43 * s["N"]), s["N"]]
            e = []
            for _ in cut[1:]:
                u = rng.random()
                if fast and u < 0.15 and s["formulation"] == "tangent":
                    e.append([float(rng.uniform(-25, -4)), float(rng.uniform(1.5, 4))])
                elif u < 0.35:
                    e.append([float(rng.uniform(1, 8)), float(rng.uniform(0, 2))])
                else:
                    e.append([float(rng.uniform(1, 7)), 0.0])
            s["layers"].append({"cut": cut, "eps": e, "t": float(s["wl"] * rng.uniform(0.05, 0.5))})
        out.append(s)
    return out


def period(b, along):
    """Period of stripes invariant along the other vector, and the direction of their normal."""
    g = 2 * np.pi * np.linalg.inv(np.array(b, dtype=float))[:, along]
    return 2 * np.pi / np.linalg.norm(g), g / np.linalg.norm(g)


def run_case(s, m):
    kind, form = s["kind"], s["formulation"]
    oned = kind.startswith("1D")
    N, M = s["N"], (s["nh"] - 1) // 2
    if oned:
        d, nrm = s["basis"], np.array([1.0, 0.0])
        lat = nn.Lattice(d, discretization=N)
        shape, h = (N, 1), None
    else:
        d, nrm = period(s["basis"], s["along"])
        i = np.arange(-M, M + 1)
        h = np.array([i, 0 * i] if s["along"] == 0 else [0 * i, i])
        shape = (N, s["other"]) if s["along"] == 0 else (s["other"], N)
        lat = nn.Lattice(tuple(tuple(v) for v in s["basis"]), discretization=shape, harmonics_array=h)
    m.note(kind, s["nh"], N, s["wl"], s["tangent"])
    layers = [lat.Layer("sup", epsilon=s["sup"])]
    stack = [(s["sup"], 0)]
    mean = [(s["sup"], 0)]
    for j, L in enumerate(s["layers"]):
        lay = lat.Layer(f"L{j}", thickness=L["t"])
        if "cut" not in L:
            lay.epsilon = gen.cplx(L["eps"])
            stack.append((gen.cplx(L["eps"]), L["t"]))
            mean.append(stack[-1])
        else:
            e = np.zeros(N, complex)
            ee = [gen.cplx(v) for v in L["eps"]]
            for a, b, v in zip(L["cut"][:-1], L["cut"][1:], ee):
                e[a:b] = v
            e = np.broadcast_to(e[:, None] if oned or s["along"] == 0 else e[None, :], shape).copy()
            lay.epsilon = e
            stack.append((([d * c / N for c in L["cut"]], ee), L["t"]))
            mean.append((complex(e.mean()), L["t"]))
            if not oned and form != "original" and s["tangent"] == "given":
                t = np.array([-nrm[1], nrm[0]])
                lay.tangent_field = np.array([np.full(shape, v) for v in t])
            elif not oned and form != "original":
                lay.tangent_field_type = "fft"
        layers.append(lay)
    layers.append(lat.Layer("sub", epsilon=s["sub"]))
    stack.append((s["sub"], 0))
    mean.append((s["sub"], 0))
    th, ph, ps = np.deg2rad(s["angles"])
    w = 2 * np.pi / s["wl"]
    k = s["sup"] ** 0.5 * w * np.sin(th) * np.array([np.cos(ph), np.sin(ph)])
    a = np.array([np.cos(ps) * np.cos(th) * np.cos(ph) - np.sin(ps) * np.sin(ph),
                  np.cos(ps) * np.cos(th) * np.sin(ph) + np.sin(ps) * np.cos(ph)])
    tau = np.array([-nrm[1], nrm[0]])

    def want(M, w=w, stack=stack):
        q = k * (w / (2 * np.pi / s["wl"]))
        n, R, T = exact.solve(stack, d, q @ nrm, q @ tau, w, M, (a @ nrm, a @ tau), p=16)
        c = M - 8
        return np.array([R, T])[:, c : c + 17]

    ky = k @ tau
    kn = k @ nrm + 2 * np.pi / d * np.arange(-30, 31)
    for e in (s["sup"], s["sub"]):
        if np.min(np.abs(np.sqrt(e) * w - np.hypot(kn, ky))) < 5e-3 * w:
            raise Skip("an order is at grazing")
    W = want(44)
    if not np.all(np.isfinite(W)):
        raise Skip("exact solution undefined")
    unc = np.abs(W - want(32)).max()
    # resonances: how far the result moves with a small change of the frequency
    sens = max(np.abs(want(32, w * (1 + x)) - want(32)).max() for x in (1e-3, -1e-3))
    if sens > 0.05 or unc > 0.01:
        raise Skip("too close to a resonance")
    pw = nn.PlaneWave(wavelength=s["wl"], angles=tuple(s["angles"]))
    sim = nn.Simulation(layers, pw, nh=s["nh"], formulation=form)
    R, T = (to_np(v) for v in sim.diffraction_efficiencies(orders=True))
    H = to_np(sim.harmonics).astype(int)
    idx = H[0] if oned or s["along"] == 0 else H[1]
    got = np.zeros((2, 17))
    for r, t, q in zip(R, T, idx):
        if abs(q) <= 8:
            got[:, q + 8] = r, t
    metal = any(v[0] < 0 for L in s["layers"] if "cut" in L for v in L["eps"])
    base = BASE[kind][1 if metal else 0]
    tol = base + 0.5 * sens + 5 * unc
    err = np.abs(got - W).max()
    who = kind + (" metal" if metal else "")
    m.margins[who] = max(m.margins.get(who, 0.0), float(err / tol))
    m.check(err <= tol, f"{kind}: efficiencies of the orders are those of the exact solution", got=got, want=W, tol=tol, error=err)
    absn = [1 - got.sum(), 1 - W.sum()]
    m.check(abs(absn[0] - absn[1]) <= 4 * tol, f"{kind}: absorption is that of the exact solution", got=absn[0], want=absn[1])
    avg = want(32, stack=mean)
    if np.abs(avg - W).max() > 2 * tol:
        m.nontrivial()
    return err, base, sens, unc, tol, metal


BASE = {  # transparent and lossy, metallic
    "1D original": (1e-2, 0),
    "1D tangent": (3e-4, 3e-2),
    "2D original": (1e-2, 0),
    "2D tangent": (3e-4, 5e-2),
    "2D pol": (3e-4, 0),
    "2D jones": (3e-4, 0),
}
