"""Metamorphic oracle: physical symmetries relate pairs of simulations of the same code."""
import copy

import numpy as np

import nannos as nn

from .. import gen, ref
from ..common import rng_for, to_np

LEVEL = "exploration"
RULE = (
    "pairs of simulations related by an exact symmetry (scaling of lengths, scaling of permittivities, rotation, "
    "translation of the pattern, relabelling/reversal/shear of the unit cell, supercell, 1D against 2D, reordering of "
    "harmonics, equivalent angles, polarization superposition, reciprocity); non-trivial: at least one patterned layer"
)
ASSUMPTIONS = ["formulations 'original' and (with user tangent fields, transformed accordingly) 'tangent' and 'pol'"]
RELATIONS = [
    "scale", "epscale", "rotate", "translate", "transpose", "reverse", "shear", "supercell", "oned",
    "permute", "angles", "polarization", "reciprocity",
]
MIN_EVENTS = {k: 10 for k in RELATIONS}


def cases(tier, seed):
    n = 2000 if tier == "quick" else 16000
    out = []
    for i in range(n):
        rng = rng_for(seed, "P06", i)
        rel = RELATIONS[i % len(RELATIONS)]
        oned = rng.random() < 0.35
        if rel in ("transpose", "shear", "rotate"):
            oned = False
        if rel == "oned":
            oned = True
        form = ("original", "tangent") if oned else ("original", "original", "tangent", "pol")
        if rel == "reciprocity" and not oned:
            form = ("original",)
        if rel == "oned":
            form = ("original",)
        spec = gen.rand_stack(
            rng, nh=(2, 14) if i % 60 != 37 else (45, 80), oned=oned, formulations=form, n_inner=(1, 4), metal=True, aniso=0.0,
            harmonics=1.0 if rel in ("permute", "supercell", "shear", "oned") else 0.15 if rel != "reciprocity" else 0,
            patterned=0.8, tangents=("user",), copies=0.1, sub_lossy=0.0 if rel == "reciprocity" else 0.15,
        )
        if rel == "reciprocity":
            if gen.cplx(spec["layers"][-1]["eps"]).imag or spec["layers"][-1]["eps"][0] < 0:
                spec["layers"][-1]["eps"] = [1.7, 0.0]
            n0, n1 = spec["layers"][0]["eps"][0] ** 0.5, spec["layers"][-1]["eps"][0] ** 0.5
            if abs(n0 * np.sin(np.deg2rad(spec["angles"][0]))) > 0.97 * n1:
                spec["angles"][0] *= 0.3
            gen.safe_wavelength(spec)
        spec["rel"] = rel
        spec["seed"] = int(rng.integers(2**31))
        out.append(spec)
    return out


def solve(spec, arrays):
    """Builds a simulation with explicit permittivity and tangent arrays."""
    lat = gen.make_lattice(nn, spec["lattice"])
    layers = []
    for L, (e, t) in zip(spec["layers"], arrays):
        lay = lat.Layer(L["name"], thickness=L["thickness"], tangent_field=t)
        lay.epsilon = np.asarray(e, dtype=complex) if np.ndim(e) else complex(e)
        if not np.ndim(e):
            lay = lat.Layer(L["name"], thickness=L["thickness"], epsilon=complex(e))
        layers.append(lay)
    sim = nn.Simulation(layers, gen.make_wave(nn, spec), nh=spec["nh"], formulation=spec["formulation"])
    return sim


def orders(sim):
    R, T = [to_np(v) for v in sim.diffraction_efficiencies(orders=True)]
    r, t = [to_np(v) for v in sim.diffraction_efficiencies(orders=True, complex=True)]
    h = to_np(sim.harmonics).T
    return {(int(a), int(b)): (R[i], T[i], r[:, i], t[:, i]) for i, (a, b) in enumerate(h)}


def compare(m, rel, A, B, f, tol, ctol, cmap=None):
    m.check(set(f(g) for g in A) == set(B), f"{rel}: the same orders are kept", A=len(A), B=len(B))
    n = 0
    for g, (R, T, r, t) in A.items():
        if f(g) not in B:
            continue
        R2, T2, r2, t2 = B[f(g)]
        n += 1
        m.close([R2, T2], [R, T], tol, f"{rel}: efficiencies of the orders", order=list(g))
        if cmap is not None:
            ra, ta = cmap(g, r), cmap(g, t)
            m.close(r2, ra, ctol, f"{rel}: complex amplitudes of the orders", order=list(g))
            m.close(t2, ta, ctol, f"{rel}: complex amplitudes of the orders", order=list(g))
    return n


def run_case(spec, m):
    rel = spec["rel"]
    m.note(rel, *gen.describe(spec))
    rng = np.random.default_rng(spec["seed"])
    shape = gen.shape_of(spec)
    arrays = []
    for L in spec["layers"]:
        if isinstance(L["eps"], dict):
            t = L.get("tangent")
            arrays.append((gen.pattern_array(L["eps"], shape, None), gen.tangent_array(t, shape) if isinstance(t, dict) else None))
        else:
            arrays.append((gen.cplx(L["eps"]), None))
    base = {k: v for k, v in spec.items()}
    for L in base["layers"]:
        L.pop("copy_of", None)
    if not spec["haspat"]:
        spec["lattice"]["harmonics"] = None  # the supercell relations need them only for patterns
    simA = solve(base, arrays)
    A = orders(simA)
    a, b = ref.with_sensitivity(base, simA, gen)
    (Ra, Ta), (Rb, Tb) = a.efficiencies(), b.efficiencies()
    (ra, ta), (rb, tb) = a.complex_orders(), b.complex_orders()
    tol = 1e-8 + 1000 * max(np.max(abs(Ra - Rb)), np.max(abs(Ta - Tb)))
    ctol = 1e-7 + 1000 * max(np.max(abs(ra - rb)), np.max(abs(ta - tb)))
    if ctol > 1e-3:
        m.count("too sensitive")
        return
    oned = np.isscalar(spec["lattice"]["basis"])
    s = copy.deepcopy(base)
    arr = arrays
    bas = spec["lattice"]["basis"]

    if rel == "scale":
        c = float(rng.choice([1e-9, 1e-6, 1e-3, 0.37, 2.0, 1e3, 1e6, np.exp(rng.uniform(-5, 5))]))
        s["lattice"]["basis"] = bas * c if oned else (np.array(bas) * c).tolist()
        s["wl"] *= c
        for L in s["layers"]:
            L["thickness"] *= c
        compare(m, rel, A, orders(solve(s, arr)), lambda g: g, tol, ctol, lambda g, v: v)
    elif rel == "epscale":
        c = float(np.exp(rng.uniform(-0.5, 1.2)))
        arr = [(np.asarray(e) * c if np.ndim(e) else e * c, t) for e, t in arrays]
        s["wl"] *= c**0.5
        compare(m, rel, A, orders(solve(s, arr)), lambda g: g, tol, ctol)
    elif rel == "rotate":
        al = float(rng.choice([90, 180, 45, rng.uniform(0, 360)]))
        c, sn = np.cos(np.deg2rad(al)), np.sin(np.deg2rad(al))
        Q = np.array([[c, -sn], [sn, c]])
        s["lattice"]["basis"] = (np.array(bas) @ Q.T).tolist()
        s["angles"][1] += al
        arr = [(e, None if t is None else np.einsum("ab,bij->aij", Q, t)) for e, t in arrays]
        Q3 = np.eye(3)
        Q3[:2, :2] = Q
        compare(m, rel, A, orders(solve(s, arr)), lambda g: g, tol, ctol, lambda g, v: Q3 @ v)
    elif rel == "translate":
        i, j = int(rng.integers(shape[0])), int(rng.integers(shape[1]))
        arr = [(np.roll(e, (i, j), (-2, -1)) if np.ndim(e) else e, None if t is None else np.roll(t, (i, j), (-2, -1))) for e, t in arrays]
        compare(m, rel, A, orders(solve(s, arr)), lambda g: g, tol, ctol,
                lambda g, v: v * np.exp(-2j * np.pi * (g[0] * i / shape[0] + g[1] * j / shape[1])))
    elif rel == "transpose":
        s["lattice"]["basis"] = [bas[1], bas[0]]
        s["lattice"]["disc"] = [shape[1], shape[0]]
        if s["lattice"]["harmonics"] is not None:
            s["lattice"]["harmonics"] = s["lattice"]["harmonics"][::-1]
        arr = [(np.swapaxes(e, -1, -2) if np.ndim(e) else e, None if t is None else np.swapaxes(t, -1, -2)) for e, t in arrays]
        compare(m, rel, A, orders(solve(s, arr)), lambda g: (g[1], g[0]), tol, ctol, lambda g, v: v)
    elif rel == "reverse":
        if oned:
            # mirror x -> -x: reverse the pattern and the incidence; Ex changes sign
            fl = lambda x: np.roll(x[..., ::-1, :], 1, -2)
            arr = [(fl(e) if np.ndim(e) else e, None) for e, t in arrays]
            s["angles"][1] = 180 - s["angles"][1]
            s["angles"][2] = -s["angles"][2]
            if s["lattice"]["harmonics"] is not None:
                h = np.array(s["lattice"]["harmonics"])
                h[0] *= -1
                s["lattice"]["harmonics"] = h.tolist()
            D = np.diag([-1, 1, 1])
            compare(m, rel, A, orders(solve(s, arr)), lambda g: (-g[0], g[1]), tol, ctol, lambda g, v: D @ v)
        else:
            s["lattice"]["basis"] = [(-np.array(bas[0])).tolist(), bas[1]]
            fl = lambda x: np.roll(x[..., ::-1, :], 1, -2)
            arr = [(fl(e) if np.ndim(e) else e, None if t is None else fl(t)) for e, t in arrays]
            if s["lattice"]["harmonics"] is not None:
                h = np.array(s["lattice"]["harmonics"])
                h[0] *= -1
                s["lattice"]["harmonics"] = h.tolist()
            compare(m, rel, A, orders(solve(s, arr)), lambda g: (-g[0], g[1]), tol, ctol, lambda g, v: v)
    elif rel == "shear":
        # b2' = b2 + b1 on a square grid: pixel (i, j) -> (i - j, j)
        h = to_np(simA.harmonics)
        N = int(max(2 * 2 * np.max(abs(h)) + 1, 12))
        s["lattice"]["disc"] = [N, N]
        arr0, arr1 = [], []
        ii, jj = np.meshgrid(np.arange(N), np.arange(N), indexing="ij")
        for L in spec["layers"]:
            if isinstance(L["eps"], dict):
                e = gen.pattern_array(L["eps"], (N, N), None)
                t = L.get("tangent")
                t = gen.tangent_array(t, (N, N)) if isinstance(t, dict) else None
                arr0.append((e, t))
                sh = lambda x: x[..., (ii + jj) % N, jj]
                arr1.append((sh(e), None if t is None else sh(t)))
            else:
                arr0.append((gen.cplx(L["eps"]), None))
                arr1.append(arr0[-1])
        s["lattice"]["harmonics"] = h.tolist()
        s["nh"] = h.shape[1]
        A = orders(solve(s, arr0))
        s["lattice"]["basis"] = [bas[0], (np.array(bas[0]) + np.array(bas[1])).tolist()]
        s["lattice"]["harmonics"] = [h[0].tolist(), (h[0] + h[1]).tolist()]
        compare(m, rel, A, orders(solve(s, arr1)), lambda g: (g[0], g[0] + g[1]), max(tol, 1e-7), max(ctol, 1e-6), lambda g, v: v)
    elif rel == "supercell":
        c0, c1 = int(rng.integers(1, 4)), 1 if oned else int(rng.integers(1, 3))
        h = to_np(simA.harmonics)
        if oned:
            s["lattice"]["basis"] = bas * c0
        else:
            s["lattice"]["basis"] = [(np.array(bas[0]) * c0).tolist(), (np.array(bas[1]) * c1).tolist()]
        s["lattice"]["harmonics"] = [(h[0] * c0).tolist(), (h[1] * c1).tolist()]
        reps = (c0, c1)
        # every axis must satisfy the sampling criterion of the largest index
        mx = max(np.max(abs(h[0] * c0)), np.max(abs(h[1] * c1)))
        r0 = c0
        while shape[0] * r0 <= 2 * mx:
            r0 += c0
        r1 = c1
        while not oned and shape[1] * r1 <= 2 * mx:
            r1 += c1
        if (r0, r1) != reps:
            # refine by repetition of the supercell: c0 -> r0 periods
            c0, c1 = r0, r1
            if oned:
                s["lattice"]["basis"] = bas * c0
            else:
                s["lattice"]["basis"] = [(np.array(bas[0]) * c0).tolist(), (np.array(bas[1]) * c1).tolist()]
            s["lattice"]["harmonics"] = [(h[0] * c0).tolist(), (h[1] * c1).tolist()]
            mx = max(np.max(abs(h[0] * c0)), np.max(abs(h[1] * c1)))
            if shape[0] * c0 <= 2 * mx or (not oned and shape[1] * c1 <= 2 * mx):
                m.count("not representable")
                return
        s["lattice"]["disc"] = [shape[0] * c0, shape[1] * c1]
        tl = lambda x: np.tile(x, (1,) * (x.ndim - 2) + (c0, c1))
        arr = [(tl(e) if np.ndim(e) else e, None if t is None else tl(t)) for e, t in arrays]
        compare(m, rel, A, orders(solve(s, arr)), lambda g: (g[0] * c0, g[1] * c1), tol, ctol, lambda g, v: v)
    elif rel == "oned":
        h = to_np(simA.harmonics)
        Ny = int(2 * np.max(abs(h)) + 1 + rng.integers(0, 4))
        s["lattice"]["basis"] = [[bas, 0.0], [float(rng.uniform(-0.3, 0.3)) * 0, float(rng.uniform(0.3, 2))]]
        s["lattice"]["disc"] = [shape[0], Ny]
        if (shape[0], Ny) == (3, 3):
            Ny = 4
            s["lattice"]["disc"] = [3, 4]
        s["lattice"]["harmonics"] = h.tolist()
        arr = [(np.repeat(e, Ny, axis=-1) if np.ndim(e) else e, None) for e, t in arrays]
        compare(m, rel, A, orders(solve(s, arr)), lambda g: g, tol, ctol, lambda g, v: v)
    elif rel == "permute":
        h = np.array(s["lattice"]["harmonics"]) if s["lattice"]["harmonics"] is not None else to_np(simA.harmonics)
        p = rng.permutation(h.shape[1])
        s["lattice"]["harmonics"] = h[:, p].tolist()
        s["nh"] = int(rng.integers(2, 30))  # deduced from the array
        compare(m, rel, A, orders(solve(s, arr)), lambda g: g, tol, ctol, lambda g, v: v)
    elif rel == "angles":
        k = int(rng.integers(4))
        if k == 0:
            s["angles"] = [-s["angles"][0], s["angles"][1] + 180, s["angles"][2]]
            sg = -1
        elif k == 1:
            s["angles"][1] += 360.0 * float(rng.choice([-2, -1, 1, 2]))
            sg = 1
        elif k == 2:
            s["angles"][2] += 180.0
            sg = -1
        else:
            s["angles"][2] -= 360.0
            sg = 1
        compare(m, rel, A, orders(solve(s, arr)), lambda g: g, tol, ctol, lambda g, v: sg * v)
    elif rel == "polarization":
        ps = np.deg2rad(s["angles"][2])
        s["angles"][2] = 0.0
        P = orders(solve(s, arr))
        s["angles"][2] = 90.0
        Q = orders(solve(s, arr))
        for g in A:
            for k in (2, 3):
                m.close(A[g][k], np.cos(ps) * P[g][k] + np.sin(ps) * Q[g][k], ctol,
                        "polarization: the response is linear in the polarization", order=list(g))
    elif rel == "reciprocity":
        n0, n1 = gen.cplx(arrays[0][0]).real ** 0.5, gen.cplx(arrays[-1][0]).real ** 0.5
        th = np.deg2rad(s["angles"][0])
        ph = np.deg2rad(s["angles"][1])
        sn = n0 * np.sin(th) / n1
        if abs(sn) > 0.999:
            m.count("evanescent")
            return

        def jones(sp, ar, thi, tho, phi):
            """2x2 matrix (out s/p, in s/p) of the zeroth transmitted order."""
            J = np.zeros((2, 2), dtype=complex)
            sv = np.array([-np.sin(phi), np.cos(phi), 0])
            pv = np.array([np.cos(tho) * np.cos(phi), np.cos(tho) * np.sin(phi), -np.sin(tho)])
            for i, psi in enumerate((90.0, 0.0)):
                q = copy.deepcopy(sp)
                q["angles"][2] = psi
                t = orders(solve(q, ar))[(0, 0)][3]
                J[0, i], J[1, i] = t @ sv, t @ pv
                m.close(t, J[0, i] * sv + J[1, i] * pv, ctol, "reciprocity: transmitted order is transverse")
            return J

        tho = np.arcsin(sn)
        for L in s["layers"]:
            if L is s["layers"][0] or L is s["layers"][-1]:
                L["thickness"] = 0.0
        F = jones(s, arrays, th, tho, ph)
        q = copy.deepcopy(s)
        q["layers"] = q["layers"][::-1]
        q["angles"][0] = float(np.rad2deg(tho))
        q["angles"][1] += 180.0
        B = jones(q, arrays[::-1], tho, th, ph + np.pi)
        m.close(abs(B.T), abs(F), 10 * ctol, "reciprocity: transmission of the reversed stack")
        # signs: s and p channels
        m.close(B[0, 0], F[0, 0], 10 * ctol, "reciprocity: s to s transmission of the reversed stack")
        m.close(B[1, 1], F[1, 1], 10 * ctol, "reciprocity: p to p transmission of the reversed stack")
    if spec["haspat"]:
        m.nontrivial()
