"""Maxwell stress tensor: reference, momentum balance with the diffracted orders, conservation laws."""
import numpy as np

import nannos as nn

from .. import gen, ref
from ..common import Skip, rng_for, to_np

LEVEL = "exploration"
RULE = (
    "random stacks as in P03 (isotropic, anisotropic, lossy, all formulations); stress queried in every layer at random "
    "depths, layer given by index, name or object; compared with the stress of reference fields (D from the constitutive "
    "relation of the formulation), with the momentum carried by the diffracted orders, and along z in lossless layers; "
    "non-trivial: at least one patterned layer"
)
ASSUMPTIONS = ["conservation along z inside patterned layers is judged for the formulations with a Hermitian discretization ('original', and 'tangent' in 1D)"]
MIN_EVENTS = {"reference": 500, "momentum": 300, "conserved": 300, "uniform": 200, "lateral": 30}


def cases(tier, seed):
    n = 2000 if tier == "quick" else 18000
    out = []
    for i in range(n):
        rng = rng_for(seed, "P20", i)
        oned = rng.random() < 0.4
        lossless = rng.random() < 0.55
        form = ("original", "tangent") if oned else ("original", "original", "tangent", "jones", "pol")
        spec = gen.rand_stack(
            rng, nh=(1, 16) if i % 60 != 37 else (45, 80), oned=oned, formulations=form, n_inner=(1, 3), lossless=lossless, metal=bool(not lossless and rng.random() < 0.3),
            aniso=0.3, harmonics=0.15, patterned=0.7, copies=0.2, sup_thick=0.5, sub_lossy=0.2,
            kinds=["stripesx"] if rng.random() < 0.15 else None,
        )
        spec["lossless"] = lossless
        spec["u"] = [float(v) for v in rng.random(2)]
        spec["ident"] = [str(rng.choice(["index", "name", "object", "last"])) for _ in spec["layers"]]
        out.append(spec)
    return out


def stress(f, d):
    """Tx, Ty, Tz from the (2, 3, n) harmonics of the fields and the in-plane D (2n)."""
    (ex, ey, ez), (hx, hy, hz) = f
    n = len(ex)
    dx, dy, dz = d[:n], d[n : 2 * n], d[2 * n :]
    return np.array([
        np.sum(ex * dz.conj() + hx * hz.conj()).real,
        np.sum(ey * dz.conj() + hy * hz.conj()).real,
        0.5 * np.sum(ez * dz.conj() + hz * hz.conj() - ex * dx.conj() - ey * dy.conj() - hx * hx.conj() - hy * hy.conj()).real,
    ])


def run_case(spec, m):
    m.note(*gen.describe(spec))
    sim = gen.build(nn, spec)
    ref.spy(sim)
    sim.solve()
    r, r2 = ref.with_sensitivity(spec, sim, gen)
    n = r.n

    def ask(j, z):
        how = spec["ident"][j]
        who = {"index": j, "name": spec["layers"][j]["name"], "object": sim.layers[j], "last": j - len(sim.layers)}[how]
        kw = {} if z == 0.0 and how == "index" else {"z": z}
        return np.array([float(to_np(v)) for v in sim.get_z_stress_tensor_integral(who, **kw)])

    def want(rr, j, z):
        f = rr.fields(j, z)
        L = rr.lay[j]
        et = np.hstack([f[0, 0], f[0, 1]])
        dt = L.eps * et if L.uniform else L.M @ et
        dz = (rr.ky * f[1, 0] - rr.kx * f[1, 1]) / rr.w
        dz = L.eps * f[0, 2] if L.uniform else L.ezz @ f[0, 2]
        return stress(f, np.hstack([dt, dz]))

    vals = []
    for j, L in enumerate(spec["layers"]):
        t = L["thickness"]
        zs = [0.0] + [u * t for u in spec["u"]] + ([t] if t else [])
        got = []
        for z in zs:
            a = ask(j, z)
            b, b2 = want(r, j, z), want(r2, j, z)
            mag = np.sum(np.abs(r.fields(j, z)) ** 2) * max(1.0, abs(r.lay[j].eps) if r.lay[j].uniform else 1.0) + 1.0
            tol = 1e-7 * max(1.0, r.condition() / 1e4) + 1e4 * float(np.max(np.abs(b - b2))) / mag
            if tol > 1e-3:
                raise Skip("ill conditioned")
            m.close(a, b, tol, "reference: stress tensor", scale=mag, layer=j, z=z)
            got.append((a, mag, tol))
        vals.append(got)
    # momentum carried by the orders
    R, T = [to_np(v) for v in sim.diffraction_efficiencies(orders=True)]
    inc = r.incident_flux()
    w = r.w
    sup = r.lay[0]
    p = T * inc
    esub = gen.cplx(spec["layers"][-1]["eps"])
    if esub.imag == 0 and esub.real > 0:
        q = r.lay[-1].q[:n]
        kz = np.where(np.abs(q.imag) > np.abs(q.real), 0, q.real)
        exp = -np.array([np.sum(r.kx * p), np.sum(r.ky * p), np.sum(kz * p)]) / w
        a, mag, tol = vals[-1][0]
        m.close(a, exp, 10 * tol, "momentum: stress in the substrate is the momentum of the transmitted orders", scale=mag)
    q = sup.q[:n]
    kz = np.where(np.abs(q.imag) > np.abs(q.real), 0, q.real)
    pr = R * inc
    exp = np.array([np.sum(r.kx * pr), np.sum(r.ky * pr), -np.sum(kz * pr)]) / w
    exp -= inc * np.array([r.kx[r.zero], r.ky[r.zero], kz[r.zero]]) / w
    a, mag, tol = vals[0][0]
    m.close(a, exp, 10 * tol, "momentum: stress in the superstrate is the momentum of the incident and reflected orders", scale=mag)
    # conservation along z
    herm = spec["formulation"] == "original" or (r.is1d and spec["formulation"] == "tangent")
    invy = r.is1d
    for j, L in enumerate(spec["layers"]):
        e = L["eps"]
        uni = not isinstance(e, dict)
        lossless = gen.cplx(e).imag == 0 if uni else spec["lossless"]
        if not lossless:
            continue
        first = vals[j][0]
        for a, mag, tol in vals[j][1:]:
            s = max(mag, first[1])
            tt = 10 * max(tol, first[2])
            if uni:
                m.close(a, first[0], tt, "uniform: stress is constant in a lossless uniform layer", scale=s, layer=j)
            elif herm:
                m.close(a[2], first[0][2], tt, "conserved: Tz is constant in a lossless layer", scale=s, layer=j)
                if invy and not e.get("aniso"):
                    m.close(a[1], first[0][1], tt, "lateral: Ty is constant in layers invariant along y", scale=s, layer=j)
    if spec["haspat"]:
        m.nontrivial()
