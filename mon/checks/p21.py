"""Tangent and Jones fields: geometric oracle in Cartesian coordinates, symmetries, formulas, convergence."""
import numpy as np

import nannos as nn

from .. import gen, ref
from ..common import Skip, rng_for, to_np, using

LEVEL = "exploration"
RULE = (
    "random patterned layers (circles, ellipses, rotated rectangles, stripes, smooth maps, several inclusions; rectangular "
    "grids, rectangular and oblique lattices, anisotropic) whose computed tangent fields (fft and opt) are compared with "
    "the direction of the interfaces in real space, transformed, rescaled and turned into Jones fields; simulations with "
    "the four formulations; non-trivial: a boundary was observed by the geometric oracle"
)
ASSUMPTIONS = [
    "alignment is judged on average over the pixels close to the interfaces (the fields are smoothed), with a margin of 1.6 over the worst value seen on 600 cases",
]
MIN_EVENTS = {"aligned": 100, "norm": 200, "transpose": 50, "scaling": 100, "user": 50, "jones": 200, "type": 50, "converge": 12}
CASE_TIMEOUT = 200
KINDS = ["circle", "ellipse", "rect", "smooth", "stripesx", "stripesy", "multi"]


def cases(tier, seed):
    n = 420 if tier == "quick" else 6000
    out = []
    for i in range(n):
        rng = rng_for(seed, "P21", i)
        kind = str(rng.choice(KINDS))
        what = "field" if i % 14 else "converge"
        basis = gen.rand_basis(rng, str(rng.choice(["square", "rect", "oblique", "hex"])), float(rng.uniform(0.5, 3)))
        out.append({
            "what": what, "kind": kind, "basis": basis, "N": [int(v) for v in rng.integers(40, 80, 2)], "type": str(rng.choice(["fft", "opt"])),
            "hi": float(rng.uniform(3, 9)), "im": float(rng.choice([0, 0, 0, 0.2])), "phase": float(rng.choice([np.pi / 2, np.pi, -np.pi / 2, rng.uniform(-3, 3)])) if i % 4 == 1 else 0.0, "aniso": bool(rng.random() < 0.2), "inv": bool(rng.random() < 0.4),
            "seed": int(rng.integers(2**31)), "backend": str(rng.choice(["numpy", "numpy", "scipy", "autograd", "torch"])),
            "nh": int(rng.integers(40, 80)),
        })
    return out


def geometry(spec):
    """Indicator function in fractions of the cell, and the unit tangent (Cartesian) where the boundary passes."""
    rng = np.random.default_rng(spec["seed"])
    N = spec["N"]
    a = np.array(spec["basis"], dtype=float)
    u, v = np.meshgrid(np.arange(N[0]) / N[0], np.arange(N[1]) / N[1], indexing="ij")
    c = rng.uniform(0.45, 0.55, 2)
    r = rng.uniform(0.17, 0.33, 2)
    kind = spec["kind"]
    if kind == "smooth":
        f = (1 + np.cos(2 * np.pi * (u - c[0])) * np.cos(2 * np.pi * (v - c[1]))) / 2
    elif kind == "stripesx":
        f = (abs(u - c[0]) < r[0]) * 1.0
    elif kind == "stripesy":
        f = (abs(v - c[1]) < r[0]) * 1.0
    elif kind == "multi":
        f = (((u - 0.25) ** 2 + (v - 0.27) ** 2 < 0.15**2) | ((u - 0.7) ** 2 + (v - 0.72) ** 2 < 0.2**2)) * 1.0
    elif kind == "rect":
        f = ((abs(u - c[0]) < r[0]) & (abs(v - c[1]) < r[1])) * 1.0
    else:
        x = (u - c[0]) * a[0, 0] + (v - c[1]) * a[1, 0]
        y = (u - c[0]) * a[0, 1] + (v - c[1]) * a[1, 1]
        size = abs(np.linalg.det(a)) / max(np.linalg.norm(a[0]), np.linalg.norm(a[1]))
        R = size * rng.uniform(0.22, 0.36)
        s = 1.0 if kind == "circle" else rng.uniform(0.7, 1.3)
        f = (x**2 + (s * y) ** 2 < R**2) * 1.0
    # direction of the boundary: gradient of the smoothed indicator (periodic), in Cartesian coordinates
    k = np.exp(-0.5 * (np.minimum(np.arange(N[0]), N[0] - np.arange(N[0])) / 2.0) ** 2)[:, None] * np.exp(
        -0.5 * (np.minimum(np.arange(N[1]), N[1] - np.arange(N[1])) / 2.0) ** 2)[None]
    fs = np.fft.ifft2(np.fft.fft2(f) * np.fft.fft2(k / k.sum())).real
    g = np.array([(np.roll(fs, -1, i) - np.roll(fs, 1, i)) * N[i] / 2 for i in range(2)])
    gc = np.einsum("ik,kxy->ixy", np.linalg.inv(a), g)  # gradient in Cartesian coordinates
    return f, gc


def material(spec, f):
    lo, hi = 1.0, spec["hi"] + 1j * spec["im"]
    if spec.get("phase"):
        # contrast of any phase: absorbing or negative, also of the same modulus
        ph = np.exp(1j * spec["phase"])
        lo, hi = (4.0, 4.0 * ph) if spec["seed"] % 2 else (2.25, 2.25 + spec["hi"] * ph)
    e = lo + (hi - lo) * (1 - f if spec["inv"] else f)
    if not spec["aniso"]:
        return e.astype(complex)
    out = np.zeros((3, 3) + f.shape, dtype=complex)
    out[0, 0], out[1, 1], out[2, 2] = e * 1.3, e * 0.8, e
    out[0, 1] = out[1, 0] = 0.1 * f
    return out


def layer(nnb, lat, eps, t="opt", **kw):
    lay = lat.Layer("g", thickness=0.2, tangent_field_type=t, **kw)
    lay.epsilon = nnb.backend.array(eps, dtype=nnb.get_types()[1])
    return lay


def field(lay, h, normalize, **kw):
    t = lay.get_tangent_field(h, normalize=normalize, **kw)
    return np.array([to_np(x) for x in t])


def run_case(spec, m):
    with using(nn, spec["backend"]):
        if spec["what"] == "field":
            _field(spec, m)
        else:
            _converge(spec, m)


def aligned(a, b):
    """The same field with the sign of b (the overall sign means nothing)."""
    return a if np.shape(a) != np.shape(b) or np.sum(a * b) >= 0 else -a


THRESHOLD = {"fft": 0.26, "opt": 0.24}


def _field(spec, m):
    rng = np.random.default_rng(spec["seed"] + 1)
    f, gc = geometry(spec)
    eps = material(spec, f)
    N = tuple(spec["N"])
    ty = spec["type"]
    m.note(spec["kind"], ty, spec["backend"], N, spec["aniso"], spec["inv"], np.round(spec["basis"], 3).tolist())
    lat = nn.Lattice(tuple(map(tuple, spec["basis"])), N)
    h, _ = lat.get_harmonics(spec["nh"], sort=True)
    lay = layer(nn, lat, eps, ty)
    before = to_np(lay.epsilon).copy()
    tn = field(lay, h, True)
    t = field(lay, h, False)
    m.check(np.array_equal(before, to_np(lay.epsilon)), "permittivity changed by the tangent field")
    for q, name in ((tn, "normalized"), (t, "tangent field")):
        m.check(q.shape == (2,) + N, f"{name}: shape", got=q.shape)
        m.check(np.isrealobj(q) and np.all(np.isfinite(q)), f"{name}: real and finite", key="finite")
    if tn.shape != (2,) + N or t.shape != (2,) + N:
        return
    # the optimized field is regularized: sqrt(eps + |v|^2), with |v| > 1e-6
    m.close(np.hypot(*tn), np.ones(N), 1e-6 if ty == "fft" else 2e-4, "norm: normalized field", event="norm")
    m.close(np.hypot(*t).max(), 1.0, 1e-6, "norm: largest vector", event="norm")
    # same direction
    big = np.hypot(*t) > 1e-3
    m.close((tn * np.hypot(*t))[:, big], t[:, big], 1e-5, "direction: normalized against not", event="norm")
    # tangent to the interfaces
    gn = np.hypot(*gc)
    sel = gn > 0.4 * gn.max()
    for q, name in ((tn, "normalized"), (t, "not normalized")):
        al = abs(q[0] * gc[0] + q[1] * gc[1])[sel] / (np.hypot(*q)[sel] * gn[sel] + 1e-300)
        mean = float(al.mean())
        m.margins[f"aligned {ty}"] = max(m.margins.get(f"aligned {ty}", 0), mean / THRESHOLD[ty])
        m.check(mean < THRESHOLD[ty], f"aligned: {name} {ty} field is not tangent to the interfaces", key="aligned", event="aligned",
                mean=mean, kind=spec["kind"])
    # large close to the interfaces
    m.check(np.hypot(*t)[sel].mean() > 0.3, "magnitude: small at the interfaces", event="aligned", got=float(np.hypot(*t)[sel].mean()))
    m.nontrivial()
    # explicit type, whatever the layer says
    other = "opt" if ty == "fft" else "fft"
    lay2 = layer(nn, lat, eps, other)
    m.close(field(lay2, h, False, type=ty), t, 1e-9, "type: argument overrides the layer", event="type")
    m.close(field(lay2, h, False), field(lay, h, False, type=other), 1e-9, "type: of the layer", event="type")
    # transposition of the cell (exchange of the two lattice vectors): same field in Cartesian coordinates, reversed or not
    latT = nn.Lattice((tuple(spec["basis"][1]), tuple(spec["basis"][0])), N[::-1])
    hT = h[[1, 0]] if not hasattr(h, "detach") else h.flip(0)
    layT = layer(nn, latT, np.swapaxes(eps, -1, -2).copy(), ty)
    tT = np.swapaxes(field(layT, hT, False), -1, -2)
    m.close(aligned(-tT, t), t, 1e-5 if ty == "fft" else 1e-4, "transpose: same field up to its sign", event="transpose")
    # scaling of the permittivity, of the lattice
    s = float(rng.uniform(0.3, 4))
    m.close(aligned(field(layer(nn, lat, s * eps, ty), h, False), t), t, 1e-5 if ty == "fft" else 1e-3, "scaling: of the permittivity", event="scaling")
    latS = nn.Lattice(tuple(tuple(s * np.array(b)) for b in spec["basis"]), N)
    m.close(aligned(field(layer(nn, latS, eps, ty), h, False), t), t, 1e-6, "scaling: of the lattice", event="scaling")
    # rotation of the lattice rotates the vectors
    a = float(rng.uniform(0, 2 * np.pi))
    R = np.array([[np.cos(a), -np.sin(a)], [np.sin(a), np.cos(a)]])
    latR = nn.Lattice(tuple(tuple(R @ np.array(b)) for b in spec["basis"]), N)
    if not spec["aniso"]:
        Rt = np.einsum("ij,jxy->ixy", R, t)
        m.close(aligned(field(layer(nn, latR, eps, ty), h, False), Rt), Rt, 1e-6, "rotation: vectors rotate with the lattice", event="scaling")
    # a copy, the same call again, and a change of material
    m.close(field(lay.copy(), h, False), t, 1e-9, "copy", event="type")
    lay.epsilon = nn.backend.array(eps[..., ::-1, :].copy(), dtype=nn.get_types()[1])
    m.close(field(lay, h, False), field(layer(nn, lat, eps[..., ::-1, :].copy(), ty), h, False), 1e-9, "type: after a change of permittivity", event="type")
    # given by the user
    ang = rng.uniform(0, 2 * np.pi, N)
    tu = np.array([np.cos(ang), np.sin(ang)]) * rng.uniform(0.1, 2)
    layu = layer(nn, lat, eps, ty, tangent_field=nn.backend.array(tu))
    for nz in (True, False):
        m.close(field(layu, h, nz), tu, 0, "user: field given by the user", event="user")
    layun = lat.Layer("u", thickness=0.3, epsilon=2.0)
    m.check(layun.get_tangent_field(h) is None and layun.get_jones_field([1, 0]) is None, "user: uniform layer has no field", event="user")
    try:
        lay.get_tangent_field(h, type="nonsense")
        m.check(False, "type: unknown type accepted", event="type")
    except ValueError:
        m.check(True, "type: unknown type accepted", event="type")
    # Jones fields: formula, unit vectors, polarization state
    scale = rng.random(N)
    tj = tu / np.hypot(*tu) * scale
    for q in (t, tj, tu / np.hypot(*tu)):
        J = np.array([to_np(x) for x in lay.get_jones_field(nn.backend.array(q))])
        ok = np.hypot(*q) > 1e-6
        m.close(J[:, ok], ref.jones_from_tangent(q)[:, ok], 1e-8, "jones: formula", event="jones")
        m.close((abs(J[0]) ** 2 + abs(J[1]) ** 2)[ok], np.ones(ok.sum()), 1e-6, "jones: unit vectors", event="jones")
        # major axis of the polarization ellipse along t; axis ratio set by |t|: linear for 1, circular for 0
        n = np.hypot(*q)
        S3 = 2 * np.imag(np.conj(J[0]) * J[1])
        m.close(abs(S3)[ok], abs(np.sin(np.pi / 4 * (1 + np.cos(np.pi * n)))[ok]), 1e-6, "jones: ellipticity", event="jones")
        Jt = abs(J[0] * q[0] + J[1] * q[1]) ** 2
        Jn = abs(J[0] * q[1] - J[1] * q[0]) ** 2
        m.check(np.all(Jt[ok] >= Jn[ok] - 1e-6), "jones: major axis along the tangent", event="jones")


def _converge(spec, m):
    """All formulations tend to the same answer: with enough harmonics they agree within the truncation error."""
    if spec["kind"] == "smooth":
        raise Skip("no discontinuity")
    f, _ = geometry(spec)
    hi = min(spec["hi"], 5.0)
    eps = (1 + (hi - 1) * (1 - f if spec["inv"] else f)).astype(complex)
    if spec["aniso"]:
        e = np.zeros((3, 3) + f.shape, dtype=complex)
        e[0, 0] = e[1, 1] = e[2, 2] = eps
        eps = e
    N = tuple(spec["N"])
    rng = np.random.default_rng(spec["seed"] + 2)
    b = np.array(spec["basis"]) / np.sqrt(abs(np.linalg.det(spec["basis"])))
    wl = float(rng.uniform(1.6, 2.2))
    ang = (float(rng.uniform(0, 40)), float(rng.uniform(0, 360)), float(rng.uniform(0, 90)))
    th = float(rng.uniform(0.1, 0.3))
    m.note(spec["kind"], spec["type"], spec["backend"], N, np.round(b, 3).tolist(), round(wl, 3))
    res = {}
    spread = []
    for nh in (25, 75):
        for form in ("original", "tangent", "jones", "pol"):
            lat = nn.Lattice(tuple(map(tuple, b)), N)
            lay = lat.Layer("g", thickness=th, tangent_field_type=spec["type"])
            lay.epsilon = nn.backend.array(eps, dtype=nn.get_types()[1])
            sim = nn.Simulation([lat.Layer("sup"), lay, lat.Layer("sub", epsilon=2.25)], nn.PlaneWave(wavelength=wl, angles=ang), nh=nh, formulation=form)
            res[form] = float(to_np(sim.diffraction_efficiencies()[0]))
        v = np.array(list(res.values()))
        spread.append(float(v.max() - v.min()))
    m.nontrivial()
    m.margins["converge"] = max(m.margins.get("converge", 0), spread[1] / 0.05)
    m.check(spread[1] < 0.05, "converge: formulations do not tend to the same answer", event="converge", key="converge", spread=spread, res=res)
