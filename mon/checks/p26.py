"""Shapes drawn on the lattice, solved: compared with a solution from exact Fourier coefficients."""
import numpy as np
from scipy.special import j1

import nannos as nn

from .. import gen, ref
from ..common import Skip, rng_for, to_np

LEVEL = "exploration"
RULE = (
    "random structures drawn with the public geometry functions (circles, ellipses, squares, rectangles, polygons, rotated, "
    "several shapes per layer; stripes in 1D and 2D) on fine grids, on any lattice, lossless, lossy and metallic; the "
    "efficiencies of every order are compared with the independent solver fed with the analytic Fourier coefficients "
    "of the shapes (no sampling); low contrast structures also in every formulation; non-trivial: the shape changes "
    "an efficiency by more than the tolerance"
)
ASSUMPTIONS = [
    "sampling on N points per period displaces the boundaries by up to two pixels: the tolerance is the change of the "
    "reference when the shapes are stretched, shifted and sheared by that much",
]
MIN_EVENTS = {"shapes": 150, "stripes": 150, "axes": 40, "formulations": 30}
KINDS = ["shapes"] * 5 + ["stripes"] * 6 + ["axes"] * 2 + ["formulations"]


class Shape:
    """Fourier integral of the indicator function of a shape: F(k) = int exp(-i k.r) dr."""

    def __init__(self, kind, c, dims, ang):
        self.kind, self.c, self.dims, self.ang = kind, np.array(c, dtype=float), dims, ang
        self.A, self.t = np.eye(2), np.zeros(2)

    def poly(self):
        a = np.deg2rad(self.ang)
        R = np.array([[np.cos(a), -np.sin(a)], [np.sin(a), np.cos(a)]])
        if self.kind in ("rectangle", "square"):
            w = np.array(self.dims) / 2
            v = np.array([[-1, -1], [1, -1], [1, 1], [-1, 1]]) * w
        else:
            v = np.array(self.dims)
        return self.c + v @ R.T

    def F0(self, kx, ky):
        if self.kind in ("circle", "ellipse"):
            a = np.deg2rad(self.ang)
            u, v = kx * np.cos(a) + ky * np.sin(a), -kx * np.sin(a) + ky * np.cos(a)
            rx, ry = self.dims
            q = np.hypot(u * rx, v * ry)
            f = 2 * np.pi * rx * ry * np.where(q > 1e-12, j1(np.where(q > 1e-12, q, 1)) / np.where(q > 1e-12, q, 1), 0.5)
            return f * np.exp(-1j * (kx * self.c[0] + ky * self.c[1]))
        v = self.poly()
        e = np.roll(v, -1, axis=0) - v
        area = 0.5 * np.sum(v[:, 0] * np.roll(v, -1, axis=0)[:, 1] - v[:, 1] * np.roll(v, -1, axis=0)[:, 0])
        k2 = kx**2 + ky**2
        f = 0j
        for p, d in zip(v, e):
            mid = p + d / 2
            f = f + (kx * d[1] - ky * d[0]) * np.sinc((kx * d[0] + ky * d[1]) / 2 / np.pi) * np.exp(-1j * (kx * mid[0] + ky * mid[1]))
        f = np.where(k2 > 1e-18, 1j * f / np.where(k2 > 1e-18, k2, 1), area)
        return f * np.sign(area)

    def F(self, kx, ky):
        """of the shape mapped by r -> c + A (r - c) + t"""
        A = self.A
        qx, qy = A[0, 0] * kx + A[1, 0] * ky, A[0, 1] * kx + A[1, 1] * ky
        o = self.c - A @ self.c + self.t
        return abs(np.linalg.det(A)) * np.exp(-1j * (kx * o[0] + ky * o[1])) * self.F0(qx, qy)


class Stripe:
    def __init__(self, x, w, height):
        self.c, self.w, self.h = np.array([x, 0.0]), w, height
        self.A, self.t = np.eye(2), np.zeros(2)

    def F(self, kx, ky):
        w = self.w * self.A[0, 0]
        return np.where(np.abs(ky) < 1e-9, self.h * w * np.sinc(kx * w / 2 / np.pi) * np.exp(-1j * kx * (self.c[0] + self.t[0])), 0)


class Coefs:
    """Exact Fourier coefficients of a background with shapes."""

    def __init__(self, basis, bg, shapes):
        b = np.array([[basis, 0], [0, 1.0]]) if np.isscalar(basis) else np.array(basis, dtype=float)
        self.g, self.area = 2 * np.pi * np.linalg.inv(b), abs(np.linalg.det(b))
        self.bg, self.shapes = bg, shapes

    def _m(self, h, f):
        d = h[:, :, None] - h[:, None, :]
        u, inv = np.unique(d.reshape(2, -1), axis=1, return_inverse=True)
        k = self.g @ u
        c = f(self.bg) * ((u[0] == 0) & (u[1] == 0)).astype(complex)
        for s, e in self.shapes:
            c = c + (f(e) - f(self.bg)) * s.F(k[0], k[1]) / self.area
        return c[np.ravel(inv)].reshape(d.shape[1:])

    def matrix(self, h):
        return self._m(h, lambda e: e)

    def inverse(self, h):
        return self._m(h, lambda e: 1 / e)


def cases(tier, seed):
    n = 560 if tier == "quick" else 5000
    out = []
    for i in range(n):
        rng = rng_for(seed, "P26", i)
        kind = KINDS[i % len(KINDS)]
        oned = kind == "stripes"
        s = {"kind": kind, "seed": int(rng.integers(2**31))}
        if kind == "axes":
            s["basis"] = [[float(rng.uniform(0.5, 2)), 0.0], [0.0, float(rng.uniform(0.5, 2))]]
        else:
            s["basis"] = float(np.exp(rng.uniform(-0.7, 0.7))) if oned else gen.rand_basis(rng)
        s["nh"] = int(rng.integers(3, 40)) if oned else int(rng.integers(3, 30))
        if kind == "formulations":
            s["nh"] = 45
        s["N"] = int(rng.integers(600, 3000)) if oned else [int(v) for v in rng.integers(150, 300, 2)]
        if kind == "formulations":
            s["N"] = [int(v) for v in rng.integers(48, 72, 2)]
        s["formulation"] = str(rng.choice(["original", "tangent"])) if oned else "original"
        per = s["basis"] if oned else float(np.sqrt(abs(np.linalg.det(np.array(s["basis"])))))
        s["wl"] = float(per * np.exp(rng.uniform(np.log(0.6), np.log(3.0))))
        s["angles"] = gen.rand_angles(rng)
        s["angles"][0] = float(np.clip(s["angles"][0], -70, 70))
        s["eps"] = [float(rng.uniform(1, 4)) for _ in range(2)]
        s["thickness"] = [float(s["wl"] * rng.uniform(0.05, 0.6)) for _ in range(int(rng.integers(1, 3)))]
        metal = oned and s["formulation"] == "tangent" and rng.random() < 0.3
        s["mats"] = []
        for _ in s["thickness"]:
            bg = gen.rand_eps(rng, str(rng.choice(["one", "diel"])))
            low = kind == "formulations"
            m = [gen.rand_eps(rng, "metal" if metal and k == 0 else str(rng.choice(["diel", "lossy"]))) for k in range(2)]
            m = [[bg[0] + float(rng.uniform(0.5, 1.2)), 0.0] if low else e for e in m]
            m = [[e[0], max(e[1], 2.0)] if e[0] < 0 else e for e in m]
            s["mats"].append([bg] + m)
        spec = {"lattice": {"basis": s["basis"], "trunc": "circular", "harmonics": None}, "wl": s["wl"], "angles": s["angles"],
                "layers": [{"eps": [e, 0.0]} for e in s["eps"]]}
        spec = gen.safe_wavelength(spec, 5e-3)
        s["wl"], s["angles"] = spec["wl"], spec["angles"]
        out.append(s)
    return out


def room(basis):
    """Centre and radius of the largest disc in the cell."""
    b = np.array(basis, dtype=float)
    d = abs(np.linalg.det(b))
    return (b[0] + b[1]) / 2, d / max(np.linalg.norm(b[0]), np.linalg.norm(b[1])) / 2


def draw(rng, lat, basis, kind):
    """Shapes of one layer: list of (mask, description)."""
    if kind in ("stripes", "axes"):
        a = basis if np.isscalar(basis) else basis[0][0]
        h = 1.0 if np.isscalar(basis) else basis[1][1]
        if rng.random() < 0.5:
            w = a * rng.uniform(0.15, 0.7)
            x = rng.uniform(w / 2 + 0.03 * a, a - w / 2 - 0.03 * a)
            return [(lat.stripe(x, w), Stripe(x, w, h))]
        w = a * rng.uniform(0.1, 0.35, 2)
        x = [a * 0.25, a * 0.72]
        return [(lat.stripe(p, q), Stripe(p, q, h)) for p, q in zip(x, w)]
    c, r = room(basis)
    r *= 0.93
    ang = float(rng.choice([0.0, 0.0, 30.0, 45.0, -70.0, 111.0]))
    n = 1 if rng.random() < 0.6 else 2
    out = []
    a0 = rng.uniform(0, 2 * np.pi)
    for i in range(n):
        if n == 2:
            ci = c + (0.5 * r * np.array([np.cos(a0), np.sin(a0)])) * (1 - 2 * i)
            ri = 0.5 * r * rng.uniform(0.6, 0.98)
        else:
            off = rng.uniform(0, 0.4) * r
            ci, ri = c + off * np.array([np.cos(a0), np.sin(a0)]), (r - off) * rng.uniform(0.75, 1)
        k = str(rng.choice(["circle", "ellipse", "square", "rectangle", "polygon"]))
        if k == "circle":
            out.append((lat.circle(tuple(ci), ri), Shape(k, ci, (ri, ri), 0)))
        elif k == "ellipse":
            d = (ri, ri * rng.uniform(0.4, 0.9))[:: int(rng.choice([-1, 1]))]
            out.append((lat.ellipse(tuple(ci), d, rotate=ang), Shape(k, ci, d, ang)))
        elif k == "square":
            out.append((lat.square(tuple(ci), ri * 2**0.5, rotate=ang), Shape(k, ci, (ri * 2**0.5,) * 2, ang)))
        elif k == "rectangle":
            t = rng.uniform(0.4, 1.1)
            d = (2 * ri * np.cos(t), 2 * ri * np.sin(t))
            out.append((lat.rectangle(tuple(ci), d, rotate=ang), Shape(k, ci, d, ang)))
        else:
            q = int(rng.integers(3, 7))
            al = 2 * np.pi * (np.arange(q) + 0.4 * rng.random(q)) / q
            v = np.array([np.cos(al), np.sin(al)]).T * (ri * rng.uniform(0.6, 1, q))[:, None]
            out.append((lat.polygon([tuple(ci + p) for p in v]), Shape(k, ci, v, 0)))
    return out


def structure(spec):
    """Lattice, layers drawn with the public functions, and the description of the shapes."""
    rng = np.random.default_rng(spec["seed"])
    kind, basis = spec["kind"], spec["basis"]
    oned = np.isscalar(basis)
    lat = nn.Lattice(basis if oned else tuple(tuple(v) for v in basis), discretization=spec["N"] if oned else tuple(spec["N"]))
    layers, data = [lat.Layer("Superstrate", epsilon=spec["eps"][0])], []
    for i, t in enumerate(spec["thickness"]):
        bg, *mats = [gen.cplx(v) for v in spec["mats"][i]]
        eps = lat.ones() * bg
        sh = []
        for (mask, s), e in zip(draw(rng, lat, basis, kind), mats):
            eps[mask] = e
            sh.append((s, e))
        layers.append(lat.Layer(f"L{i}", thickness=t, epsilon=eps))
        data.append((bg, sh))
    layers.append(lat.Layer("Substrate", epsilon=spec["eps"][1]))
    return lat, layers, data


def run_case(spec, m):
    kind, basis = spec["kind"], spec["basis"]
    oned = np.isscalar(basis)
    m.note(kind, spec["N"], spec["nh"], spec["formulation"], spec["wl"])
    pw = nn.PlaneWave(wavelength=spec["wl"], angles=tuple(spec["angles"]))
    if kind == "formulations":
        return formulations(spec, m, pw)
    lat, layers, data = structure(spec)
    sim = nn.Simulation(layers, pw, nh=spec["nh"], formulation=spec["formulation"])
    got = np.array([to_np(v) for v in sim.diffraction_efficiencies(orders=True)])
    H = to_np(sim.harmonics)

    def solve(averaged=False):
        lay = [(spec["eps"][0], 0, None)]
        for (bg, sh), t in zip(data, spec["thickness"]):
            c = Coefs(basis, bg, sh)
            lay.append((c.matrix(np.zeros((2, 1), dtype=int))[0, 0] if averaged else c, t, None))
        lay.append((spec["eps"][1], 0, None))
        r = ref.Ref(basis, H, spec["wl"], spec["angles"], lay, spec["formulation"])
        if r.condition() > 1e7:
            raise Skip("ill conditioned")
        return np.array(r.efficiencies())

    want = solve()
    # sensitivity to displacements of the boundaries by a pixel
    B = np.array([[basis, 0], [0, 0.0]]) if oned else np.array(basis)
    N = np.array([spec["N"], 1e9]) if oned else np.array(spec["N"])
    pix = np.abs(B / N[:, None]).sum(axis=0)
    stripes = oned or kind == "axes"
    tol = np.zeros_like(want)
    for _, sh in data:
        for s, _ in sh:
            half = half_size(s)
            for j in range(1 if stripes else 2):
                for k in ("stretch", "shift") if stripes else ("stretch", "shift", "shear"):
                    if k == "stretch":
                        s.A[j, j] += pix[j] / half[j]
                    elif k == "shift":
                        s.t[j] = pix[j]
                    else:
                        s.A[j, 1 - j] += pix[j] / half[1 - j]
                    tol += np.abs(solve() - want)
                    s.A, s.t = np.eye(2), np.zeros(2)
    tol = 1.5 * tol + 0.5 * tol.max() + 1e-5
    if tol.max() > 0.05:
        raise Skip("too sensitive to the sampling")
    ratio = np.abs(got - want) / tol
    m.check(np.all(ratio <= 1), f"{kind}: efficiencies of the orders are those of the exact shapes", got=got, want=want, tol=tol,
         ratio=float(ratio.max()))
    if np.any(np.abs(solve(True) - want) > tol):
        m.nontrivial()
    return ratio.max(), tol.max()


def formulations(spec, m, pw):
    """Low contrast: all formulations have converged to the same solution."""
    res = {}
    for f in ("original", "tangent", "jones", "pol"):
        lat, layers, data = structure(spec)
        sim = nn.Simulation(layers, pw, nh=spec["nh"], formulation=f)
        R, T = sim.diffraction_efficiencies(orders=True)
        res[f] = np.array([to_np(R), to_np(T)])
    for f in ("tangent", "jones", "pol"):
        m.check(np.all(np.abs(res[f] - res["original"]) <= 0.08), f"formulations: {f} agrees with the original one at low contrast",
             got=res[f], want=res["original"])
    if np.any(res["original"][:, 1:] > 0.01):
        m.nontrivial()
    return max(float(np.abs(res[f] - res["original"]).max()) for f in res)


def half_size(s):
    if isinstance(s, Stripe):
        return np.array([s.w / 2, 1.0])
    if s.kind in ("circle", "ellipse"):
        a = np.deg2rad(s.ang)
        R = np.array([[np.cos(a), -np.sin(a)], [np.sin(a), np.cos(a)]])
        return np.hypot(R[:, 0] * s.dims[0], R[:, 1] * s.dims[1])
    v = s.poly() - s.c
    return np.abs(v).max(axis=0)
