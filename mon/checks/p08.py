"""Geometry masks: pointwise membership oracle in real space."""
import numpy as np
import shapely.geometry as sg

import nannos as nn

from .. import gen
from ..common import rng_for, to_np

LEVEL = "exploration"
RULE = (
    "random shapes (circles, ellipses, rectangles, squares, simple and concave polygons, polygons with holes, unions, "
    "stripes; rotated, tiny, huge, partly or fully outside of the cell) on random lattices (1D, square, oblique, left "
    "handed) and rectangular discretizations; non-trivial: some grid points inside and some outside"
)
ASSUMPTIONS = [
    "grid point (i, j) of the lattice is at the fractions i/(Nx-1), j/(Ny-1) of the lattice vectors, as lattice.grid says",
    "curved shapes are polygons with 64 sides: points between the polygon and the curve are not judged",
]
MIN_EVENTS = {"circle": 1000, "ellipse": 1000, "rectangle": 1000, "square": 1000, "polygon": 1000, "hole": 500, "multi": 500, "stripe": 500}
SHAPES = ["circle", "ellipse", "rectangle", "square", "polygon", "hole", "multi", "stripe", "algebra"]


def cases(tier, seed):
    n = 2500 if tier == "quick" else 40000
    out = []
    for i in range(n):
        rng = rng_for(seed, "P08", i)
        kind = SHAPES[i % len(SHAPES)]
        N = [int(rng.choice([2, 3, 4, 5, 7, 8, 16, 17, 24, 31, 33])) for _ in range(2)]
        if rng.random() < 0.15:
            N = [int(rng.integers(2, 12)), int(rng.integers(30, 70))][:: int(rng.choice([-1, 1]))]
        oned = kind == "stripe" and rng.random() < 0.5
        out.append({"kind": kind, "N": N, "basis": gen.rand_basis(rng) if not oned else float(rng.uniform(0.3, 3)),
                    "seed": int(rng.integers(2**31)), "snap": bool(rng.random() < 0.1)})
    return out


def rot(a):
    a = np.deg2rad(a)
    return np.array([[np.cos(a), -np.sin(a)], [np.sin(a), np.cos(a)]])


def pip(v, P):
    """Even-odd rule and distance to the boundary; P is (2, n)."""
    inside = np.zeros(P.shape[1], bool)
    dist = np.full(P.shape[1], np.inf)
    n = len(v)
    for k in range(n):
        a, b = v[k], v[(k + 1) % n]
        d = b - a
        w = P - a[:, None]
        if np.dot(d, d) > 0:
            t = np.clip((w[0] * d[0] + w[1] * d[1]) / np.dot(d, d), 0, 1)
            dist = np.minimum(dist, np.hypot(w[0] - t * d[0], w[1] - t * d[1]))
        cr = (a[1] > P[1]) != (b[1] > P[1])
        with np.errstate(all="ignore"):
            x = a[0] + (P[1] - a[1]) / (b[1] - a[1]) * (b[0] - a[0])
        inside ^= cr & (P[0] < x)
    return inside, dist


def rand_polygon(rng, c, size):
    n = int(rng.integers(3, 9))
    a = np.sort(rng.uniform(0, 2 * np.pi, n))
    while np.max(np.diff(np.append(a, a[0] + 2 * np.pi))) > 3.0:
        a = np.sort(rng.uniform(0, 2 * np.pi, n))
    r = size * rng.uniform(0.3, 1.2, n)
    v = np.array([c[0] + r * np.cos(a), c[1] + r * np.sin(a)]).T
    return v[:: int(rng.choice([-1, 1]))]


def run_case(spec, m):
    rng = np.random.default_rng(spec["seed"])
    kind, b = spec["kind"], spec["basis"]
    oned = np.isscalar(b)
    lat = nn.Lattice(b if oned else tuple(tuple(v) for v in b), discretization=spec["N"][0] if oned else tuple(spec["N"]))
    Nx, Ny = (spec["N"][0], 1) if oned else spec["N"]
    M = np.array([[b, 0], [0, 1.0]]) if oned else np.array(b).T
    u = np.linspace(0, 1, Nx)
    v = np.linspace(0, 1, Ny)
    U, V = np.meshgrid(u, v, indexing="ij")
    P = M @ np.array([U.ravel(), V.ravel()])
    size = np.sqrt(abs(np.linalg.det(M))) * float(np.exp(rng.uniform(np.log(0.05), np.log(1.2))))
    c = M @ rng.uniform(-0.2, 1.2, 2)
    if spec["snap"]:  # centred on a grid point
        c = P[:, int(rng.integers(P.shape[1]))].copy()
    ang = float(rng.choice([0, 30, 45, 90, -60, 10.5, 200])) if rng.random() < 0.6 else 0.0
    m.note(kind, Nx, Ny, np.round(c, 3), np.round(size, 3))
    tol = 1e-9 * (np.abs(M).sum() + size)
    cc = [tuple(c), list(c), np.array(c)][int(rng.integers(3))]

    def grid(x):
        x = to_np(x)
        m.check(x.shape == (Nx, Ny) and x.dtype == bool, f"{kind}: boolean mask of the shape of the discretization", shape=x.shape)
        return x.ravel()

    def judge(mask, inside, sure, what):
        sure = np.asarray(sure)
        m.count(kind, int(sure.sum()))
        bad = sure & (mask != inside)
        if bad.any():
            k = int(np.argmax(bad))
            m.fail(f"{kind}: {what}", point=P[:, k], index=[k // Ny, k % Ny], got=bool(mask[k]), n_bad=int(bad.sum()), of=int(sure.sum()))

    inside = np.zeros(P.shape[1], bool)
    if kind == "stripe":
        w = size
        mask = grid(lat.stripe(float(c[0]), w))
        d = np.abs(P[0] - c[0])
        inside = d <= w / 2
        judge(mask, inside, np.abs(d - w / 2) > tol, "mask is not the band |x - centre| <= width/2")
    elif kind == "circle":
        mask = grid(lat.circle(cc, size))
        d = np.hypot(*(P - c[:, None]))
        inside = d < size
        judge(mask, inside, (d < size * 0.9985) | (d > size + tol), "mask is not the disc")
    elif kind == "ellipse":
        r = np.array([size, size * rng.uniform(0.2, 3)])
        mask = grid(lat.ellipse(cc, tuple(r), rotate=ang))
        q = rot(-ang) @ (P - c[:, None])
        d = np.hypot(q[0] / r[0], q[1] / r[1])
        inside = d < 1
        judge(mask, inside, (d < 0.9985) | (d > 1 + 1e-7), "mask is not the rotated ellipse")
    elif kind in ("rectangle", "square"):
        w = np.array([size, size * rng.uniform(0.2, 3) if kind == "rectangle" else size])
        mask = grid(lat.rectangle(cc, tuple(w), rotate=ang) if kind == "rectangle" else lat.square(cc, size, rotate=ang))
        q = np.abs(rot(-ang) @ (P - c[:, None])) - w[:, None] / 2
        d = np.max(q, axis=0)
        inside = d < 0
        judge(mask, inside, np.abs(d) > tol, "mask is not the rotated rectangle")
    elif kind == "polygon":
        vert = rand_polygon(rng, c, size)
        mask = grid(lat.polygon([tuple(x) for x in vert] if rng.random() < 0.5 else vert))
        inside, d = pip(vert, P)
        judge(mask, inside, d > tol, "mask is not the interior of the polygon")
    elif kind == "hole":
        outer = rand_polygon(rng, c, size)
        inner = c + 0.25 * (outer - c)
        mask = grid(lat.geometry_mask(sg.Polygon(outer, [inner])))
        i1, d1 = pip(outer, P)
        i2, d2 = pip(inner, P)
        inside = i1 & ~i2
        judge(mask, inside, np.minimum(d1, d2) > tol, "mask is not the polygon without its hole")
    elif kind == "multi":
        p1 = rand_polygon(rng, c, 0.6 * size)
        c2 = M @ rng.uniform(0, 1, 2)
        p2 = rand_polygon(rng, c2, 0.6 * size)
        g = sg.Polygon(p1).union(sg.Polygon(p2))
        mask = grid(lat.geometry_mask(g))
        i1, d1 = pip(p1, P)
        i2, d2 = pip(p2, P)
        inside = i1 | i2
        judge(mask, inside, np.minimum(d1, d2) > tol, "mask is not the union of the polygons")
    else:
        # relations between the helpers, at every grid point
        w = (size, size * 1.5)
        vert = [(c[0] - w[0] / 2, c[1] - w[1] / 2), (c[0] + w[0] / 2, c[1] - w[1] / 2), (c[0] + w[0] / 2, c[1] + w[1] / 2), (c[0] - w[0] / 2, c[1] + w[1] / 2)]
        inside = grid(lat.rectangle(cc, w))
        m.check(np.array_equal(inside, grid(lat.polygon(vert))), "algebra: rectangle equals the polygon of its corners")
        m.check(np.array_equal(inside, grid(lat.geometry_mask(sg.Polygon(vert)))), "algebra: polygon equals the mask of its geometry")
        m.check(np.array_equal(inside, grid(lat.rectangle(cc, w))), "algebra: repeated calls agree")
        d = np.hypot(*(P - c[:, None]))
        a, bb = grid(lat.circle(cc, size)), grid(lat.ellipse(cc, (size, size)))
        m.check(np.array_equal(a, bb), "algebra: circle equals the ellipse with equal radii")
        a2 = grid(lat.circle(cc, 1.3 * size))
        m.check(not np.any(a & ~a2), "algebra: masks grow with the radius")
        s1 = grid(lat.square(cc, size, rotate=17.0))
        s2 = grid(lat.square(cc, size, rotate=107.0))
        q = np.max(np.abs(rot(-17.0) @ (P - c[:, None])), axis=0)
        sure = np.abs(q - size / 2) > tol
        m.check(np.array_equal(s1[sure], s2[sure]), "algebra: a square is invariant by a quarter turn")
    # the grid reported by the lattice is where the masks are evaluated
    g = to_np(lat.grid)
    m.close(g.reshape(2, -1), P, 1e-12, "grid: lattice.grid gives the positions", scale=np.abs(M).sum())
    if inside.any() and not inside.all():
        m.nontrivial()
