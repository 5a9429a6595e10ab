"""Lattice algebra, in every backend and precision."""
import numpy as np

import nannos as nn

from .. import gen
from ..common import rng_for, to_np, using

LEVEL = "exploration"
RULE = (
    "random lattices (1D, 2D, left handed, integer valued, tiny and huge, tuples/lists/arrays) in the five backends and "
    "both precisions; duality, area, grids, transform, uniform arrays; non-trivial: a 2D lattice that is not square"
)
MIN_EVENTS = {"duality": 500, "area": 500, "grid": 500, "uniform": 500, "layer": 500}
BACKENDS = ["numpy", "scipy", "autograd", "torch", "jax"]


def cases(tier, seed):
    n = 700 if tier == "quick" else 9000
    out = []
    for i in range(n):
        rng = rng_for(seed, "P09", i)
        oned = rng.random() < 0.2
        b = gen.rand_basis(rng)
        r = rng.random()
        if r < 0.2:
            b = [[int(rng.integers(1, 5)), int(rng.integers(0, 2))], [int(rng.integers(-2, 1)), int(rng.integers(1, 5))]]
        elif r < 0.3:
            b = (np.array(b) * 10 ** rng.uniform(-9, 9)).tolist()
        bk = BACKENDS[i % 4] if rng.random() < 0.9 else "jax"
        out.append({"backend": bk, "bits32": bool(rng.random() < 0.25),
                    "basis": b if not oned else float(rng.uniform(0.2, 5)),
                    "N": [int(rng.integers(2, 20)), int(rng.integers(2, 20))] if bk != "jax" else [[5, 5], [4, 7]][i % 2],
                    "intdisc": bool(rng.random() < 0.4), "seed": int(rng.integers(2**31)),
                    "as": str(rng.choice(["tuple", "list", "array", "mixed"]))})
    return out


def run_case(spec, m):
    with using(nn, spec["backend"], spec["bits32"]):
        body(spec, m)


def body(spec, m):
    rng = np.random.default_rng(spec["seed"])
    b = spec["basis"]
    oned = np.isscalar(b)
    M = np.array([[b, 0], [0, 1.0]]) if oned else np.array(b, float).T
    basis = b if oned else {"tuple": tuple(map(tuple, b)), "list": b, "array": np.array(b), "mixed": tuple(map(list, b))}[spec["as"]]
    if not oned and spec["as"] == "array" and spec["backend"] == "torch":
        basis = tuple(map(tuple, b))
    disc = spec["N"][0] if spec["intdisc"] else tuple(spec["N"])
    # numbers of numpy are numbers
    if oned and spec["seed"] % 3 == 0:
        basis = [np.float64, np.float32, np.int64][spec["seed"] % 5 % 3](max(1, b) if spec["seed"] % 5 % 3 == 2 else b)
        b = float(basis)
        M = np.array([[b, 0], [0, 1.0]])
    if spec["seed"] % 4 == 1:
        integer = [np.int64, np.int32, np.uint8][spec["seed"] % 3]
        disc = integer(disc) if spec["intdisc"] else tuple(integer(v) for v in disc)
    N = (spec["N"][0], 1) if oned else ((spec["N"][0],) * 2 if spec["intdisc"] else tuple(spec["N"]))
    tol = 2e-5 if spec["bits32"] else 1e-11
    cond = np.linalg.cond(M)
    lat = nn.Lattice(basis, discretization=disc)
    m.note(spec["backend"], spec["bits32"], oned, N, np.round(np.log10(abs(np.linalg.det(M))), 2))
    for rep in range(2):  # attributes do not depend on what was asked before
        A = to_np(lat.matrix)
        R = to_np(lat.reciprocal)
        m.close(A, M, tol, "matrix: columns are the lattice vectors", scale=np.abs(M).max())
        m.close(A.T @ R, 2 * np.pi * np.eye(2), tol * cond * 10, "duality: reciprocal vectors are dual to the lattice vectors")
        m.check(tuple(int(v) for v in lat.discretization) == N, "grid: discretization", got=str(lat.discretization))
        m.check(bool(lat.is_1D) == oned, "grid: is_1D")
        want = b if oned else abs(np.linalg.det(M))
        m.close(float(lat.area), want, tol * cond * 10, "area: area of the unit cell", scale=want)
        area2 = (2 * np.pi) ** 2 / abs(np.linalg.det(R))
        m.close(area2, want, tol * cond * 10, "area: area of the reciprocal cell", scale=want)
        u = to_np(lat.unit_grid)
        U = np.array(np.meshgrid(np.linspace(0, 1, N[0]), np.linspace(0, 1, N[1]), indexing="ij"))
        m.close(u, U, tol, "grid: unit grid")
        g = to_np(lat.grid)
        m.close(g, np.tensordot(M, U, (1, 0)), tol, "grid: real-space grid", scale=np.abs(M).max())
    P = rng.uniform(-1, 1, (2, 3, 4))
    dt = nn.backend.float32 if spec["bits32"] else nn.backend.float64
    t = to_np(lat.transform(nn.backend.array(P, dtype=dt)))
    m.close(t, np.tensordot(M, P, (1, 0)), tol, "grid: transform is the change of basis", scale=np.abs(M).max())
    one, zero = to_np(lat.ones()), to_np(lat.zeros())
    v = complex(rng.uniform(-5, 5), rng.uniform(-5, 5))
    c = to_np(lat.constant(v))
    ct = np.complex64 if spec["bits32"] else np.complex128
    for x, w in ((one, 1.0), (zero, 0.0), (c, v)):
        m.check(x.shape == N and np.iscomplexobj(x), "uniform: complex array of the shape of the discretization", shape=x.shape, dtype=str(x.dtype))
        m.check(x.dtype == ct, "uniform: precision", dtype=str(x.dtype))
        m.close(x, np.full(N, w), tol, "uniform: value")
    # arrays are new at each call
    if spec["backend"] != "jax":
        a = lat.ones()
        a[0, 0] = 7
        m.close(to_np(lat.ones()), np.ones(N), tol, "uniform: a new array at each call")
    lay = lat.Layer("x", thickness=0.3, epsilon=v)
    m.check(lay.lattice is lat and lay.name == "x" and lay.thickness == 0.3 and bool(lay.is_uniform), "layer: built on the lattice")
    m.close(to_np(lay.epsilon), v, tol, "layer: permittivity", scale=abs(v))
    if oned:
        for f in ("circle", "square", "rectangle", "ellipse", "polygon"):
            try:
                getattr(lat, f)((0, 0), 1)
                ok = False
            except ValueError:
                ok = True
            m.check(ok, "layer: 2D shapes are refused on a 1D lattice")
    elif np.linalg.norm(M[0, 1]) > 0 or N[0] != N[1]:
        m.nontrivial()
