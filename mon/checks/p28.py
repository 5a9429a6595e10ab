"""Plots: what is handed over to matplotlib and pyvista is the structure, at the right place."""
import numpy as np

import nannos as nn

from .. import gen
from ..common import Skip, rng_for, to_np, using

LEVEL = "exploration"
RULE = (
    "random lattices (1D, rectangular, oblique, left handed), grids (square or not) and layers drawn with random numbers "
    "of periods; the meshes given to matplotlib / a recording plotter are compared point by point with the permittivity "
    "at their position; non-trivial: a patterned layer"
)
ASSUMPTIONS = ["drawing itself (rasterization) is not observed, only the geometry, values and colours handed over"]
MIN_EVENTS = {"tiles": 300, "position": 300, "values": 300, "limits": 100, "structure": 500, "colours": 20}
CASE_TIMEOUT = 120


def cases(tier, seed):
    n = 500 if tier == "quick" else 6000
    out = []
    for i in range(n):
        rng = rng_for(seed, "P28", i)
        oned = rng.random() < 0.2
        out.append({
            "what": "layer" if i % 2 else "structure", "basis": float(rng.uniform(0.5, 2)) if oned else gen.rand_basis(rng),
            "N": [int(v) for v in rng.integers(4, 15, 2)], "nper": [int(v) for v in rng.integers(1, 4, 2)], "same": bool(rng.random() < 0.4),
            "comp": str(rng.choice(["re", "re", "im"])), "cell": bool(rng.random() < 0.4), "ax": bool(rng.random() < 0.7), "seed": int(rng.integers(2**31)),
            "backend": str(rng.choice(["numpy", "numpy", "scipy", "autograd"])), "dz": float(rng.choice([0, 0, 0.3])),
            "null": float(rng.choice([0, 0, 0.7])), "nlay": int(rng.integers(1, 4)), "colors": bool(rng.random() < 0.4),
        })
    return out


def run_case(spec, m):
    with using(nn, spec["backend"]):
        (_layer if spec["what"] == "layer" else _structure)(spec, m)


def pattern(rng, lat, one=True):
    vals = rng.choice([1.0, 2.0, 3.5, 6.0, -4.0], 3, replace=False) + 1j * rng.choice([0, 0, 0.3], 3)
    shape = lat.discretization
    e = vals[rng.integers(0, 3, shape)]
    e[0, 0], e[-1, -1] = vals[0], vals[1]
    return e


def _layer(spec, m):
    import matplotlib.pyplot as plt

    rng = np.random.default_rng(spec["seed"])
    b = spec["basis"]
    if np.isscalar(b):
        raise Skip("2D plots of 2D layers")
    lat = nn.Lattice(tuple(map(tuple, b)), tuple(spec["N"]))
    e = pattern(rng, lat)
    lay = lat.Layer("g", thickness=0.2)
    lay.epsilon = nn.backend.array(e)
    nper = spec["nper"] if not spec["same"] else [spec["nper"][0]] * 2
    m.note(np.round(b, 3).tolist(), spec["N"], nper, spec["comp"], spec["cell"], spec["backend"])
    fig, ax = plt.subplots()
    try:
        kw = {"ax": ax} if spec["ax"] else {}
        if not spec["ax"]:
            plt.sca(ax)
        ims = lay.plot(nper=nper[0] if spec["same"] else nper, comp=spec["comp"], show_cell=spec["cell"], **kw)
        m.nontrivial()
        m.check(len(ims) == nper[0] * nper[1], "tiles: one per cell", event="tiles", got=len(ims))
        m.check(all(im.axes is ax for im in ims), "tiles: drawn on the axes asked", event="tiles")
        a = np.array(b, dtype=float)
        size = np.abs(a).max()
        g = np.einsum("ki,kxy->ixy", a, np.stack(np.meshgrid(*[np.linspace(0, 1, k) for k in lat.discretization], indexing="ij")))
        where = []
        for im in ims:
            c = np.asarray(im.get_coordinates(), dtype=float)
            mid = (c[:-1, :-1] + c[1:, :-1] + c[:-1, 1:] + c[1:, 1:]) / 4
            T = im.get_transform() + ax.transData.inverted()
            p = T.transform(mid.reshape(-1, 2)).reshape(mid.shape)
            v = np.asarray(im.get_array()).reshape(mid.shape[:2])
            m.check(np.array_equal(v, e.real if spec["comp"] == "re" else e.imag), "values: permittivity of each pixel", event="values")
            d = np.moveaxis(p, -1, 0) - g
            off = d.reshape(2, -1).mean(axis=1)
            m.close(d, off[:, None, None] + 0 * d, 1e-6 * size, "position: pixels of a tile are at the points of the grid", event="position", scale=1)
            frac = np.linalg.solve(a.T, off)
            m.close(frac, np.round(frac), 1e-5, "position: tiles are translated by lattice vectors", event="position", scale=1)
            where.append(tuple(int(x) for x in np.round(frac)))
        m.check(sorted(where) == sorted((i, j) for i in range(nper[0]) for j in range(nper[1])), "tiles: every cell once", event="tiles", got=where)
        corners = np.array([i * a[0] + j * a[1] for i in (0, nper[0]) for j in (0, nper[1])])
        for k, (lo, hi) in enumerate((ax.get_xlim(), ax.get_ylim())):
            m.check(lo <= corners[:, k].min() and hi >= corners[:, k].max(), "limits: all the cells are visible", event="limits",
                    lim=(lo, hi), corners=corners[:, k])
        if spec["cell"]:
            seg = set()
            for L in ax.lines:
                p = np.linalg.solve(a.T, np.asarray(L.get_xydata(), dtype=float).T).T
                seg.add(tuple(sorted(tuple(int(x) for x in np.round(q)) for q in p)))
                m.close(p, np.round(p), 1e-6, "position: outline of the cell", event="position", scale=1)
            m.check(seg == {((0, 0), (1, 0)), ((0, 0), (0, 1)), ((1, 0), (1, 1)), ((0, 1), (1, 1))}, "tiles: outline of the unit cell", event="tiles", got=sorted(seg))
        else:
            m.check(not ax.lines, "tiles: no outline unless asked", event="tiles")
    finally:
        plt.close(fig)


class _Cam:
    azimuth = elevation = roll = 0


class Recorder:
    def __init__(self):
        self.meshes = []
        self.camera = _Cam()
        self.axes = 0

    def add_mesh(self, mesh, **kw):
        self.meshes.append((np.array(mesh.bounds), np.array(mesh.cell_centers().points, dtype=float),
                            {k: np.array(mesh.cell_data[k]) for k in mesh.cell_data.keys()}, float(mesh.volume), dict(kw)))

    def show_axes(self):
        self.axes += 1


def _structure(spec, m):
    rng = np.random.default_rng(spec["seed"])
    b = spec["basis"]
    oned = np.isscalar(b)
    lat = nn.Lattice(b if oned else tuple(map(tuple, b)), tuple(spec["N"]))
    a = np.array([[b, 0], [0, 1]]) if oned else np.array(b, dtype=float)
    layers = [lat.Layer("sup")]
    for k in range(spec["nlay"]):
        uniform = rng.random() < 0.3
        t = float(rng.uniform(0.1, 1)) if rng.random() < 0.85 else 0
        if uniform:
            layers.append(lat.Layer(f"l{k}", thickness=t, epsilon=float(rng.choice([1.0, 2.0, 5.0]))))
        else:
            L = lat.Layer(f"l{k}", thickness=t)
            L.epsilon = nn.backend.array(pattern(rng, lat))
            layers.append(L)
    layers.append(lat.Layer("sub", epsilon=float(rng.choice([1.0, 2.25])), thickness=float(rng.choice([0, 0.4]))))
    if not spec["null"] and not any(L.thickness for L in layers):
        layers[-1].thickness = 0.4
    sim = nn.Simulation(layers, nn.PlaneWave(1.3), nh=3)
    m.note(np.round(b, 3).tolist(), spec["N"], spec["nper"], spec["nlay"], spec["dz"], spec["backend"], spec["seed"])
    kw = {"nper": tuple(spec["nper"]), "dz": spec["dz"], "opacity": 0.5}
    if spec["null"]:
        kw["null_thickness"] = spec["null"]
    eps = [to_np(L.epsilon).real for L in layers]
    if spec["colors"]:
        kw["layer_colors"] = [f"c{i}" if e.ndim == 0 else [f"c{i}_{j}" for j in range(len(np.unique(e)))] for i, e in enumerate(eps)]
        kw["layer_metallic"] = [0.1 * i if e.ndim == 0 else [0.1 * i + 0.01 * j for j in range(len(np.unique(e)))] for i, e in enumerate(eps)]
    rec = Recorder()
    out = sim.plot_structure(rec, **kw)
    m.check(out is rec, "structure: returns the plotter given", event="structure")
    if any(e.ndim for e in eps):
        m.nontrivial()
    tmax = max(L.thickness for L in layers)
    null = spec["null"] or tmax
    # expected: position of the layers along z, downwards in the order of the stack
    z, spans = 0.0, []
    for L in layers:
        t = L.thickness or null
        spans.append((z, z + t))
        z += t + spec["dz"]
    todo = []
    for jx in range(spec["nper"][0]):
        for jy in range(spec["nper"][1]):
            for i, e in enumerate(eps):
                for j, v in enumerate(np.unique(e)):
                    if v != 1:
                        todo.append((jx, jy, i, j, float(v)))
    m.check(len(rec.meshes) == len(todo), "structure: one mesh per material, layer and cell", event="structure", got=len(rec.meshes), expected=len(todo))
    got = []
    for bounds, cen, data, vol, k in rec.meshes:
        zz = bounds[4:6]
        lay = [i for i, s in enumerate(spans) if abs(s[0] - zz[0]) < 1e-5 and abs(s[1] - zz[1]) < 1e-5]
        if not m.check(len(lay) == 1, "structure: extent of a layer along z", event="structure", got=zz, spans=spans):
            return
        i = lay[0]
        frac = np.linalg.solve(a.T, cen[:, :2].T)
        mid = frac.mean(axis=1)
        val = next((v for n, v in data.items() if "permittivity" in n), None)
        if not m.check(val is not None and np.ptp(val) == 0, "structure: one value per mesh", event="structure"):
            return
        tile = np.floor(mid + 1e-6).astype(int)
        if eps[i].ndim:
            tile = np.floor(frac.min(axis=1) + 1e-6).astype(int)
            N = eps[i].shape
            pix = np.round((frac - tile[:, None]) * np.array(N)[:, None] - 0.5).astype(int)
            ok = np.all((pix >= 0) & (pix < np.array(N)[:, None]))
            if not m.check(ok, "structure: cells of the mesh are pixels of the layer", event="structure", N=N):
                return
            m.close((frac - tile[:, None]) * np.array(N)[:, None] - 0.5, pix, 1e-3, "structure: centres of the pixels", event="structure", scale=1)
            here = np.zeros(N, dtype=int)
            np.add.at(here, (pix[0], pix[1]), 1)
            m.check(np.array_equal(here, (eps[i] == val[0]).astype(int)), "structure: the pixels of this material, once each", event="structure")
            j = int(np.argmin(abs(np.unique(eps[i]) - val[0])))
        else:
            j = 0
            m.close(float(val[0]), float(eps[i]), 1e-12, "structure: value of a uniform layer", event="structure")
            q = np.array([p * a[0] + s * a[1] for p in (tile[0], tile[0] + 1) for s in (tile[1], tile[1] + 1)])
            m.close(bounds[:4], [q[:, 0].min(), q[:, 0].max(), q[:, 1].min(), q[:, 1].max()], 1e-5, "structure: extent of a uniform layer", event="structure")
        got.append((int(tile[0]), int(tile[1]), i, j, float(val[0])))
        m.check(k.get("opacity") == 0.5, "structure: keyword arguments are passed on", event="structure")
        if spec["colors"]:
            m.check(k.get("color") == (f"c{i}" if eps[i].ndim == 0 else f"c{i}_{j}"), "colours: of the layer and material", event="colours", got=k.get("color"))
            want = 0.1 * i if eps[i].ndim == 0 else 0.1 * i + 0.01 * j
            m.check(abs(k.get("metallic", -1) - want) < 1e-12, "colours: metallic of the layer and material", event="colours")
    m.check(sorted(got) == sorted(todo), "structure: every material of every layer of every cell", event="structure", got=sorted(got)[:6], expected=sorted(todo)[:6])
