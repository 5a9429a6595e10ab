"""Gradients: automatic differentiation against finite differences of the code's own values."""
import numpy as np

import nannos as nn

from .. import gen
from ..common import Skip, rng_for, to_np, using

LEVEL = "exploration"
RULE = (
    "random problems (1D/2D, all formulations) whose design variables are a density map through the filter, projection "
    "and interpolation helpers, permittivities of uniform layers, thicknesses, the wavelength and the incidence angles; "
    "objectives are efficiencies, complex amplitudes, fields, stress and S-matrix entries; nannos.grad with the autograd "
    "and torch backends is compared with central differences along random directions (two step sizes bound their error); "
    "non-trivial: the objective depends on a patterned layer"
)
ASSUMPTIONS = ["patterns and incidence without symmetry: the derivative of degenerate eigenvectors is not defined"]
MIN_EVENTS = {"density": 60, "epsilon": 60, "thickness": 60, "wavelength": 60, "angles": 60, "value": 200, "backends": 40, "helpers": 60, "arguments": 1000}
CASE_TIMEOUT = 150
PARAMS = ["density", "epsilon", "thickness", "wavelength", "angles", "all"]
OBJ = ["R", "T", "order", "complex", "field", "grid", "stress", "S", "log"]


def cases(tier, seed):
    n = 480 if tier == "quick" else 5000
    out = []
    for i in range(n):
        rng = rng_for(seed, "P17", i)
        oned = bool(rng.random() < 0.4)
        param = PARAMS[i % len(PARAMS)]
        form = str(rng.choice(["original", "tangent"] if oned else ["original", "original", "tangent", "jones", "pol"]))
        period = float(rng.uniform(0.7, 1.4))
        if oned:
            basis, disc, nh = period, [int(rng.integers(11, 20)), 1], int(rng.choice([3, 5]))
        else:
            basis = gen.rand_basis(rng, str(rng.choice(["rect", "oblique", "general"])), period)
            disc = [int(rng.integers(9, 13)), int(rng.integers(9, 13))]
            nh = int(rng.choice([5, 7, 9]))
        spec = {
            "lattice": {"basis": basis, "trunc": "circular" if rng.random() < 0.6 else "parallelogrammic", "disc": disc, "harmonics": None},
            "nh": nh if not (not oned and form) else 9, "formulation": form, "wl": period * float(rng.uniform(0.7, 1.9)),
            "angles": [float(rng.uniform(8, 50)), float(rng.uniform(12, 75)), float(rng.uniform(10, 80))],
            "e": [float(rng.uniform(1.0, 2.0)), float(rng.uniform(2, 5)), float(rng.uniform(1.2, 4))],
            "lossy": float(rng.choice([0, 0, 0.3])), "t": [float(period * rng.uniform(0.1, 0.5)), float(period * rng.uniform(0.1, 0.5))],
            "param": param, "obj": str(rng.choice(OBJ)), "seed": int(rng.integers(2**31)),
            "helpers": str(rng.choice(["none", "simp", "project", "filter", "multi"])), "backends": ["autograd", "torch"],
            "repeat": bool(rng.random() < 0.3),
        }
        L = [{"eps": [spec["e"][0], 0.0]}, {"eps": [spec["e"][1], 0]}, {"eps": [spec["e"][2], 0]}]
        s2 = dict(spec, layers=[dict(l, thickness=0) for l in L])
        gen.safe_wavelength(s2, tol=2e-2)
        spec["wl"], spec["angles"] = s2["wl"], s2["angles"]
        out.append(spec)
    return out


def setup(spec):
    """Initial variables and the objective, written with the backend's own operations."""
    rng = np.random.default_rng(spec["seed"])
    shape = tuple(spec["lattice"]["disc"])
    rho0 = rng.random(shape)
    # smooth, without symmetry
    for _ in range(1):
        rho0 = (rho0 + np.roll(rho0, 1, 0) + np.roll(rho0, 1, -1)) / 3
    rho0 = 0.1 + 0.8 * (rho0 - rho0.min()) / (rho0.max() - rho0.min())
    tan = gen.tangent_array({"kind": "angle", "seed": spec["seed"]}, shape)
    zf = [float(v) for v in rng.random(4)]
    order = int(rng.integers(4))
    comp = [int(v) for v in rng.integers(0, 3, 2)]
    pix = [int(rng.integers(s)) for s in shape]
    entry = [int(v) for v in rng.integers(0, 6, 2)]
    groups = {
        "density": rho0.ravel(),
        "epsilon": np.array(spec["e"]),
        "thickness": np.array(spec["t"]),
        "wavelength": np.array([spec["wl"]]),
        "angles": np.array(spec["angles"]),
    }
    names = list(groups) if spec["param"] == "all" else [spec["param"]]
    x0 = np.concatenate([groups[k] for k in names])

    def objective(x):
        bk = nn.backend
        C = nn.get_types()[1]
        v, k = {}, 0
        for nm in names:
            n = len(groups[nm])
            v[nm] = x[k : k + n]
            k += n

        def get(nm, i):
            return v[nm][i] if nm in v else float(groups[nm][i])

        lat = gen.make_lattice(nn, spec["lattice"])
        rho = v["density"] if "density" in v else nn.array(groups["density"])
        rho = bk.reshape(rho, shape)
        h = spec["helpers"]
        lo, hi = 1.3, 4.0 + 1j * spec["lossy"]
        if h == "filter":
            rho = nn.optimize.apply_filter(rho, 1.5 if shape[1] > 1 else (1.5, 0))
        if h in ("project", "filter"):
            rho = nn.optimize.project(rho, 4, 0.45)
        if h == "multi":
            rho = nn.optimize.multi_project(rho, 3, 3)
            eps = nn.optimize.multi_simp(rho, [lo, 2.4, hi], 1)
        elif h == "none":
            eps = lo + (hi - lo) * rho
        else:
            eps = nn.optimize.simp(rho, lo, hi, 2)
        kw = {}
        if spec["formulation"] != "original" and shape[1] > 1:
            kw["tangent_field"] = nn.array(tan)
        lays = [
            lat.Layer("sup", epsilon=get("epsilon", 0)),
            lat.Layer("film", thickness=get("thickness", 0), epsilon=get("epsilon", 1)),
            lat.Layer("pat", thickness=get("thickness", 1), **kw),
            lat.Layer("sub", epsilon=get("epsilon", 2)),
        ]
        lays[2].epsilon = nn.array(eps) * (1 + 0j)
        pw = nn.PlaneWave(get("wavelength", 0), angles=[get("angles", i) for i in range(3)] if "angles" in v else tuple(spec["angles"]))
        sim = nn.Simulation(lays, pw, nh=spec["nh"], formulation=spec["formulation"])
        o = spec["obj"]
        if spec["repeat"]:
            sim.get_S_matrix()
        if o in ("R", "T", "log"):
            R, T = sim.diffraction_efficiencies()
            return R if o == "R" else T if o == "T" else bk.log(R) + T**2
        if o == "order":
            R, T = sim.diffraction_efficiencies(orders=True)
            hs = [tuple(int(i) for i in c) for c in to_np(sim.harmonics).T]
            hs = sorted(hs, key=lambda c: (abs(c[0]) + abs(c[1]), c))
            return sim.get_order(T, hs[order % len(hs)]) + 0.5 * sim.get_order(R, hs[0])
        if o == "complex":
            r, t = sim.diffraction_efficiencies(orders=True, complex=True)
            z = sim.get_order_index((0, 0))
            return bk.abs(t[comp[0], z] + 0.5 * r[comp[1], z]) ** 2
        if o == "field":
            F = sim.get_field_fourier("pat", z=zf[0] * spec["t"][1])
            return bk.sum(bk.abs(F[0, comp[0] % 2]) ** 2)
        if o == "grid":
            E = sim.get_field_grid("film", z=zf[1] * spec["t"][0], field="E", shape=shape)
            E = bk.reshape(E, (3,) + shape)
            return bk.abs(E[comp[0], pix[0], pix[1]]) ** 2
        if o == "stress":
            T3 = sim.get_z_stress_tensor_integral("sub")
            return T3[2] + 0.3 * T3[0]
        S = sim.get_S_matrix()
        z = sim.get_order_index((0, 0))
        return bk.abs(S[0][0][z, z]) ** 2 + bk.abs(S[1][0][z, z]) ** 2

    return x0, objective, names


def calls(m, rng, bk, b):
    """Gradients of functions with further arguments, given in every way."""
    n = int(rng.integers(1, 6))
    x = rng.uniform(0.2, 2.0, n)
    w, q, c = rng.normal(size=n), int(rng.integers(2, 5)), float(rng.normal())

    def fun(x, w, q=1, c=0.0):
        return bk.sum(nn.array(w) * x**q) + c * x[0] ** 2

    def want(w, q=1, c=0.0):
        g = q * w * x ** (q - 1)
        g[0] = g[0] + 2 * c * x[0]
        return g

    df = nn.grad(fun)
    X = nn.array(x)
    for got, ref in (
        (df(X, w), want(w)), (df(X, w, q), want(w, q)), (df(X, w, q, c), want(w, q, c)), (df(X, w, q=q), want(w, q)),
        (df(X, w=w, c=c), want(w, 1, c)), (df(X, w, c=c, q=q), want(w, q, c)),
    ):
        m.close(got, ref, 1e-9, f"arguments: gradient with {b} of a function with further arguments")
    m.check(np.array_equal(to_np(X), x), f"arguments: the point is not modified by the gradient with {b}")


def run_case(spec, m):
    m.note(spec["param"], spec["obj"], spec["formulation"], spec["helpers"], spec["lattice"]["disc"], spec["nh"], spec["seed"])
    rng = np.random.default_rng(spec["seed"] + 1)
    x0, fun, names = setup(spec)
    f = lambda x: float(to_np(fun(x)))
    f0 = f(x0)
    # two independent directions, scaled with the variables
    sc = np.maximum(np.abs(x0), 0.05)
    dirs = [sc * rng.normal(size=len(x0)) for _ in range(2)]
    if len(x0) > 3:
        e = np.zeros(len(x0))
        k = int(rng.integers(len(x0)))
        e[k] = sc[k]
        dirs.append(e * len(x0) ** 0.5)
    fd = []
    for d in dirs:
        est = []
        for hstep in (2e-4, 1e-4, 5e-5):
            est.append((f(x0 + hstep * d) - f(x0 - hstep * d)) / (2 * hstep))
        r1 = (4 * est[1] - est[0]) / 3
        r2 = (4 * est[2] - est[1]) / 3
        fd.append((r2, abs(r1 - r2) + 1e-9 * max(1.0, abs(f0))))
    grads = {}
    for b in spec["backends"]:
        with using(nn, b):
            calls(m, rng, nn.backend, b)
            v = float(to_np(fun(nn.array(x0))))
            m.close(v, f0, 1e-7, f"value: the objective with {b} equals that with numpy", scale=max(1, abs(f0)))
            g = to_np(nn.grad(fun)(nn.array(x0)))
            if not m.check(g is not None and g.dtype != object and g.shape == x0.shape, f"shape: gradient with {b}", got=str(getattr(g, "shape", None))):
                continue
            m.check(np.isrealobj(g), f"shape: gradient with {b} is real", dtype=str(g.dtype))
            grads[b] = g
            for d, (want, err) in zip(dirs, fd):
                got = float(g @ d)
                scale = max(abs(want), 1e-3 * max(1.0, abs(f0)))
                if err > 1e-3 * scale:
                    m.count("finite difference too uncertain")
                    continue
                tol = 2e-5 + 20 * err / scale
                m.close(got, want, tol, f"gradient with {b} against finite differences", scale=scale, event=spec["param"] if spec["param"] != "all" else "density",
                        key=f"gradient {b} {spec['param']}", obj=spec["obj"], formulation=spec["formulation"])
                if "density" in names and spec["helpers"] != "none":
                    m.count("helpers")
    if len(grads) == 2:
        a, b = grads.values()
        m.close(a * sc, b * sc, 1e-4, "backends: autograd and torch gradients agree", scale=max(np.max(np.abs(a * sc)), 1e-3 * max(1, abs(f0))))
    m.nontrivial()
