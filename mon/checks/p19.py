"""Density helpers of topology optimization: interpolation, projection, filtering."""
import numpy as np

import nannos as nn

from ..common import rng_for, to_np, using

LEVEL = "exploration"
RULE = (
    "random densities (uniform, binary, smooth, impulses, single row or column, odd and even sizes), exponents, "
    "thresholds, projection levels, filter radii (zero, isotropic, anisotropic, in pixels or lengths) and permittivities "
    "(complex, 2 to 6 materials) in the numpy, scipy, autograd and torch backends; non-trivial: a density that is not uniform"
)
MIN_EVENTS = {"simp": 500, "project": 1000, "multi_project": 500, "multi_simp": 500, "filter": 1000, "kernel": 300, "inputs": 500}


def cases(tier, seed):
    n = 2500 if tier == "quick" else 30000
    out = []
    for i in range(n):
        rng = rng_for(seed, "P19", i)
        out.append({
            "what": ["simp", "project", "multi_project", "multi_simp", "filter", "filter"][i % 6],
            "backend": str(rng.choice(["numpy", "scipy", "autograd", "torch"])),
            "shape": [int(rng.choice([1, 2, 3, 5, 8, 13, 16, 21, 32])), int(rng.choice([1, 2, 4, 5, 9, 12, 16, 27]))],
            "rho": str(rng.choice(["random", "binary", "smooth", "impulse", "const"])), "seed": int(rng.integers(2**31)),
        })
    return out


def density(spec, rng):
    s = tuple(spec["shape"])
    k = spec["rho"]
    if k == "random":
        return rng.random(s)
    if k == "binary":
        return (rng.random(s) < 0.5) * 1.0
    if k == "const":
        return np.full(s, rng.random())
    if k == "impulse":
        x = np.zeros(s)
        x[int(rng.integers(s[0])), int(rng.integers(s[1]))] = 1.0
        return x
    u, v = np.meshgrid(np.arange(s[0]) / s[0], np.arange(s[1]) / s[1], indexing="ij")
    return 0.5 + 0.25 * np.cos(2 * np.pi * (u + rng.random())) + 0.25 * np.sin(2 * np.pi * (v + rng.random()))


def kernel1(N, r):
    d = np.minimum(np.arange(N), N - np.arange(N))
    if r == 0:
        return (d == 0) * 1.0
    k = np.exp(-(d**2) / r**2)
    return k / k.sum()


def run_case(spec, m):
    m.note(*[str(spec[k]) for k in sorted(spec)])
    with using(nn, spec["backend"]):
        body(spec, m)


def body(spec, m):
    rng = np.random.default_rng(spec["seed"])
    o = nn.optimize
    rho = density(spec, rng)
    A = lambda x: nn.array(np.array(x))
    x = A(rho)
    w = spec["what"]
    tol = 1e-11
    mono = np.linspace(0, 1, 41)
    if w == "simp":
        p = float(rng.choice([1, 1, 2, 3, 0.5, rng.uniform(0.3, 6)]))
        lo = complex(rng.uniform(-5, 5), rng.choice([0, rng.uniform(0, 3)]))
        hi = complex(rng.uniform(1, 12), rng.choice([0, rng.uniform(0, 3)]))
        if lo.imag == hi.imag == 0:
            lo, hi = lo.real, hi.real
        y = to_np(o.simp(x, lo, hi, p))
        m.close(y, lo + (hi - lo) * rho**p, tol, "simp: interpolation", scale=20)
        ends = to_np(o.simp(A([0.0, 1.0]), lo, hi, p))
        m.close(ends, [lo, hi], tol, "simp: end points are the materials", scale=20)
        t = np.real((to_np(o.simp(A(mono), lo, hi, p)) - lo) / (hi - lo)) if lo != hi else mono
        m.check(np.all(np.diff(t) > -1e-12) and t.min() > -1e-12 and t.max() < 1 + 1e-12, "simp: monotone and between the materials")
        m.close(to_np(o.simp(x, lo, hi)), lo + (hi - lo) * rho, tol, "simp: linear by default", scale=20)
    elif w == "project":
        beta = float(rng.choice([1, 2, 8, 64, 256, 1e-3, np.exp(rng.uniform(-3, 6))]))
        th = float(rng.choice([0.5, 0.5, rng.uniform(0.05, 0.95)]))
        y = to_np(o.project(x, beta, th))
        want = (np.tanh(th * beta) + np.tanh(beta * (rho - th))) / (np.tanh(th * beta) + np.tanh((1 - th) * beta))
        m.close(y, want, 1e-10 * max(1, 1 / beta), "project: smooth threshold")
        m.check(y.min() > -1e-9 and y.max() < 1 + 1e-9, "project: values stay in [0, 1]", min=y.min(), max=y.max())
        e = to_np(o.project(A([0.0, 1.0]), beta, th))
        m.close(e, [0, 1], 1e-9 * max(1, 1 / beta), "project: 0 and 1 are unchanged")
        z = to_np(o.project(A(mono), beta, th))
        m.check(np.all(np.diff(z) > -1e-12), "project: monotone")
        m.close(to_np(o.project(A(1 - rho), beta, 1 - th)), 1 - y, 1e-9 * max(1, 1 / beta), "project: complementary densities give complementary projections")
        if beta > 200:
            far = np.abs(rho - th) > 0.1
            m.close(y[far], (rho > th)[far] * 1.0, 1e-6, "project: a large level is a step at the threshold")
        if beta <= 1e-2:
            m.close(y, rho, 1e-3, "project: a small level is the identity")
        m.close(to_np(o.project(x)), to_np(o.project(x, 1, 0.5)), tol, "project: default level and threshold")
    elif w == "multi_project":
        beta = float(rng.choice([1, 2, 8, 64, np.exp(rng.uniform(-1, 5))]))
        N = int(rng.integers(2, 7))
        y = to_np(o.multi_project(x, beta, N))
        ths = np.linspace(0, 1, N + 1)[1:-1]
        want = np.mean([(np.tanh(t * beta) + np.tanh(beta * (rho - t))) / (np.tanh(t * beta) + np.tanh((1 - t) * beta)) for t in ths], axis=0)
        m.close(y, want, 1e-10, "multi_project: mean of the projections at equally spaced thresholds", N=N)
        m.check(y.min() > -1e-9 and y.max() < 1 + 1e-9, "multi_project: values stay in [0, 1]")
        m.close(to_np(o.multi_project(A([0.0, 1.0]), beta, N)), [0, 1], 1e-9, "multi_project: 0 and 1 are unchanged")
        z = to_np(o.multi_project(A(mono), beta, N))
        m.check(np.all(np.diff(z) > -1e-12), "multi_project: monotone")
        m.close(to_np(o.multi_project(x, beta, 2)), to_np(o.project(x, beta, 0.5)), tol, "multi_project: a single threshold is project")
        if N > 2:
            s = to_np(o.multi_project(A(np.arange(N) / (N - 1)), 400, N))
            m.close(s, np.arange(N) / (N - 1), 1e-6, "multi_project: a large level keeps the equally spaced levels", N=N)
    elif w == "multi_simp":
        n = int(rng.integers(2, 7))
        p = float(rng.choice([1, 1, 1, 2, 0.5]))
        eps = rng.uniform(1, 12, n) + 1j * rng.choice([0, 1]) * rng.uniform(0, 2, n)
        arg = eps.tolist() if rng.random() < 0.5 else A(eps)
        nodes = np.linspace(0, 1, n)
        y = to_np(o.multi_simp(A(nodes), arg, p))
        m.close(y, eps, 1e-8, "multi_simp: takes the value of each material at equally spaced densities", n=n, p=p)
        # the polynomial of degree n - 1 in x^p through the materials
        c = np.polyfit(nodes**p, eps, n - 1)
        m.close(to_np(o.multi_simp(x, arg, p)), np.polyval(c, rho**p), 1e-7, "multi_simp: interpolating polynomial", scale=100, n=n, p=p)
        if n == 2:
            m.close(to_np(o.multi_simp(x, arg, p)), to_np(o.simp(x, complex(eps[0]), complex(eps[1]), p)), tol, "multi_simp: two materials is simp", scale=12)
        if n > 2 and rng.random() < 0.5:
            c0 = complex(eps[0])
            m.close(to_np(o.multi_simp(x, [c0] * n, p)), np.full(rho.shape, c0), 1e-8, "multi_simp: equal materials give this material", scale=12)
        m.check(np.array_equal(to_np(arg), eps), "inputs: materials are not modified")
    else:
        Nx, Ny = rho.shape
        lim = lambda N: max(0.3, N / 9)
        rx, ry = float(rng.uniform(0.3, lim(Nx))), float(rng.uniform(0.3, lim(Ny)))
        kind = str(rng.choice(["scalar", "tuple", "zero", "zerotuple", "xonly", "yonly", "wide"]))
        kw = {}
        if kind == "scalar":
            rx = ry = float(min(rx, ry))
            r = rx
        elif kind == "tuple":
            r = (rx, ry)
        elif kind in ("zero", "zerotuple"):
            rx = ry = 0
            r = 0 if kind == "zero" else (0, 0)
        elif kind == "xonly":
            ry = 0
            r = (rx, 0)
        elif kind == "yonly":
            rx = 0
            r = (0, ry)
        else:
            rx = ry = float(rng.uniform(0.5, 3) * max(Nx, Ny))
            r = rx
        if kind in ("scalar", "zero") and rng.random() < 0.3:  # numbers of numpy are numbers
            r = np.float64(r) if kind == "scalar" else np.int64(r)
        if kind == "tuple" and rng.random() < 0.5:  # radius as a length
            Lx, Ly = float(rng.uniform(0.3, 4)), float(rng.uniform(0.3, 4))
            kw["vectors"] = ((Lx, 0.0), (0.0, Ly))
            r = (rx * Lx / Nx, ry * Ly / Ny)
        F = lambda v: to_np(o.apply_filter(A(v), r, **kw))
        y = F(rho)
        m.check(y.shape == rho.shape and np.isrealobj(y), "filter: real array of the same shape", shape=y.shape)
        m.close(y.mean(), rho.mean(), tol, "filter: preserves the mean", r=[rx, ry])
        m.check(y.min() >= rho.min() - 1e-11 and y.max() <= rho.max() + 1e-11, "filter: no new extrema", got=[y.min(), y.max()], was=[rho.min(), rho.max()])
        other = rng.random(rho.shape)
        m.close(F(1.7 * rho - 0.6 * other), 1.7 * y - 0.6 * F(other), 1e-10, "filter: linear")
        small = 10.0 ** float(rng.uniform(-9, -2))
        m.close((F(0.5 + small * rho) - 0.5) / small, y, 1e-10 + 1e-14 / small, "filter: linear, for a small contrast too")
        m.close(F(small * rho) / small, y, 1e-10, "filter: linear, for small densities too")
        s = (int(rng.integers(Nx)), int(rng.integers(Ny)))
        m.close(F(np.roll(rho, s, (0, 1))), np.roll(y, s, (0, 1)), 1e-10, "filter: commutes with translations", shift=s)
        if rx == ry == 0:
            m.close(y, rho, 1e-12, "filter: a zero radius is the identity")
        if kind == "wide":
            # the tails are cut at the size of the array: only the bulk properties
            pass
        else:
            want = np.real(np.fft.ifft2(np.fft.fft2(rho) * np.fft.fft2(np.outer(kernel1(Nx, rx), kernel1(Ny, ry)))))
            # for even sizes the farthest pixel is on one side only
            m.close(y, want, 1e-7, "kernel: Gaussian weights exp(-d^2/r^2), centered", r=[rx, ry])
            fl = F(rho[::-1, ::-1])[::-1, ::-1]
            m.close(fl, y, 1e-7, "kernel: commutes with reflections")
            if not kw:
                r2 = r if not isinstance(r, tuple) else r[::-1]
                m.close(to_np(o.apply_filter(A(rho.T.copy()), r2)), y.T, 1e-10, "kernel: commutes with transposition")
        m.check(rho.var() + 1e-13 >= y.var(), "filter: does not increase the variance")
    m.check(to_np(x).tobytes() == rho.tobytes(), "inputs: the density is not modified")
    if rho.max() > rho.min():
        m.nontrivial()
