"""Fourier reconstruction of permittivities and amplitudes: direct summation oracle."""
import numpy as np

import nannos as nn

from .. import gen
from ..common import rng_for, to_np, using

LEVEL = "exploration"
RULE = (
    "random layers (isotropic, anisotropic, uniform, lossy; 1D, 2D, non square grids, user harmonics, permuted) whose "
    "permittivity is reconstructed, random amplitudes synthesized on random grids, and Fourier transforms of random "
    "arrays, in all backends; compared with direct sums; non-trivial: a patterned layer with more than one harmonic"
)
MIN_EVENTS = {"epsilon": 500, "complete": 30, "uniform": 100, "synthesis": 500, "linear": 200, "fft": 500}


def cases(tier, seed):
    n = 1500 if tier == "quick" else 16000
    out = []
    for i in range(n):
        rng = rng_for(seed, "P25", i)
        oned = rng.random() < 0.35
        spec = gen.rand_stack(rng, nh=(1, 25) if i % 20 != 17 else (50, 220), oned=oned, n_inner=(1, 3), metal=True, aniso=0.3, harmonics=0.25, patterned=0.8, copies=0.2)
        spec["backend"] = str(rng.choice(["numpy", "numpy", "scipy", "autograd", "torch", "torch"]))
        if i % 97 == 5:
            spec["backend"] = "jax"
        spec["complete"] = bool(rng.random() < 0.15)
        if spec["complete"]:
            k = int(rng.integers(1, 4))
            spec["nh"] = 2 * k + 1 if oned else (2 * k + 1) ** 2
            spec["lattice"].update(harmonics=None, trunc="parallelogrammic", disc=[2 * k + 1, 2 * k + 1])
            for L in spec["layers"]:
                L.pop("tangent", None)
            if spec["lattice"]["disc"] == [3, 3] and not oned:
                spec["nh"], spec["lattice"]["disc"] = 25, [5, 5]
        spec["seed"] = int(rng.integers(2**31))
        spec["ident"] = str(rng.choice(["index", "name", "object"]))
        out.append(spec)
    return out


def run_case(spec, m):
    m.note(spec["backend"], *gen.describe(spec))
    with using(nn, spec["backend"]):
        _run(spec, m)


def coef(e, h):
    """Fourier coefficients of the samples by direct summation."""
    Nx, Ny = e.shape
    px = np.exp(-2j * np.pi * np.outer(h[0], np.arange(Nx)) / Nx)
    py = np.exp(-2j * np.pi * np.outer(h[1], np.arange(Ny)) / Ny)
    return np.einsum("ki,kj,ij->k", px, py, e) / (Nx * Ny)


def synth(c, h, shape):
    px = np.exp(2j * np.pi * np.outer(h[0], np.arange(shape[0])) / shape[0])
    py = np.exp(2j * np.pi * np.outer(h[1], np.arange(shape[1])) / shape[1])
    return np.einsum("...k,ki,kj->...ij", c, px, py)


def _run(spec, m):
    rng = np.random.default_rng(spec["seed"])
    sim = gen.build(nn, spec)
    h = to_np(sim.harmonics).astype(int)
    n = h.shape[1]
    shape = gen.shape_of(spec)
    tol = 1e-11
    for j, L in enumerate(spec["layers"]):
        who = {"index": j, "name": L["name"], "object": sim.layers[j]}[spec["ident"]]
        got = to_np(sim.get_epsilon(who))
        if not isinstance(L["eps"], dict):
            m.close(got, np.array(gen.cplx(L["eps"])), tol, "uniform: permittivity of a uniform layer")
            continue
        e = gen.pattern_array(L["eps"], shape, spec["lattice"]["basis"])
        e = e[2, 2] if e.ndim == 4 else e
        m.close(got, synth(coef(e, h), h, shape), tol, "epsilon: truncated Fourier series of the permittivity", scale=np.abs(e).max() * n, layer=j)
        if spec["complete"]:
            m.close(got, e, tol, "complete: exact when all the harmonics of the grid are kept", scale=np.abs(e).max() * n)
        if n > 1:
            m.nontrivial()
    # synthesis on any grid
    mx = np.abs(h).max(axis=1)
    for _ in range(3):
        s = (int(mx[0] + rng.integers(1, 30)), int(mx[1] + rng.integers(1, 30)))
        if n * s[0] * s[1] > 40000:
            s = (int(mx[0] + 1), int(mx[1] + 1))
        c = rng.normal(size=n) + 1j * rng.normal(size=n)
        d = rng.normal(size=n) + 1j * rng.normal(size=n)
        A = lambda v: nn.backend.array(v)
        out = to_np(sim.get_ifft(A(c), s))
        m.close(out, synth(c, h, s), tol, "synthesis: sum of plane waves", scale=n)
        k = int(rng.integers(1, 4))
        M = rng.normal(size=(k, n)) + 1j * rng.normal(size=(k, n))
        out = to_np(sim.get_ifft_amplitudes(A(M), s))
        want = np.moveaxis(synth(M, h, s), 0, -1)
        m.close(out, want, tol, "synthesis: several sets of amplitudes", scale=n)
        if spec["backend"] == "jax":
            break
        l = to_np(sim.get_ifft(A(2.5 * c - 1j * d), s))
        m.close(l, 2.5 * synth(c, h, s) - 1j * synth(d, h, s), tol, "linear: synthesis is linear", scale=3 * n)
    # transforms
    from nannos.formulations.fft import fourier_transform, inverse_fourier_transform

    for _ in range(3):
        s = (int(rng.integers(1, 24)), int(rng.integers(1, 24))) if spec["backend"] != "jax" else (6, 5)
        u = rng.normal(size=s) + 1j * rng.normal(size=s)
        a = A(u)
        hh = np.array([(i, j) for i in range(s[0]) for j in range(s[1])]).T
        f = to_np(fourier_transform(a))
        m.close(f, coef(u, hh).reshape(s), tol, "fft: Fourier coefficients")
        g = to_np(inverse_fourier_transform(a))
        m.close(g, synth(u.ravel(), hh, s), tol, "fft: Fourier synthesis", scale=s[0] * s[1])
        m.close(to_np(inverse_fourier_transform(fourier_transform(a))), u, tol, "fft: round trip")
        m.close(np.sum(np.abs(f) ** 2), np.mean(np.abs(u) ** 2), tol, "fft: Parseval")
        # a given size: the array is padded with zeros or cropped
        S = (int(rng.integers(1, 20)), int(rng.integers(1, 20))) if spec["backend"] != "jax" else (7, 4)
        pad = np.zeros(S, complex)
        k = tuple(slice(0, min(i, j)) for i, j in zip(s, S))
        pad[k] = u[k]
        HH = np.array([(i, j) for i in range(S[0]) for j in range(S[1])]).T
        m.close(to_np(fourier_transform(a, s=S)), coef(pad, HH).reshape(S), tol, "fft: Fourier coefficients of a padded or cropped array", size=S, given=s)
        m.close(to_np(inverse_fourier_transform(a, s=S)), synth(pad.ravel(), HH, S), tol, "fft: Fourier synthesis on a given grid", scale=S[0] * S[1], size=S, given=s)
        v = rng.normal(size=(2,) + s) + 0j
        m.close(to_np(fourier_transform(A(v)))[1], to_np(fourier_transform(A(v[1]))), tol, "fft: stacked arrays")
        m.close(to_np(inverse_fourier_transform(A(v)))[1], to_np(inverse_fourier_transform(A(v[1]))), tol, "fft: stacked arrays, synthesis", scale=s[0] * s[1])
        w = np.moveaxis(v, 0, -1).copy()
        m.close(to_np(inverse_fourier_transform(A(w), axes=(0, 1)))[..., 1], to_np(inverse_fourier_transform(A(v[1]))), tol, "fft: axes", scale=s[0] * s[1])
        # any two axes of an array, in any order, counted from any end, with a size or not
        nd = int(rng.integers(2, 5))
        s4 = tuple(int(i) for i in rng.integers(1, 7, nd))
        y = rng.normal(size=s4) + 1j * rng.normal(size=s4)
        ax = [int(i) for i in rng.permutation(nd)[:2]]
        given = tuple(i - nd if rng.random() < 0.5 else i for i in ax)
        size = tuple(int(i) for i in rng.integers(1, 9, 2)) if rng.random() < 0.5 else None
        Z = np.moveaxis(y, ax, (0, 1))
        S = size or Z.shape[:2]
        cut = Z[: S[0], : S[1]]
        cut = np.pad(cut, [(0, S[0] - cut.shape[0]), (0, S[1] - cut.shape[1])] + [(0, 0)] * (nd - 2))
        e = [np.exp(-2j * np.pi * np.outer(np.arange(i), np.arange(i)) / i) for i in S]
        want = np.moveaxis(np.einsum("ai,bj,ij...->ab...", *e, cut) / (S[0] * S[1]), (0, 1), ax)
        m.close(to_np(fourier_transform(A(y), s=size, axes=given)), want, tol, "fft: transform along two axes", axes=given, size=size, given=s4)
        want = np.moveaxis(np.einsum("ai,bj,ij...->ab...", e[0].conj(), e[1].conj(), cut), (0, 1), ax)
        m.close(to_np(inverse_fourier_transform(A(y), s=size, axes=given)), want, tol, "fft: synthesis along two axes", scale=S[0] * S[1], axes=given, size=size, given=s4)
