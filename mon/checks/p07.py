"""Truncation of the harmonics: membership oracle over the reciprocal lattice."""
import numpy as np

import nannos as nn

from .. import gen
from ..common import Skip, rng_for, to_np

LEVEL = "exploration"
RULE = (
    "random lattices (1D, square to strongly skewed, left handed, rotated, rescaled), requested numbers of harmonics "
    "from 1 to 400, both truncation schemes and user given sets, sorted or not, directly and through a Simulation; "
    "non-trivial: more than one harmonic kept"
)
ASSUMPTIONS = ["lattices with reciprocal vectors whose squared lengths differ by a relative 1e-12..1e-7 are skipped (ties are ambiguous)"]
MIN_EVENTS = {"circular": 500, "parallelogrammic": 300, "1D": 200, "user": 100, "simulation": 300}


def cases(tier, seed):
    n = 6000 if tier == "quick" else 90000
    out = []
    for i in range(n):
        rng = rng_for(seed, "P07", i)
        kind = str(rng.choice(["circular", "circular", "circular", "parallelogrammic", "1D", "user"]))
        nh = int(rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 13, 25, 49, 100])) if rng.random() < 0.5 else int(rng.integers(1, 401 if rng.random() < 0.2 else 80))
        if i % 40 == 7:
            nh = int(rng.integers(401, 2600 if kind == "parallelogrammic" else 1200))
        basis = gen.rand_basis(rng)
        r = rng.random()
        if r < 0.25:  # skewed description of the same kind of lattice
            a, b = np.array(basis)
            basis = [a.tolist(), (b + int(rng.integers(-3, 4)) * a).tolist()]
        elif r < 0.45:
            basis = [(np.array(basis[0]) * rng.uniform(1, 6)).tolist(), basis[1]]
        elif r < 0.5:
            basis = (np.array(basis) * 10 ** rng.uniform(-9, 6)).tolist()
        elif r < 0.55:
            basis = [[int(rng.integers(1, 4)), 0], [int(rng.integers(-2, 3)), int(rng.integers(1, 4))]]
        out.append({"kind": kind, "nh": nh, "basis": basis if kind != "1D" and not (kind == "user" and rng.random() < 0.4) else abs(float(np.array(basis)[0, 0])) + 0.1,
                    "sort": bool(rng.random() < 0.5), "sim": bool(rng.random() < 0.4), "seed": int(rng.integers(2**31)),
                    "pat": bool(rng.random() < 0.8)})
    return out


def circular_oracle(m, spec, got, n):
    b = np.array(spec["basis"], float)
    r = 2 * np.pi * np.linalg.inv(b.T).T  # columns: reciprocal vectors
    L = np.linalg.norm(r @ got, axis=0)
    Lmax = L.max()
    # radius that surely contains one more shell
    R = Lmax + np.linalg.norm(r, axis=0).max()
    ext = np.ceil(R * np.linalg.norm(np.linalg.inv(r), axis=1)).astype(int) + 1
    if (2 * ext[0] + 1) * (2 * ext[1] + 1) > 4e5:
        raise Skip("too large")
    g = np.array(np.meshgrid(np.arange(-ext[0], ext[0] + 1), np.arange(-ext[1], ext[1] + 1), indexing="ij")).reshape(2, -1)
    l2 = np.sum((r @ g) ** 2, axis=0)
    u2 = np.sum(r**2, axis=0).max()
    s = np.sort(l2[l2 <= R**2 * 1.0001]) / u2
    d = np.diff(s)
    if np.any((d > 1e-12) & (d < 1e-7)):
        raise Skip("nearly degenerate shells")
    inside = {tuple(v) for v in g[:, l2 <= Lmax**2 + 1e-9 * u2].T.tolist()}
    kept = {tuple(v) for v in got.T.tolist()}
    m.check(inside == kept, "circular: a harmonic no longer than the longest one kept is missing", nh=spec["nh"],
            missing=sorted(inside - kept)[:4], extra=sorted(kept - inside)[:4])
    m.check(n <= max(1, spec["nh"]), "circular: more harmonics than requested", n=n)
    nxt = s[s > Lmax**2 / u2 + 1e-9][0]
    shell = int(np.sum(np.abs(s - nxt) < 1e-9))
    m.check(n + shell >= spec["nh"], "circular: a whole shell that fits in the requested number is left out", n=n, shell=shell)


def structure(m, got, n):
    m.check(got.shape == (2, n), "shape: harmonics are returned as (2, nh) with the number kept", shape=got.shape, n=n)
    m.check(np.all(got == np.round(got)), "shape: harmonics are integers")
    cols = [tuple(v) for v in got.T.tolist()]
    m.check(len(set(cols)) == len(cols), "duplicates: harmonics are distinct")
    m.check(cols.count((0, 0)) == 1, "zeroth: the zeroth order is kept exactly once")
    m.check(set(cols) == {(-a, -b) for a, b in cols}, "inversion: the set is symmetric by inversion")


def run_case(spec, m):
    rng = np.random.default_rng(spec["seed"])
    kind, nh = spec["kind"], spec["nh"]
    b = spec["basis"]
    oned = np.isscalar(b)
    m.note(kind, nh, np.round(np.array(b), 6).tolist(), spec["sort"])
    kw = {}
    if kind == "user":
        h = np.array(gen.rand_harmonics(rng, max(2, nh % 30), oned))
        kw["harmonics_array"] = nn.backend.array(h)
        if rng.random() < 0.5:
            kw["truncation"] = "parallelogrammic"
    elif not oned:
        kw["truncation"] = kind
    basis = b if oned else tuple(tuple(v) for v in b)
    lat = nn.Lattice(basis, discretization=8, **kw)
    G, n = lat.get_harmonics(nh, sort=spec["sort"])
    n = int(n)
    G = to_np(G)
    G0, n0 = lat.get_harmonics(nh)
    G0 = to_np(G0)
    m.check(int(n0) == n and sorted(map(tuple, G.T.tolist())) == sorted(map(tuple, G0.T.tolist())),
            "sort: sorting does not change the set of harmonics")
    if spec["sort"]:
        m.check(np.all(np.diff(G[0]) >= 0), "sort: sorted by first index")
    if kind == "user":
        m.check(np.array_equal(G0, h), "user: a set given by the user is used as it is", got=G0, given=h)
    else:
        structure(m, G, n)
    if kind == "circular":
        circular_oracle(m, spec, G, n)
    elif kind == "parallelogrammic":
        M = int(np.max(np.abs(G)))
        want = {(i, j) for i in range(-M, M + 1) for j in range(-M, M + 1)}
        m.check(set(map(tuple, G.T.tolist())) == want, "parallelogrammic: all pairs of indices up to the same bound")
        m.check((2 * M + 1) ** 2 <= nh < (2 * M + 3) ** 2, "parallelogrammic: largest odd square not above the request", M=M, nh=nh)
    elif kind == "1D":
        M = int(np.max(np.abs(G[0])))
        m.check(set(map(tuple, G.T.tolist())) == {(i, 0) for i in range(-M, M + 1)}, "1D: contiguous symmetric orders")
        m.check(2 * M + 1 <= nh < 2 * M + 3, "1D: largest odd number not above the request", M=M, nh=nh)
    if spec["sim"] and n < 130:
        mx = int(np.max(np.abs(G)))
        N = 2 * mx + 1 + int(rng.integers(0, 3))
        N = max(N, 4)
        lat = nn.Lattice(basis, discretization=N, **kw)
        eps = lat.ones() * 2.0
        eps[: N // 2] = 3.0
        lays = [lat.Layer("a"), lat.Layer("s", thickness=0.1, epsilon=eps if spec["pat"] else 2.0), lat.Layer("b")]
        scale = 1.0 if oned else float(np.max(np.abs(np.array(b))))
        pw = nn.PlaneWave(1.234 * scale, (20, 30, 40))
        sim = nn.Simulation(lays, pw, nh=nh)
        H = to_np(sim.harmonics)
        want = G if (spec["pat"] or kind == "user") else np.array([[0], [0]])
        m.check(sim.nh == H.shape[1] == want.shape[1] and sorted(map(tuple, H.T.tolist())) == sorted(map(tuple, want.T.tolist())),
                "simulation: uses the truncated set (or the zeroth order if all layers are uniform)", nh=sim.nh, pat=spec["pat"])
        i0 = sim.index_zeroth_order
        m.check(tuple(H[:, i0]) == (0, 0), "simulation: index of the zeroth order")
        bm = np.array([[b, 0], [0, 1.0]]) if oned else np.array(b, float)
        r = 2 * np.pi * np.linalg.inv(bm.T).T
        k = to_np(sim.k0para).real[:, None] + r @ H
        m.close(to_np(sim.kx), k[0], 1e-9, "simulation: wavevectors", scale=np.max(np.abs(k)) + 1e-300)
        m.close(to_np(sim.ky), k[1], 1e-9, "simulation: wavevectors", scale=np.max(np.abs(k)) + 1e-300)
        if n > 1 and (spec["pat"] or kind == "user"):
            # too coarse for these harmonics: refused
            N = int(rng.integers(max(3, mx), 2 * mx + 1)) if 2 * mx >= 4 and mx >= 2 else 2
            lat = nn.Lattice(basis, discretization=N, **kw)
            eps = lat.ones() * 2.0
            eps[: N // 2] = 3.0
            lays = [lat.Layer("a"), lat.Layer("s", thickness=0.1, epsilon=eps if N != 3 else 2.0), lat.Layer("b")]
            if N != 3 and N <= 2 * mx:
                try:
                    nn.Simulation(lays, pw, nh=nh)
                    ok = False
                except ValueError:
                    ok = True
                m.check(ok, "simulation: a discretization below the Nyquist criterion is refused", N=N, mx=mx)
    if n > 1:
        m.nontrivial()
