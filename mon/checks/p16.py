"""Adaptive sampler: invariants of the samples, call log and stopping rule."""
import numpy as np

import nannos as nn

from ..common import rng_for, using

LEVEL = "exploration"
RULE = (
    "random functions (smooth, resonant, steps, noise, flat, single and multiple outputs, as numbers, lists, tuples or arrays of every backend), random initial points (sorted "
    "or not, duplicated, uneven, 1 to 40 points) and thresholds, 1 or 2 jobs; every call of the function is logged; "
    "non-trivial: at least one point was added"
)
MIN_EVENTS = {"values": 1000, "once": 300, "stop": 1000, "initial": 300, "parallel": 2, "needed": 5000, "backends": 20}
CASE_TIMEOUT = 250


def cases(tier, seed):
    n = 900 if tier == "quick" else 14000
    npar = 3 if tier == "quick" else 16
    out = []
    for i in range(n):
        rng = rng_for(seed, "P16", i)
        out.append({
            "f": str(rng.choice(["smooth", "lorentz", "fano", "step", "noise", "flat", "linear", "kink", "multires"])),
            "npts": int(rng.choice([1, 2, 3, 4, 5, 10, 11, 25, 40])), "order": str(rng.choice(["sorted", "shuffled", "reversed", "duplicated"])),
            "spread": str(rng.choice(["even", "uneven", "clustered"])), "lo": float(rng.uniform(-5, 5)), "len": float(10 ** rng.uniform(-6, 4)),
            "max_bend": float(rng.choice([1, 5, 10, 30, 80])), "max_x_rel": float(rng.choice([1e-3, 3e-3, 1e-2, 0.1])),
            "max_df": float(rng.choice([0.01, 0.05, 0.3])), "out": int(rng.choice([0, 0, 1, 2, 5])), "seed": int(rng.integers(2**31)),
            "jobs": 2 if i < npar else 1, "defaults": bool(rng.random() < 0.2), "ylist": bool(rng.random() < 0.5),
            "backend": ["torch", "jax", "autograd", "scipy"][i // 30 % 4] if i % 30 == 7 else "numpy",
        })
    return out


def function(spec):
    """f(u) on the normalized abscissa."""
    rng = np.random.default_rng(spec["seed"])
    c, w = rng.random(6), 10 ** rng.uniform(-2.5, -0.5, 6)
    k, amp = spec["f"], float(10 ** rng.uniform(-6, 6))

    def f(u):
        if k == "smooth":
            v = np.sin(7 * u + c[0]) + 0.5 * np.cos(3 * u)
        elif k == "lorentz":
            v = w[0] ** 2 / ((u - c[0]) ** 2 + w[0] ** 2)
        elif k == "fano":
            e = (u - c[0]) / w[0]
            v = (e + 1) ** 2 / (1 + e**2)
        elif k == "step":
            v = float(u > c[0]) + 2.0 * (u > c[1])
        elif k == "noise":
            v = np.sin(1e7 * (u + c[0]))
        elif k == "flat":
            v = 1.0
        elif k == "linear":
            v = 2 * u - 1
        elif k == "kink":
            v = abs(u - c[0])
        else:
            v = sum(w[j] ** 2 / ((u - c[j]) ** 2 + w[j] ** 2) for j in range(6))
        return amp * float(v)

    return f


def initial(spec, rng):
    n = spec["npts"]
    if spec["spread"] == "even":
        u = np.linspace(0, 1, n) if n > 1 else np.array([0.0])
    elif spec["spread"] == "uneven":
        u = np.sort(rng.random(n))
    else:
        u = np.sort(0.5 + 0.5 * (rng.random(n) - 0.5) ** 3 * 8)
    x = spec["lo"] + spec["len"] * u
    if spec["order"] == "shuffled":
        x = rng.permutation(x)
    elif spec["order"] == "reversed":
        x = x[::-1]
    elif spec["order"] == "duplicated" and n > 1:
        x = np.append(x, x[int(rng.integers(n))])
    return x


def coarse(t, v, L, dy, xrel, df, bend, tol):
    """Whether three samples call for a refinement (tol > 0: surely not if False)."""
    (a, b, c), (p, q, r) = t, v
    if (b - a < xrel * L * (1 - tol) and c - b < xrel * L * (1 - tol)) or (abs(q - p) < df * dy * (1 - tol) and abs(r - q) < df * dy * (1 - tol)):
        return False
    loc = max(p, q, r) - min(p, q, r)
    v0 = np.array([(b - a) / (c - a), (q - p) / loc if loc else 0.0])
    v1 = np.array([(c - b) / (c - a), (r - q) / loc if loc else 0.0])
    ang = np.degrees(np.arccos(np.clip(v0 @ v1 / np.linalg.norm(v0) / np.linalg.norm(v1), -1, 1)))
    return bool(ang > bend - 1e-3 or max((b - a) / (c - b), (c - b) / (b - a)) > 3 * (1 - 1e-6))


def needed(m, log, x, y, base, xrel, df, bend):
    """Every point added must have been called for by the samples known before: a
    round of refinement starts after some prefix of the calls."""
    if len(log) != len(x) or len(y) != len(x) or len(log) > 400:
        return
    val = dict(zip(x.tolist(), [float(v) for v in y]))
    if set(log) != set(val):
        return
    n0 = len(base)
    if set(log[:n0]) != base:
        return  # not evaluated first: nothing to conclude from the order
    L = max(base) - min(base)
    for i in range(n0, len(log)):
        p, ok = log[i], False
        last = next((k for k in range(i - 1, n0 - 1, -1) if log[k] > log[k + 1]), n0 - 1) + 1
        for j in [last] + [k for k in range(i, n0 - 1, -1) if k != last]:
            g = np.sort(log[:j])
            k = int(np.searchsorted(g, p))
            if not 0 < k < len(g) or abs(g[k - 1] + g[k] - 2 * p) > 1e-6 * (g[k] - g[k - 1]) + 1e-14 * (abs(g[k]) + abs(g[k - 1])):
                continue
            vs = [val[u] for u in g.tolist()]
            dy = max(vs) - min(vs)
            if any(coarse(g[a : a + 3], vs[a : a + 3], L, dy, xrel, df, bend, 1e-9) for a in (k - 2, k - 1) if 0 <= a <= len(g) - 3):
                ok = True
                break
        m.count("needed")
        if not ok:
            m.fail("needed: an interval was divided although no criterion asks for it", x=p, thresholds=[xrel, df, bend], calls=log[: i + 1][-12:])
            return


def run_case(spec, m):
    if spec["backend"] == "numpy":
        return run(spec, m)
    with using(nn, spec["backend"]):
        run(spec, m)
    m.count("backends")


def run(spec, m):
    rng = np.random.default_rng(spec["seed"])
    g = function(spec)
    lo, ln, nout, aslist = spec["lo"], spec["len"], spec["out"], spec["ylist"]

    # how the outputs and the initial points are given
    how = np.random.default_rng([spec["seed"], 16])
    scalar = [float, float, np.float64, lambda v: np.array(v)][int(how.integers(4))]
    pack = [list, tuple][int(how.integers(2))] if aslist else np.array
    if spec["backend"] != "numpy" and how.random() < 0.7:
        # what a simulation returns
        def scalar(v):
            return nn.backend.array(v, dtype=nn.backend.complex128 if isinstance(v, complex) else nn.backend.float64)

        def pack(vs, seq=[list, tuple][int(how.integers(2))]):
            return seq(scalar(v) for v in vs)

    factor = 1 if how.random() < 0.7 else 1 + 2j  # only the first output has to be real
    given = [np.array, np.array, list, tuple][int(how.integers(4))]

    def value(x):
        v = g((x - lo) / ln)
        if nout == 0:
            return scalar(v)
        return pack([v] + [factor * (v * k + x) for k in range(1, nout)])

    log = []

    def f(x):
        log.append(float(x))
        if len(log) > 200000:
            raise RuntimeError("the sampler does not stop")
        return value(x)

    kw = {} if spec["defaults"] else {k: spec[k] for k in ("max_bend", "max_x_rel", "max_df")}
    bend = kw.get("max_bend", 10)
    xrel = kw.get("max_x_rel", 1e-3)
    df = kw.get("max_df", 0.05)
    x0 = initial(spec, rng)
    keep = x0.copy()
    x0 = given(x0)
    if spec["jobs"] > 1:
        want, wy = nn.adaptive_sampler(value, x0, **kw)
        try:
            x, y = nn.adaptive_sampler(value, x0, n_jobs=spec["jobs"], **kw)
        finally:
            from joblib.externals.loky import get_reusable_executor

            get_reusable_executor().shutdown(wait=True, kill_workers=True)
        m.check(np.array_equal(x, want) and np.array_equal(np.array(y), np.array(wy)), "parallel: same samples with several jobs")
        m.nontrivial()
        return
    x, y = nn.adaptive_sampler(f, x0, **kw)
    x, y = np.asarray(x), np.asarray(y)
    m.note(spec["f"], spec["npts"], spec["order"], spec["spread"], spec["out"], str(kw), spec["seed"])
    m.check(np.array_equal(keep, x0), "initial: the initial points are not modified")
    m.check(np.all(np.diff(x) > 0), "initial: samples are sorted and distinct")
    m.check(set(keep.tolist()) <= set(x.tolist()), "initial: the initial points are kept")
    m.check(x[0] == keep.min() and x[-1] == keep.max(), "initial: samples stay in the initial interval")
    m.check(y.shape == ((len(x),) if nout == 0 else (len(x), nout)), "values: one value per sample", got=y.shape, n=len(x))
    if len(y) == len(x):
        w = np.array([value(v) for v in x])
        m.count("values", len(x))
        if not np.array_equal(w, y):
            bad = int(np.argmax(np.any(np.reshape(w != y, (len(x), -1)), axis=1)))
            m.fail("values: a value is not that of its sample", x=x[bad], got=y[bad], expected=w[bad])
    m.check(sorted(log) == sorted(x.tolist()), "once: the function is evaluated exactly once per sample", calls=len(log), samples=len(x))
    # new points are midpoints and no interval below the threshold was divided
    L = x[-1] - x[0]
    new = sorted(set(x.tolist()) - set(keep.tolist()))
    base = np.unique(keep)
    for v in new:
        k = np.searchsorted(base, v)
        a, b = base[k - 1], base[k]
        t = (v - a) / (b - a)
        # dyadic fraction of an initial interval
        s, ok = t, False
        for _ in range(60):
            s = (2 * s) % 1.0
            if min(s, 1 - s) < 1e-4 * 2.0**_ * 1e-9 + 1e-6:
                ok = True
                break
        m.check(ok, "midpoint: a new sample does not bisect an interval", x=v)
    if len(new):
        d = np.diff(x)
        inserted = np.array([(x[i] in new or x[i + 1] in new) for i in range(len(d))]) if len(x) < 3000 else np.zeros(len(d), bool)
        if inserted.any():
            m.check(np.min(d[inserted]) >= 0.5 * xrel * L * (1 - 1e-6), "stop: an interval below the threshold was divided", smallest=np.min(d[inserted]) / L, max_x_rel=xrel)
        m.nontrivial()
    needed(m, log, x, np.real(y if nout == 0 else y[:, 0]), set(keep.tolist()), xrel, df, bend)
    # stopping rule, recomputed from the angles
    mon = np.real(y if nout == 0 else y[:, 0]).astype(float)
    if len(x) > 2 and len(mon) == len(x):
        dy = mon.max() - mon.min()
        for i in range(len(x) - 2):
            (a, b, c), (p, q, r) = x[i : i + 3], mon[i : i + 3]
            loc = max(p, q, r) - min(p, q, r)
            m.count("stop")
            fine = (b - a < xrel * L and c - b < xrel * L) or (abs(q - p) < df * dy and abs(r - q) < df * dy)
            if fine:
                continue
            v0 = np.array([(b - a) / (c - a), (q - p) / loc if loc else 0.0])
            v1 = np.array([(c - b) / (c - a), (r - q) / loc if loc else 0.0])
            ang = np.degrees(np.arccos(np.clip(v0 @ v1 / np.linalg.norm(v0) / np.linalg.norm(v1), -1, 1))) if loc else 0.0
            ratio = max((b - a) / (c - b), (c - b) / (b - a))
            if ang > bend + 1e-4 or ratio > 3 * (1 + 1e-6):
                m.fail("stop: refinement stopped although the criteria are not met", x=[a, b, c], angle=ang, ratio=ratio)
                break
