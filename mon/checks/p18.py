"""TopologyOptimizer: monitors over the log of objective evaluations and callbacks."""
import contextlib
import io

import numpy as np

import nannos as nn

from ..common import rng_for, to_np, using

LEVEL = "exploration"
RULE = (
    "random optimizations (quadratic, linear, non convex, multimodal, level dependent, saturated at the bounds, and "
    "gratings) with scipy and nlopt, autograd and torch, random thresholds, iterations, stop values, arguments, "
    "starting points in and on the bounds; every objective evaluation and callback is logged; non-trivial: at least two "
    "levels, three evaluations and a decrease of the objective"
)
ASSUMPTIONS = ["deterministic objectives"]
MIN_EVENTS = {"bounds": 1000, "value": 300, "descent": 300, "levels": 300, "callback": 1000, "stop": 50, "args": 300, "chain": 150, "optimum": 60, "compose": 200, "reuse": 60, "gradient": 1000, "options": 300}
CASE_TIMEOUT = 200
NLOPT_TOLS = ["ftol_rel", "xtol_rel", "ftol_abs", "xtol_abs"]
KINDS = ["quadratic", "linear", "cosine", "rosenbrock", "level", "quartic", "saturated"]


def cases(tier, seed):
    n = 700 if tier == "quick" else 9000
    out = []
    for i in range(n):
        rng = rng_for(seed, "P18", i)
        kind = str(rng.choice(KINDS))
        if i % 25 == 3:
            kind = "grating"
        lo = int(rng.integers(0, 3))
        spec = {
            "kind": kind, "method": str(rng.choice(["scipy", "nlopt"])), "backend": str(rng.choice(["autograd", "torch"])),
            "nvar": int(rng.integers(1, 12)) if kind != "rosenbrock" else int(rng.integers(2, 6)), "seed": int(rng.integers(2**31)),
            "threshold": [lo, lo + int(rng.integers(1, 5))], "maxiter": int(rng.choice([1, 2, 3, 5, 10, 40])),
            "stop": str(rng.choice(["none", "none", "none", "reachable", "immediate", "never"])),
            "args": str(rng.choice(["none", "one", "more", "list"])), "x0": str(rng.choice(["random", "random", "zeros", "ones", "half"])),
            "callback": bool(rng.random() < 0.85), "as": str(rng.choice(["numpy", "backend"])),
            "options": str(rng.choice(["none", "none", "empty", "tol", "one", "one"])), "reuse": bool(rng.random() < 0.2), "long": bool(rng.random() < 0.25), "again": bool(rng.random() < 0.2),
        }
        if kind == "grating":
            spec.update(nvar=11, maxiter=3, threshold=[0, 2], reuse=False)
        elif i % 25 == 8 and kind != "level":
            lo = int(rng.integers(6, 10))
            spec.update(threshold=[lo, lo + int(rng.integers(1, 4))])
        if i % 12 == 5:
            spec.update(kind="offset", method="nlopt", options="one", maxiter=200, stop="none", long=False)
        if spec["long"] and kind in ("quadratic", "linear", "level", "saturated"):
            spec.update(maxiter=150, stop="none", options="none")
        out.append(spec)
    return out


def objective(spec):
    rng = np.random.default_rng(spec["seed"])
    n, kind = spec["nvar"], spec["kind"]
    c = rng.uniform(-0.5, 1.5, n)
    a = rng.uniform(0.3, 4.0, n)
    off = float(rng.uniform(-1, 1))
    ph = rng.uniform(0, 6, n)
    best = None
    if kind in ("quadratic", "level", "saturated", "offset"):
        if kind == "saturated":
            c = rng.choice([-0.8, 1.7], n)
        if kind == "offset":
            off = 1e3

        def f(x, level, extra=0.0, scale=1.0):
            k = 1 + 0.1 * level if kind == "level" else 1.0
            d = 0.02 * level if kind == "level" else 0.0  # the optimum moves with the level
            return nn.backend.sum(nn.array(a) * (x - nn.array(c) - d) ** 2) * k * scale + off + extra

        best = np.clip(c + (0.02 * 2 ** (spec["threshold"][1] - 1) if kind == "level" else 0.0), 0, 1)
    elif kind == "linear":
        s = a * rng.choice([-1, 1], n)

        def f(x, level, extra=0.0, scale=1.0):
            return nn.backend.sum(nn.array(s) * x) * scale + off + extra

        best = (s < 0).astype(float)
    elif kind == "cosine":

        def f(x, level, extra=0.0, scale=1.0):
            return nn.backend.sum(nn.backend.cos(nn.array(a) * 2 * x * (1 + 0.2 * level) + nn.array(ph))) * scale + off + extra

    elif kind == "rosenbrock":

        def f(x, level, extra=0.0, scale=1.0):
            y = 2 * x - 0.5
            return nn.backend.sum(10 * (y[1:] - y[:-1] ** 2) ** 2 + (1 - y[:-1]) ** 2) * scale + off + extra

    elif kind == "quartic":

        def f(x, level, extra=0.0, scale=1.0):
            p = nn.optimize.project(x, level, 0.5)
            return nn.backend.sum((p - nn.array(np.clip(c, 0, 1))) ** 4 + 0.1 * nn.array(a) * p) * scale + off + extra

    else:

        def f(x, level, extra=0.0, scale=1.0):
            lat = nn.Lattice(1.0, discretization=n)
            rho = nn.optimize.project(x, level, 0.5)
            p = lat.Layer("p", thickness=0.35)
            p.epsilon = nn.backend.reshape(nn.optimize.simp(rho, 1.0, 4.0, 1), (n, 1)) * (1 + 0j)
            sim = nn.Simulation([lat.Layer("a"), p, lat.Layer("b", epsilon=2.0)], nn.PlaneWave(0.81, (17.0, 0, 25.0)), nh=5)
            R, T = sim.diffraction_efficiencies()
            return R * scale + off + extra

    return f, best


def shifted(f, by):
    return lambda *a, **k: f(*a, **k) - by


def plain(f):
    """The objective without the log."""
    return lambda x, *a: f(x, *a)


@contextlib.contextmanager
def solver(m, spec, opts):
    """Watch the settings of the nlopt solver when it starts."""
    if spec["method"] != "nlopt":
        yield
        return
    import nlopt

    base = nlopt.opt

    class Watched(base):
        def optimize(self, *a):
            for k in NLOPT_TOLS:
                got = np.max(getattr(self, "get_" + k)())
                want = (opts or {}).get(k)
                if want is None:
                    m.check(got <= 0, "options: no tolerance other than those asked", option=k, got=got)
                else:
                    m.check(abs(got - want) <= 1e-12, "options: a tolerance given by the user reaches the solver", option=k, got=got, want=want)
            for k in opts or {}:
                if k not in NLOPT_TOLS:
                    m.check(self.get_param(k, -1) == opts[k], "options: a parameter given by the user reaches the solver", option=k, got=self.get_param(k, -1), want=opts[k])
            return base.optimize(self, *a)

    nlopt.opt = Watched
    try:
        yield
    finally:
        nlopt.opt = base


def compose(spec, m, rng, f, x0, kw, given, xopt, fopt):
    """Levels are optimized in sequence: running them in two batches is the same."""
    lo, hi = spec["threshold"]
    if hi - lo < 2:
        return
    mid = int(rng.integers(lo + 1, hi))
    opts = None if given is None else dict(given)
    first = nn.optimize.TopologyOptimizer(plain(f), x0.copy(), **{**kw, "threshold": (lo, mid), "options": opts})
    x1, f1 = first.minimize()
    second = nn.optimize.TopologyOptimizer(plain(f), to_np(x1).copy(), **{**kw, "threshold": (mid, hi), "options": opts})
    x2, f2 = second.minimize()
    m.close(x2, xopt, 1e-9, "compose: levels in two batches, optimum", levels=(lo, mid, hi))
    m.close(f2, fopt, 1e-9, "compose: levels in two batches, value", scale=max(1.0, abs(float(to_np(fopt)))))


def reuse(spec, m, rng, f, x0, opt, kw, given):
    """Settings changed on an optimizer are those of the next run, as in a new optimizer."""
    new = {**kw, "options": None if given is None else dict(given)}
    x = x0.copy()
    for name in rng.permutation(["maxiter", "stopval", "threshold", "x0"])[: int(rng.integers(1, 3))]:
        name = str(name)
        if name == "maxiter":
            new["maxiter"] = opt.maxiter = int(rng.choice([1, 2, 8, 25]))
        elif name == "stopval":
            new["stopval"] = opt.stopval = None
        elif name == "threshold":
            new["threshold"] = opt.threshold = (0, int(rng.integers(1, 3)))
        else:
            x = np.clip(rng.random(x0.size), 0.05, 0.95)
            opt.x0 = x.copy()
    xa, fa = opt.minimize()
    xb, fb = nn.optimize.TopologyOptimizer(plain(f), x, **new).minimize()
    m.close(xa, xb, 1e-9, "reuse: changed settings apply to the next run, optimum")
    m.close(fa, fb, 1e-9, "reuse: changed settings apply to the next run, value", scale=max(1.0, abs(float(to_np(fb)))))


def run_case(spec, m):
    m.note(*[spec[k] for k in ("kind", "method", "backend", "nvar", "threshold", "maxiter", "stop", "args", "x0", "seed")])
    with using(nn, spec["backend"]):
        body(spec, m)


def body(spec, m):
    rng = np.random.default_rng(spec["seed"] + 5)
    f, best = objective(spec)
    n = spec["nvar"]
    x0 = {"random": rng.random(n), "zeros": np.zeros(n), "ones": np.ones(n), "half": np.full(n, 0.5)}[spec["x0"]]
    if spec["x0"] == "half" or spec["kind"] == "grating":
        x0 = 0.5 + 0.1 * rng.uniform(-1, 1, n)
    args, extra = None, ()
    if spec["args"] == "one":
        args = (1,)
    elif spec["args"] == "more":
        extra = (float(rng.uniform(-1, 1)), float(rng.uniform(0.5, 2)))
        args = (1,) + extra
    elif spec["args"] == "list":
        extra = (float(rng.uniform(-1, 1)),)
        args = [7] + list(extra)
    keep = None if args is None else list(args)
    levels = [2**i for i in range(*spec["threshold"])]
    val = lambda x, lev: float(to_np(f(nn.array(np.asarray(x, float)), lev, *extra)))
    f00 = val(x0, levels[0])
    stop = {"none": None, "never": f00 - 1e6, "immediate": f00 + 1.0}.get(spec["stop"], "r")
    if stop == "r":
        stop = min(val(rng.random(n), levels[0]) for _ in range(4))
        stop = min(stop, f00 - 1e-3)
    if stop is not None and spec["seed"] % 3 == 0:
        # zero is a stop value as any other one
        f = shifted(f, stop)
        f00, stop = f00 - stop, [0, 0.0][spec["seed"] % 2]
    log, calls, grads, kept = [], [], [], []

    def fun(x, *a):
        y = f(x, *a)
        if hasattr(y, "_value") or getattr(y, "requires_grad", False):
            # called for the gradient
            v = x._value if hasattr(x, "_value") else x.detach()
            grads.append((to_np(v).copy(), tuple(a)))
            return y
        log.append((to_np(x).copy(), float(to_np(y)), tuple(a)))
        return y

    def callback(x, y, *a):
        kept.append((x, to_np(x).copy()))
        calls.append((to_np(x).copy(), float(to_np(y)), tuple(a), len(log)))

    x_in = nn.array(x0.copy()) if spec["as"] == "backend" else x0.copy()
    opts = {"none": None, "empty": {}, "tol": {"ftol": 1e-4} if spec["method"] == "scipy" else {"ftol_rel": 1e-4}}.get(spec["options"])
    if spec["options"] == "one":
        if spec["method"] == "nlopt":
            opts = {str(rng.choice(NLOPT_TOLS)): float(rng.choice([1e-2, 1e-3, 1e-5]))}
            if rng.random() < 0.3:
                opts = {"inner_maxeval": int(rng.integers(5, 50)), **(opts if rng.random() < 0.5 else {})}
            if spec["kind"] == "offset":
                opts = {str(rng.choice(["xtol_rel", "xtol_abs", "ftol_abs"])): 1e-5}
        else:
            opts = [{"ftol": 1e-12}, {"gtol": 1e-9}, {"maxfun": int(rng.integers(1, 6))}, {"maxls": 30}][rng.integers(4)]
    given = None if opts is None else dict(opts)
    kw = dict(
        method=spec["method"], threshold=tuple(spec["threshold"]), maxiter=spec["maxiter"], stopval=stop, args=args, options=opts,
    )
    opt = nn.optimize.TopologyOptimizer(fun, x_in, callback=callback if spec["callback"] else None, verbose=False, **kw)
    with contextlib.redirect_stdout(io.StringIO()), solver(m, spec, opts):
        xopt, fopt = opt.minimize()
        if spec["again"]:  # the same optimizer again, from the same point
            n1 = len(log)
            x2, f2 = opt.minimize()
            m.close(x2, xopt, 1e-9, "value: minimizing again gives the same optimum")
            m.close(f2, fopt, 1e-9, "value: minimizing again gives the same value", scale=max(1, abs(fopt)))
            log, calls = log[:n1], calls[: len(calls) // 2]
        compose(spec, m, rng, f, x0, kw, given, xopt, fopt)
        iterations = opt.current_iteration
        if spec["reuse"]:
            snap = list(log), list(calls), list(grads)
            reuse(spec, m, rng, f, x0, opt, kw, given)
            log, calls, grads = snap
    m.check(given is None or (opts == given), "args: the options given by the user are not modified", got=opts, want=given)
    for x, was in kept:
        m.check(np.array_equal(to_np(x), was), "callback: designs kept by the callback do not change afterwards")
    xopt, fopt = to_np(xopt), float(to_np(fopt))
    # what the objective was asked
    m.check(to_np(x_in).tobytes() == x0.tobytes(), "args: the starting point given by the user is not modified")
    m.check(keep is None or list(args) == keep, "args: the arguments given by the user are not modified")
    for x, y, a in log:
        m.check(x.shape == (n,) and x.min() >= 0 and x.max() <= 1, "bounds: variables stay in [0, 1]", x=x)
        m.check(tuple(a[1:]) == tuple(extra), "args: arguments are passed unchanged", got=a)
    seen = {(x.tobytes(), a) for x, y, a in log}
    for x, a in grads:
        m.check((x.tobytes(), a) in seen, "gradient: taken at an evaluated point, with the level and arguments of that evaluation", got=a)
    got_levels = []
    for x, y, a in log:
        if not got_levels or got_levels[-1] != a[0]:
            got_levels.append(a[0])
    if not m.check(got_levels == levels, "levels: projection levels are 2^i, in order, each used", got=got_levels, want=levels):
        return
    if not spec["again"]:
        m.check(iterations == len(log), "callback: iterations counted", got=iterations, want=len(log))
    if spec["callback"]:
        m.check(len(calls) == len(log), "callback: called once per evaluation", calls=len(calls), evaluations=len(log))
        for k, ((x, y, a), (cx, cy, ca, when)) in enumerate(zip(log, calls)):
            m.check(np.array_equal(x, cx) and y == cy and a == ca, "callback: arguments are those of the evaluation", evaluation=k)
    m.check(xopt.shape == (n,) and xopt.min() >= 0 and xopt.max() <= 1, "bounds: optimum in [0, 1]", x=xopt)
    eps = 1e-9 * max(1.0, abs(fopt))
    m.check(abs(val(xopt, levels[-1]) - fopt) <= eps, "value: the value returned is the objective at the optimum", fopt=fopt, f=val(xopt, levels[-1]))
    start = x0
    for lev in levels:
        evs = [(x, y) for x, y, a in log if a[0] == lev]
        m.close(evs[0][0], np.clip(start, 0, 1), 1e-12, "chain: a level starts from the optimum of the previous one", level=lev)
        ys = [y for _, y in evs]
        if stop is not None:
            below = [k for k, y in enumerate(ys) if y < stop]
            m.check(not below or below == [len(ys) - 1], "stop: a level ends as soon as the stop value is reached", level=lev, values=ys, stop=stop)
        if spec["method"] == "nlopt":
            m.check(len(evs) <= spec["maxiter"], "levels: evaluations of a level are limited", got=len(evs), max=spec["maxiter"])
        else:
            if given and "maxfun" in given:
                m.check(len(evs) <= 22 + given["maxfun"], "options: evaluations limited by the options", got=len(evs), options=given)
            m.check(len(evs) <= 25 * (spec["maxiter"] + 1), "levels: evaluations of a level are limited", got=len(evs), max=spec["maxiter"])
        if lev == levels[-1]:
            e1 = 1e-9 * max(1.0, abs(ys[0]))
            m.check(fopt <= ys[0] + e1, "descent: the optimum is not worse than the start", fopt=fopt, first=ys[0])
            m.check(fopt >= min(ys) - e1, "value: the optimum has been evaluated", fopt=fopt, best=min(ys))
            hit = any(np.allclose(x, xopt, rtol=0, atol=1e-12) for x, _ in evs)
            m.check(hit, "value: the optimum is an evaluated point")
            if stop is not None and min(ys) < stop:
                m.check(fopt < stop, "stop: the value returned when the stop value is reached", fopt=fopt, stop=stop)
        else:
            # the point handed to the next level is one of the best
            nxt = [x for x, y, a in log if a[0] == 2 * lev][0]
            cand = [y for x, y in evs if np.allclose(x, nxt, rtol=0, atol=1e-12)]
            if m.check(bool(cand), "chain: the next level starts from an evaluated point", level=lev):
                m.check(min(cand) <= ys[0] + 1e-9 * max(1.0, abs(ys[0])), "descent: a level does not hand over a point worse than its start", level=lev)
            start = nxt
    if spec["kind"] == "offset" and spec["args"] != "more":
        m.check(np.abs(xopt - best).max() < 0.05, "optimum: converges within the tolerance asked", got=xopt, want=best, options=given)
    elif best is not None and spec["maxiter"] >= 100 and spec["stop"] == "none":
        fb = val(best, levels[-1])
        m.check(fopt <= fb + 2e-3 * abs(f00 - fb) + 1e-5, "optimum: converges to the minimum of a convex objective", fopt=fopt, best=fb, start=f00)
    if len(levels) > 1 and len(log) >= 3 and fopt < f00 - 1e-9:
        m.nontrivial()
