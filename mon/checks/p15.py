"""parloop: ordered, exactly once, equal to the sequential loop, for every schedule."""
import os
import shutil
import tempfile
import threading
import time

import numpy as np

import nannos as nn

from .. import gen
from ..common import rng_for, to_np

LEVEL = "exploration"
RULE = (
    "functions decorated with parloop, 1 to 8 jobs, threads, processes and the default; items given as lists, tuples, "
    "arrays, generators and empty sequences, with further positional and keyword arguments; random delays and switch "
    "intervals force different completion orders; workloads are event-logged functions and grating simulations (sharing "
    "a lattice); some items raise; non-trivial: calls were observed to overlap or to complete out of order"
)
ASSUMPTIONS = ["thread workloads share only the lattice; Simulation objects are not shared between threads"]
MIN_EVENTS = {"order": 300, "once": 300, "error": 40, "overlap": 50, "sequential": 50, "process": 5}
MIN_NONTRIVIAL = 20
CASE_TIMEOUT = 250


def cases(tier, seed):
    n = 420 if tier == "quick" else 5000
    npro = 8 if tier == "quick" else 40
    out = []
    for i in range(n):
        rng = rng_for(seed, "P15", i)
        kind = str(rng.choice(["log", "log", "log", "error", "sim"]))
        prefer = str(rng.choice(["threads", "threads", "sequential"])) if kind != "log" or rng.random() < 0.8 else "threads"
        if i < npro:
            prefer = "processes"
            kind = ["log", "sim", "error", "log"][i % 4]
        out.append({
            "kind": kind, "prefer": prefer, "n": int(rng.integers(0, 40)) if prefer != "processes" else int(rng.integers(3, 14)),
            "n_jobs": int(rng.choice([1, 2, 3, 4, 8, -1])) if prefer != "processes" else 2 + i % 2,
            "as": str(rng.choice(["list", "tuple", "array", "generator", "array2d", "range"])), "seed": int(rng.integers(2**31)),
            "delay": float(rng.choice([0, 1e-4, 2e-3, 5e-3])) if prefer != "processes" else 0.01,
        })
    return out


class Boom(Exception):
    pass


def process_work(x, folder, a, k=1, bad=None):
    """Logs its call as a file, since it runs in another process."""
    fd, _ = tempfile.mkstemp(prefix=f"{float(np.ravel(x)[0])!r}_", dir=folder)
    os.close(fd)
    time.sleep(0.01 * ((hash(repr(x)) % 5)))
    if bad is not None and float(np.ravel(x)[0]) in bad:
        raise Boom(float(np.ravel(x)[0]))
    return np.ravel(x)[0] * a + k


def grating(wl, spec, lat=None):
    s = dict(spec, wl=float(wl))
    _, layers = gen.build_layers(nn, s, lat)
    sim = nn.Simulation(layers, gen.make_wave(nn, s), nh=s["nh"], formulation=s["formulation"])
    R, T = sim.diffraction_efficiencies(orders=True)
    return np.array([to_np(R), to_np(T)]), to_np(sim.get_field_fourier(1, 0.1))


def items_of(spec, vals):
    k = spec["as"]
    if k == "list":
        return list(vals)
    if k == "tuple":
        return tuple(vals)
    if k == "array":
        return np.array(vals)
    if k == "generator":
        return (v for v in vals)
    if k == "array2d":
        return np.array([[v, -v] for v in vals]).reshape(-1, 2)
    return range(len(vals))


def run_case(spec, m):
    rng = np.random.default_rng(spec["seed"])
    n = spec["n"]
    vals = [float(v) for v in rng.permutation(n) + 0.5]
    if spec["as"] == "range":
        vals = [float(v) for v in range(n)]
    m.note(spec["kind"], spec["prefer"], spec["n_jobs"], spec["as"], n, spec["seed"])
    kw = {"n_jobs": spec["n_jobs"]}
    if spec["prefer"] != "sequential":
        kw["prefer"] = spec["prefer"]
    else:
        kw["n_jobs"] = 1
    if spec["prefer"] == "processes":
        try:
            return processes(spec, m, rng, vals, kw)
        finally:  # idle workers of joblib would stay for minutes
            from joblib.externals.loky import get_reusable_executor

            get_reusable_executor().shutdown(wait=True, kill_workers=True)
    if spec["kind"] == "sim":
        return simulations(spec, m, rng, kw)
    delays = {v: float(rng.random() * spec["delay"]) for v in vals}
    bad = set()
    if spec["kind"] == "error" and n:
        bad = {vals[int(k)] for k in rng.integers(0, n, int(rng.integers(1, 3)))}
    lock = threading.Lock()
    log = []

    @nn.parloop(**kw)
    def work(x, a, b=2.0, scale=1.0):
        """doc"""
        v = float(np.ravel(x)[0])
        with lock:
            log.append(("call", v, threading.get_ident()))
        time.sleep(delays[v])
        if v in bad:
            raise Boom(v)
        with lock:
            log.append(("return", v, threading.get_ident()))
        return v * a + b * scale, v

    m.check(work.__name__ == "work" and work.__doc__ == "doc", "order: the decorated function keeps its name")
    import sys

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    try:
        try:
            it = items_of(spec, vals)
            # the same call, its arguments given in different ways
            res = [
                lambda: work(it, 3.0, 4.0, scale=0.5), lambda: work(it, 3.0, scale=0.5, b=4.0), lambda: work(it, scale=0.25, a=3.0, b=8.0),
                lambda: work(it, 3.0, scale=1.0), lambda: work(it, *(3.0,), **{"scale": 0.5, "b": 4.0}), lambda: work(it, 3.0, 4.0, 0.5),
            ][spec["seed"] % 6]()
            err = None
        except Boom as e:
            res, err = None, e
    finally:
        sys.setswitchinterval(old)
    if bad:
        m.check(err is not None, "error: an exception raised for an item is not swallowed", key="error swallowed", result=str(res)[:200])
        m.check(err is None or err.args[0] in bad, "error: the exception is that of the failing item")
    else:
        m.check(err is None, "error: no exception appears from nowhere")
    calls = [v for e, v, _ in log if e == "call"]
    m.check(len(set(calls)) == len(calls), "once: an item is evaluated at most once", calls=calls)
    if res is not None:
        m.check(sorted(calls) == sorted(vals), "once: every item is evaluated exactly once", calls=calls)
        m.check(len(res) == n and [r[1] for r in res] == vals, "order: results come in the order of the items", got=[r[1] for r in res], want=vals)
        m.check([r[0] for r in res] == [v * 3.0 + 2.0 for v in vals], "order: further arguments reach the function")
        m.count("order", n)
        m.count("once", n)
    # anything can be an item or a result
    pool = [None, 0, 0.0, False, True, "", "ab", b"", (), [], [1, 2], {}, {"a": 1}, float("nan"), 1 + 2j, np.zeros(2), np.array([]), np.array(3.0),
            object(), Ellipsis, NotImplemented, ValueError("an item"), ValueError, len, iter([1]), slice(1), frozenset(), nn.parloop]
    things = [pool[int(k)] for k in rng.integers(0, len(pool), int(rng.integers(1, 12)))]
    seen = []

    def same(x, func=None, n_jobs=None, items=None, args=None):
        seen.append(x)
        return x if func is None else (x, func, n_jobs, items, args)

    same = nn.parloop(**kw)(same)
    it = {"tuple": tuple, "generator": iter}.get(spec["as"], list)(things)
    if rng.random() < 0.5:
        got = same(it)
        m.check(len(got) == len(things) and all(a is b for a, b in zip(got, things)), "order: any object can be an item and a result", items=repr(things), got=repr(got))
    else:
        got = same(it, func=1, n_jobs=2, items=3, args=4)
        m.check(len(got) == len(things) and all(g[0] is b and g[1:] == (1, 2, 3, 4) for g, b in zip(got, things)), "order: any object can be an item, any name an argument", items=repr(things), got=repr(got))
    m.check(sorted(map(id, seen)) == sorted(map(id, things)), "once: every item is evaluated exactly once, whatever it is", items=repr(things), seen=repr(seen))
    done = [v for e, v, _ in log if e == "return"]
    open_, over = 0, 0
    for e, v, t in log:
        open_ += 1 if e == "call" else -1
        over = max(over, open_)
    if over > 1 and not bad:
        m.count("overlap")
    if done != sorted(done, key=vals.index):
        m.count("completed out of order")
    if over > 1 or done != calls[: len(done)] or len({t for *_, t in log}) > 1:
        m.nontrivial()
    m.note(done)


def simulations(spec, m, rng, kw):
    s = gen.rand_stack(rng, nh=(3, 12), formulations=("original",), n_inner=(1, 3), patterned=0.8, metal=False, thick=0)
    lat = gen.make_lattice(nn, s["lattice"])
    wls = [float(s["wl"] * f) for f in rng.uniform(0.7, 1.5, min(spec["n"], 10))]
    seen = []

    def one(wl, spec, lat=None):
        seen.append(threading.get_ident())
        return grating(wl, spec, lat)

    want = [grating(w, s) for w in wls]
    got = nn.parloop(**kw)(one)(wls, s, lat=lat)
    m.check(len(got) == len(wls), "sequential: as many results as items")
    for w, g, x in zip(wls, got, want):
        m.close(g[0], x[0], 1e-9, "sequential: efficiencies of the parallel loop equal the sequential ones", key="parallel differs")
        m.close(g[1], x[1], 1e-9, "sequential: fields of the parallel loop equal the sequential ones",
                scale=max(1, np.max(abs(x[1]))), key="parallel differs")
    if len(set(seen)) > 1:
        m.count("threads used", len(set(seen)))
        m.nontrivial()


def processes(spec, m, rng, vals, kw):
    if rng.random() < 0.5:
        kw.pop("prefer")
    m.count("process")
    if spec["kind"] == "sim":
        s = gen.rand_stack(rng, nh=(3, 9), formulations=("original",), n_inner=(1, 2), patterned=0.8, thick=0)
        wls = [float(s["wl"] * f) for f in rng.uniform(0.7, 1.5, 5)]
        got = nn.parloop(**kw)(grating)(wls, s)
        want = [grating(w, s) for w in wls]
        m.check(len(got) == len(wls), "sequential: as many results as items")
        for g, x in zip(got, want):
            m.close(g[0], x[0], 1e-9, "sequential: efficiencies of the parallel loop equal the sequential ones", key="parallel differs")
        m.nontrivial()
        return
    folder = tempfile.mkdtemp(prefix="verif-p15-")
    try:
        bad = [vals[1]] if spec["kind"] == "error" else None
        try:
            res, err = nn.parloop(**kw)(process_work)(items_of(spec, vals), folder, 3.0, k=0.5, bad=bad), None
        except Exception as e:  # the class is looked up in another process
            res, err = None, e
        calls = sorted(float(f.split("_")[0]) for f in os.listdir(folder))
        if bad:
            m.check(err is not None and type(err).__name__ == "Boom", "error: an exception raised for an item is not swallowed", key="error swallowed", got=repr(err))
        else:
            m.check(err is None, "error: no exception appears from nowhere", got=repr(err))
            m.check(calls == sorted(vals), "once: every item is evaluated exactly once", calls=calls)
            m.check(res is not None and [float(r) for r in res] == [v * 3.0 + 0.5 for v in vals], "order: results come in the order of the items")
        m.nontrivial()
    finally:
        shutil.rmtree(folder, ignore_errors=True)
