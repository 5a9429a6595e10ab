"""Log messages: every message at or above the level, once, and no influence on the results."""
import importlib
import io
import logging
import re
import sys

import numpy as np

import nannos as nn

from .. import gen
from ..common import rng_for, to_np

LEVEL = "exploration"
RULE = (
    "random histories of set_log_level (valid, repeated, unknown), backend, precision and device switches, followed by a "
    "workload (solve, fields, stress, optimization, rejected GPU) whose output streams are recorded, and compared with the "
    "complete record of the same workload at the DEBUG level; non-trivial: some messages are above the level and some below"
)
MIN_EVENTS = {"messages": 500, "silent": 50, "probe": 200, "unknown": 30, "results": 300}
CASE_TIMEOUT = 200
LEVELS = ["DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL"]
WEIGHT = [0.2, 0.35, 0.25, 0.1, 0.1]
BACKENDS = ["numpy", "scipy", "autograd", "torch"]


def cases(tier, seed):
    n = 220 if tier == "quick" else 3000
    out = []
    for i in range(n):
        rng = rng_for(seed, "P27", i)
        steps = []
        for _ in range(int(rng.integers(1, 9))):
            r = rng.random()
            if r < 0.5:
                steps.append(["level", str(rng.choice(LEVELS, p=WEIGHT))])
            elif r < 0.6:
                steps.append(["unknown", str(rng.choice(["VERBOSE", "", "TRACE", "ALL", "warn level"]))])
            elif r < 0.85:
                steps.append(["backend", str(rng.choice(BACKENDS))])
            elif r < 0.95:
                steps.append(["bits", bool(rng.random() < 0.4)])
            else:
                steps.append(["gpu"])
        out.append({"seed": int(rng.integers(2**31)), "steps": steps, "root": bool(rng.random() < 0.5), "final": str(rng.choice(LEVELS, p=WEIGHT)) if rng.random() < 0.5 else None,
                    "work": [str(v) for v in rng.choice(["solve", "fields", "stress", "again", "gpu", "uniform", "switch"], int(rng.integers(1, 5)))]})
    return out


ANSI = re.compile(r"\x1b\[[0-9;]*m")
NUM = re.compile(r"[-+]?\d+\.\d+(?:[eE][-+]?\d+)?s?|\b0x[0-9a-f]+\b")
LINE = re.compile(r"\s*(DEBUG|INFO|WARNING|ERROR|CRITICAL)\s*\|\s*(.*)$")


def parse(text):
    """[(level, message)] with the timings removed."""
    out = []
    for l in ANSI.sub("", text).splitlines():
        g = LINE.match(l)
        out.append((g.group(1), NUM.sub("#", g.group(2)).strip()) if g else ("?", l))
    return out


def workload(spec, bits):
    """Results and texts of the streams while the workload runs."""
    s = dict(spec["problem"])
    values = []
    sim = None
    for w in spec["work"]:
        if w == "gpu":
            if nn.get_backend() == "torch":
                nn.use_gpu(True)
                nn.use_gpu(False)
            continue
        if w == "switch":
            b = nn.get_backend()
            nn.set_backend("scipy" if b != "scipy" else "numpy")
            nn.set_backend(b)
            sim = None
            continue
        if w == "uniform":
            lat = nn.Lattice(((1.0, 0), (0, 1.0)), 8)
            u = nn.Simulation([lat.Layer("a"), lat.Layer("s", thickness=0.3, epsilon=2.0), lat.Layer("b")], nn.PlaneWave(1.2, (10.0, 20.0, 30.0)), 9)
            values += [to_np(v) for v in u.diffraction_efficiencies()]
            continue
        if sim is None or w == "solve":
            sim = gen.build(nn, s)
        if w == "fields":
            values.append(to_np(sim.get_field_grid(1, z=0.1 * s["layers"][1]["thickness"])))
        elif w == "stress":
            values += [to_np(v) for v in sim.get_z_stress_tensor_integral(1, 0.0)]
        else:
            values += [to_np(v) for v in sim.diffraction_efficiencies(orders=True)]
    return values


class Streams:
    """Streams seen by the code under test. The handlers are made with the stream of that moment."""

    def __enter__(self):
        self.old = sys.stderr, sys.stdout
        sys.stderr, sys.stdout = self.err, self.out = io.StringIO(), io.StringIO()
        # handlers that exist already and write to the same streams
        self.moved = []
        for lg in [logging.getLogger()] + [v for v in logging.root.manager.loggerDict.values() if isinstance(v, logging.Logger)]:
            for h in lg.handlers:
                if isinstance(h, logging.StreamHandler) and getattr(h, "stream", None) in self.old:
                    try:
                        old = h.setStream(self.err if h.stream is self.old[0] else self.out)
                        self.moved.append((h, old))
                    except AttributeError:  # the stream is looked up at each message
                        pass
        # records made, whatever the handlers do with them
        self.records = []
        self.factory = logging.getLogRecordFactory()

        def make(*a, **k):
            r = self.factory(*a, **k)
            if "nannos" in (r.pathname or ""):
                self.records.append((r.levelname, NUM.sub("#", r.getMessage()).strip()))
            return r

        logging.setLogRecordFactory(make)
        # a handler of the application on the same stream
        self.handler = logging.StreamHandler(self.err) if self.root else None
        if self.handler:
            logging.getLogger().addHandler(self.handler)
        return self

    def __init__(self, root):
        self.root = root

    def cut(self):
        e, o = self.err.getvalue(), self.out.getvalue()
        for f in (self.err, self.out):
            f.seek(0)
            f.truncate(0)
        r, self.records[:] = list(self.records), []
        return e, o, r

    def __exit__(self, *a):
        sys.stderr, sys.stdout = self.old
        for h, old in self.moved:
            h.setStream(old)
        logging.setLogRecordFactory(self.factory)
        if self.handler:
            logging.getLogger().removeHandler(self.handler)
        return False


def run_case(spec, m):
    rng = np.random.default_rng(spec["seed"])
    spec = dict(spec, problem=gen.rand_stack(rng, nh=(3, 7), oned=rng.random() < 0.4, n_inner=(1, 2), patterned=1.0, thick=0, zero=0))
    m.note(str(spec["steps"]), spec["final"], str(spec["work"]), spec["seed"])
    level = "WARNING"
    bits = False
    try:
        with Streams(spec["root"]) as st:
            nn.set_log_level("WARNING")
            for s in spec["steps"] + ([["level", spec["final"]]] if spec["final"] else []):
                if s[0] == "level":
                    nn.set_log_level(s[1])
                    level = s[1]
                elif s[0] == "unknown":
                    try:
                        nn.set_log_level(s[1])
                        ok = False
                    except Exception:
                        ok = True
                    m.check(ok, "unknown: an unknown level is refused", name=s[1])
                elif s[0] == "backend":
                    nn.set_backend(s[1])
                elif s[0] == "bits":
                    nn.use_32_bit(s[1])
                    bits = s[1]
                elif s[0] == "gpu":
                    if nn.get_backend() == "torch":
                        nn.use_gpu(True)
                        nn.use_gpu(False)
            st.cut()
            got = workload(spec, bits)
            err, out, rec = st.cut()
            # messages of every level through the logger itself
            for l in LEVELS:
                importlib.import_module("nannos.log").logger.log(getattr(logging, l), "probe of level %s", l)
            probe, _, _ = st.cut()
            nn.set_log_level("DEBUG")
            want = workload(spec, bits)
            err0, _, rec0 = st.cut()
    finally:
        nn.set_log_level("WARNING")
        nn.use_32_bit(False)
        nn.set_backend("numpy")
    for a, b in zip(got, want):
        m.close(a, b, 1e-3 if bits else 1e-9, "results: do not depend on the level", level=level)
    m.check(
        parse(probe) == [(l, f"probe of level {l}") for l in LEVELS[LEVELS.index(level):]], "probe: a message of each level is shown once, if it reaches the level",
        level=level, shown=probe, steps=spec["steps"], key="messages",
    )
    full = [(l, t) for l, t in parse(err0)]
    m.check(all(l != "?" for l, _ in full), "format: every line has a level and a message", lines=[t for l, t in full if l == "?"][:5])
    keep = [(l, t) for l, t in full if l in LEVELS and LEVELS.index(l) >= LEVELS.index(level)]
    seen = parse(err)
    m.count("messages", len(full))
    if not keep:
        m.count("silent")
    m.check(seen == keep, "messages: each message of the level or above is emitted exactly once", level=level, got=len(seen), want=len(keep),
            first=[v for v in zip(seen, keep) if v[0] != v[1]][:2], steps=spec["steps"])
    m.check(full == rec0, "messages: the debug level shows each message exactly once", shown=len(full), made=len(rec0), steps=spec["steps"])
    shown = [v for v in rec if LEVELS.index(v[0]) >= LEVELS.index(level)]
    m.check(seen == shown, "messages: each message made is shown exactly once", level=level, shown=len(seen), made=len(shown), steps=spec["steps"])
    m.check(out == "", "stdout: nothing is printed on the standard output", out=out[:300])
    if full and (keep or len(keep) < len(full)):
        m.nontrivial()
