"""Shared machinery: verdicts, case runner, evidence, replays, known findings.

A check is a module mon/checks/<id>.py with

    LEVEL  = "exploration"
    RULE   = how cases are made and what makes one non-trivial
    def cases(tier, seed)  -> list of JSON-able specs
    def run_case(spec)     -> None, using a Monitor `m` passed as second argument

Verdicts are three-valued: violated (exit 1), held on what was observed (exit 0),
inconclusive (exit 3: the deciding monitors did not observe enough).
"""
import hashlib
import json
import os
import signal
import sys
import time
import traceback
from concurrent.futures import ProcessPoolExecutor, as_completed
from concurrent.futures.process import BrokenProcessPool
from multiprocessing import get_context

import numpy as np

from .env import VERIF

EVID = os.environ.get("VERIF_EVIDENCE") or os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known_findings.txt")


class CaseTimeout(BaseException):
    pass


class HarnessError(Exception):
    """The harness itself is wrong: never reported as a violation."""


class Skip(Exception):
    """The generated case is outside of the property's domain."""


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.floating,)):
        return float(x)
    if isinstance(x, (complex, np.complexfloating)):
        return {"re": float(x.real), "im": float(x.imag)}
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist())
    if isinstance(x, (np.bool_,)):
        return bool(x)
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)


def to_np(x):
    """Array of any backend -> numpy."""
    if hasattr(x, "detach"):
        x = x.detach().cpu().resolve_conj().resolve_neg().numpy()
    if isinstance(x, (list, tuple)):
        return np.array([to_np(v) for v in x])
    return np.asarray(x)


class Monitor:
    """Collects what one case observed: monitor events, violations, signature."""

    def __init__(self, spec):
        self.spec = spec
        self.events = {}
        self.violations = []
        self.sig = []
        self.trivial = True
        self.margins = {}

    def count(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + int(n)

    def note(self, *items):
        """Adds to the signature used for counting distinct cases."""
        self.sig.extend(str(i) for i in items)

    def nontrivial(self):
        self.trivial = False

    def fail(self, what, key=None, **detail):
        self.violations.append(
            {"what": what, "key": key or what.split(":")[0], "detail": jsonable(detail)}
        )

    def check(self, cond, what, key=None, event=None, **detail):
        self.count(event or what.split(":")[0])
        if not bool(cond):
            self.fail(what, key, **detail)
            return False
        return True

    def close(self, a, b, tol, what, scale=None, key=None, event=None, **detail):
        """|a-b| <= tol*scale elementwise; scale defaults to max(1, |b|_max)."""
        a, b = to_np(a), to_np(b)
        ev = event or what.split(":")[0]
        self.count(ev, max(1, a.size))
        if a.shape != b.shape:
            self.fail(f"{what}: shape {a.shape} instead of {b.shape}", key, **detail)
            return False
        if a.size == 0:
            return True
        if not np.all(np.isfinite(np.abs(a))):
            self.fail(f"{what}: not finite", key, got=a.ravel()[:8], **detail)
            return False
        if scale is None:
            scale = max(1.0, float(np.max(np.abs(b))))
        err = np.abs(a - b) / scale
        e = float(np.max(err))
        self.margins[ev] = max(self.margins.get(ev, 0.0), e / tol if tol else e)
        if not e <= tol:
            i = int(np.argmax(err))
            self.fail(
                f"{what}: differs by {e:.3g} (tolerance {tol:.3g})",
                key or ev,
                index=[int(v) for v in np.unravel_index(i, a.shape)],
                got=a.ravel()[i],
                expected=b.ravel()[i],
                **detail,
            )
            return False
        return True


def _alarm(signum, frame):
    raise CaseTimeout()


def run_one(module, spec, timeout):
    """Runs one case in this process; returns a plain dict."""
    m = Monitor(spec)
    t0 = time.time()
    status = "ok"
    err = None
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, timeout)
    try:
        with np.errstate(all="ignore"):
            module.run_case(spec, m)
    except CaseTimeout:
        status = "timeout"
    except Skip as e:
        status = "skip"
        err = str(e)
    except HarnessError:
        status = "harness"
        err = traceback.format_exc()
    except MemoryError:
        status = "harness"
        err = traceback.format_exc()
    except Exception as e:
        m.fail(
            f"exception: {type(e).__name__}: {str(e)[:200]}",
            key=f"exception {type(e).__name__}",
            traceback=traceback.format_exc()[-3000:],
        )
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
    sig = hashlib.sha1("|".join(m.sig).encode()).hexdigest() if m.sig else hashlib.sha1(
        json.dumps(jsonable(spec), sort_keys=True).encode()
    ).hexdigest()
    return {
        "status": status,
        "err": err,
        "events": m.events,
        "violations": m.violations,
        "trivial": m.trivial,
        "sig": sig,
        "margins": m.margins,
        "wall": time.time() - t0,
    }


_MODULE = None
_TIMEOUT = 60.0


def _work(item):
    i, spec = item
    return i, run_one(_MODULE, spec, _TIMEOUT)


def load_known(prop):
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if not line or line.startswith("#") or line.startswith("fixed:"):
                continue
            # finding: property=<id> key=<key> -- text
            if line.startswith("finding:"):
                head, _, text = line[len("finding:") :].partition("--")
                d = dict(kv.split("=", 1) for kv in head.split())
                if d.get("property") == prop:
                    out.append({"key": d["key"], "text": text.strip(), "seen": 0})
    return out


def run_check(prop, module, tier, seed, t0, jobs=None, extra=None):
    """Runs all cases of a check and returns the exit code."""
    global _MODULE, _TIMEOUT
    _MODULE = module
    _TIMEOUT = float(getattr(module, "CASE_TIMEOUT", 120))
    budget = float(
        getattr(module, "BUDGET", {}).get(tier, 240 if tier == "quick" else 720)
    )
    jobs = jobs or getattr(module, "JOBS", 8)
    specs = module.cases(tier, seed)
    results = {}
    broken = None
    if jobs == 1:
        for i, s in enumerate(specs):
            if time.time() - t0 > budget:
                break
            results[i] = run_one(module, s, _TIMEOUT)
    else:
        ctx = get_context("fork")
        try:
            with ProcessPoolExecutor(jobs, mp_context=ctx) as ex:
                futs = []
                it = iter(enumerate(specs))
                done = False
                pending = set()
                while True:
                    while not done and len(pending) < 3 * jobs:
                        if time.time() - t0 > budget:
                            done = True
                            break
                        try:
                            pending.add(ex.submit(_work, next(it)))
                        except StopIteration:
                            done = True
                    if not pending:
                        break
                    for f in as_completed(list(pending)):
                        i, r = f.result()
                        results[i] = r
                        pending.discard(f)
                        break
        except BrokenProcessPool as e:
            broken = repr(e)
    return conclude(prop, module, tier, seed, t0, specs, results, broken)


def conclude(prop, module, tier, seed, t0, specs, results, broken=None):
    known = load_known(prop)
    nstat = {}
    events = {}
    margins = {}
    sigs = set()
    viol = []
    nontriv = 0
    harness = []
    for i in sorted(results):
        r = results[i]
        nstat[r["status"]] = nstat.get(r["status"], 0) + 1
        for k, v in r["events"].items():
            events[k] = events.get(k, 0) + v
        for k, v in r["margins"].items():
            margins[k] = max(margins.get(k, 0), v)
        if r["status"] == "harness":
            harness.append((i, r["err"]))
        if not r["trivial"] and r["status"] == "ok":
            nontriv += 1
            sigs.add(r["sig"])
        for v in r["violations"]:
            viol.append((i, v))
    unlisted = []
    for i, v in viol:
        for k in known:
            if k["key"] == v["key"].replace(" ", "_"):
                k["seen"] += 1
                break
        else:
            unlisted.append((i, v))
    os.makedirs(os.path.join(EVID, "replays"), exist_ok=True)
    lines = []
    bycase = {}
    for i, v in unlisted:
        bycase.setdefault(i, []).append(v)
    seen_keys = {}
    for i, vs in bycase.items():
        key = vs[0]["key"]
        seen_keys[key] = seen_keys.get(key, 0) + 1
        if seen_keys[key] > 3 or len(lines) >= 12:
            continue
        path = os.path.join(EVID, "replays", f"{prop}-{tier}-{seed}-{i}.json")
        with open(path, "w") as f:
            json.dump(
                {"property": prop, "spec": jsonable(specs[i]), "violations": vs},
                f,
                indent=1,
            )
        lines.append((path, vs[0]["what"]))
    min_events = getattr(module, "MIN_EVENTS", {})
    incon = []
    if broken:
        incon.append(f"worker pool broke: {broken}")
    for i, e in harness[:3]:
        incon.append(f"harness error in case {i}: {e}")
    for k, n in min_events.items():
        if events.get(k, 0) < n:
            incon.append(f"monitor '{k}' observed {events.get(k, 0)} < {n} events")
    min_nt = getattr(module, "MIN_NONTRIVIAL", 1)
    if nontriv < min_nt:
        incon.append(f"only {nontriv} non-trivial cases (< {min_nt})")
    if nstat.get("timeout", 0) > max(1, 0.2 * len(results)):
        incon.append(f"{nstat['timeout']} cases timed out")
    pick = sorted(results)
    samples = [jsonable(specs[i]) for i in pick[:1] + pick[len(pick) // 2 : len(pick) // 2 + 1] + pick[-1:]]
    for s in samples:
        for k in list(s) if isinstance(s, dict) else []:
            if len(json.dumps(s[k])) > 4000:
                s[k] = json.dumps(s[k])[:4000] + "..."
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": getattr(module, "LEVEL", "exploration"),
        "coverage": {
            "evaluations": len(results),
            "distinct_nontrivial": len(sigs),
            "rule": module.RULE,
            "samples": samples,
            "planned": len(specs),
            "status": nstat,
            "monitor_events": events,
            "worst_error_over_tolerance": {k: round(v, 6) for k, v in margins.items()},
        },
        "assumptions": getattr(module, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(bycase),
    }
    with open(os.path.join(EVID, f"{prop}.json"), "w") as f:
        json.dump(jsonable(ev), f, indent=1)
    for k in known:
        if k["seen"]:
            print(f"KNOWN-FINDING: property={prop} {k['text']} ({k['seen']} observations)")
    for path, what in lines:
        print(f"  {what}")
        print(f"VIOLATION property={prop} replay={path}")
    tot = sum(events.values())
    print(
        f"{prop} {tier} seed={seed}: {len(results)}/{len(specs)} cases, "
        f"{len(sigs)} distinct non-trivial, {tot} monitor events, status {nstat}, "
        f"{len(bycase)} violating, {time.time() - t0:.1f}s"
    )
    if lines:
        return 1
    if incon:
        for s in incon:
            print(f"INCONCLUSIVE: {s}")
        return 3
    return 0


def rng_for(seed, prop, i):
    h = int(hashlib.sha1(prop.encode()).hexdigest()[:8], 16)
    return np.random.default_rng([int(seed), h, int(i)])


def replay(prop, module, path):
    spec = json.load(open(path))["spec"]
    r = run_one(module, spec, 1e6)
    print(json.dumps(jsonable({k: r[k] for k in ("status", "err", "violations", "events", "margins")}), indent=1))
    for v in r["violations"]:
        print(v["what"])
        print(v["detail"].get("traceback", "") if isinstance(v["detail"], dict) else "")
    if r["violations"]:
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    return 0 if r["status"] == "ok" else 3


class using:
    """Context: run with a numerical backend and precision, and go back to numpy."""

    def __init__(self, nn, backend, bits32=False):
        self.nn, self.backend, self.bits32 = nn, backend, bits32

    def __enter__(self):
        self.nn.set_backend(self.backend)
        if self.bits32:
            self.nn.use_32_bit(True)
        return self.nn

    def __exit__(self, *a):
        if self.bits32:
            self.nn.use_32_bit(False)
        self.nn.set_backend("numpy")
        return False
