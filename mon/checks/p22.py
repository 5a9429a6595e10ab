"""Invalid descriptions and requests are rejected, valid ones close to them are not, and nothing is left behind."""
import logging

import numpy as np

import nannos as nn

from .. import gen, hist
from ..common import Skip, rng_for, to_np, using

LEVEL = "exploration"
RULE = (
    "a random valid problem in one of the five backends is made invalid in one of 30 ways (formulation, names, thickness, "
    "permeability, truncation, layer identifiers, fields, components, orders, harmonics, resolution, lattices, anisotropic "
    "uniform layers, gradients, shapes, plots, log level); the call must raise the documented error, and the valid "
    "problem must still give the same answers afterwards; boundary cases that are valid must be accepted; non-trivial: an "
    "invalid request was made"
)
MIN_EVENTS = {"rejected": 400, "accepted": 300, "after": 300}
CASE_TIMEOUT = 120
V, NI, ANY = (ValueError,), (NotImplementedError,), (Exception,)
KINDS = [
    "formulation", "formulation1d", "names", "thickness", "mu", "truncation", "name", "ident", "range", "field", "component",
    "order", "orderlen", "unknown_order", "harmonics", "nyquist", "lattice", "aniso", "grad", "nh", "shapes1d", "tangent",
    "loglevel", "comp", "nper", "copyname", "range_S", "efield", "stress_ident", "eps_ident",
]


def cases(tier, seed):
    n = 900 if tier == "quick" else 9000
    out = []
    for i in range(n):
        rng = rng_for(seed, "P22", i)
        kind = KINDS[i % len(KINDS)]
        oned = rng.random() < 0.35
        if kind in ("formulation1d", "shapes1d"):
            oned = True
        if kind in ("order", "orderlen", "tangent", "lattice", "truncation"):
            oned = kind == "orderlen" and rng.random() < 0.4
        spec = gen.rand_stack(rng, nh=(2, 14), oned=oned, formulations=("original", "tangent") if oned else ("original", "tangent", "jones", "pol"),
                              n_inner=(1, 3), aniso=0.1, harmonics=0.2, patterned=0.8, copies=0.1, sup_thick=0.3)
        if oned:
            spec["formulation"] = "original"
        out.append({"kind": kind, "stack": spec, "seed": int(rng.integers(2**31)), "solved": bool(rng.random() < 0.5),
                    "backend": str(rng.choice(["numpy", "numpy", "numpy", "scipy", "autograd", "torch"]))})
    return out


def answers(sim):
    R, T = sim.diffraction_efficiencies(orders=True)
    return np.array([to_np(R), to_np(T)])


def run_case(spec, m):
    m.note(spec["kind"], spec["backend"], spec["solved"], *gen.describe(spec["stack"]))
    with using(nn, spec["backend"]):
        _run(spec, m)


def _run(case, m):
    spec, kind = case["stack"], case["kind"]
    rng = np.random.default_rng(case["seed"])
    oned = np.isscalar(spec["lattice"]["basis"])
    lat, layers = gen.build_layers(nn, spec)
    pw = gen.make_wave(nn, spec)
    sim = nn.Simulation(layers, pw, nh=spec["nh"], formulation=spec["formulation"])
    exp = answers(gen.build(nn, spec))
    if case["solved"]:
        m.close(answers(sim), exp, 1e-9, "before", event="after")
    arr = nn.backend.array
    names = [L.name for L in layers]

    def make(layers=layers, **kw):
        return nn.Simulation(layers, pw, nh=kw.pop("nh", spec["nh"]), formulation=kw.pop("formulation", spec["formulation"]), **kw)

    bad, good = [], []  # (label, errors, call), (label, call)
    if kind == "formulation":
        for f in ("Original", "", "unknown", None, "tangent ", 1):
            bad.append((repr(f), V, lambda f=f: make(formulation=f)))
        for f in ("original", "tangent") + (() if oned else ("jones", "pol")):
            good.append((f, lambda f=f: make(formulation=f)))
    elif kind == "formulation1d":
        for f in ("jones", "pol"):
            bad.append((f, V, lambda f=f: make(formulation=f)))
        for f in ("original", "tangent"):
            good.append((f, lambda f=f: make(formulation=f)))
    elif kind == "names":
        i, j = rng.choice(len(layers), 2, replace=False)

        def dup():
            new = gen.build_layers(nn, spec, lat)[1]
            new[int(i)].name = new[int(j)].name
            return make(new)

        bad.append(("same names", V, dup))
        bad.append(("same layer twice", V, lambda: make(layers[:1] + layers[1:2] + layers[1:])))

        def other():
            new = gen.build_layers(nn, spec, lat)[1]
            for k, L in enumerate(new):
                L.name = names[k] + ("" if k else "x") if k % 2 else names[k].upper() + names[k] + str(k)
            return make(new)

        good.append(("different names", other))
    elif kind == "thickness":
        for t in (-1, -1e-12, -float(rng.random()), float("-inf")):
            bad.append((t, V, lambda t=t: lat.Layer("x", thickness=t)))
            bad.append((t, V, lambda t=t: nn.layers.Layer("x", thickness=t)))
        for t in (0, 0.0, 1e-12, None, 3, -0.0):
            good.append((t, lambda t=t: lat.Layer("x", thickness=t)))
    elif kind == "mu":
        for mu in (2, 0, 1.0001, 1 + 1e-3j, -1):
            bad.append((mu, NI, lambda mu=mu: lat.Layer("x", thickness=1, mu=mu)))
        for mu in (1, 1.0, 1 + 0j):
            good.append((mu, lambda mu=mu: lat.Layer("x", thickness=1, mu=mu)))
    elif kind == "truncation":
        for t in ("Circular", "", "rectangular", None, "parallelogramic"):
            bad.append((t, V, lambda t=t: nn.Lattice(spec["lattice"]["basis"], discretization=8, truncation=t)))
            bad.append((t, V, lambda t=t: nn.Lattice(1.0, discretization=8, truncation=t)))
        for t in ("circular", "parallelogrammic"):
            good.append((t, lambda t=t: nn.Lattice(spec["lattice"]["basis"], discretization=8, truncation=t).get_harmonics(3)))
            good.append((t, lambda t=t: nn.Lattice(1.0, discretization=8, truncation=t).get_harmonics(3)))
    elif kind in ("name", "ident", "range"):
        wrong = {"name": ["nope", "", names[0] + " ", names[-1].swapcase() + "_"], "ident": [1.0, None, 0j, (0,), {}],
                 "range": [len(layers), len(layers) + 3, -len(layers) - 1]}[kind]
        err = {"name": V, "ident": V, "range": (IndexError,)}[kind]
        for w in wrong:
            for fn in (sim.get_layer, sim.get_layer_by_name, sim.get_field_fourier, sim.get_field_grid, sim.get_epsilon, sim.get_z_stress_tensor_integral):
                bad.append((f"{fn.__name__}({w!r})", err, lambda fn=fn, w=w: fn(w)))
        for k in range(-len(layers), len(layers)):
            good.append((k, lambda k=k: m.check(sim.get_layer(k)[0] is sim.layers[k] and sim.get_layer(k)[1] == k % len(layers), f"accepted: layer {k}")))
        for k in range(len(layers)):
            good.append((k, lambda k=k: m.check(sim.get_layer(names[k]) == (sim.layers[k], k) and sim.get_layer(sim.layers[k]) == (sim.layers[k], k)
                                                and sim.get_layer_by_name(names[k]) is sim.layers[k], f"accepted: layer {names[k]}")))
    elif kind in ("stress_ident", "eps_ident"):
        fn = sim.get_z_stress_tensor_integral if kind == "stress_ident" else sim.get_epsilon
        for w in ("nope", 1.5, None, len(layers)):
            bad.append((f"{fn.__name__}({w!r})", ANY, lambda w=w: fn(w)))
        good.append(("name", lambda: fn(names[1])))
    elif kind == "field":
        for f in ("e", "EH", "", None, "D", "x"):
            bad.append((repr(f), V, lambda f=f: sim.get_field_grid(1, field=f)))
        for f in ("all", "E", "H"):
            good.append((f, lambda f=f: sim.get_field_grid(1, field=f)))
    elif kind in ("component", "efield"):
        fns = (sim.get_field_grid,) if kind == "component" else (sim.get_Efield_grid, sim.get_Hfield_grid)
        for f in ("X", "xy", "", None, "E", 0):
            for fn in fns:
                bad.append((repr(f), V, lambda f=f, fn=fn: fn(1, component=f)))
        for f in ("all", "x", "y", "z"):
            for fn in fns:
                good.append((f, lambda f=f, fn=fn: fn(1, component=f)))
    elif kind == "order":
        for o in (0, 1, 0.0, None):
            bad.append((repr(o), V, lambda o=o: sim.get_order_index(o)))
            bad.append((repr(o), V, lambda o=o: sim.get_order(exp[0], o)))
        for o in ((0, 0), [0, 0], np.array([0, 0])):
            good.append((repr(o), lambda o=o: sim.get_order_index(o)))
    elif kind == "orderlen":
        for o in ((0,), (0, 0, 0), [0, 0, 1], ()):
            bad.append((repr(o), V, lambda o=o: sim.get_order_index(o)))
        good.append(("(0, 0)", lambda: sim.get_order_index((0, 0))))
        if oned:
            good.append(("0", lambda: m.check(sim.get_order_index(0) == sim.get_order_index((0, 0)), "accepted: integer order")))
    elif kind == "unknown_order":
        h = to_np(sim.harmonics).astype(int)
        have = set(map(tuple, h.T.tolist()))
        M = int(abs(h).max())
        todo = [(M + 1, 0), (-M - 1, 0), (0, M + 1), (1000, 1000)] + [(a, b) for a in range(-M, M + 1) for b in range(-M - 1, M + 2)]
        for o in todo:
            if o not in have:
                bad.append((repr(o), ANY, lambda o=o: sim.get_order_index(o)))
        if oned and sim.nh > 1:
            bad.append((repr(M + 1), ANY, lambda: sim.get_order_index(M + 1)))
        bad = bad[:12]
        for o in have:
            good.append((repr(o), lambda o=o: m.check(tuple(h[:, sim.get_order_index(o)]) == o, "accepted: index of an order")))
    elif kind == "harmonics":
        if oned:
            hs = [[[1, 2, -1], [0, 0, 0]], [[-1], [0]], [[1, -1], [0, 0]]]
        else:
            hs = [[[1, 0, -1], [0, 1, 0]], [[0, 0], [1, -1]], [[1, -1, 1, -1], [1, 1, -1, -1]]]
        uni = bool(rng.random() < 0.4)
        for h in hs:
            for sign in (0, 1):
                hh = np.array(h) if not sign else np.concatenate([h, [[0], [0]]], axis=1)

                def build(hh=hh):
                    l2 = nn.Lattice(spec["lattice"]["basis"], discretization=tuple(spec["lattice"]["disc"]) if not np.isscalar(spec["lattice"]["disc"]) else spec["lattice"]["disc"], harmonics_array=arr(hh))
                    e = l2.ones() * 2
                    lay = l2.Layer("g", thickness=0.2)
                    e[: e.shape[0] // 2] = 3
                    lay.epsilon = e if not uni else lay.epsilon
                    s = nn.Simulation([l2.Layer("sup"), lay, l2.Layer("sub", epsilon=2)], pw, nh=4)
                    return answers(s)

                if min(gen.shape_of(spec)[: 1 if oned else 2]) <= 4:
                    raise Skip("too coarse")
                if sign:
                    good.append((hh.tolist(), build))
                else:
                    bad.append((hh.tolist(), V, build))
    elif kind == "nyquist":
        h = to_np(sim.harmonics).astype(int)
        M = int(abs(h).max())
        if M == 0:
            raise Skip("one harmonic")
        base = {**spec["lattice"], "harmonics": h.tolist()}
        ok = 2 * M + 1

        def build(d):
            l2 = gen.make_lattice(nn, {**base, "disc": d})
            lay = l2.Layer("g", thickness=0.2)
            e = l2.ones() * 2
            e[0] = 4
            lay.epsilon = e
            return nn.Simulation([l2.Layer("sup"), lay, l2.Layer("sub", epsilon=2)], pw, nh=spec["nh"])

        for d in ([[ok - 1, 1], [max(ok - 2, 1), 1]] if oned else [[ok - 1, ok + 9], [ok + 9, ok - 1], [ok - 1, ok - 1], [M + 1, 4 * M + 2]]):
            bad.append((d, V, lambda d=d: build(d)))
        for d in ([[ok, 1], [ok + 1, 1]] if oned else [[ok, ok], [ok, ok + 5], [ok + 5, ok]]):
            good.append((d, lambda d=d: build(d)))
    elif kind == "lattice":
        b = np.array(spec["lattice"]["basis"])
        for other in ((b * 1.1).tolist(), spec["lattice"]["basis"]):
            l2 = gen.make_lattice(nn, {**spec["lattice"], "basis": other})
            i = int(rng.integers(len(layers)))
            new = list(layers)
            new[i] = l2.Layer("other", thickness=0.1)
            bad.append(("other lattice", ANY, lambda new=new: make(new)))
    elif kind == "aniso":
        e = np.diag([2.0, 3.0, 4.0])

        def build(e):
            lay = lat.Layer("u", thickness=0.2)
            lay.epsilon = arr(e, dtype=nn.get_types()[1])
            s = nn.Simulation([lat.Layer("sup"), lay, lat.Layer("sub", epsilon=2)], pw, nh=spec["nh"])
            return answers(s)

        bad.append(("uniform tensor", ANY, lambda: build(e)))
    elif kind == "grad":
        for b in ("numpy", "scipy"):
            def g(b=b):
                nn.set_backend(b)
                return nn.grad(lambda x: x**2)(nn.backend.array([1.0]))
            bad.append((b, NI, g))
    elif kind == "nh":
        l2 = gen.make_lattice(nn, {**spec["lattice"], "harmonics": None})
        for nh in (2.5, 3.999, 1e-3 + 7):
            bad.append((nh, V, lambda nh=nh: l2.get_harmonics(nh)))
        for nh in (1, 4, 4.0, np.int64(4)):
            good.append((nh, lambda nh=nh: l2.get_harmonics(nh)))
    elif kind == "shapes1d":
        l2 = nn.Lattice(1.0, 32)
        for name, a in (("circle", ((0.5, 0.5), 0.2)), ("ellipse", ((0.5, 0.5), (0.2, 0.1))), ("square", ((0.5, 0.5), 0.2)),
                        ("rectangle", ((0.5, 0.5), (0.2, 0.1))), ("polygon", ([(0, 0), (0.5, 0), (0.5, 0.5)],))):
            if not hasattr(nn.Lattice(((1.0, 0.0), (0.0, 1.0)), 16), name):
                continue
            bad.append((name, V, lambda name=name, a=a: getattr(l2, name)(*a)))
            good.append((name, lambda name=name, a=a: getattr(nn.Lattice(((1.0, 0.0), (0.0, 1.0)), 16), name)(*a)))
        good.append(("stripe", lambda: l2.stripe(0.5, 0.2)))
    elif kind == "tangent":
        def build(t, f):
            l2 = gen.make_lattice(nn, spec["lattice"])
            lay = l2.Layer("g", thickness=0.2, tangent_field_type=t)
            e = l2.ones() * 2
            e[:2, :2] = 4
            lay.epsilon = e
            s = nn.Simulation([l2.Layer("sup"), lay, l2.Layer("sub", epsilon=2)], pw, nh=spec["nh"], formulation=f)
            return answers(s)
        for f in ("tangent", "jones", "pol"):
            bad.append((f, V, lambda f=f: build("nope", f)))
            good.append((f, lambda f=f: build("fft", f)))
    elif kind == "loglevel":
        level = nn.logger.level
        for l in ("debug", "", "ALL", 10, None):
            bad.append((repr(l), ANY, lambda l=l: nn.set_log_level(l)))
        good.append(("level", lambda: m.check(nn.logger.level == level, "accepted: level unchanged by a rejected one")))
    elif kind in ("comp", "nper"):
        import matplotlib.pyplot as plt

        lay = next((L for L in layers if not L.is_uniform and not L.is_epsilon_anisotropic), None)
        if lay is None or case["backend"] == "torch":
            raise Skip("nothing to plot")
        _, ax = plt.subplots()
        if kind == "comp":
            for c in ("real", "", "RE", None):
                bad.append((repr(c), V, lambda c=c: lay.plot(ax=ax, comp=c)))
            for c in ("re", "im"):
                good.append((c, lambda c=c: lay.plot(ax=ax, comp=c)))
        else:
            for c in (2.5, (1, 2, 3), (1,), "abc"):
                bad.append((repr(c), V, lambda c=c: lay.plot(ax=ax, nper=c)))
            for c in (1, 2, (1, 2), [2, 1]):
                good.append((repr(c), lambda c=c: lay.plot(ax=ax, nper=c)))
    elif kind == "copyname":
        lay = layers[1]
        bad.append(("copy of the same name", V, lambda: make(layers[:1] + [lay, lay.copy(name=lay.name)] + layers[2:])))
        bad.append(("two default copies", V, lambda: make(layers[:1] + [lay, lay.copy(), lay.copy()] + layers[2:])))
        good.append(("copy", lambda: make(layers[:1] + [lay, lay.copy(), lay.copy(name="another one")] + layers[2:])))
    elif kind == "range_S":
        n = len(layers)
        for r in ([0, n], [0, n + 2], [n - 1, n]):
            bad.append((r, ANY, lambda r=r: sim.get_S_matrix(r)))
        good.append(("full", lambda: sim.get_S_matrix([0, n - 1])))
    else:
        raise Skip(kind)
    for label, errors, call in bad:
        m.nontrivial()
        try:
            call()
        except errors:
            m.count("rejected")
        except Exception as e:
            m.fail(f"rejected: {kind} {label}: {type(e).__name__} instead of {errors[0].__name__}", key=f"rejected {kind}", error=repr(e)[:300])
        else:
            m.fail(f"rejected: {kind}: {label} was accepted", key=f"rejected {kind}")
        finally:
            if nn.get_backend() != case["backend"]:
                nn.set_backend(case["backend"])
    for label, call in good:
        try:
            call()
            m.count("accepted")
        except Exception as e:
            m.fail(f"accepted: {kind}: {label} was rejected: {e!r}"[:300], key=f"accepted {kind}")
    if kind in ("comp", "nper"):
        import matplotlib.pyplot as plt

        plt.close("all")
    if kind == "grad":
        return
    # the valid problem is still there
    m.close(answers(sim), exp, 1e-9, "after: the valid simulation gives the same answers", event="after")
    sim2 = nn.Simulation(layers, pw, nh=spec["nh"], formulation=spec["formulation"])
    m.close(answers(sim2), exp, 1e-9, "after: a simulation of the same layers gives the same answers", event="after")
    m.check([L.name for L in layers] == names, "after: names", event="after")
