"""Representations of the diffraction orders: totals, arrays, dictionaries, single orders, complex amplitudes."""
import numpy as np

import nannos as nn

from .. import gen, ref
from ..common import Skip, rng_for, to_np, using

LEVEL = "exploration"
RULE = (
    "random stacks (1D/2D, user harmonics, all formulations; numpy, scipy, autograd and torch); efficiencies and complex "
    "amplitudes asked as totals, arrays, dictionaries and single orders, the latter compared with the order of the "
    "independent reference that has these indices; non-trivial: a patterned layer and at least two orders"
)
ASSUMPTIONS = ["|amplitude|^2 = efficiency is judged for lossless end layers"]
MIN_EVENTS = {"total": 500, "dict": 500, "order": 500, "physical": 500, "modulus": 300, "unknown": 100, "int": 100}


def cases(tier, seed):
    n = 2000 if tier == "quick" else 18000
    out = []
    for i in range(n):
        rng = rng_for(seed, "P24", i)
        oned = rng.random() < 0.45
        form = ("original", "tangent") if oned else ("original", "original", "original", "tangent", "jones", "pol")
        spec = gen.rand_stack(rng, nh=(1, 18), oned=oned, formulations=form, n_inner=(1, 3), metal=rng.random() < 0.2,
                              aniso=0.1, harmonics=0.3, patterned=0.75, sup_thick=0.5, sub_lossy=0.15)
        if i % 50 == 7:  # many orders
            spec = gen.rand_stack(rng, nh=(60, 120), oned=bool(rng.random() < 0.3), n_inner=(1, 2), patterned=1.0)
        spec["backend"] = str(rng.choice(["numpy", "numpy", "numpy", "scipy", "autograd", "torch"]))
        spec["flip"] = bool(rng.random() < 0.5)
        out.append(spec)
    return out


def run_case(spec, m):
    m.note(spec["backend"], *gen.describe(spec))
    with using(nn, spec["backend"]):
        _run(spec, m)


def _run(spec, m):
    sim = gen.build(nn, spec)
    ref.spy(sim)
    ask = sim.diffraction_efficiencies
    if spec["flip"]:  # complex first
        rc, tc = [to_np(v) for v in ask(orders=True, complex=True)]
        R, T = [to_np(v) for v in ask(orders=True)]
    else:
        R, T = [to_np(v) for v in ask(orders=True)]
        rc, tc = [to_np(v) for v in ask(orders=True, complex=True)]
    h = [tuple(int(v) for v in c) for c in to_np(sim.harmonics).T]
    n = len(h)
    if not m.check(R.shape == (n,) and T.shape == (n,), "shape: one efficiency per harmonic", R=R.shape) or not m.check(
        rc.shape == (3, n) and tc.shape == (3, n), "shape: three complex amplitudes per harmonic", r=rc.shape):
        return
    m.check(len(set(h)) == n and (0, 0) in h, "shape: harmonics are distinct and include (0, 0)")
    tol = 1e-10
    Rt, Tt = [to_np(v) for v in ask()]
    m.close(Rt, R.sum(), tol, "total: R is the sum over the orders")
    m.close(Tt, T.sum(), tol, "total: T is the sum over the orders")
    rt, tt = [to_np(v) for v in ask(complex=True)]
    m.close(rt, rc.sum(axis=1), tol, "total: complex R is the sum over the orders", scale=max(1, np.abs(rc).max()))
    m.close(tt, tc.sum(axis=1), tol, "total: complex T is the sum over the orders", scale=max(1, np.abs(tc).max()))
    a, b = [to_np(v) for v in ask(return_dict=True)]
    m.close(a, Rt, tol, "total: return_dict has no effect on the totals")
    m.close(b, Tt, tol, "total: return_dict has no effect on the totals")
    for cpx, X in ((False, (R, T)), (True, (rc, tc))):
        D = ask(orders=True, complex=cpx, return_dict=True)
        for d, x, nm in zip(D, X, ("R", "T")):
            keys = {(i, j) for i in d for j in d[i]}
            m.check(keys == set(h), f"dict: the keys of {nm} are the harmonics", missing=list(set(h) - keys), extra=list(keys - set(h)))
            m.check(all(type(i) is int and type(j) is int for i, j in keys), "dict: the keys are integers")
            for k, (i, j) in enumerate(h):
                m.close(d[i][j], x[..., k], tol, f"dict: entry of {nm} is that of the array", scale=max(1, np.abs(x).max()), order=[i, j], complex=cpx)
    # single orders, and their physical meaning
    try:
        r, r2 = ref.with_sensitivity(spec, sim, gen)
        eR, eT = r.efficiencies()
        eR2, eT2 = r2.efficiencies()
    except np.linalg.LinAlgError:
        raise Skip("reference is singular")
    rtol = 1e-6 * max(1.0, r.condition() / 1e4) + 1e4 * float(max(np.abs(eR - eR2).max(), np.abs(eT - eT2).max()))
    zero = h.index((0, 0))
    m.check(int(sim.get_order_index((0, 0))) == zero, "order: index of the zeroth order")
    for k, o in enumerate(h):
        m.check(int(sim.get_order_index(o)) == k, "order: get_order_index", order=o)
        m.close(sim.get_order(ask(orders=True)[1] if k == 0 else T, o), T[k], tol, "order: get_order", order=o)
        m.close(sim.get_order(ask(orders=True, complex=True)[0] if k == 0 else rc, o), rc[:, k], tol, "order: get_order of complex amplitudes", scale=max(1, np.abs(rc).max()), order=o)
        m.close(sim.get_order(list(R), list(o)), R[k], tol, "order: get_order of a list", order=o)
        if spec["lattice"]["basis"].__class__ is float and o[1] == 0:
            m.check(int(sim.get_order_index(o[0])) == k, "int: order of a 1D grating as an integer", order=o)
        if rtol < 1e-3:
            rk = int(np.nonzero((r.h[0] == o[0]) & (r.h[1] == o[1]))[0][0])
            m.close(R[k], eR[rk], rtol, "physical: reflected order", order=o)
            m.close(T[k], eT[rk], rtol, "physical: transmitted order", order=o)
    for o in [(97, 0), (0, 83), (-61, 5)]:
        try:
            sim.get_order_index(o)
            m.fail("unknown: no error for an order that is not in the harmonics", order=o)
        except (KeyError, ValueError, IndexError):
            m.count("unknown")
    if spec["lattice"]["basis"].__class__ is not float:
        try:
            sim.get_order_index(0)
            m.fail("unknown: no error for an integer order of a bi-periodic grating")
        except (ValueError, TypeError, KeyError):
            m.count("unknown")
    mod = np.sum(np.abs(rc) ** 2, axis=0)
    m.close(mod, R, 1e-8 * max(1, r.condition() / 1e4), "modulus: |r|^2 is the efficiency of every reflected order")
    es = gen.cplx(spec["layers"][-1]["eps"])
    if es.imag == 0 and es.real > 0:
        mod = np.sum(np.abs(tc) ** 2, axis=0)
        m.close(mod, T, 1e-8 * max(1, r.condition() / 1e4), "modulus: |t|^2 is the efficiency of every transmitted order")
    if spec["haspat"] and n > 1:
        m.nontrivial()
