"""Histories of public queries on a Simulation, and their results as numpy arrays."""
import numpy as np

import nannos as nn

from . import gen
from .common import to_np


def rand_query(rng, spec, noop=True):
    N = len(spec["layers"])
    uni = [k for k in range(N) if not isinstance(spec["layers"][k]["eps"], dict)]
    r = rng.random()
    i = int(rng.integers(N))
    z = float(rng.random() * spec["layers"][i]["thickness"])
    ident = str(rng.choice(["index", "name", "object"]))
    if r < 0.25:
        o = bool(rng.random() < 0.6)
        return ["eff", o, bool(rng.random() < 0.4), bool(o and rng.random() < 0.3)]
    if r < 0.40:
        if rng.random() < 0.3:
            return ["S"]
        a, b = sorted([int(uni[int(rng.integers(len(uni)))]), int(uni[int(rng.integers(len(uni)))])])
        return ["S", a, b]
    if r < 0.6:
        return ["fourier", i, ident, [z] if rng.random() < 0.5 else [z, 0.0]]
    if r < 0.72:
        return ["grid", i, ident, z, str(rng.choice(["all", "E", "H"])), str(rng.choice(["all", "x", "y", "z"]))]
    if r < 0.8:
        return ["stress", i, ident, z]
    if r < 0.84:
        return ["eps", i, ident]
    if r < 0.88:
        return ["flux", int(uni[int(rng.integers(len(uni)))])]
    if not noop:
        return ["eff", False, False, False]
    if rng.random() < 0.2:
        return ["layer reset", i, str(rng.choice(["eig", "all", "matrix"]))]
    return [["solve"], ["reset", "S"], ["reset", "all"], ["build", i] if "copy_of" not in spec["layers"][i] else ["solve"], ["layer", i]][int(rng.integers(5))]


def who(sim, spec, i, ident):
    return {"index": i, "name": spec["layers"][i]["name"], "object": sim.layers[i]}[ident]


def run_query(sim, spec, q):
    """Returns a list of arrays (empty for actions)."""
    k = q[0]
    if k == "eff":
        R, T = sim.diffraction_efficiencies(orders=q[1], complex=q[2], return_dict=q[3])
        if q[3]:
            h = sorted(map(tuple, to_np(sim.harmonics).T.astype(int).tolist()))
            return [np.array([to_np(X[a][b]) for a, b in h]) for X in (R, T)]
        return [to_np(R), to_np(T)]
    if k == "S":
        S = sim.get_S_matrix() if len(q) == 1 else sim.get_S_matrix(indices=(q[1], q[2]))
        return [np.block([[to_np(S[0][0]), to_np(S[0][1])], [to_np(S[1][0]), to_np(S[1][1])]])]
    if k == "fourier":
        return [to_np(sim.get_field_fourier(who(sim, spec, q[1], q[2]), q[3] if len(q[3]) > 1 else q[3][0]))]
    if k == "grid":
        out = sim.get_field_grid(who(sim, spec, q[1], q[2]), z=q[3], field=q[4], component=q[5])
        return [to_np(v) for v in out] if q[4] == "all" else [to_np(out)]
    if k == "stress":
        return [np.array([float(v) for v in sim.get_z_stress_tensor_integral(who(sim, spec, q[1], q[2]), z=q[3])])]
    if k == "eps":
        return [to_np(sim.get_epsilon(who(sim, spec, q[1], q[2])))]
    if k == "flux":
        lay = sim.layers[q[1]]
        amp = nn.array(np.exp(1j * np.arange(2 * sim.nh)) / (1 + np.arange(2 * sim.nh)), dtype=nn.backend.complex128)
        a, b = sim.get_z_poynting_flux(lay, amp, amp * 0.3j)
        return [to_np(a), to_np(b)]
    if k == "solve":
        sim.solve()
    elif k == "reset":
        sim.reset(q[1])
    elif k == "layer reset":
        sim.layers[q[1]].reset(q[2])
    elif k == "build":
        sim.build_matrix(sim.layers[q[1]])
    elif k == "layer":
        lay, j = sim.get_layer(spec["layers"][q[1]]["name"])
        assert lay is sim.layers[q[1]] and j == q[1]
    return []


def reference(nn, spec, q):
    """The query on a new simulation that has answered nothing else."""
    return run_query(gen.build(nn, spec), spec, q)


def compare(m, got, want, tol, what, **kw):
    ok = m.check(len(got) == len(want), f"{what}: same number of results")
    for a, b in zip(got, want):
        ok = m.close(a, b, tol, what, scale=max(1.0, float(np.max(np.abs(b))) if b.size else 1.0), **kw) and ok
    return ok


def snapshot(sim):
    """Bytes of everything the user gave."""
    out = []
    for lay in sim.layers:
        e = to_np(lay.epsilon)
        t = None if lay.tangent_field is None else to_np(lay.tangent_field).tobytes()
        out.append((lay.name, lay.thickness, e.shape, e.tobytes(), to_np(lay.mu).tobytes(), t, lay.tangent_field_type, id(lay.lattice)))
    L = sim.lattice
    h = None if L.harmonics_array is None else to_np(L.harmonics_array).tobytes()
    out.append((str(L.basis_vectors), tuple(L.discretization), L.truncation, h))
    x = sim.excitation
    out.append((float(x.wavelength), to_np(x.angles).tobytes(), to_np(x.amplitude).tobytes(), to_np(x.wavevector).tobytes(), to_np(x.a0).tobytes()))
    out.append((sim.nh, sim.formulation, to_np(sim.harmonics).tobytes()))
    return out
