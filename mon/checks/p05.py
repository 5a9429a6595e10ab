"""S-matrix: reference, Redheffer composition, splitting, zero thickness, identity."""
import copy

import numpy as np

import nannos as nn

from .. import gen, ref
from ..common import rng_for, to_np

LEVEL = "exploration"
RULE = (
    "random stacks of 2 to 8 layers; all index ranges [i, j] queried in random order; stacks with a layer split in "
    "two or zero-thickness layers inserted; non-trivial: at least one patterned layer and three layers"
)
MIN_EVENTS = {"compose": 200, "reference": 200, "split": 50, "identity": 50}


def cases(tier, seed):
    n = 1800 if tier == "quick" else 15000
    out = []
    for i in range(n):
        rng = rng_for(seed, "P05", i)
        oned = rng.random() < 0.35
        form = ("original", "tangent") if oned else ("original", "original", "tangent", "pol")
        spec = gen.rand_stack(
            rng, nh=(1, 14) if i % 60 != 37 else (45, 80), oned=oned, formulations=form, n_inner=(0, 6), metal=True, aniso=0.15, harmonics=0.2,
            patterned=0.55, tangents=("user",), copies=0.15, sup_thick=0.5, thick=0.1, zero=0.12,
        )
        spec["qseed"] = int(rng.integers(2**31))
        out.append(spec)
    return out


def star(A, B):
    """Redheffer product: A above B."""
    n = len(A[0][0])
    I = np.eye(n)
    D = np.linalg.inv(I - A[0][1] @ B[1][0])
    F = np.linalg.inv(I - B[1][0] @ A[0][1])
    return [
        [B[0][0] @ D @ A[0][0], B[0][1] + B[0][0] @ D @ A[0][1] @ B[1][1]],
        [A[1][0] + A[1][1] @ F @ B[1][0] @ A[0][0], A[1][1] @ F @ B[1][1]],
    ]


def flat(S):
    return np.block([[to_np(S[0][0]), to_np(S[0][1])], [to_np(S[1][0]), to_np(S[1][1])]])


def run_case(spec, m):
    m.note(*gen.describe(spec))
    rng = np.random.default_rng(spec["qseed"])
    sim = ref.spy(gen.build(nn, spec))
    N = len(spec["layers"])
    pairs = [(i, j) for i in range(N) for j in range(i, N)]
    if len(pairs) > 15:
        pairs = [pairs[k] for k in rng.permutation(len(pairs))[:15]]
    else:
        pairs = [pairs[k] for k in rng.permutation(len(pairs))]
    S = {}
    for p in pairs:
        S[p] = flat(sim.get_S_matrix(indices=[tuple, list][int(rng.integers(2))](p)))
    full = flat(sim.get_S_matrix())
    n2 = 2 * sim.nh

    def get(i, j):
        if (i, j) not in S:
            S[(i, j)] = flat(sim.get_S_matrix(indices=(i, j)))
        return S[(i, j)]

    def blk(M):
        return [[M[:n2, :n2], M[:n2, n2:]], [M[n2:, :n2], M[n2:, n2:]]]

    a, b = ref.with_sensitivity(spec, sim, gen)
    m.close(full, get(0, N - 1), 1e-12, "compose: the S-matrix of the full range is the total S-matrix", scale=max(1, np.max(abs(full))))
    for i in range(N):
        m.close(get(i, i), np.eye(2 * n2), 1e-13, "identity: S-matrix of an empty range")
    for i, j in list(S):
        if j - i < 2:
            continue
        k = int(rng.integers(i + 1, j))
        A, B = get(i, k), get(k, j)
        C = flat(star(blk(A), blk(B)))
        # conditioning of the composition
        c = np.linalg.cond(np.eye(n2) - blk(A)[0][1] @ blk(B)[1][0]) * max(1, np.max(abs(A))) * max(1, np.max(abs(B)))
        tol = 1e-13 * c * a.condition() * 100 + 1e-9
        if tol > 1e-4:
            m.count("too sensitive")
            continue
        m.close(S[(i, j)], C, tol, "compose: S(i,j) is the composition of S(i,k) and S(k,j)", scale=max(1, np.max(abs(C))), range=[i, k, j])
    # absolute value against the reference, between uniform layers
    uni = [k for k in range(N) if not isinstance(spec["layers"][k]["eps"], dict)]
    for i in uni:
        for j in uni:
            if j <= i or rng.random() < 0.4 and (i, j) != (0, N - 1):
                continue
            X, Y = ref.smatrix(a.lay[i : j + 1], a.n), ref.smatrix(b.lay[i : j + 1], b.n)
            sc = max(1, np.max(abs(X)))
            tol = 1e-8 + 300 * np.max(abs(X - Y)) / sc
            if tol > 1e-4:
                m.count("too sensitive")
                continue
            m.close(get(i, j), X, tol, "reference: S-matrix between uniform layers", scale=sc, range=[i, j])
    # splitting a layer / inserting zero-thickness layers leaves the total S-matrix unchanged
    s2 = copy.deepcopy(spec)
    for L in s2["layers"]:
        L.pop("copy_of", None)
    k = int(rng.integers(1, N)) if N > 2 else 0
    if N > 2 and k < N - 1:
        L = copy.deepcopy(s2["layers"][k])
        f = float(rng.choice([0.0, 0.5, rng.random(), 1.0]))
        t = L["thickness"]
        L["name"] = "split part"
        s2["layers"][k]["thickness"] = f * t
        L["thickness"] = t - f * t
        if rng.random() < 0.5:
            L["copy_of"] = k
        s2["layers"].insert(k + 1, L)
    else:
        s2["layers"].insert(1, {"name": "nothing", "eps": gen.rand_eps(rng, "lossy"), "thickness": 0.0})
    sim2 = gen.build(nn, s2)
    if sim2.nh == sim.nh:
        F2 = flat(sim2.get_S_matrix())
        Y = ref.smatrix(b.lay, b.n)
        X = ref.smatrix(a.lay, a.n)
        sc = max(1, np.max(abs(X)))
        tol = 1e-8 + 300 * np.max(abs(X - Y)) / sc
        if tol < 1e-4:
            m.close(F2, full, tol, "split: splitting a layer or inserting an empty one leaves S unchanged", scale=sc)
    if spec["haspat"] and N > 2:
        m.nontrivial()
