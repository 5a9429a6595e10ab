"""Uniform stacks: closed form oracle (stable impedance recursion per polarization)."""
import numpy as np

import nannos as nn

from .. import gen
from ..common import rng_for, to_np

LEVEL = "exploration"
RULE = (
    "random stacks of 2 to 14 homogeneous layers (dielectric, lossy, metallic, index-matched, zero thickness, "
    "thick; given as scalars or as constant isotropic/uniaxial permittivity maps), random lattices, harmonics, "
    "angles, polarization; non-trivial: at least one interface with contrast and the oracle compared R, T, complex "
    "orders and fields in every layer"
)
ASSUMPTIONS = [
    "superstrate is lossless; configurations with |q|^2 below 8e-4 k0^2 (close to a Rayleigh anomaly of a diffracted order) are not generated"
]
MIN_EVENTS = {"RT": 100, "fields": 100, "complex": 100, "neighbour": 300}
CASE_TIMEOUT = 60


def cases(tier, seed):
    n = 3000 if tier == "quick" else 40000
    out = []
    for i in range(n):
        rng = rng_for(seed, "P01", i)
        oned = rng.random() < 0.3
        nh = int(rng.choice([1, 2, 3, 5, 9, 13, 20, 100]))
        spec = gen.rand_stack(
            rng, nh=(nh, nh) if nh != 100 else (13, 13), oned=oned, n_inner=(0, 6) if rng.random() < 0.85 else (7, 12),
            patterned=0.0, metal=True, sub_lossy=0.25, thick=0.1, zero=0.08, neglossless=rng.random() < 0.3,
        )
        if nh == 100:
            spec["nh"] = 100
            spec["lattice"]["disc"] = [256, 256]
        # some layers are given as constant maps, so that they go through the eigenvalue problem
        mode = rng.random()
        spec["maps"] = {}
        spec["uni"] = {}
        if mode < 0.45 and nh <= 20:
            for j in range(1, len(spec["layers"]) - 1):
                if rng.random() < 0.6:
                    spec["maps"][str(j)] = "iso"
                    if rng.random() < 0.3 and spec["layers"][j]["eps"][0] > 0:
                        spec["maps"][str(j)] = "uniaxial"
                        spec["uni"][str(j)] = [float(rng.uniform(1.2, 5)), spec["layers"][j]["eps"][1]]
            spec["formulation"] = "tangent" if (rng.random() < 0.4 and (oned or True)) else "original"
            if spec["formulation"] == "tangent" and any(v == "uniaxial" for v in spec["maps"].values()):
                spec["formulation"] = "original"
        if rng.random() < 0.1:  # total internal reflection and frustrated transmission
            spec["layers"][0]["eps"] = [float(rng.uniform(2, 4)), 0.0]
            spec["angles"][0] = float(rng.uniform(50, 80))
        if rng.random() < 0.06 and spec["layers"][-1]["eps"][0] > 0 and spec["layers"][-1]["eps"][1] == 0:  # Brewster
            n1, n2 = spec["layers"][0]["eps"][0] ** 0.5, spec["layers"][-1]["eps"][0] ** 0.5
            spec["angles"][0] = float(np.rad2deg(np.arctan(n2 / n1)))
        if rng.random() < 0.06 and len(spec["layers"]) > 1:  # lossless mirror
            spec["layers"][-1]["eps"] = gen.rand_eps(rng, "gaplossless")
        gen.safe_wavelength(spec)
        spec["zs"] = [float(v) for v in np.sort(rng.random(int(rng.integers(1, 4))))]
        # other stacks solved in the same process just after this one
        spec["next"] = int(rng.integers(2**31)) if rng.random() < 0.4 and nh <= 20 else None
        out.append(spec)
    return out


class Analytic:
    def __init__(self, eps, epsz, thick, wl, angles):
        w = self.w = 2 * np.pi / wl
        th, ph, ps = np.deg2rad(np.asarray(angles, dtype=float))
        self.ph, self.ps, self.th = ph, ps, th
        n0 = np.sqrt(eps[0] + 0j)
        self.n0 = n0
        self.k = k = (n0 * w * np.sin(th)).real
        self.eps = eps = np.array(eps, dtype=complex)
        self.epsz = epsz = np.array(epsz, dtype=complex)
        self.d = np.array(thick, dtype=float)
        N = len(eps)
        self.q = {}
        self.F = {}
        self.B = {}
        for pol in "sp":
            q2 = eps * w * w - k * k if pol == "s" else eps * (w * w - k * k / epsz)
            q = np.sqrt(q2 + 0j)
            q = np.where(q.imag < 0, -q, q)
            q = np.where((abs(q.imag) < 1e-300) & (q.real < 0), -q, q)
            Y = q if pol == "s" else q / eps
            G = np.zeros(N, dtype=complex)  # at the bottom of layer j, outgoing only in the last one
            Gt = np.zeros(N, dtype=complex)  # at the top
            for j in range(N - 2, -1, -1):
                rho = (Y[j] - Y[j + 1]) / (Y[j] + Y[j + 1])
                G[j] = (rho + Gt[j + 1]) / (1 + rho * Gt[j + 1])
                Gt[j] = G[j] * np.exp(2j * q[j] * self.d[j])
            F = np.zeros(N, dtype=complex)  # forward amplitude at the top
            F[0] = np.sin(ps) / n0 if pol == "s" else np.cos(ps)
            for j in range(N - 1):
                F[j + 1] = F[j] * np.exp(1j * q[j] * self.d[j]) * (1 + G[j]) / (1 + Gt[j + 1])
            B = F * np.exp(1j * q * self.d) * G  # backward amplitude at the bottom
            self.q[pol], self.F[pol], self.B[pol] = q, F, B

    def fields(self, j, z, part="both"):
        w, k = self.w, self.k
        c, s = np.cos(self.ph), np.sin(self.ph)
        ez, sz = np.array([c, s, 0]), np.array([-s, c, 0])
        zz = np.array([0, 0, 1.0])
        E = np.zeros(3, dtype=complex)
        H = np.zeros(3, dtype=complex)
        for pol in "sp":
            q = self.q[pol][j]
            f = self.F[pol][j] * np.exp(1j * q * z)
            b = self.B[pol][j] * np.exp(1j * q * (self.d[j] - z))
            if part == "b":
                f = 0
            if pol == "s":
                E += (f + b) * sz
                H += -q / w * (f - b) * ez + k / w * (f + b) * zz
            else:
                H += (f + b) * sz
                E += q / (w * self.eps[j]) * (f - b) * ez - k / (w * self.epsz[j]) * (f + b) * zz
        return E, H

    def flux(self, j, z):
        E, H = self.fields(j, z)
        return float(np.real(E[0] * np.conj(H[1]) - E[1] * np.conj(H[0])))

    def RT(self):
        inc = np.real(np.cos(self.th) / self.n0)
        E, H = self.fields(0, self.d[0], "b")
        R = -np.real(E[0] * np.conj(H[1]) - E[1] * np.conj(H[0])) / inc
        T = self.flux(len(self.eps) - 1, 0.0) / inc
        return R, T

    def complex_orders(self):
        g0 = self.q["s"][0]
        gt = self.q["s"][-1]
        nt = np.sqrt(np.real(self.n0**2 * gt / g0))
        nr = np.sqrt(np.real(self.n0**2))
        t = self.fields(len(self.eps) - 1, 0.0)[0] * nt
        r = self.fields(0, 0.0, "b")[0] * nr
        # superstrate of finite thickness: the incident wave is referred to its top, z = 0
        return r, t


def run_case(spec, m):
    one_stack(spec, m)
    if spec.get("next") is not None:
        rng = np.random.default_rng(spec["next"])
        for _ in range(2):
            new = gen.neighbour(rng, spec)
            if new is None:
                break
            m.count("neighbour")
            one_stack(new, m)
            if rng.random() < 0.5:
                spec = new


def one_stack(spec, m):
    m.note(*gen.describe(spec), sorted(spec["maps"].items()))
    lat, layers = gen.build_layers(nn, spec)
    shape = gen.shape_of(spec)
    eps, epsz, thick = [], [], []
    for j, (L, lay) in enumerate(zip(spec["layers"], layers)):
        e = gen.cplx(L["eps"])
        ez = e
        kind = spec["maps"].get(str(j))
        if kind == "iso":
            lay.epsilon = np.full(shape, e, dtype=complex)
        elif kind == "uniaxial":
            ez = gen.cplx(spec["uni"][str(j)])
            a = np.zeros((3, 3) + shape, dtype=complex)
            a[0, 0] = a[1, 1] = e
            a[2, 2] = ez
            lay.epsilon = a
        if kind and spec["formulation"] == "tangent" and shape[1] > 1:
            lay.tangent_field = np.array([np.full(shape, 0.6), np.full(shape, 0.8)])
        eps.append(e)
        epsz.append(ez)
        thick.append(L["thickness"])
    sim = nn.Simulation(layers, gen.make_wave(nn, spec), nh=spec["nh"], formulation=spec["formulation"])
    an = Analytic(eps, epsz, thick, spec["wl"], spec["angles"])
    # sensitivity of the closed form itself to rounding of the data
    an2 = Analytic(np.array(eps) * (1 + 1e-11), np.array(epsz) * (1 + 1e-11), thick, spec["wl"] * (1 + 1e-11), spec["angles"])
    N = len(eps)
    R0, T0 = an.RT()
    R2, T2 = an2.RT()
    tol = 2e-9 + 300 * max(abs(R0 - R2), abs(T0 - T2))
    R, T = [to_np(v) for v in sim.diffraction_efficiencies()]
    m.close(R, R0, tol, "RT: reflectance of a uniform stack")
    m.close(T, T0, tol, "RT: transmittance of a uniform stack")
    i0 = int(np.nonzero((to_np(sim.harmonics)[0] == 0) & (to_np(sim.harmonics)[1] == 0))[0][0])
    Ro, To = [to_np(v) for v in sim.diffraction_efficiencies(orders=True)]
    oth = np.arange(len(Ro)) != i0
    m.close(Ro[i0], R0, tol, "RT: zeroth order reflectance")
    m.close(To[i0], T0, tol, "RT: zeroth order transmittance")
    if oth.any():
        m.close(Ro[oth], 0 * Ro[oth], 1e-9, "RT: diffracted reflected orders of a uniform stack")
        m.close(To[oth], 0 * To[oth], 1e-9, "RT: diffracted transmitted orders of a uniform stack")
    m.check(R > -1e-9 and T > -1e-9 and R + T < 1 + tol, "bounds: 0 <= R, T and R + T <= 1", R=R, T=T)
    r, t = [to_np(v) for v in sim.diffraction_efficiencies(orders=True, complex=True)]
    rr, tt = an.complex_orders()
    rr2, tt2 = an2.complex_orders()
    ctol = 2e-8 + 300 * max(np.max(abs(rr - rr2)), np.max(abs(tt - tt2)))
    if thick[0] == 0:
        m.close(r[:, i0], rr, ctol, "complex: reflected amplitude")
    m.close(t[:, i0], tt, ctol, "complex: transmitted amplitude")
    for j in range(N):
        for z in [v * thick[j] for v in spec["zs"]] + ([-0.3 * spec["wl"]] if j == 0 else []) + ([0.4 * spec["wl"]] if j == N - 1 else []):
            E, H = an.fields(j, z)
            E2, H2 = an2.fields(j, z)
            F0 = np.array([E, H])
            ft = 2e-8 + 300 * np.max(abs(F0 - np.array([E2, H2])))
            F = to_np(sim.get_field_fourier(spec["layers"][j]["name"], z))
            m.close(F[0][:, :, i0], F0, ft, "fields: field of a uniform stack", layer=j, z=z)
            if oth.any():
                m.close(F[0][:, :, oth], 0 * F[0][:, :, oth], 1e-8, "fields: diffracted field in a uniform stack", layer=j, z=z)
    if len(set(eps)) > 1:
        m.nontrivial()
