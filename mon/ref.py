"""Independent reference: rigorous coupled wave analysis in the E formulation.

Written from Maxwell's equations (e^{-i w t}, lengths in the user's unit, w = 2 pi / wavelength).
It shares nothing with nannos: first order system for (Ex, Ey, Hx, Hy), eigenmodes of P Q for
the electric field, and one dense linear system for all interfaces (no S-matrix recursion).
"""
import numpy as np


def toeplitz(u, h):
    """[[u]]_{mn} = u_{m-n} from the discrete Fourier transform of the samples."""
    c = np.fft.fft2(u) / (u.shape[-1] * u.shape[-2])
    dx = h[0][:, None] - h[0][None, :]
    dy = h[1][:, None] - h[1][None, :]
    return c[dx, dy]


def jones_from_tangent(t):
    n = np.sqrt(np.abs(t[0]) ** 2 + np.abs(t[1]) ** 2) + np.finfo(float).eps
    th = np.arctan2(t[1], t[0])
    phi = np.pi / 8 * (1 + np.cos(np.pi * n))
    ex = np.exp(-1j * th) / n
    return np.array([ex * (t[0] * np.cos(phi) + 1j * t[1] * np.sin(phi)),
                     ex * (t[1] * np.cos(phi) - 1j * t[0] * np.sin(phi))])


def inplane(eps, h, formulation, t, is1d):
    """Matrix M with (Dx, Dy) = M (Ex, Ey) in Fourier space, and [[eps_zz]]."""
    n = h.shape[1]
    if hasattr(eps, "matrix"):  # exact Fourier coefficients instead of samples
        zz, Z = eps.matrix(h), np.zeros((n, n))
        if formulation == "original":
            return np.block([[zz, Z], [Z, zz]]), zz
        if formulation == "tangent" and is1d:
            return np.block([[np.linalg.inv(eps.inverse(h)), Z], [Z, zz]]), zz
        raise NotImplementedError
    an = eps.ndim == 4
    zz = toeplitz(eps[2, 2] if an else eps, h)
    Z = np.zeros((n, n))
    if an:
        L = np.block([[toeplitz(eps[i, j], h) for j in range(2)] for i in range(2)])
    else:
        L = np.block([[zz, Z], [Z, zz]])
    if formulation == "original":
        return L, zz
    # inverse rule matrix
    if an:
        det = eps[0, 0] * eps[1, 1] - eps[0, 1] * eps[1, 0]
        nu = [[eps[1, 1] / det, -eps[0, 1] / det], [-eps[1, 0] / det, eps[0, 0] / det]]
        N = np.linalg.inv(np.block([[toeplitz(nu[i][j], h) for j in range(2)] for i in range(2)]))
    else:
        i1 = np.linalg.inv(toeplitz(1 / eps, h))
        N = np.block([[i1, Z], [Z, i1]])
    if formulation == "tangent" and is1d:
        if an:
            raise NotImplementedError
        return np.block([[N[:n, :n], Z], [Z, zz]]), zz
    # normal direction n = (ty, -tx)^*, orthogonal to t: D = L E - (L - N) [[n n^dagger]] E
    if formulation == "jones":
        t = jones_from_tangent(np.asarray(t))
    t = np.asarray(t)
    n2 = (np.sqrt(np.abs(t[0]) ** 2 + np.abs(t[1]) ** 2) + np.finfo(float).eps) ** 2
    nx, ny = np.conj(t[1]), -np.conj(t[0])
    Pi = np.block([[toeplitz(nx * np.conj(nx) / n2, h), toeplitz(nx * np.conj(ny) / n2, h)],
                   [toeplitz(ny * np.conj(nx) / n2, h), toeplitz(ny * np.conj(ny) / n2, h)]])
    return L - (L - N) @ Pi, zz


class _Lay:
    pass


class Ref:
    def __init__(self, basis, harmonics, wl, angles, layers, formulation="original"):
        """layers: list of (eps scalar | array, thickness, tangent or None)."""
        self.h = h = np.asarray(harmonics).astype(int)
        self.n = n = h.shape[1]
        self.is1d = np.isscalar(basis)
        b = np.array([[basis, 0], [0, 1.0]]) if self.is1d else np.array(basis, dtype=float)
        g = 2 * np.pi * np.linalg.inv(b)  # columns are the reciprocal vectors
        self.w = w = 2 * np.pi / wl
        th, ph, ps = np.deg2rad(np.asarray(angles, dtype=float))
        nsup = complex(layers[0][0]) ** 0.5
        k0 = nsup * w * np.array([np.sin(th) * np.cos(ph), np.sin(th) * np.sin(ph)])
        self.k = k0[:, None] + g @ h
        self.kx, self.ky = self.k
        self.zero = int(np.nonzero((h[0] == 0) & (h[1] == 0))[0][0])
        self.amp = np.array([
            np.cos(ps) * np.cos(th) * np.cos(ph) - np.sin(ps) * np.sin(ph),
            np.cos(ps) * np.cos(th) * np.sin(ph) + np.sin(ps) * np.cos(ph),
            -np.cos(ps) * np.sin(th),
        ])
        self.nsup = nsup
        self.costh = np.cos(th)
        self.lay = []
        for eps, t, tan in layers:
            self.lay.append(self._modes(eps, t, tan, formulation))
        self._solve()

    def _modes(self, eps, thick, tan, formulation):
        L = _Lay()
        n, w, kx, ky = self.n, self.w, self.kx, self.ky
        L.t = float(thick or 0)
        L.uniform = np.ndim(eps) == 0 and not hasattr(eps, "matrix")
        if L.uniform:
            e = complex(eps)
            L.eps = e
            q = np.sqrt(e * w * w - kx**2 - ky**2 + 0j)
            q = np.where((q.imag < 0) | ((q.imag == 0) & (q.real < 0)), -q, q)
            L.q = np.hstack([q, q])
            L.W = np.eye(2 * n, dtype=complex)
            M = e * np.eye(2 * n)
            L.ezz = e
            L.M = None
        else:
            M, zz = inplane(eps if hasattr(eps, "matrix") else np.asarray(eps), self.h, formulation, tan, self.is1d)
            L.M = M
            L.ezz = zz
            L.condz = np.linalg.cond(zz)
        Q = np.block([[np.diag(-kx * ky / w), np.diag(kx * kx / w)],
                      [np.diag(-ky * ky / w), np.diag(kx * ky / w)]]).astype(complex)
        Q[:n] -= w * M[n:]
        Q[n:] += w * M[:n]
        if not L.uniform:
            ei = np.linalg.inv(L.ezz)
            Kx, Ky = np.diag(kx), np.diag(ky)
            P = np.block([[Kx @ ei @ Ky / w, w * np.eye(n) - Kx @ ei @ Kx / w],
                          [-w * np.eye(n) + Ky @ ei @ Ky / w, -Ky @ ei @ Kx / w]])
            q2, L.W = np.linalg.eig(P @ Q)
            q = np.sqrt(q2 + 0j)
            q = np.where(q.imag < 0, -q, q)
            L.q = q
            L.condW = np.linalg.cond(L.W)
        L.V = Q @ L.W / L.q[None, :]
        return L

    def _solve(self):
        n = self.n
        N = len(self.lay)
        sup, sub = self.lay[0], self.lay[-1]
        # unknowns: reflected E (2n), for inner layers c+ and c-, transmitted E (2n)
        size = 4 * n * (N - 1)
        A = np.zeros((size, size), dtype=complex)
        rhs = np.zeros(size, dtype=complex)
        inc = np.zeros(2 * n, dtype=complex)
        inc[self.zero] = self.amp[0] / self.nsup
        inc[n + self.zero] = self.amp[1] / self.nsup
        self.inc = inc
        phase = np.exp(1j * sup.q * sup.t)
        incb = inc * phase  # incident field at the bottom of the superstrate
        off = [0]
        for i in range(1, N - 1):
            off.append(2 * n + 4 * n * (i - 1))
        off.append(size - 2 * n)
        for i in range(N - 1):  # interface between i and i + 1
            r = 4 * n * i
            E, H = slice(r, r + 2 * n), slice(r + 2 * n, r + 4 * n)
            L, o = self.lay[i], off[i]
            if i == 0:
                A[E, o : o + 2 * n] += L.W
                A[H, o : o + 2 * n] -= L.V
                rhs[E] -= incb
                rhs[H] -= L.V @ incb
            else:
                f = np.exp(1j * L.q * L.t)
                A[E, o : o + 2 * n] += L.W * f
                A[E, o + 2 * n : o + 4 * n] += L.W
                A[H, o : o + 2 * n] += L.V * f
                A[H, o + 2 * n : o + 4 * n] -= L.V
            L, o = self.lay[i + 1], off[i + 1]
            if i + 1 == N - 1:
                A[E, o : o + 2 * n] -= L.W
                A[H, o : o + 2 * n] -= L.V
            else:
                f = np.exp(1j * L.q * L.t)
                A[E, o : o + 2 * n] -= L.W
                A[E, o + 2 * n : o + 4 * n] -= L.W * f
                A[H, o : o + 2 * n] -= L.V
                A[H, o + 2 * n : o + 4 * n] += L.V * f
        # row and column scaling, dense solve
        rs = np.abs(A).max(axis=1)
        A /= rs[:, None]
        rhs = rhs / rs
        cs = np.abs(A).max(axis=0)
        x = np.linalg.solve(A / cs[None, :], rhs) / cs
        self.coef = []
        for i in range(N):
            o = off[i]
            if i == 0:
                self.coef.append((inc, x[: 2 * n]))
            elif i == N - 1:
                self.coef.append((x[o : o + 2 * n], np.zeros(2 * n, dtype=complex)))
            else:
                self.coef.append((x[o : o + 2 * n], x[o + 2 * n : o + 4 * n]))

    def fields(self, i, z):
        """(2, 3, n): E and H harmonics in layer i at depth z below its top."""
        n, w = self.n, self.w
        L = self.lay[i]
        cp, cm = self.coef[i]
        p = cp * np.exp(1j * L.q * z)
        m = cm * np.exp(1j * L.q * (L.t - z))
        E = L.W @ (p + m)
        H = L.V @ (p - m)
        ex, ey, hx, hy = E[:n], E[n:], H[:n], H[n:]
        hz = (self.kx * ey - self.ky * ex) / w
        dz = (self.ky * hx - self.kx * hy) / w
        ez = dz / L.ezz if L.uniform else np.linalg.solve(L.ezz, dz)
        return np.array([[ex, ey, ez], [hx, hy, hz]])

    def flux(self, i, z, per_order=False):
        f = self.fields(i, z)
        s = np.real(f[0, 0] * np.conj(f[1, 1]) - f[0, 1] * np.conj(f[1, 0]))
        return s if per_order else s.sum()

    def incident_flux(self):
        # |E|^2 n cos(theta) with |E| = 1/n
        return float(np.real(self.costh / self.nsup))

    def _flux_of(self, L, E, sign):
        n = self.n
        H = sign * (L.V @ E)
        return np.real(E[:n] * np.conj(H[n:]) - E[n:] * np.conj(H[:n]))

    def efficiencies(self):
        inc = self.incident_flux()
        R = -self._flux_of(self.lay[0], self.coef[0][1], -1) / inc
        T = self.flux(len(self.lay) - 1, 0.0, True) / inc
        return R, T

    def complex_orders(self):
        """Field amplitudes of the orders (x, y, z) normalized to the incident flux."""
        w = self.w
        sup, sub = self.lay[0], self.lay[-1]
        n = self.n
        g0 = sup.q[self.zero]
        nr = np.sqrt(np.real(self.nsup**2 * sup.q[:n] / g0))
        nt = np.sqrt(np.real(self.nsup**2 * sub.q[:n] / g0))
        t = self.fields(len(self.lay) - 1, 0.0)[0] * nt
        r = self.fields(0, 0.0)[0] * nr
        r[:, self.zero] -= self.amp
        return r, t

    def condition(self):
        c = 1.0
        for L in self.lay:
            if not L.uniform:
                c = max(c, L.condW, L.condz)
        return c


def spy(sim):
    """Records the tangent field each layer hands out while the simulation is solved."""
    for lay in sim.layers:
        lay._verif_tangent = None

        def wrapped(*a, _lay=lay, **k):
            out = type(_lay).get_tangent_field(_lay, *a, **k)
            _lay._verif_tangent = out
            return out

        lay.get_tangent_field = wrapped
    return sim


def ref_from(spec, sim, gen, perturb=0.0):
    """Reference for a spec; harmonics (only their set) are those of the simulation."""
    from .common import to_np

    shape = gen.shape_of(spec)
    layers = []
    for L, lay in zip(spec["layers"], sim.layers):
        if isinstance(L["eps"], dict):
            e = gen.pattern_array(L["eps"], shape, spec["lattice"]["basis"])
        else:
            e = gen.cplx(L["eps"])
        if perturb:
            e = e * (1 + perturb)
        t = L.get("tangent")
        if isinstance(t, dict):
            t = gen.tangent_array(t, shape)
        elif t is not None:
            # field computed by the code under test (judged by its own property), as recorded by spy()
            t = getattr(lay, "_verif_tangent", None)
            if t is None:
                hh, _ = sim.lattice.get_harmonics(sim.nh, sort=True)
                t = lay.get_tangent_field(hh, normalize=spec["formulation"] == "tangent")
            t = to_np(t)
        layers.append((e, L["thickness"], t))
    return Ref(spec["lattice"]["basis"], to_np(sim.harmonics), spec["wl"], spec["angles"], layers, spec["formulation"])


def smatrix(lays, n):
    """Full scattering matrix between uniform end layers, in the (Hx, Hy) basis.

    Inputs: forward amplitudes at the top of the first layer, backward ones at the bottom of the
    last layer; outputs: forward at the top of the last, backward at the bottom of the first.
    Returns S with [a_out; b_out] = S [a_in; b_in].
    """
    N = len(lays)
    size = 4 * n * (N - 1)
    A = np.zeros((size, size), dtype=complex)
    rhs = np.zeros((size, 4 * n), dtype=complex)
    off = [0] + [2 * n + 4 * n * (i - 1) for i in range(1, N - 1)] + [size - 2 * n]
    for i in range(N - 1):
        r = 4 * n * i
        E, H = slice(r, r + 2 * n), slice(r + 2 * n, r + 4 * n)
        L, o = lays[i], off[i]
        f = np.exp(1j * L.q * L.t)
        if i == 0:
            A[E, o : o + 2 * n] += L.W
            A[H, o : o + 2 * n] -= L.V
            rhs[E, : 2 * n] -= L.W * f
            rhs[H, : 2 * n] -= L.V * f
        else:
            A[E, o : o + 2 * n] += L.W * f
            A[E, o + 2 * n : o + 4 * n] += L.W
            A[H, o : o + 2 * n] += L.V * f
            A[H, o + 2 * n : o + 4 * n] -= L.V
        L, o = lays[i + 1], off[i + 1]
        f = np.exp(1j * L.q * L.t)
        if i + 1 == N - 1:
            A[E, o : o + 2 * n] -= L.W
            A[H, o : o + 2 * n] -= L.V
            rhs[E, 2 * n :] += L.W * f
            rhs[H, 2 * n :] -= L.V * f
        else:
            A[E, o : o + 2 * n] -= L.W
            A[E, o + 2 * n : o + 4 * n] -= L.W * f
            A[H, o : o + 2 * n] -= L.V
            A[H, o + 2 * n : o + 4 * n] += L.V * f
    x = np.linalg.solve(A, rhs)
    b = x[: 2 * n]  # E amplitudes, W = 1 in uniform layers
    a = x[size - 2 * n :]
    # E amplitudes -> H amplitudes: forward H = V E, backward H = -V E
    V0, VN = lays[0].V, lays[-1].V
    a_h, b_h = VN @ a, -V0 @ b
    full = np.vstack([a_h, b_h])
    # columns: unit H amplitude instead of unit E amplitude
    full[:, : 2 * n] = full[:, : 2 * n] @ np.linalg.inv(V0)
    full[:, 2 * n :] = full[:, 2 * n :] @ np.linalg.inv(-VN)
    return full


def with_sensitivity(spec, sim, gen):
    """Reference, and a twin computed from data perturbed at the 1e-11 level."""
    r = ref_from(spec, sim, gen)
    if r.condition() > 1e7:
        from .common import Skip

        raise Skip("ill conditioned")
    return r, ref_from(spec, sim, gen, 1e-11)
