"""Exact modal solution of lamellar gratings (no Fourier series inside of the grating).

The structure is invariant along y and periodic along x. The modes of each layer are found with
high order spectral elements on each homogeneous piece (weak form, so that the continuity of the
fields is exact); they are of two families, with Hx or (eps Ex) as potential. The plane waves of
the uniform media are matched to them with the overlap integrals, by quadrature.
"""
import numpy as np
from numpy.polynomial import legendre as leg


def _gll(p):
    c = np.zeros(p + 1)
    c[p] = 1
    x = np.concatenate([[-1.0], np.sort(leg.legroots(leg.legder(c)).real), [1.0]])
    V = leg.legvander(x, p)
    dV = np.array([leg.legval(x, leg.legder(np.eye(p + 1)[k])) if k else np.zeros(p + 1) for k in range(p + 1)]).T
    return x, V, dV


def _basis(p, q):
    """Values and derivatives of the nodal basis at the quadrature points."""
    x, V, _ = _gll(p)
    Vi = np.linalg.inv(V)
    xq, wq = leg.leggauss(q)
    Vq = leg.legvander(xq, p)
    dq = np.array([leg.legval(xq, leg.legder(np.eye(p + 1)[k])) if k else np.zeros(q) for k in range(p + 1)]).T
    return xq, wq, Vq @ Vi, dq @ Vi


class Grating:
    """edges: increasing, from 0 to d; eps: one value per piece."""

    def __init__(self, edges, eps, kx0, ky, w, orders, p=20):
        d = edges[-1]
        q = p + 22
        xq, wq, B, D = _basis(p, q)
        # long pieces are divided (the potential is smooth there)
        ee, pe = [0.0], []
        for a, b, e in zip(edges[:-1], edges[1:], eps):
            n = max(1, int(np.ceil((b - a) / d * max(5, 2.5 * len(orders) / p))))
            for i in range(1, n + 1):
                ee.append(a + (b - a) * i / n)
                pe.append(complex(e))
        ne = len(pe)
        N = ne * p
        ph = np.exp(1j * kx0 * d)
        K = {0: np.zeros((N, N), complex), 1: np.zeros((N, N), complex)}
        M = {0: np.zeros((N, N), complex), 1: np.zeros((N, N), complex)}
        kn = kx0 + 2 * np.pi * np.asarray(orders) / d
        self.kn = kn
        # overlaps <e_n, f> = 1/d int f exp(-i kn x) for f, f', f / eps, f' / eps
        O = {s: np.zeros((len(kn), N), complex) for s in ("f", "df", "fe", "dfe")}
        for i, e in enumerate(pe):
            h = (ee[i + 1] - ee[i]) / 2
            x = ee[i] + h * (xq + 1)
            dof = np.arange(i * p, i * p + p + 1)
            f = np.ones(p + 1, complex)
            if dof[-1] == N:
                dof[-1] = 0
                f[-1] = ph
            mass = (B.T * (wq * h)) @ B
            stiff = (D.T * (wq / h)) @ D
            T = np.outer(f.conj(), f)
            ix = np.ix_(dof, dof)
            K[0][ix] += T * (-stiff + w * w * e * mass)
            M[0][ix] += T * mass
            K[1][ix] += T * (-stiff / e + w * w * mass)
            M[1][ix] += T * mass / e
            E = np.exp(-1j * np.outer(kn, x)) * (wq * h) / d
            a, b = (E @ B) * f, (E @ (D / h)) * f
            for s, v in (("f", a), ("df", b), ("fe", a / e), ("dfe", b / e)):
                for k, t in enumerate(dof):
                    O[s][:, t] += v[:, k]
        n2 = len(kn)
        cols, qs = [], []
        import scipy.linalg as sl

        for fam in (0, 1):
            kap, u = sl.eig(np.linalg.solve(M[fam], K[fam]))
            keep = np.argsort(-kap.real)[:n2]
            kap, u = kap[keep], u[:, keep]
            qq = np.sqrt(kap - ky**2 + 0j)
            qq = np.where(qq.imag < 0, -qq, qq)
            if fam == 0:
                ex = np.zeros((n2, n2), complex)
                ey = -w * qq / kap * (O["f"] @ u)
                hx = O["f"] @ u
                hy = 1j * ky / kap * (O["df"] @ u)
            else:
                ex = O["fe"] @ u
                ey = 1j * ky / kap * (O["dfe"] @ u)
                hx = np.zeros((n2, n2), complex)
                hy = w * qq / kap * (O["f"] @ u)
            s = np.sqrt(np.sum(np.abs(ex) ** 2 + np.abs(ey) ** 2 + np.abs(hx) ** 2 + np.abs(hy) ** 2, axis=0))
            cols.append(np.vstack([ex, ey, hx, hy]) / s)
            qs.append(qq)
        F = np.hstack(cols)
        self.q = np.hstack(qs)
        # forward modes; Ex (family 1), Hx (family 0) and the other two parity: z -> -z changes the
        # sign of q: components proportional to q change sign
        self.F = F
        sgn = np.ones((4 * n2, 2 * n2))
        sgn[n2 : 2 * n2, :n2] = -1  # Ey of family 0
        sgn[3 * n2 :, n2:] = -1  # Hy of family 1
        self.B = F * sgn


class Uniform:
    def __init__(self, eps, kn, ky, w):
        n = len(kn)
        q = np.sqrt(eps * w * w - kn**2 - ky**2 + 0j)
        q = np.where((q.imag < 0) | ((q.imag == 0) & (q.real < 0)), -q, q)
        self.eps, self.qn = eps, q
        self.q = np.hstack([q, q])
        I, Z = np.eye(n), np.zeros((n, n))
        # E = x or y: Ez from div E = 0, H = k x E / w
        W = np.block([[I, Z], [Z, I]])
        d = lambda v: np.diag(v + 0j)
        ezx, ezy = -kn / q, -ky / q
        # hx = (ky ez - q ey) / w, hy = (q ex - kx ez) / w
        H = np.block([[d(ky * ezx / w), d((ky * ezy - q) / w)], [d((q - kn * ezx) / w), d(-kn * ezy / w)]])
        self.F = np.vstack([W, H])
        self.B = np.vstack([W, -H])


def solve(layers, d, kx0, ky, w, M, exy, p=20):
    """layers: eps (number) or (edges, eps list), thickness; the first and last ones uniform.

    exy: incident Ex and Ey at the top of the stack (bottom of the first layer). Returns the
    orders and the z flux reflected and transmitted per order.
    """
    m = np.arange(-M, M + 1)
    kn = kx0 + 2 * np.pi * m / d
    n = len(m)
    L = []
    for e, t in layers:
        x = Uniform(complex(e), kn, ky, w) if not isinstance(e, tuple) else Grating(e[0], e[1], kx0, ky, w, m, p)
        x.t = t
        L.append(x)
    N = len(L)
    size = 4 * n * (N - 1)
    A = np.zeros((size, size), complex)
    rhs = np.zeros(size, complex)
    inc = np.zeros(2 * n, complex)
    inc[M], inc[n + M] = exy
    off = [0] + [2 * n + 4 * n * (i - 1) for i in range(1, N - 1)] + [size - 2 * n]
    for i in range(N - 1):
        r = slice(4 * n * i, 4 * n * (i + 1))
        a, b = L[i], L[i + 1]
        if i == 0:
            A[r, : 2 * n] += a.B
            rhs[r] -= a.F @ inc
        else:
            f = np.exp(1j * a.q * a.t)
            A[r, off[i] : off[i] + 2 * n] += a.F * f
            A[r, off[i] + 2 * n : off[i] + 4 * n] += a.B
        o = off[i + 1]
        if i + 1 == N - 1:
            A[r, o : o + 2 * n] -= b.F
        else:
            f = np.exp(1j * b.q * b.t)
            A[r, o : o + 2 * n] -= b.F
            A[r, o + 2 * n : o + 4 * n] -= b.B * f
    rs = np.abs(A).max(axis=1)
    x = np.linalg.solve(A / rs[:, None], rhs / rs)

    def flux(v):
        ex, ey, hx, hy = v[:n], v[n : 2 * n], v[2 * n : 3 * n], v[3 * n :]
        return np.real(ex * hy.conj() - ey * hx.conj())

    fi = flux(L[0].F @ inc).sum()
    R = -flux(L[0].B @ x[: 2 * n]) / fi
    T = flux(L[-1].F @ x[size - 2 * n :]) / fi
    return m, R, T
