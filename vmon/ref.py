"""Reference model: the scale-discretised directional wavelet transform by definition.

Nothing here imports s2wav or s2fft.  Everything is plain numpy, written from the
papers (Leistedt et al. 2013, McEwen et al. 2015) and the documented storage
conventions: harmonic arrays are [l, L-1+m], Wigner arrays are [N-1+n, l, L-1+m],
pixel arrays on the sphere are [theta, phi], on SO(3) [gamma, beta, alpha].
"""
from __future__ import annotations

import math
from fractions import Fraction
from functools import lru_cache

import numpy as np

# ----------------------------------------------------------------- scale arithmetic


def _lamq(lam):
    return Fraction(lam)


def j_max(L, lam):
    """Smallest J >= 0 with lam**J >= L, in exact rational arithmetic."""
    lam = _lamq(lam)
    J, p = 0, Fraction(1)
    while p < L:
        p *= lam
        J += 1
    return J


def near_tie(L, lam, rel=1e-9):
    """True if some lam**j is within rel of an integer or of L (float rounding may
    then legitimately land on either side of a ceil)."""
    q = float(lam)
    p = 1.0
    while p < L * q * q * 1.01:
        if abs(p - round(p)) <= rel * p and Fraction(p) != Fraction(lam) ** round(
            math.log(p) / math.log(q)
        ):
            return True
        p *= q
    return False


def _ceil(q):
    return -((-q.numerator) // q.denominator)


def scal_L(L, J_min, lam, multires=True):
    return min(_ceil(_lamq(lam) ** J_min), L) if multires else L


def wav_L(L, j, lam, multires=True):
    j = max(j, 1)
    return min(_ceil(_lamq(lam) ** (j + 1)), L) if multires else L


def wav_L0(j, lam, multires=True):
    if not multires:
        return 0
    j = max(j, 1)
    return _ceil(_lamq(lam) ** (j - 1))


def wav_N(L, j, N, lam, multires=True):
    if not multires:
        return N
    Nj = min(N, wav_L(L, j, lam, True))
    return Nj + (Nj + N) % 2


# ------------------------------------------------------------------------- filters


def _integrand(t, lam):
    """s_lambda^2(t)/t, the C-infinity bump on (1/lam, 1), zero outside."""
    t = np.asarray(t, float)
    s = (t - 1.0 / lam) * (2.0 * lam / (lam - 1.0)) - 1.0
    u = 1.0 - s * s
    out = np.zeros_like(t)
    ok = u > 1e-12
    out[ok] = np.exp(-2.0 / u[ok]) / t[ok]
    return out


@lru_cache(None)
def _gl(n):
    return np.polynomial.legendre.leggauss(n)


@lru_cache(None)
def _tail(t, lam):
    """Integral of the bump over [t, 1], Gauss-Legendre on panels."""
    a = max(t, 1.0 / lam)
    if a >= 1.0:
        return 0.0
    x, w = _gl(40)
    panels = 12
    edges = np.linspace(a, 1.0, panels + 1)
    tot = 0.0
    for lo, hi in zip(edges[:-1], edges[1:]):
        tot += 0.5 * (hi - lo) * np.dot(w, _integrand(0.5 * (hi - lo) * x + 0.5 * (hi + lo), lam))
    return float(tot)


@lru_cache(None)
def k_true(L, lam):
    """k_lambda(l / lam^j), shape [J+2, L]: the exact (non-quadrature-limited) value."""
    J = j_max(L, lam)
    lam = float(lam)
    norm = _tail(1.0 / lam, lam)
    k = np.zeros((J + 2, L))
    for j in range(J + 2):
        for l in range(L):
            t = l / lam**j
            if t <= 1.0 / lam:
                k[j, l] = 1.0
            elif t >= 1.0:
                k[j, l] = 0.0
            else:
                k[j, l] = _tail(t, lam) / norm
    return k


def eta(L, N):
    """Directionality component, [l, L-1+m]."""
    nu = 1.0 if N % 2 else 1.0j
    s = np.zeros((L, 2 * L - 1), complex)
    for l in range(1, L):
        g = min(N - 1, l if (N + l) % 2 else l - 1)
        for m in range(-g, g + 1):
            if (g - m) % 2 == 0:
                s[l, L - 1 + m] = nu * math.sqrt(
                    math.comb(g, (g - m) // 2) / 2.0**g
                )
    return s


def spin_norm(l, s):
    """sqrt((l+s)!/(l-s)!) for |s| <= l (zero below)."""
    if l < abs(s):
        return 0.0
    r = 1.0
    for i in range(-abs(s) + 1, abs(s) + 1):
        r *= l + i
    return math.sqrt(r) if s > 0 else math.sqrt(1.0 / r)


def filters(L, N, J_min, lam, spin=0, spin0=0, k=None):
    """Directional kernels psi [J+1, L, 2L-1] (rows below J_min zero), phi [L]."""
    if k is None:
        k = k_true(L, lam)
    J = k.shape[0] - 2
    el = np.arange(L)
    kap = np.sqrt(np.clip(k[1:] - k[:-1], 0, None))
    kap[:J_min] = 0
    phi = np.sqrt((2 * el + 1) / (4 * np.pi)) * np.sqrt(k[J_min])
    psi = (
        np.sqrt((2 * el + 1) / (8 * np.pi**2))[None, :, None]
        * kap[:, :, None]
        * eta(L, N)[None]
    )
    if spin0 != 0:
        sn = np.array([spin_norm(l, spin0) for l in range(L)]) * (-1.0) ** abs(spin0)
        phi = phi * sn
        psi = psi * sn[None, :, None]
    lo = max(abs(spin), abs(spin0))
    phi[:lo] = 0
    psi[:, :lo] = 0
    return psi, phi


# ---------------------------------------------------------------------- Wigner d


@lru_cache(None)
def _jy_eig(l):
    m = np.arange(-l, l)
    c = 0.5 * np.sqrt(l * (l + 1.0) - m * (m + 1.0))
    Jy = np.diag(c / 1j, -1) + np.diag(-c / 1j, 1)
    # <m+1|Jy|m> = c/i ; rows/cols indexed by l+m
    w, U = np.linalg.eigh(Jy)
    return np.round(w), U


def wigner_d(l, beta):
    """d^l_{mn}(beta) = <l m| exp(-i beta Jy) |l n>, array [len(beta), 2l+1, 2l+1]."""
    w, U = _jy_eig(l)
    ph = np.exp(-1j * np.outer(beta, w))
    return np.einsum("mk,bk,nk->bmn", U, ph, U.conj(), optimize=True).real


_DCACHE: dict = {}


def _d_all(L, beta):
    key = (L, beta.tobytes())
    if key not in _DCACHE:
        if sum(k[0] ** 3 * len(k[1]) for k in _DCACHE) > 2e8:  # about 270 MB
            _DCACHE.clear()
        _DCACHE[key] = [wigner_d(l, beta) for l in range(L)]
    return _DCACHE[key]


# ------------------------------------------------------------------------- grids


def thetas(L, sampling):
    sampling = sampling.lower()
    if sampling == "mw":
        return (2 * np.arange(L) + 1) * np.pi / (2 * L - 1)
    if sampling == "mwss":
        return 2 * np.arange(L + 1) * np.pi / (2 * L)
    if sampling == "dh":
        return (2 * np.arange(2 * L) + 1) * np.pi / (4 * L)
    if sampling == "gl":
        x, _ = np.polynomial.legendre.leggauss(L)
        return np.sort(np.arccos(x))
    raise ValueError(sampling)


def phis(L, sampling):
    n = 2 * L if sampling.lower() == "mwss" else 2 * L - 1
    return 2 * np.pi * np.arange(n) / n


def s2_shape(L, sampling):
    return len(thetas(L, sampling)), len(phis(L, sampling))


def so3_shape(L, N, sampling):
    return (2 * N - 1,) + s2_shape(L, sampling)


# -------------------------------------------------------------------- transforms


BIG = 32  # above this band-limit the dense model is too large: pyssht/ducc0 instead


def _lm(L):
    l = np.concatenate([np.full(2 * k + 1, k) for k in range(L)])
    return l, np.arange(L * L) - l * l - l


def big_inverse(flm, L, spin, sampling):
    import pyssht

    l, m = _lm(L)
    return np.asarray(pyssht.inverse(np.ascontiguousarray(flm[l, L - 1 + m], dtype=complex), L, spin,
                                     Method=sampling.upper(), Reality=False, backend="ducc0"))


def big_forward(f, L, spin, sampling):
    import pyssht

    l, m = _lm(L)
    out = np.zeros((L, 2 * L - 1), complex)
    out[l, L - 1 + m] = pyssht.forward(np.ascontiguousarray(f, dtype=complex), L, spin, Method=sampling.upper(),
                                       Reality=False, backend="ducc0")
    out[: abs(spin)] = 0
    return out


def big_so3_inverse(flmn, L, N, sampling):
    """Sum over n of spin -n transforms (Goldberg relation)."""
    k = np.sqrt((2 * np.arange(L) + 1) / (16 * np.pi**3))[:, None]
    F = np.stack([(-1.0) ** n * big_inverse(flmn[N - 1 + n] * k * (np.arange(L) >= abs(n))[:, None], L, -n, sampling)
                  for n in range(-(N - 1), N)])
    ga = 2 * np.pi * np.arange(2 * N - 1) / (2 * N - 1)
    return np.tensordot(np.exp(1j * np.outer(ga, np.arange(-(N - 1), N))), F, axes=(1, 0))


def s2_inverse(flm, L, spin, sampling):
    """Signal on the grid from harmonic coefficients [L, 2L-1]."""
    if L > BIG:
        return big_inverse(flm, L, spin, sampling)
    th, ph = thetas(L, sampling), phis(L, sampling)
    d = _d_all(L, th)
    G = np.zeros((len(th), 2 * L - 1), complex)
    for l in range(abs(spin), L):
        # sYlm = (-1)^s sqrt((2l+1)/4pi) d^l_{m,-s}(theta) e^{im phi}
        G[:, L - 1 - l : L + l] += (
            (-1.0) ** abs(spin)
            * math.sqrt((2 * l + 1) / (4 * np.pi))
            * d[l][:, :, l - spin]
            * flm[l, L - 1 - l : L + l]
        )
    E = np.exp(1j * np.outer(np.arange(-(L - 1), L), ph))
    return G @ E


def so3_inverse(flmn, L, N, sampling):
    if L > BIG:
        return big_so3_inverse(flmn, L, N, sampling)
    th, ph = thetas(L, sampling), phis(L, sampling)
    ga = 2 * np.pi * np.arange(2 * N - 1) / (2 * N - 1)
    d = _d_all(L, th)
    G = np.zeros((2 * N - 1, len(th), 2 * L - 1), complex)
    for l in range(L):
        nn = min(l, N - 1)
        for n in range(-nn, nn + 1):
            G[N - 1 + n, :, L - 1 - l : L + l] += (
                (2 * l + 1)
                / (8 * np.pi**2)
                * d[l][:, :, l + n]
                * flmn[N - 1 + n, l, L - 1 - l : L + l]
            )
    E = np.exp(1j * np.outer(np.arange(-(L - 1), L), ph))
    F = G @ E
    En = np.exp(1j * np.outer(ga, np.arange(-(N - 1), N)))
    return np.tensordot(En, F, axes=(1, 0))


def so3_forward(f, L, N, sampling):
    """Wigner coefficients of samples, by least squares; also the misfit."""
    th, ph = thetas(L, sampling), phis(L, sampling)
    ga = 2 * np.pi * np.arange(2 * N - 1) / (2 * N - 1)
    d = _d_all(L, th)
    En = np.exp(-1j * np.outer(np.arange(-(N - 1), N), ga)) / (2 * N - 1)
    E = np.exp(-1j * np.outer(ph, np.arange(-(L - 1), L))) / len(ph)
    G = np.tensordot(En, f, axes=(1, 0)) @ E
    out = np.zeros((2 * N - 1, L, 2 * L - 1), complex)
    back = np.zeros_like(G)
    for n in range(-(N - 1), N):
        for m in range(-(L - 1), L):
            lo = max(abs(m), abs(n))
            if lo >= L:
                continue
            A = np.stack([(2 * l + 1) / (8 * np.pi**2) * d[l][:, l + m, l + n] for l in range(lo, L)], 1)
            x = np.linalg.lstsq(A, G[N - 1 + n, :, L - 1 + m], rcond=1e-13)[0]
            out[N - 1 + n, lo:, L - 1 + m] = x
            back[N - 1 + n, :, L - 1 + m] = A @ x
    E2 = np.exp(1j * np.outer(np.arange(-(L - 1), L), ph))
    En2 = np.exp(1j * np.outer(ga, np.arange(-(N - 1), N)))
    res = np.tensordot(En2, back @ E2, axes=(1, 0)) - f
    return out, float(np.max(np.abs(res)))


def s2_forward(f, L, spin, sampling):
    th, ph = thetas(L, sampling), phis(L, sampling)
    d = _d_all(L, th)
    E = np.exp(-1j * np.outer(ph, np.arange(-(L - 1), L))) / len(ph)
    G = f @ E
    out = np.zeros((L, 2 * L - 1), complex)
    back = np.zeros_like(G)
    for m in range(-(L - 1), L):
        lo = max(abs(m), abs(spin))
        if lo >= L:
            continue
        A = np.stack([(-1.0) ** abs(spin) * math.sqrt((2 * l + 1) / (4 * np.pi)) * d[l][:, l + m, l - spin]
                      for l in range(lo, L)], 1)
        x = np.linalg.lstsq(A, G[:, L - 1 + m], rcond=1e-13)[0]
        out[lo:, L - 1 + m] = x
        back[:, L - 1 + m] = A @ x
    E2 = np.exp(1j * np.outer(np.arange(-(L - 1), L), ph))
    return out, float(np.max(np.abs(back @ E2 - f)))


_PINV: dict = {}


def _s2_ops(L, spin, sampling):
    """Per order m: first degree, ring matrix and its pseudo-inverse."""
    key = (L, spin, sampling.lower())
    if key not in _PINV:
        if sum(k[0] ** 3 for k in _PINV) > 1.5e7:
            _PINV.clear()
        d = _d_all(L, thetas(L, sampling))
        ops = []
        for m in range(-(L - 1), L):
            lo = max(abs(m), abs(spin))
            if lo >= L:
                ops.append(None)
                continue
            A = np.stack([(-1.0) ** abs(spin) * math.sqrt((2 * l + 1) / (4 * np.pi)) * d[l][:, l + m, l - spin]
                          for l in range(lo, L)], 1)
            ops.append((lo, A, np.linalg.pinv(A, rcond=1e-13)))
        _PINV[key] = ops
    return _PINV[key]


def s2_inverse_fast(flm, L, spin, sampling, reality=False, L_lower=0):
    """s2_inverse with the options of s2fft's numpy transforms."""
    if L > BIG:
        x = np.array(flm)
        x[: max(L_lower, abs(spin))] = 0
        if reality and spin == 0:
            x[:, : L - 1] = ((-1.0) ** np.arange(1, L) * np.conj(x[:, L:]))[:, ::-1]
            x[:, L - 1] = x[:, L - 1].real
            return big_inverse(x, L, spin, sampling).real
        return big_inverse(x, L, spin, sampling)
    ph = phis(L, sampling)
    ops = _s2_ops(L, spin, sampling)
    G = np.zeros((len(thetas(L, sampling)), 2 * L - 1), complex)
    real = reality and spin == 0
    for m in range(0 if real else -(L - 1), L):
        op = ops[L - 1 + m]
        if op is None:
            continue
        lo, A, _ = op
        k = max(lo, L_lower)
        G[:, L - 1 + m] = A[:, k - lo :] @ flm[k:, L - 1 + m]
    if real:
        E = np.exp(1j * np.outer(np.arange(0, L), ph))
        return (G[:, L - 1 :] @ (E * np.where(np.arange(L) > 0, 2.0, 1.0)[:, None])).real
    return G @ np.exp(1j * np.outer(np.arange(-(L - 1), L), ph))


def s2_forward_fast(f, L, spin, sampling, reality=False, L_lower=0):
    if L > BIG:
        out = big_forward(np.real(f) if reality and spin == 0 else f, L, spin, sampling)
        out[:L_lower] = 0
        return out
    ph = phis(L, sampling)
    ops = _s2_ops(L, spin, sampling)
    real = reality and spin == 0
    f = np.real(f) if real else f
    G = f @ (np.exp(-1j * np.outer(ph, np.arange(-(L - 1), L))) / len(ph))
    out = np.zeros((L, 2 * L - 1), complex)
    for m in range(0 if real else -(L - 1), L):
        op = ops[L - 1 + m]
        if op is not None:
            out[op[0] :, L - 1 + m] = op[2] @ G[:, L - 1 + m]
    if real:
        for m in range(1, L):
            out[:, L - 1 - m] = (-1.0) ** m * np.conj(out[:, L - 1 + m])
    out[:L_lower] = 0
    return out


def rotate_lm(a, L, alpha, beta, gamma):
    """Active rotation of harmonic ([l, m]) or Wigner ([n, l, m]) coefficients."""
    a = np.asarray(a)
    lead = a if a.ndim == 3 else a[None]
    out = np.zeros_like(lead)
    for l in range(L):
        m = np.arange(-l, l + 1)
        D = (np.exp(-1j * m * alpha)[:, None] * wigner_d(l, np.array([beta]))[0]
             * np.exp(-1j * m * gamma)[None, :])
        out[:, l, L - 1 - l : L + l] = lead[:, l, L - 1 - l : L + l] @ D.T
    return out if a.ndim == 3 else out[0]


def analysis_lmn(flm, L, N, J_min, lam, psi, multires=True, J_max=None):
    """Wigner coefficients W^j_lmn = 8pi^2/(2l+1) f_lm conj(psi^j_ln), per scale."""
    J = J_max if J_max is not None else psi.shape[0] - 1
    out = []
    for j in range(J_min, J + 1):
        Lj, Nj = wav_L(L, j, lam, multires), wav_N(L, j, N, lam, multires)
        a = np.zeros((2 * Nj - 1, Lj, 2 * Lj - 1), complex)
        for l in range(wav_L0(j, lam, multires), Lj):
            nn = min(Nj - 1, l)
            p = np.conj(psi[j, l, L - 1 - nn : L + nn]) * 8 * np.pi**2 / (2 * l + 1)
            a[Nj - 1 - nn : Nj + nn, l, Lj - 1 - l : Lj + l] = (
                p[:, None] * flm[l, L - 1 - l : L + l][None]
            )
        out.append(a)
    return out


def scaling_lm(flm, L, J_min, lam, phi, multires=True):
    Ls = scal_L(L, J_min, lam, multires)
    a = np.zeros((Ls, 2 * Ls - 1), complex)
    for l in range(Ls):
        a[l, Ls - 1 - l : Ls + l] = (
            math.sqrt(4 * np.pi / (2 * l + 1)) * phi[l] * flm[l, L - 1 - l : L + l]
        )
    return a


def analysis(flm, L, N, J_min, lam, psi, phi, spin, sampling, multires=True):
    wl = analysis_lmn(flm, L, N, J_min, lam, psi, multires)
    w = []
    for i, a in enumerate(wl):
        Lj, Nj = a.shape[1], (a.shape[0] + 1) // 2
        w.append(so3_inverse(a, Lj, Nj, sampling))
    s = scaling_lm(flm, L, J_min, lam, phi, multires)
    return w, s2_inverse(s, s.shape[0], spin, sampling)


def synthesis_lm(wl, sl, L, N, J_min, lam, psi, phi, multires=True):
    """flm = sum_j sum_n W^j_lmn psi^j_ln + sqrt(4pi/(2l+1)) S_lm phi_l."""
    flm = np.zeros((L, 2 * L - 1), complex)
    for i, a in enumerate(wl):
        j = J_min + i
        Lj, Nj = a.shape[1], (a.shape[0] + 1) // 2
        for l in range(wav_L0(j, lam, multires), Lj):
            nn = min(Nj - 1, l)
            flm[l, L - 1 - l : L + l] += np.einsum(
                "n,nm->m",
                psi[j, l, L - 1 - nn : L + nn],
                a[Nj - 1 - nn : Nj + nn, l, Lj - 1 - l : Lj + l],
            )
    Ls = sl.shape[0]
    for l in range(Ls):
        flm[l, L - 1 - l : L + l] += (
            math.sqrt(4 * np.pi / (2 * l + 1)) * phi[l] * sl[l, Ls - 1 - l : Ls + l]
        )
    return flm


# ------------------------------------------------------------------ random signals


def rand_flm(rng, L, spin=0, real=False, lo=0):
    flm = np.zeros((L, 2 * L - 1), complex)
    for l in range(max(abs(spin), lo), L):
        for m in range(-l, l + 1):
            flm[l, L - 1 + m] = rng.normal() + 1j * rng.normal()
    return realify_flm(flm, L) if real else flm


def realify_flm(flm, L):
    for l in range(L):
        flm[l, L - 1] = flm[l, L - 1].real
        for m in range(1, l + 1):
            flm[l, L - 1 - m] = (-1.0) ** m * np.conj(flm[l, L - 1 + m])
    return flm


def rand_flmn(rng, L, N, L0=0, real=False, parity=None):
    """Random Wigner coefficients; parity=k keeps only n with (n+k) even."""
    a = np.zeros((2 * N - 1, L, 2 * L - 1), complex)
    for l in range(L0, L):
        nn = min(N - 1, l)
        for n in range(-nn, nn + 1):
            if parity is not None and (n + parity) % 2:
                continue
            a[N - 1 + n, l, L - 1 - l : L + l] = rng.normal(
                size=2 * l + 1
            ) + 1j * rng.normal(size=2 * l + 1)
    if real:
        b = np.zeros_like(a)
        for l in range(L0, L):
            nn = min(N - 1, l)
            for n in range(-nn, nn + 1):
                for m in range(-l, l + 1):
                    b[N - 1 + n, l, L - 1 + m] = 0.5 * (
                        a[N - 1 + n, l, L - 1 + m]
                        + (-1.0) ** (m + n) * np.conj(a[N - 1 - n, l, L - 1 - m])
                    )
        a = b
    return a
