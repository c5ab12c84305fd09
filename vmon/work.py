"""Workload construction shared by the checks: signals, coefficients, kernels."""
from __future__ import annotations

import numpy as np

from . import ref as R
from . import sut as S


def rng(task, salt=0):
    return np.random.default_rng([int(task.get("seed", 0)), salt])


def geom(cfg):
    """(L, N, J_min, lam) and J."""
    L, N, J_min, lam = S.pos(cfg)
    return L, N, J_min, lam, R.j_max(L, lam)


def tol(cfg, t=1e-10):
    t *= 1 if cfg["L"] <= 24 else 10 if cfg["L"] <= 64 else 100
    # s2fft's precomputed kernels lose about a digit per unit of spin beside the poles of the dh grid
    if cfg.get("sampling") == "dh" and abs(cfg.get("spin", 0)) > 2:
        t = min(max(t, 1e-6), t * 10.0 ** (abs(cfg["spin"]) - 2))
    return t


def exact(task):
    """Tolerance where s2wav's 300-point quadrature of kappa meets the exact one (hdr can amplify its worst degree)."""
    return 2e-2 if task.get("signal") == "hdr" else 1e-3


def flm(task, salt=0, cfg=None, signal=None):
    """Harmonic coefficients [L, 2L-1] of the task's signal."""
    c = cfg or task["cfg"]
    L, spin = c["L"], abs(c.get("spin", 0))
    g = rng(task, salt)
    sig = signal or task.get("signal", "random")
    real = bool(c["reality"])
    a = R.rand_flm(g, L, spin, real)
    el = np.arange(L)[:, None]
    m = np.arange(-(L - 1), L)[None]
    if sig == "top":
        a = a * (el == L - 1)
    elif sig == "const":
        a = a * (el == spin)
    elif sig == "zonal":
        a = a * (m == 0)
    elif sig == "sectoral":
        a = a * (abs(m) == el)
    elif sig == "hdr":  # high dynamic range: each degree its own order of magnitude
        a = a * 10.0 ** (-9.5 * g.random((L, 1)))
    elif sig in ("posm", "negm") and not real:
        a = a * (m > 0 if sig == "posm" else m < 0)
    elif sig == "one":  # one harmonic (a conjugate pair if real)
        l1 = int(g.integers(spin, L))
        a = a * (el == l1) * (abs(m) == int(g.integers(0, l1 + 1)))
        if not real:
            a = a * (m >= 0 if g.integers(2) else m <= 0)
    elif sig == "tiny":
        a = a * 1e-12
    elif sig == "huge":
        a = a * 1e12
    elif sig in ("real", "imag") and c.get("spin", 0) == 0:
        a = R.realify_flm(a, L)
        if sig == "imag" and not real:
            a = 1j * a
    elif sig.startswith("mono:"):
        a = a * (el == int(sig[5:]))
    if not np.any(a):  # e.g. zonal signal without m = 0
        a = R.rand_flm(g, L, spin, real)
    return a


def signal(task, a=None, cfg=None):
    c = cfg or task["cfg"]
    if a is None:
        a = flm(task, cfg=c)
    f = R.s2_inverse(a, c["L"], c.get("spin", 0), c["sampling"])
    return f.real if c["reality"] else f


def coeffs_lm(task, salt=7, cfg=None):
    """Arbitrary band-limited wavelet/scaling coefficients, in harmonic space."""
    c = cfg or task["cfg"]
    L, N, J_min, lam, J = geom(c)
    mr = c.get("multires", True)
    g = rng(task, salt)
    amp = {"tiny": 1e-12, "huge": 1e12}.get(task.get("signal"), 1.0)
    wl = [amp * R.rand_flmn(g, R.wav_L(L, j, lam, mr), R.wav_N(L, j, N, lam, mr), 0, c["reality"])
          for j in range(J_min, J + 1)]
    sl = amp * R.rand_flm(g, R.scal_L(L, J_min, lam, mr), c.get("spin", 0), c["reality"])
    if task.get("signal") == "hdr":
        d = 10.0 ** (-9.5 * g.random((L, 1)))  # the same for all scales: whole degrees of the result are small
        wl = [x * d[: x.shape[1]] for x in wl]
        sl = sl * d[: sl.shape[0]]
    return wl, sl


def coeffs_pix(wl, sl, cfg):
    sam = cfg["sampling"]
    w = [R.so3_inverse(a, a.shape[1], (a.shape[0] + 1) // 2, sam) for a in wl]
    s = R.s2_inverse(sl, sl.shape[0], cfg.get("spin", 0), sam)
    if cfg["reality"]:
        return [x.real for x in w], s.real
    return w, s


def custom_filters(task, salt=11):
    """Arbitrary steerable kernels on the advertised support of each scale."""
    c = task["cfg"]
    L, N, J_min, lam, J = geom(c)
    g = rng(task, salt)
    psi = np.zeros((J + 1, L, 2 * L - 1), complex)
    lo = abs(c.get("spin", 0))
    for j in range(J_min, J + 1):
        Lj, Nj = R.wav_L(L, j, lam), R.wav_N(L, j, N, lam)
        for l in range(max(lo, R.wav_L0(j, lam)), Lj):
            nn = min(Nj - 1, l)
            for n in range(-nn, nn + 1):
                if (n + N - 1) % 2 == 0:
                    psi[j, l, L - 1 + n] = g.normal() + 1j * g.normal()
            if c["reality"]:
                for n in range(0, nn + 1):
                    if (n + N - 1) % 2 == 0:
                        psi[j, l, L - 1 - n] = (-1.0) ** n * np.conj(psi[j, l, L - 1 + n])
                if nn >= 0 and (N - 1) % 2 == 0:
                    psi[j, l, L - 1] = psi[j, l, L - 1].real
    phi = np.zeros(L)
    Ls = R.scal_L(L, J_min, lam)
    phi[lo:Ls] = g.normal(size=max(0, Ls - lo))
    return psi, phi


def native_filters(fl, backend):
    import torch

    psi, phi = fl
    if S.kind(backend) == "torch":
        return torch.from_numpy(np.array(psi)), torch.from_numpy(np.array(phi))
    if S.kind(backend) in ("looped", "base"):
        return psi, phi
    return S.jnp.asarray(psi), S.jnp.asarray(phi)


def own_filters(cfg, backend="base", spin0=0):
    """The kernels the tree under test generates (numpy)."""
    L, N, J_min, lam = S.pos(cfg)
    fn = S.FIL.filters_directional if S.kind(backend) == "looped" else S.FIL.filters_directional_vectorised
    psi, phi = fn(L, N, J_min, lam, cfg.get("spin", 0), spin0)
    return np.array(psi), np.array(phi)


def ref_analysis(a, cfg, fl):
    L, N, J_min, lam = S.pos(cfg)
    return R.analysis(a, L, N, J_min, lam, fl[0], fl[1], cfg.get("spin", 0), cfg["sampling"],
                      cfg.get("multires", True))


def ref_synthesis(wl, sl, cfg, fl):
    L, N, J_min, lam = S.pos(cfg)
    a = R.synthesis_lm(wl, sl, L, N, J_min, lam, fl[0], fl[1], cfg.get("multires", True))
    a[: abs(cfg.get("spin", 0))] = 0
    return R.s2_inverse(a, L, cfg.get("spin", 0), cfg["sampling"])


def compare(M, name, got, want, t, amp=0.0):
    """got/want = (wavelet list, scaling); amp = amplitude of the input."""
    sc = max(_mx(want), 1e-3 * amp)
    ok = M.close_all(name + "-wavelet", got[0], want[0], t, scale=sc)
    return M.close(name + "-scaling", got[1], want[1], t, scale=sc) and ok


def _mx(want):
    return max([float(np.max(np.abs(x))) for x in list(want[0]) + [want[1]] if np.size(x)] + [1e-300])
