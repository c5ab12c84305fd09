"""C07 every filter generator returns the kernels of the definition."""
import math

import numpy as np

from .. import ref as R, sut as S, work as W

F = S.FIL


def _jit_off(fn, *a):
    with S.jax.disable_jit():
        return fn(*a)


def run(task, M):
    op = task["op"]
    if op == "binomial":
        for n in range(task["lo"], task["hi"]):
            for k in range(n + 1):
                want = math.comb(n, k)
                M.close("binomial", float(S.SAM.binomial_coefficient(n, k)), float(want), 1e-9)
                if n % 5 == 0:
                    M.close("binomial-jax", float(S.SAM.binomial_coefficient_jax(n, k)), float(want), 1e-9)
        return
    c = task["cfg"]
    L, N, J_min, lam, J = W.geom(c)
    spin, s0 = c.get("spin", 0), task.get("spin0", 0)
    if op in ("dir", "jax"):
        psi, phi = R.filters(L, N, J_min, lam, spin, s0)
        gens = dict(looped=lambda: F.filters_directional(L, N, J_min, lam, spin, s0),
                    vectorised=lambda: F.filters_directional_vectorised(L, N, J_min, lam, spin, s0),
                    torch=lambda: F.filters_directional_vectorised(L, N, J_min, lam, spin, s0, using_torch=True),
                    torch_looped=lambda: F.filters_directional(L, N, J_min, lam, spin, s0, using_torch=True))
        if op == "jax":
            gens["jax"] = lambda: _jit_off(F.filters_directional_jax, L, N, J_min, lam, spin, s0)
        got = {}
        for k, g in gens.items():
            r = M.call("generate:" + k, g)
            if r is not None:
                got[k] = (S.npy(r[0])[J_min:], S.npy(r[1]))
        # kernels with spin0 != 0 span many orders of magnitude: compare per degree
        el = np.arange(L)
        sn = np.array([R.spin_norm(l, s0) if s0 and l >= abs(s0) else 1.0 for l in range(L)])
        sc_w = np.sqrt((2 * el + 1) / (8 * np.pi**2)) * sn
        sc_s = np.sqrt((2 * el + 1) / (4 * np.pi)) * sn
        for k, (a, b) in got.items():
            if a.shape != psi[J_min:].shape or b.shape != phi.shape:
                M.fail("shape:" + k, got=[list(a.shape), list(b.shape)])
                continue
            M.close("definition-wavelet:" + k, a / sc_w[None, :, None], psi[J_min:] / sc_w[None, :, None], 2e-3,
                    scale=1.0)
            M.close("definition-scaling:" + k, b / sc_s, phi / sc_s, 2e-3, scale=1.0)
            r = got.get("looped")
            if r is not None and k != "looped":
                M.close("generators-agree-wavelet:" + k, a / sc_w[None, :, None], r[0] / sc_w[None, :, None], 1e-8,
                        scale=1.0)
                M.close("generators-agree-scaling:" + k, b / sc_s, r[1] / sc_s, 1e-8, scale=1.0)
    elif op == "axisym":
        k = R.k_true(L, lam)
        kap = np.sqrt(np.clip(k[1:] - k[:-1], 0, None))
        kap0 = np.sqrt(k[J_min])
        got = {}
        for name, g in (("looped", F.filters_axisym), ("vectorised", F.filters_axisym_vectorised)):
            r = M.call("generate:" + name, g, L, J_min, lam)
            if r is not None:
                got[name] = (S.npy(r[0])[J_min:], S.npy(r[1]))
        if task["seed"] % 4 == 0 and L <= 12:
            r = M.call("generate:jax", _jit_off, F.filters_axisym_jax, L, J_min, lam)
            if r is not None:
                got["jax"] = (S.npy(r[0])[J_min:], S.npy(r[1]))
        for name, (a, b) in got.items():
            M.close("definition-wavelet:" + name, a, kap[J_min:], 2e-3, scale=1.0)
            M.close("definition-scaling:" + name, b, kap0, 2e-3, scale=1.0)
            if "looped" in got and name != "looped":
                # differences of two nearly equal numbers under a square root
                M.close("generators-agree-wavelet:" + name, a**2, got["looped"][0] ** 2, 1e-12, scale=1.0)
                M.close("generators-agree-scaling:" + name, b, got["looped"][1], 1e-8, scale=1.0)
    elif op == "klam":
        k = M.call("generate", F.k_lam, L, lam)
        if k is not None:
            k = S.npy(k)
            M.close("definition", k, R.k_true(L, lam), 1e-3, scale=1.0)
            M.true("monotone-in-scale", bool(np.all(np.diff(k, axis=0) >= -1e-9)))
            M.true("monotone-in-degree", bool(np.all(np.diff(k, axis=1) <= 1e-9)))
            M.true("unit-interval", bool(np.all(k >= -1e-12) and np.all(k <= 1 + 1e-9)))
            M.close("full-range", k[-1], np.ones(L), 1e-12)
        if task["seed"] % 4 == 0 and L <= 16:
            q = M.call("generate:jax", _jit_off, F.k_lam_jax, L, lam)
            if q is not None and k is not None:
                M.close("jax-agrees", S.npy(q), k, 1e-9, scale=1.0)
    elif op == "tiling":
        want = R.eta(L, N)
        for name, g in (("numpy", F.tiling_direction), ("jax", F.tiling_direction_jax)):
            if name == "jax" and (task["seed"] % 6 or L > 12):
                continue
            r = M.call("generate:" + name, _jit_off if name == "jax" else (lambda fn, *a: fn(*a)), g, L, N)
            if r is not None:
                r = S.npy(r)
                M.close("definition:" + name, r, want, 1e-10)
                M.close("unit-norm:" + name, np.sum(np.abs(r[1:]) ** 2, axis=1), np.ones(L - 1), 1e-10)
