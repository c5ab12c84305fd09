"""C14 multiresolution storage represents the same functions as full-resolution storage."""
import numpy as np

from .. import ref as R, sut as S, work as W


def up(a, L, N):
    """Embed Wigner coefficients of a coarse scale in the full-resolution array."""
    n, l = (a.shape[0] + 1) // 2, a.shape[1]
    out = np.zeros((2 * N - 1, L, 2 * L - 1), complex)
    k = min(n, N)
    out[N - k: N - 1 + k, :l, L - l: L - 1 + l] = a[n - k: n - 1 + k]
    return out, float(np.abs(a[: n - k]).max(initial=0) + np.abs(a[n - 1 + k:]).max(initial=0))


def run(task, M):
    b = task["backend"]
    cm = dict(task["cfg"], multires=True)
    cf = dict(task["cfg"], multires=False)
    L, N, J_min, lam, J = W.geom(cm)
    sam, spin, t = cm["sampling"], cm.get("spin", 0), W.tol(cm)
    f = W.signal(task)
    rm = M.call("analysis-multiresolution", S.analysis, b, f, cm)
    rf = M.call("analysis-full", S.analysis, b, f, cf)
    if not rm or not rf:
        return
    sc = W._mx(rf)
    if len(rm[0]) != len(rf[0]):
        M.fail("number-of-scales", got=len(rm[0]), want=len(rf[0]))
        return
    full = []
    for i, (x, y) in enumerate(zip(rm[0], rf[0])):
        Lj, Nj = R.wav_L(L, J_min + i, lam), R.wav_N(L, J_min + i, N, lam)
        if x.shape != R.so3_shape(Lj, Nj, sam) or y.shape != R.so3_shape(L, N, sam):
            M.fail("shape", got=[list(x.shape), list(y.shape)])
            return
        a, _ = R.so3_forward(x, Lj, Nj, sam)
        u, lost = up(a, L, N)
        M.close("same-wavelet-function", R.so3_inverse(u, L, N, sam), y, t, scale=sc)
        full.append(u)
    Ls = R.scal_L(L, J_min, lam)
    a, _ = R.s2_forward(rm[1], Ls, spin, sam)
    us = np.zeros((L, 2 * L - 1), complex)
    us[:Ls, L - Ls: L - 1 + Ls] = a
    M.close("same-scaling-function", R.s2_inverse(us, L, spin, sam), rf[1], t, scale=sc)
    # synthesis: arbitrary coarse coefficients, and the same functions resampled at full resolution
    wl, sl = W.coeffs_lm(task, cfg=cm)
    w, s = W.coeffs_pix(wl, sl, cm)
    us = np.zeros((L, 2 * L - 1), complex)
    us[:Ls, L - Ls: L - 1 + Ls] = sl
    wf, sf = W.coeffs_pix([up(x, L, N)[0] for x in wl], us, cf)
    g1 = M.call("synthesis-multiresolution", S.synthesis, b, w, s, cm)
    g2 = M.call("synthesis-full", S.synthesis, b, wf, sf, cf)
    if g1 is not None and g2 is not None:
        M.close("same-synthesis", g1, g2, t)
    g3 = M.call("synthesis-full", S.synthesis, b, rf[0], rf[1], cf)
    if g3 is not None:
        M.close("roundtrip-full", g3, f, t)
