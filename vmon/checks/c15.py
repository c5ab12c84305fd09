"""C15 rotating the signal rotates its wavelet and scaling coefficients."""
import numpy as np

from .. import ref as R, sut as S, work as W


def run(task, M):
    b, c = task["backend"], task["cfg"]
    L, N, J_min, lam, J = W.geom(c)
    sam, spin, t = c["sampling"], c.get("spin", 0), W.tol(c)
    g = W.rng(task, 3)
    al, be, ga = (float(x) for x in g.uniform(0.1, 3.0, 3))
    if task["op"] == "azimuth":
        be = ga = 0.0
    a = W.flm(task)
    ar = R.rotate_lm(a, L, al, be, ga)
    pre = S.precomps(c, b, False) if S.kind(b) in ("pre", "torch") else None
    r0 = M.call("analysis", S.analysis, b, W.signal(task, a), c, pre=pre)
    r1 = M.call("analysis", S.analysis, b, W.signal(task, ar), c, pre=pre)
    if not r0 or not r1:
        return
    sc = W._mx(r0)
    for i, (x, y) in enumerate(zip(r0[0], r1[0])):
        Lj, Nj = R.wav_L(L, J_min + i, lam), R.wav_N(L, J_min + i, N, lam)
        if x.shape != R.so3_shape(Lj, Nj, sam):
            M.fail("shape", got=list(x.shape))
            return
        if task["op"] == "azimuth":
            ph = R.phis(Lj, sam)
            m = np.arange(-(Lj - 1), Lj)
            T = np.exp(-1j * np.outer(ph, m)) / len(ph) @ (np.exp(-1j * m * al)[:, None] * np.exp(1j * np.outer(m, ph)))
            want = x @ T
        else:
            lmn, _ = R.so3_forward(x, Lj, Nj, sam)
            want = R.so3_inverse(R.rotate_lm(lmn, Lj, al, be, ga), Lj, Nj, sam)
        M.close("wavelet-equivariant", y, want, t, scale=sc)
    Ls = R.scal_L(L, J_min, lam)
    slm, _ = R.s2_forward(r0[1], Ls, spin, sam)
    M.close("scaling-equivariant", r1[1], R.s2_inverse(R.rotate_lm(slm, Ls, al, be, ga), Ls, spin, sam), t, scale=sc)
