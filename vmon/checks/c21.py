"""C21 localisation in scale: a signal of degree l touches only the scales whose kernel
covers l, each with the energy share the kernel prescribes."""
import numpy as np

from .. import ref as R, sut as S, work as W


def run(task, M):
    b, c = task["backend"], task["cfg"]
    L, N, J_min, lam, J = W.geom(c)
    g = W.rng(task, 21)
    lo = abs(c["spin"])
    cand = sorted({e for j in range(J + 2) for e in (int(float(lam) ** j) - 1, int(float(lam) ** j),
                                                     int(float(lam) ** j) + 1) if lo <= e < L} | {lo, L - 1})
    ls = [int(g.choice(cand)), int(g.integers(lo, L))]
    k = R.k_true(L, lam)
    pre = S.precomps(c, b, False) if S.kind(b) in ("pre", "torch") else None
    for l in sorted(set(ls)):
        a = W.flm(task, 70 + l, signal=f"mono:{l}")
        r = M.call("analysis", S.analysis, b, W.signal(task, a), c, pre=pre)
        if not r:
            return
        sc = float(np.abs(a).max()) * np.sqrt(2 * l + 1)
        q = float(lam)
        for i, x in enumerate(r[0]):
            j = J_min + i
            covers = q ** (j - 1) < l < q ** (j + 1)
            mx = float(np.abs(x).max())
            if not covers:
                M.true("silent-outside-support", mx <= 1e-7 * sc, degree=l, scale=j, leak=mx)
            elif k[j + 1, l] - k[j, l] > 1e-3:
                M.true("present-inside-support", mx > 1e-4 * sc, degree=l, scale=j, value=mx)
        mx = float(np.abs(r[1]).max())
        if l >= q**J_min:
            M.true("scaling-silent", mx <= 1e-7 * sc, degree=l, leak=mx)
        elif k[J_min, l] > 1e-3:
            M.true("scaling-present", mx > 1e-4 * sc, degree=l, value=mx)
        # at most two consecutive scales (or one and the scaling function) hold any degree
        live = [J_min + i for i, x in enumerate(r[0]) if np.abs(x).max() > 1e-7 * sc]
        M.true("at-most-two-consecutive-scales",
               len(live) + (mx > 1e-7 * sc) <= 2 and (len(live) < 2 or live[1] == live[0] + 1), live=live, degree=l)
