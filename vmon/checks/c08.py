"""C08 scale arithmetic: band-limits cover exactly the support of the kernels."""
from fractions import Fraction

import numpy as np

from .. import ref as R, sut as S, work as W


def _arith(task, M):
    lam, A = task["lam"], S.SAM
    q = Fraction(lam)
    pw, amb, p = [], [], Fraction(1)
    while p < task["hi"] * q * q:
        f = float(p)
        tie = p.denominator != 1 and abs(f - round(f)) <= 1e-9 * f
        pw.append(p)
        amb.append(tie)
        p *= q
    ce = [R._ceil(x) for x in pw]
    bad = 0
    first = None
    n = 0
    step = 1 if lam >= 1.3 else 3
    for L in range(task["lo"], task["hi"], step):
        J = next(i for i, x in enumerate(pw) if x >= L)
        if any(amb[: J + 2]):
            continue
        n += 1
        ok = A.j_max(L, lam) == J
        if lam != 2 or L % 7 == 0:
            js = range(0, J + 1)
        else:
            js = range(0, J + 1)
        for j in js:
            Lj = min(ce[max(j, 1) + 1] if max(j, 1) + 1 < len(ce) else L, L)
            ok &= A.wav_j_bandlimit(L, j, lam, True) == Lj
            ok &= A.wav_j_bandlimit(L, j, lam, False) == L
            ok &= A.scal_bandlimit(L, j, lam, True) == min(ce[j], L)
            ok &= A.scal_bandlimit(L, j, lam, False) == L
            ok &= A.n_wav_scales(L, 1, j, lam) == J - j + 1
            N = 1 + (L + j) % 6
            l_, n_, l0 = A.LN_j(L, j, N, lam, True)
            ok &= (l_, n_, l0) == (Lj, R_N(N, Lj), min(ce[max(j, 1) - 1], Lj - 1))
            ok &= tuple(A.LN_j(L, j, N, lam, False)) == (L, N, 0)
            ok &= n_ <= N and (n_ - N) % 2 == 0 and 0 <= l0 < l_ <= L
            if j >= 1:
                ok &= A.L0_j(j, lam) == ce[j - 1]
        if not ok:
            bad += 1
            first = first or L
    M.true("band-limit-formulas", bad == 0, nontrivial=n > 0, first_bad_L=first, bad=bad)
    M.by["band-limit-configurations"] = M.by.get("band-limit-configurations", 0) + n


def R_N(N, Lj):
    n = min(N, Lj)
    return n + (n + N) % 2


def run(task, M):
    op = task["op"]
    if op == "arith":
        return _arith(task, M)
    c = task["cfg"]
    L, N, J_min, lam, J = W.geom(c)
    if op == "support":
        A = S.SAM
        J = A.j_max(L, lam)
        for name, fn in (("looped", S.FIL.filters_directional), ("vectorised", S.FIL.filters_directional_vectorised)):
            if name == "looped" and L > 40:
                continue
            r = M.call("generate", fn, L, N, J_min, lam, c.get("spin", 0))
            if r is None:
                continue
            psi, phi = r
            M.true("number-of-kernels:" + name, len(psi) == J + 1)
            out = tot = 0.0
            m = np.arange(-(L - 1), L)
            for j in range(J_min, J + 1):
                Lj, Nj, L0 = A.LN_j(L, j, N, lam, True)
                Lb = A.wav_j_bandlimit(L, j, lam, True)
                M.true("consistent:" + name, Lb == Lj)
                p = np.abs(psi[j])
                tot = max(tot, p.max())
                out = max(out, p[:L0].max(initial=0), p[Lj:].max(initial=0),
                          p[:, np.abs(m) > Nj - 1].max(initial=0), p[:, (m + N - 1) % 2 != 0].max(initial=0))
            Ls = A.scal_bandlimit(L, J_min, lam, True)
            out = max(out, np.abs(phi[Ls:]).max(initial=0))
            tot = max(tot, np.abs(phi).max())
            M.true("kernels-inside-support:" + name, out <= 1e-7 * tot, outside=float(out), peak=float(tot))
            # the band-limits are not needlessly wide: wherever a kernel is clearly non-zero by
            # definition it is stored, and the top scale reaches the band-limit of the signal
            M.true("top-scale-reaches-L:" + name, A.wav_j_bandlimit(L, J, lam, True) == L)
        return
    # lossless: degrees at the edges of the supports survive an analysis/synthesis pass
    b = task["backend"]
    edges = sorted({min(max(e, abs(c.get("spin", 0))), L - 1)
                    for j in range(0, J + 2) for e in (int(float(lam) ** j) - 1, int(float(lam) ** j),
                                                       int(float(lam) ** j) + 1)} | {L - 1})
    a = W.flm(task, signal="random")
    mask = np.zeros(L, bool)
    mask[edges] = True
    a = a * mask[:, None]
    f = W.signal(task, a)
    r = M.call("analysis", S.analysis, b, f, c)
    if not r:
        return
    g = M.call("synthesis", S.synthesis, b, r[0], r[1], c)
    if g is not None:
        M.close("edge-degrees-survive", g, f, W.tol(c))
