"""C13 reality: for a real signal the reality switch changes nothing but the cost."""
import numpy as np

from .. import plans, sut as S, work as W


def run(task, M):
    b = task["backend"]
    ct = dict(task["cfg"], reality=True, spin=0)
    cf = dict(ct, reality=False)
    t = W.tol(ct)
    f = W.signal(task, W.flm(task, cfg=ct), cfg=ct)
    # the container of real data may be of real or of complex type (the C library needs its own)
    n = 0 if S.kind(b) == "c" else task["seed"] % 4
    xt, xf = f + (0j if n & 1 else 0), f + (0 if n & 2 else 0j)
    rt = M.call("analysis-reality", _analysis, b, xt, ct)
    rf = M.call("analysis", _analysis, b, xf, cf)
    if not rt or not rf:
        return
    W.compare(M, "same-coefficients", rt, rf, t)
    sc = W._mx(rf)
    M.true("coefficients-real", all(np.abs(np.imag(x)).max() <= t * sc for x in list(rt[0]) + [rt[1]]
                                    + list(rf[0]) + [rf[1]]))
    if plans.blocked(b, ct):
        return
    w, s = W.coeffs_pix(*W.coeffs_lm(task, cfg=ct), ct)
    gt = M.call("synthesis-reality", _synthesis, b, w, s, ct, bool(n & 1))
    gf = M.call("synthesis", _synthesis, b, w, s, cf, not n & 2)
    if gt is None or gf is None:
        return
    M.close("same-signal", gt, gf, t)
    M.true("signal-real", max(np.abs(np.imag(gt)).max(), np.abs(np.imag(gf)).max()) <= t * np.abs(gf).max())


def _analysis(b, x, c):
    w, s = S.run_analysis(b, S.to_backend(x, b), c)
    return [S.npy(a) for a in w], S.npy(s)


def _synthesis(b, w, s, c, cplx):
    z = 0j if cplx else 0
    return S.npy(S.run_synthesis(b, [S.to_backend(a + z, b) for a in w], S.to_backend(s + z, b), c))
