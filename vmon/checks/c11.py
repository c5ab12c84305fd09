"""C11 analysis and synthesis are linear maps."""
import numpy as np

from .. import plans, sut as S, work as W


def run(task, M):
    b, c = task["backend"], task["cfg"]
    g = W.rng(task, 5)
    f1 = W.signal(task)
    f2 = W.signal(task, W.flm(task, 1, signal="random"))
    p = float(g.normal() * 3)
    q = float(g.normal()) if c["reality"] else complex(g.normal(), g.normal())
    t = W.tol(c)
    M.auto_noise = False  # amplitudes differ between the executions of this task
    M.observe_inputs([f1, p * f1 + q * f2])
    pre = S.precomps(c, b, False) if S.kind(b) in ("pre", "torch") else None
    rs = [M.call("analysis", S.analysis, b, x, c, pre=pre) for x in (f1, f2, p * f1 + q * f2, 0 * f1)]
    if any(r is None for r in rs):
        return
    want = ([p * x + q * y for x, y in zip(rs[0][0], rs[1][0])], p * rs[0][1] + q * rs[1][1])
    W.compare(M, "analysis-linear", rs[2], want, t)
    M.true("analysis-of-zero", all(not np.any(x) for x in rs[3][0]) and not np.any(rs[3][1]))
    # one and the same map at every amplitude: nothing is dropped for being small
    e = int(g.integers(40, 200))
    for k in (e, -e):
        r = M.call("analysis", S.analysis, b, 2.0**k * f1, c, pre=pre)
        if r is not None:
            W.compare(M, "analysis-homogeneous", ([2.0**-k * x for x in r[0]], 2.0**-k * r[1]), rs[0], t)
    small = 2.0**-30
    r = M.call("analysis", S.analysis, b, f1 + small * f2, c, pre=pre)
    if r is not None:
        W.compare(M, "analysis-small-beside-large", r,
                  ([x + small * y for x, y in zip(rs[0][0], rs[1][0])], rs[0][1] + small * rs[1][1]), t / 10)
    if plans.blocked(b, c):
        return
    wl, sl = W.coeffs_lm(dict(task, signal="random"))
    w2, s2 = W.coeffs_pix(wl, sl, c)
    w1, s1 = rs[0]
    M.observe_inputs([w1, w2, s1, s2])
    pre = S.precomps(c, b, True) if S.kind(b) in ("pre", "torch") else None
    syn = lambda w, s: M.call("synthesis", S.synthesis, b, w, s, c, pre=pre)
    g1, g2 = syn(w1, s1), syn(w2, s2)
    g3 = syn([p * x + q * y for x, y in zip(w1, w2)], p * s1 + q * s2)
    g0 = syn([0 * x for x in w1], 0 * s1)
    if any(x is None for x in (g1, g2, g3, g0)):
        return
    M.close("synthesis-linear", g3, p * g1 + q * g2, t, scale=max(np.abs(p * g1).max(), np.abs(q * g2).max()))
    M.true("synthesis-of-zero", not np.any(g0))
    for k in (e, -e):
        x = syn([2.0**k * y for y in w2], 2.0**k * s2)
        if x is not None:
            M.close("synthesis-homogeneous", 2.0**-k * x, g2, t)
    x = syn([y + small * z for y, z in zip(w1, w2)], s1 + small * s2)
    if x is not None:
        M.close("synthesis-small-beside-large", x, g1 + small * g2, t / 10)
    # superposition over scales: each scale contributes on its own
    parts = []
    n = len(w2)
    i = int(g.integers(0, n))
    only = syn([x if k == i else 0 * x for k, x in enumerate(w2)], 0 * s2)
    rest = syn([0 * x if k == i else x for k, x in enumerate(w2)], s2)
    if only is not None and rest is not None:
        M.close("scales-superpose", only + rest, g2, t)
