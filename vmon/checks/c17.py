"""C17 precomputed kernels are interchangeable with on-the-fly computation and reusable."""
import numpy as np

from .. import plans, ref as R, sut as S, work as W


def run(task, M):
    b, c, op = task["backend"], task["cfg"], task["op"]
    t = W.tol(c, 1e-9)
    f = W.signal(task)
    k = S.kind(b)
    synth = not plans.blocked(b, c)
    L, N, J_min, lam, J = W.geom(c)
    if op == "explicit":
        pa = M.call("precompute", S.precomps, c, b, False)
        ps = M.call("precompute", S.precomps, c, b, True)
        if pa is None or ps is None:
            return
        M.true("one-entry-per-scale", len(pa) == J - J_min + 1 and len(ps) == J - J_min + 1)
        r0 = M.call("analysis-on-the-fly", S.analysis, b, f, c)
        r1 = M.call("analysis-precomputed", S.analysis, b, f, c, pre=pa)
        if r0 and r1:
            W.compare(M, "analysis-same", r1, r0, t)
        w, s = W.coeffs_pix(*W.coeffs_lm(task), c)
        g0 = M.call("synthesis-on-the-fly", S.synthesis, b, w, s, c)
        g1 = M.call("synthesis-precomputed", S.synthesis, b, w, s, c, pre=ps)
        if g0 is not None and g1 is not None:
            M.close("synthesis-same", g1, g0, t)
        if c["spin"] == 0:
            a = W.flm(task)
            h0 = M.call("flm-on-the-fly", S.flm_to_analysis, b, a, c)
            h1 = M.call("flm-precomputed", S.flm_to_analysis, b, a, c, pre=pa)
            if h0 is not None and h1 is not None:
                M.close_all("flm-same", h1, h0, t, scale=float(np.abs(a).max()))
        return
    if op == "full":
        # kernels for torch and for JAX carry the same numbers, and work in the other front end
        for fwd in (False, True):
            p1 = M.call("precompute", S.precomps, c, "torchk", fwd)
            p2 = M.call("precompute", S.precomps, c, "pref", fwd)
            if p1 is None or p2 is None:
                return
            M.true("types", all(isinstance(x, S.torch.Tensor) for x in [p1[0], p1[1]] + list(p1[2])))
            M.close_all("torch-equals-jax", [S.npy(p1[0]), S.npy(p1[1])] + [S.npy(x) for x in p1[2]],
                        [S.npy(p2[0]), S.npy(p2[1])] + [S.npy(x) for x in p2[2]], 1e-12)
            with S._ctx("torchk"):
                ns = M.call("precompute", lambda: S.CON.generate_full_precomputes(
                    *S.pos(c), sampling=c["sampling"], forward=fwd, reality=c["reality"], nospherical=True,
                    using_torch=True))
            if ns is not None:
                M.close_all("nospherical-same-wigner", [S.npy(x) for x in ns[2]], [S.npy(x) for x in p1[2]], 1e-12)
                if not fwd and c["spin"] == 0:
                    a = W.flm(task)
                    h0 = M.call("flm", S.flm_to_analysis, "torchk", a, c, pre=p1)
                    h1 = M.call("flm-nospherical", S.flm_to_analysis, "torchk", a, c, pre=ns)
                    if h0 is not None and h1 is not None:
                        M.close_all("flm-nospherical-same", h1, h0, t, scale=float(np.abs(a).max()))
        return
    if op == "full_real":
        # kernels from the genuine JAX recursion give the same transform as the numpy ones
        bk = {"torch": "torchk", "pre": "prek"}[b]
        r0 = M.call("analysis", S.analysis, b, f, c)
        r1 = M.call("analysis", S.analysis, bk, f, c)
        if r0 and r1:
            W.compare(M, "kernel-source-irrelevant", r1, r0, t)
        return
    # reuse: one set of kernels serves any number of signals and any filters
    pa, ps = S.precomps(c, b, False), S.precomps(c, b, True)
    for n in range(3):
        a = W.flm(task, 30 + n, signal="random")
        x = W.signal(task, a)
        fl = W.custom_filters(task, 40 + n) if n else None
        nf = W.native_filters(fl, b) if fl else None
        r = M.call("analysis-reused", S.analysis, b, x, c, filters=nf, pre=pa)
        if r:
            W.compare(M, "reused-kernels", r, W.ref_analysis(a, c, fl or W.own_filters(c)), W.tol(c, 1e-8))
        wl, sl = W.coeffs_lm(dict(task, signal="random"), 60 + n)
        if synth:
            w, s = W.coeffs_pix(wl, sl, c)
            g = M.call("synthesis-reused", S.synthesis, b, w, s, c, filters=nf, pre=ps)
            if g is not None:
                M.close("reused-kernels-synthesis", g, W.ref_synthesis(wl, sl, c, fl or W.own_filters(c)), W.tol(c, 1e-8))
