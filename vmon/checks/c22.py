"""C22 defaults: an omitted optional argument means its documented value, on every front end."""
import inspect

import numpy as np

from .. import plans, ref as R, sut as S, work as W

DOC = dict(N=1, J_min=0, lam=2.0, spin=0, spin0=0, sampling="mw", reality=False, multiresolution=True)


def run(task, M):
    op, b = task["op"], task["backend"]
    if op == "filters_none":
        c = task["cfg"]
        cn = dict(c, default_filters=True)
        f = W.signal(task)
        t = W.tol(c, 1e-8)
        pa = S.precomps(c, b, False) if S.kind(b) in ("pre", "torch") else None
        ps = S.precomps(c, b, True) if S.kind(b) in ("pre", "torch") else None
        r0 = M.call("analysis", S.analysis, b, f, c, pre=pa)
        r1 = M.call("analysis-default-filters", S.analysis, b, f, cn, pre=pa)
        if r0 and r1:
            W.compare(M, "default-filters-analysis", r1, r0, t)
        if not plans.blocked(b, c):
            w, s = W.coeffs_pix(*W.coeffs_lm(task), c)
            g0 = M.call("synthesis", S.synthesis, b, w, s, c, pre=ps)
            g1 = M.call("synthesis-default-filters", S.synthesis, b, w, s, cn, pre=ps)
            if g0 is not None and g1 is not None:
                M.close("default-filters-synthesis", g1, g0, t)
        if c["spin"] == 0:
            a = W.flm(task)
            h0 = M.call("flm", S.flm_to_analysis, b, a, c, pre=pa)
            h1 = M.call("flm-default-filters", S.flm_to_analysis, b, a, cn, pre=pa)
            if h0 is not None and h1 is not None:
                M.close_all("default-filters-flm", h1, h0, t, scale=float(np.abs(a).max()))
        return
    if op == "alias":
        return _alias(M)
    L, N = task["L"], task.get("N", 1)
    if op == "helper_defaults":
        A, F = S.SAM, S.FIL
        J = R.j_max(L, 2)
        M.true("j_max", A.j_max(L) == J)
        M.true("n_wav_scales", A.n_wav_scales(L) == J + 1)
        M.true("f_scal", tuple(A.f_scal(L)) == R.s2_shape(L, "mw"))
        M.true("f_wav_j", tuple(A.f_wav_j(L)) == R.so3_shape(L, 1, "mw"))
        M.true("construct_f", [x.shape for x in A.construct_f(L)] == [R.so3_shape(L, 1, "mw")] * (J + 1))
        M.true("scal_bandlimit", A.scal_bandlimit(L) == L)
        for fn in (F.filters_directional, F.filters_directional_vectorised):
            a = M.call("filters", fn, L)
            z = R.filters(L, 1, 0, 2.0)
            if a:
                M.close("filters-wavelet", np.asarray(a[0]), z[0], 2e-3)
                M.close("filters-scaling", np.asarray(a[1]), z[1], 2e-3)
        return
    # omit: pass only what has no default, and compare with the documented defaults spelt out
    k = S.kind(b)
    needs_n = k == "torch" or k == "looped" or k == "pre"
    c = dict(L=L, N=1, J_min=0, lam=2.0, spin=0, sampling="mw", reality=False)
    t = dict(task, cfg=c)
    f = W.signal(t)
    a = W.flm(t)
    if k in ("looped", "base"):
        T = S.s2wav.transforms.base
        an, sy = (T.analysis_looped, T.synthesis_looped) if k == "looped" else (T.analysis, T.synthesis)
        r = M.call("analysis-defaults", an, f.copy(), L)
        w, s = W.coeffs_pix(*W.coeffs_lm(t), c)
        args = [L, 1] if k == "looped" else [L]
        g = M.call("synthesis-defaults", sy, [x.copy() for x in w], s.copy(), *args)
        h = None
    else:
        m = S.module(b)
        kw = {}
        with S._ctx(b):
            if k in ("pre", "torch"):
                kw = dict(precomps=S.CON.generate_full_precomputes(L, 1, using_torch=(k == "torch")))
            r = M.call("analysis-defaults", m.analysis, S.to_backend(f, b), L, **kw)
            h = M.call("flm-defaults", m.flm_to_analysis, S.to_backend(a, b), L, **kw)
            w, s = W.coeffs_pix(*W.coeffs_lm(t), c)
            g = None
            if not plans.blocked(b, c):
                g = M.call("synthesis-defaults", m.synthesis, [S.to_backend(x, b) for x in w], S.to_backend(s, b), L)
    fl = W.own_filters(c)
    want = W.ref_analysis(a, c, fl)
    if r:
        W.compare(M, "defaults-analysis", ([S.npy(x) for x in r[0]], S.npy(r[1])), want, 1e-8)
    if h is not None:
        M.close_all("defaults-flm", [S.npy(x) for x in h], want[0], 1e-8, scale=float(np.abs(a).max()))
    if g is not None:
        wl, sl = W.coeffs_lm(t)
        M.close("defaults-synthesis", S.npy(g), W.ref_synthesis(wl, sl, c, fl), 1e-8)


def _alias(M):
    """Each top-level name behaves as the back end it is named after."""
    import s2wav as s

    c = dict(L=6, N=2, J_min=1, lam=2.0, spin=0, sampling="mw", reality=False)
    t = dict(cfg=c, seed=3, signal="random")
    f, a = W.signal(t), W.flm(t)
    fl = W.own_filters(c)
    wl, sl = W.coeffs_lm(t)
    w, sc = W.coeffs_pix(wl, sl, c)
    wa, wf = W.ref_analysis(a, c, fl), W.ref_synthesis(wl, sl, c, fl)
    for b, suffix in (("jaxf", ""), ("c", "_c"), ("baser", "_base"), ("pref", "_precomp_jax"),
                      ("torchk", "_precomp_torch")):
        k = S.kind(b)
        kw = {} if k == "base" else dict(filters=S.filt(c, b))
        ka, ks = dict(kw), dict(kw)
        if k in ("pre", "torch"):
            ka["precomps"], ks["precomps"] = S.precomps(c, b, False), S.precomps(c, b, True)
        n = S.to_backend
        with S._ctx(b):
            r = M.call("alias:analysis" + suffix, lambda: getattr(s, "analysis" + suffix)(n(f, b), *S.pos(c), **ka))
            g = M.call("alias:synthesis" + suffix, lambda: getattr(s, "synthesis" + suffix)(
                [n(x, b) for x in w], n(sc, b), *S.pos(c), **ks))
            h = None
            if suffix in ("", "_c"):
                h = M.call("alias:flm_to_analysis" + suffix, lambda: getattr(s, "flm_to_analysis" + suffix)(
                    n(a, b), c["L"], c["N"], c["J_min"], None, c["lam"], filters=kw["filters"][0]))
        if r is not None:
            W.compare(M, "alias-analysis" + suffix, ([S.npy(x) for x in r[0]], S.npy(r[1])), wa, 1e-8)
            M.true("alias-type:analysis" + suffix, isinstance(r[0][0], S.torch.Tensor) == (k == "torch"))
        if g is not None:
            M.close("alias-synthesis" + suffix, S.npy(g), wf, 1e-8)
            M.true("alias-type:synthesis" + suffix, isinstance(g, S.torch.Tensor) == (k == "torch"))
        if h is not None:
            M.close_all("alias-flm" + suffix, [S.npy(x) for x in h], wa[0], 1e-8, scale=float(np.abs(a).max()))
    z = np.zeros((48,))
    M.raises("alias-c-refuses-healpix", lambda: s.analysis_c(S.jnp.asarray(z), 4, sampling="healpix"), (ValueError,))
    M.raises("alias-c-refuses-healpix", lambda: s.synthesis_c([S.jnp.asarray(z)], S.jnp.asarray(z), 4,
                                                              sampling="healpix"), (ValueError,))
    M.true("alias:construct", s.construct is s.transforms.construct)
