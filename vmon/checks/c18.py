"""C18 requests outside the supported domain are refused, never answered with numbers."""
import numpy as np

from .. import ref as R, sut as S, work as W


def run(task, M):
    b, c, op = task["backend"], task["cfg"], task["op"]
    L, N, J_min, lam, J = W.geom(c)
    g = W.rng(task, 2)
    F = S.FIL
    if op == "jmin":
        for bad in (J, J + 1, J + int(g.integers(2, 20)), -1, -int(g.integers(2, 9))):
            for name, fn in (("axisym", lambda: F.filters_axisym(L, bad, lam)),
                             ("axisym_vectorised", lambda: F.filters_axisym_vectorised(L, bad, lam)),
                             ("directional", lambda: F.filters_directional(L, N, bad, lam, c["spin"])),
                             ("directional_vectorised", lambda: F.filters_directional_vectorised(L, N, bad, lam)),
                             ("torch", lambda: F.filters_directional_vectorised(L, N, bad, lam, using_torch=True))):
                M.raises("J_min-refused:" + name, fn, (ValueError,), J_min=bad)
            if task["seed"] % 5 == 0:
                M.raises("J_min-refused:axisym_jax", lambda: F.filters_axisym_jax(L, bad, lam), (ValueError,), J_min=bad)
                M.raises("J_min-refused:directional_jax", lambda: F.filters_directional_jax(L, N, bad, lam),
                         (ValueError,), J_min=bad)
            f = np.zeros(R.s2_shape(L, c["sampling"]))
            if L <= 10:
                q = dict(c, J_min=bad)
                for bb in ("base", "looped"):
                    M.raises("J_min-refused-by-analysis:" + bb, lambda: S.analysis(bb, f, q), J_min=bad)
        for ok in (0, J - 1):
            M.true("valid-J_min-accepted", M.call("valid-J_min", F.filters_directional_vectorised, L, N, ok, lam)
                   is not None)
    elif op == "shape":
        wl, sl = W.coeffs_lm(task)
        w, s = W.coeffs_pix(wl, sl, c)
        M.true("correct-shapes-accepted", M.call("synthesis", S.synthesis, b, w, s, c) is not None)
        bad = []
        i = int(g.integers(0, len(w)))
        ax = int(g.integers(0, 3))
        pad = [(0, 0)] * 3
        pad[ax] = (0, 1)
        bad.append(("one-sample-too-many", w[:i] + [np.pad(w[i], pad)] + w[i + 1:], s))
        if w[i].shape[ax] > 1:
            sl_ = [slice(None)] * 3
            sl_[ax] = slice(0, -1)
            bad.append(("one-sample-missing", w[:i] + [w[i][tuple(sl_)]] + w[i + 1:], s))
        bad.append(("missing-scale", w[:-1], s))
        bad.append(("missing-first-scale", w[1:], s))
        bad.append(("extra-scale", w + [w[-1]], s))
        bad.append(("scaling", w, np.pad(s, [(0, 1), (0, 0)])))
        bad.append(("scaling", w, np.pad(s, [(0, 0), (0, 1)])))
        if len({x.shape for x in w}) > 1 and [x.shape for x in w[::-1]] != [x.shape for x in w]:
            bad.append(("reversed-scales", w[::-1], s))
        for name, ww, ss in bad:
            M.raises("wrong-shape-refused:" + name, lambda: S.synthesis(b, ww, ss, c), case=name)
        # coefficients stored at the other resolution
        c2 = dict(c, multires=not c.get("multires", True))
        w2, s2 = W.coeffs_pix(*W.coeffs_lm(task, cfg=c2), c2)
        if [x.shape for x in w2] != [x.shape for x in w] or s2.shape != s.shape:
            M.raises("wrong-resolution-refused", lambda: S.synthesis(b, w2, s2, c))
    elif op == "noprecomp":
        m = S.module(b)
        x = S.to_backend(W.signal(task), b)
        w, s = W.coeffs_pix(*W.coeffs_lm(task), c)
        w, s = [S.to_backend(a, b) for a in w], S.to_backend(s, b)
        a = S.to_backend(W.flm(task), b)
        fl = S.filt(c, b)
        with S._ctx(b):
            kw = dict(sampling=c["sampling"], reality=c["reality"])
            M.raises("missing-kernels-refused:analysis",
                     lambda: m.analysis(x, *S.pos(c), spin=c["spin"], filters=fl, **kw), (ValueError,))
            M.raises("missing-kernels-refused:synthesis",
                     lambda: m.synthesis(w, s, *S.pos(c), spin=c["spin"], filters=fl, **kw), (ValueError,))
            M.raises("missing-kernels-refused:flm",
                     lambda: m.flm_to_analysis(a, L, N, J_min, None, lam, filters=fl[0], **kw), (ValueError,))
    elif op == "chealpix":
        m = S.module("c")
        ns = int(g.choice((2, 4, 8)))
        f = S.jnp.zeros(12 * ns**2)
        fl = S.filt(c, "c")
        w = [S.jnp.zeros((2 * R.wav_N(L, j, N, lam) - 1, 12 * ns**2)) for j in range(J_min, J + 1)]
        for name in ("healpix", "HEALPix", "Healpix"):
            M.raises("healpix-refused:analysis", lambda: m.analysis(f, *S.pos(c), sampling=name, filters=fl),
                     (ValueError,), sampling=name)
            M.raises("healpix-refused:synthesis", lambda: m.synthesis(w, f, *S.pos(c), sampling=name, filters=fl),
                     (ValueError,), sampling=name)
            M.raises("healpix-refused:flm", lambda: m.flm_to_analysis(
                S.jnp.zeros((L, 2 * L - 1), complex), L, N, J_min, None, lam, name, filters=fl[0]), sampling=name)
    elif op == "sampling":
        name = str(g.choice(("mwx", "", "healpi", "equi", "m w", "ww")))
        f = W.signal(task)
        q = dict(c, sampling=name)
        M.raises("unknown-sampling-refused:analysis", lambda: S.run_analysis(
            b, S.to_backend(f, b), q, S.filt(c, b), S.precomps(c, b, False) if S.kind(b) in ("pre", "torch") else None),
            sampling=name)
        w, s = W.coeffs_pix(*W.coeffs_lm(task), c)
        M.raises("unknown-sampling-refused:synthesis", lambda: S.run_synthesis(
            b, [S.to_backend(a, b) for a in w], S.to_backend(s, b), q, S.filt(c, b),
            S.precomps(c, b, True) if S.kind(b) in ("pre", "torch") else None), sampling=name)
