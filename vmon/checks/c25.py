"""C25 HEALPix: the definition applied to the quadrature harmonic transform of any pixel map."""
import numpy as np

from .. import ref as R, sut as S, work as W


def run(task, M):
    from s2fft.base_transforms import spherical, wigner

    b, c = task["backend"], task["cfg"]
    L, N, J_min, lam, J = W.geom(c)
    mr, ns, spin, real = c.get("multires", True), c["nside"], c.get("spin", 0), c["reality"]
    npix = 12 * ns * ns
    g = W.rng(task)

    def px(*sh):  # any map, band-limited or not
        x = g.normal(size=sh)
        return x if real else x + 1j * g.normal(size=sh)

    f = px(npix)
    own = M.call("filters", W.own_filters, c, b)
    if own is None:
        return
    psi, phi = own
    # reality=False in the oracle: the flag may only change the cost
    a = np.asarray(spherical.forward(f + 0j, L, spin, "healpix", ns, False))
    wl = R.analysis_lmn(a, L, N, J_min, lam, psi, mr)
    sl = R.scaling_lm(a, L, J_min, lam, phi, mr)
    NL = [(x.shape[1], (x.shape[0] + 1) // 2) for x in wl]
    want = ([np.asarray(wigner.inverse(x, Lj, Nj, 0, "healpix", False, ns)) for x, (Lj, Nj) in zip(wl, NL)],
            np.asarray(spherical.inverse(sl, sl.shape[0], spin, "healpix", ns, False)))
    got = M.call("analysis", S.analysis, b, f, c)
    if got:
        W.compare(M, "definition", got, want, 1e-8)
    w = [px(2 * Nj - 1, npix) for _, Nj in NL]
    s = px(npix)
    wl = [np.asarray(wigner.forward(x + 0j, Lj, Nj, 0, "healpix", False, ns)) for x, (Lj, Nj) in zip(w, NL)]
    sl = np.asarray(spherical.forward(s + 0j, sl.shape[0], spin, "healpix", ns, False))
    x = R.synthesis_lm(wl, sl, L, N, J_min, lam, psi, phi, mr)
    x[: abs(spin)] = 0
    f = np.asarray(spherical.inverse(x, L, spin, "healpix", ns, False))
    got = M.call("synthesis", S.synthesis, b, w, s, c)
    if got is not None:
        M.close("definition-synthesis", got, f, 1e-8)
