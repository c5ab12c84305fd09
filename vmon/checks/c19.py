"""C19 scattering: the flag returns exactly the modulus of the wavelet coefficients."""
import numpy as np

from .. import sut as S, work as W


def run(task, M):
    b, c = task["backend"], task["cfg"]
    f = W.signal(task)
    r0 = M.call("analysis", S.analysis, b, f, c)
    r1 = M.call("analysis-scattering", S.analysis, b, f, c, scattering=True)
    r2 = M.call("analysis-no-scattering", S.analysis, b, f, c, scattering=False)
    if not r0 or not r1 or not r2:
        return
    sc = W._mx(r0)
    M.close_all("modulus", r1[0], [np.abs(x) for x in r0[0]], 1e-12, scale=sc)
    M.close("scaling-unchanged", r1[1], r0[1], 1e-12, scale=sc)
    M.true("non-negative", all(np.all(np.abs(np.imag(x)) == 0) and np.all(np.real(x) >= 0) for x in r1[0]))
    M.close_all("off-means-plain", list(r2[0]) + [r2[1]], list(r0[0]) + [r0[1]], 1e-12, scale=sc)
    # the modulus of the definition, not just of whatever analysis returned
    L, N, J_min, lam, J = W.geom(c)
    from .. import ref as R

    w, s = W.ref_analysis(W.flm(task), c, R.filters(L, N, J_min, lam, c["spin"]))
    M.close_all("modulus-of-definition", r1[0], [np.abs(x) for x in w], 1e-3, scale=W._mx((w, s)))
