"""C05 flm_to_analysis: wavelet coefficients straight from harmonic coefficients, J_min..J_max."""
from .. import ref as R, sut as S, work as W


def run(task, M):
    b, c = task["backend"], task["cfg"]
    L, N, J_min, lam, J = W.geom(c)
    a = W.flm(task)
    Jm = task.get("J_max")
    top = J if Jm is None else Jm
    sc = float(abs(a).max())
    got = M.call("flm_to_analysis", S.flm_to_analysis, b, a, c, Jm)
    if got is None:
        return
    M.true("number-of-scales", len(got) == top - J_min + 1, got=len(got), want=top - J_min + 1)

    def want(psi):
        return [R.so3_inverse(x, x.shape[1], (x.shape[0] + 1) // 2, c["sampling"])
                for x in R.analysis_lmn(a, L, N, J_min, lam, psi, True, top)]

    M.close_all("definition-exact-kernels", got, want(R.filters(L, N, J_min, lam)[0]), W.exact(task), scale=sc)
    M.close_all("definition-own-kernels", got, want(W.own_filters(c)[0]), W.tol(c, 1e-8), scale=sc)
    # agrees with the analysis of the corresponding pixel signal
    if task["seed"] % 3 == 0 and b not in ("jax", "pre", "torch", "prek"):
        f = W.signal(task, a)
        r = M.call("analysis", S.analysis, b, f, c)
        if r:
            M.close_all("equals-analysis-of-signal", got, r[0][: top - J_min + 1], W.tol(c, 1e-8), scale=sc)
