"""C02 analysis computes the directional wavelet transform by definition."""
from .. import ref as R, sut as S, work as W


def run(task, M):
    b, c, op = task["backend"], task["cfg"], task["op"]
    a = W.flm(task)
    f = W.signal(task, a)
    amp = float(abs(f).max())
    L, N, J_min, lam, J = W.geom(c)
    if op == "custom":
        fl = W.custom_filters(task)
        got = M.call("analysis", S.analysis, b, f, c, filters=W.native_filters(fl, b))
        if got:
            W.compare(M, "custom-kernels", got, W.ref_analysis(a, c, fl), W.tol(c), amp)
        return
    s0 = task.get("spin0", 0)
    kw = dict(spin0=s0) if s0 else {}
    got = M.call("analysis", S.analysis, b, f, c, **kw)
    if not got:
        return
    own = M.call("filters", W.own_filters, c, b, s0)
    if own:
        W.compare(M, "definition-own-kernels", got, W.ref_analysis(a, c, own), W.tol(c, 1e-8), amp)
    true = R.filters(L, N, J_min, lam, c.get("spin", 0), s0)
    W.compare(M, "definition-exact-kernels", got, W.ref_analysis(a, c, true), W.exact(task), amp)
