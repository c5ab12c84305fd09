"""C03 synthesis computes the inverse transform by definition, on arbitrary coefficients."""
from .. import ref as R, sut as S, work as W


def run(task, M):
    b, c, op = task["backend"], task["cfg"], task["op"]
    L, N, J_min, lam, J = W.geom(c)
    wl, sl = W.coeffs_lm(task)
    w, s = W.coeffs_pix(wl, sl, c)
    if op == "custom":
        fl = W.custom_filters(task)
        got = M.call("synthesis", S.synthesis, b, w, s, c, filters=W.native_filters(fl, b))
        if got is not None:
            M.close("custom-kernels", got, W.ref_synthesis(wl, sl, c, fl), W.tol(c))
        return
    s0 = task.get("spin0", 0)
    kw = dict(spin0=s0) if s0 else {}
    got = M.call("synthesis", S.synthesis, b, w, s, c, **kw)
    if got is None:
        return
    # kernels may differ by the quadrature error; a large coefficient can meet a tiny kernel value
    sc = W._mx((w, s)) if task.get("signal") == "hdr" else None
    own = M.call("filters", W.own_filters, c, b, s0)
    if own:
        M.close("definition-own-kernels", got, W.ref_synthesis(wl, sl, c, own), W.tol(c, 1e-8), scale=sc)
    true = R.filters(L, N, J_min, lam, c.get("spin", 0), s0)
    M.close("definition-exact-kernels", got, W.ref_synthesis(wl, sl, c, true), W.exact(task), scale=sc)
