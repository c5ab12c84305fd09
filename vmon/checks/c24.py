"""C24 the form of a call does not matter: positional or keyword arguments, numpy or Python
scalars, integer or float lam, lists or tuples, numpy or JAX arrays, input precision."""
import numpy as np

from .. import plans, sut as S, work as W

# documented parameter orders (after the data arguments)
BASE = ("L", "N", "J_min", "lam", "spin", "spin0", "sampling", "nside", "reality", "multiresolution")
JAX = ("L", "N", "J_min", "lam", "spin", "sampling", "nside", "reality", "filters", "precomps")
CB = ("L", "N", "J_min", "lam", "spin", "sampling", "reality", "filters")
FLM = ("L", "N", "J_min", "J_max", "lam", "sampling", "nside", "reality", "filters", "precomps")
FLMC = ("L", "N", "J_min", "J_max", "lam", "sampling", "reality", "filters")


def scalars(c, g):
    """The same configuration spelt with other scalar types."""
    i = (np.int64, np.int32, int)[int(g.integers(3))]
    d = dict(c, L=i(c["L"]), N=i(c["N"]), J_min=i(c["J_min"]), sampling=str(np.str_(c["sampling"])),
             reality=(np.bool_ if g.integers(2) else bool)(c["reality"]))
    lam = c["lam"]
    fs = [float, np.float64] + ([int] if float(lam).is_integer() else [])
    d["lam"] = fs[int(g.integers(len(fs)))](lam)
    return d


def run(task, M):
    b, c = task["backend"], task["cfg"]
    k, g, t = S.kind(b), W.rng(task, 9), W.tol(c)
    f = W.signal(task)
    nat = lambda x: S.to_backend(x, b)
    w, s = W.coeffs_pix(*W.coeffs_lm(task), c)
    a = W.flm(task)
    syn, hasflm = not plans.blocked(b, c), k not in ("looped", "base") and c["spin"] == 0
    fl = None if k in ("looped", "base") else S.filt(c, b)
    pa = S.precomps(c, b, False) if k in ("pre", "torch") else None
    ps = S.precomps(c, b, True) if k in ("pre", "torch") and syn else None
    A = M.call("analysis", S.run_analysis, b, nat(f), c, fl, pa)
    Y = M.call("synthesis", S.run_synthesis, b, [nat(x) for x in w], nat(s), c, fl, ps) if syn else None
    H = M.call("flm", S.flm_to_analysis, b, a, c, None, fl[0], pa) if hasflm else None
    num = lambda r: ([S.npy(x) for x in r[0]], S.npy(r[1]))
    if A is not None:
        A = num(A)

    def cmpA(name, r, tt=t):
        if r is not None and A is not None:
            W.compare(M, name, num(r), A, tt)

    def cmpY(name, r, tt=t):
        if r is not None and Y is not None:
            M.close(name, S.npy(r), S.npy(Y), tt)

    def cmpH(name, r, tt=t):
        if r is not None and H is not None:
            M.close_all(name, [S.npy(x) for x in r], H, tt, scale=float(np.abs(a).max()))

    # 1. scalar types
    c2 = scalars(c, g)
    cmpA("scalar-types-analysis", M.call("scalar-types:analysis", S.run_analysis, b, nat(f), c2, fl, pa))
    if syn:
        cmpY("scalar-types-synthesis", M.call("scalar-types:synthesis", S.run_synthesis, b, [nat(x) for x in w],
                                              nat(s), c2, fl, ps))
    if k in ("looped", "base") or g.integers(2):
        f2 = M.call("scalar-types:filters", S.FIL.filters_directional_vectorised, *S.pos(c2), spin=c2["spin"])
        f1 = M.call("filters", S.FIL.filters_directional_vectorised, *S.pos(c), spin=c["spin"])
        if f1 and f2:
            M.close("scalar-types-filters-wavelet", S.npy(f2[0]), S.npy(f1[0]), 1e-12)
            M.close("scalar-types-filters-scaling", S.npy(f2[1]), S.npy(f1[1]), 1e-12)

    # 2. positional and keyword calls
    if k in ("looped", "base"):
        T = S.s2wav.transforms.base
        an, sy = (T.analysis_looped, T.synthesis_looped) if k == "looped" else (T.analysis, T.synthesis)
        order, fm, of = BASE, None, None
    else:
        m = S.module(b)
        an, sy, fm = m.analysis, m.synthesis, m.flm_to_analysis
        order, of = (CB, FLMC) if k == "c" else (JAX, FLM)
    val = dict(c, spin0=0, nside=None, multiresolution=True, filters=fl, J_max=None)

    def both(name, fn, data, names, order, pre, cmp, filters=None):
        v = dict(val, precomps=pre)
        if filters is not None:
            v["filters"] = filters
        with S._ctx(b):
            cmp("positional-" + name, M.call("positional:" + name, fn, *data, *[v[o] for o in order]))
            cmp("keyword-" + name, M.call("keyword:" + name, fn, **dict(zip(names, data)), **{o: v[o] for o in order}))

    both("analysis", an, (nat(f),), ("f",), order, pa, cmpA)
    if syn:
        both("synthesis", sy, ([nat(x) for x in w], nat(s)), ("f_wav", "f_scal"), order, ps, cmpY)
    if hasflm:
        both("flm", fm, (nat(a),), ("flm",), of, pa, cmpH, fl[0])

    # 3. containers and array types
    if syn:
        cmpY("tuple-of-coefficients", M.call("tuple:synthesis", S.run_synthesis, b, tuple(nat(x) for x in w), nat(s),
                                             c, fl, ps))
    if fl is not None:
        cmpA("list-of-filters", M.call("list:filters", S.run_analysis, b, nat(f), c, list(fl), pa))
    if k != "torch":
        mod = S.jnp.asarray if k in ("looped", "base") else np.array
        cmpA("array-type-analysis", M.call("array-type:analysis", S.run_analysis, b, mod(f), c, fl, pa))
        if syn:
            cmpY("array-type-synthesis", M.call("array-type:synthesis", S.run_synthesis, b, [mod(x) for x in w], mod(s),
                                                c, fl, ps))

    # 4. input precision and kind (computation stays in double)
    if k in ("looped", "base"):
        sc = 50 / max(float(np.abs(f.real).max()), 1e-300)
        xi = np.round(f.real * sc)
        for name, z in (("single", (xi if c["reality"] else xi + 1j * np.round(f.imag * sc)).astype(
                np.complex64 if not c["reality"] else np.float32)), ("integer", xi.astype(np.int64))):
            r1 = M.call("precision:" + name, S.run_analysis, b, nat(z), c, fl, pa)
            r0 = M.call("precision:double", S.run_analysis, b,
                        nat(z.astype(np.float64 if c["reality"] else complex)), c, fl, pa)
            if r1 is not None and r0 is not None:
                W.compare(M, "input-" + name, num(r1), num(r0), t)
        if syn:
            q = 50 / max(W._mx((w, s)), 1e-300)
            cplx = not c["reality"]
            wi = [np.round(x * q) if cplx else np.round(np.real(x) * q) for x in w]
            si = np.round(s * q) if cplx else np.round(np.real(s) * q)
            ty = [("single", np.complex64 if cplx else np.float32)] + ([] if cplx else [("integer", np.int64)])
            for name, dt in ty:
                r1 = M.call("precision:synthesis-" + name, S.run_synthesis, b, [x.astype(dt) for x in wi],
                            si.astype(dt), c, fl, ps)
                r0 = M.call("precision:synthesis-double", S.run_synthesis, b, wi, si, c, fl, ps)
                if r1 is not None and r0 is not None:
                    M.close("input-" + name + "-synthesis", S.npy(r1), S.npy(r0), t)
