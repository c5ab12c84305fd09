"""C10 energy conservation (tight frame) over any analysis output."""
import numpy as np

from .. import ref as R, sut as S, work as W


def energies(w, s, c):
    """Energy per scale and of the scaling part; largest band-limit misfit."""
    sam = c["sampling"]
    es, res = [], 0.0
    for x in w:
        Lj = S_L(x.shape, sam)
        Nj = (x.shape[0] + 1) // 2
        a, r = R.so3_forward(x, Lj, Nj, sam)
        el = np.arange(Lj)
        es.append(float(np.sum((2 * el + 1)[None, :, None] / (8 * np.pi**2) * np.abs(a) ** 2)))
        res = max(res, r)
    Ls = S_L((1,) + s.shape, sam)
    a, r = R.s2_forward(s, Ls, c.get("spin", 0), sam)
    return es, float(np.sum(np.abs(a) ** 2)), max(res, r)


def S_L(shape, sam):
    nt = shape[1]
    return {"mw": nt, "gl": nt, "mwss": nt - 1, "dh": nt // 2}[sam]


def run(task, M):
    b, c = task["backend"], task["cfg"]
    L, N, J_min, lam, J = W.geom(c)
    a = W.flm(task)
    f = W.signal(task, a)
    r = M.call("analysis", S.analysis, b, f, c)
    if not r:
        return
    w, s = r
    E = float(np.sum(np.abs(a) ** 2))
    ew, es, res = energies(w, s, c)
    M.close("energy-conserved", np.array(sum(ew) + es), np.array(E), 1e-8)
    M.true("band-limited", res <= 1e-8 * max([np.abs(x).max() for x in w] + [np.abs(s).max()]), misfit=res)
    # the split between scales is the one the kernels of the definition prescribe
    k = R.k_true(L, lam)
    el = np.sum(np.abs(a) ** 2, axis=1)
    want = [float(np.sum(np.clip(k[j + 1] - k[j], 0, 1) * el)) for j in range(J_min, J + 1)]
    M.close("energy-per-scale", np.array(ew + [es]), np.array(want + [float(np.sum(k[J_min] * el))]), 1e-3, scale=E)
