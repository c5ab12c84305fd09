"""C06 admissibility: the generated kernels tile the harmonic line exactly."""
import numpy as np

from .. import sut as S, work as W

FN = dict(looped=S.FIL.filters_directional, vec=S.FIL.filters_directional_vectorised)


def gen(op, c):
    L, N, J_min, lam = S.pos(c)
    spin = c.get("spin", 0)
    if op == "jax":
        with S.jax.disable_jit():
            r = S.FIL.filters_directional_jax(L, N, J_min, lam, spin)
    elif op == "torch":
        r = S.FIL.filters_directional_vectorised(L, N, J_min, lam, spin, using_torch=True)
    elif op == "torch_looped":
        r = S.FIL.filters_directional(L, N, J_min, lam, spin, using_torch=True)
    else:
        r = FN[op](L, N, J_min, lam, spin)
    return S.npy(r[0]), S.npy(r[1])


def run(task, M):
    c = task["cfg"]
    L, N, J_min, lam, J = W.geom(c)
    r = M.call("generate", gen, task["op"], c)
    if r is None:
        return
    psi, phi = r
    el = np.arange(L)
    tot = 4 * np.pi / (2 * el + 1) * np.abs(phi) ** 2 + 8 * np.pi**2 / (2 * el + 1) * np.sum(
        np.abs(psi[J_min:]) ** 2, axis=(0, 2))
    lo = abs(c.get("spin", 0))
    M.close("admissibility", tot[lo:], np.ones(L - lo), 1e-9)
    M.close("zero-below-spin", tot[:lo], np.zeros(lo), scale=1.0)
    M.true("finite", bool(np.all(np.isfinite(psi)) and np.all(np.isfinite(phi))))
