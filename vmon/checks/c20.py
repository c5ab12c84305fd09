"""C20 steerability: the orientation dependence holds N frequencies of one parity only,
so any orientation is a fixed linear combination of N basis orientations."""
import numpy as np

from .. import ref as R, sut as S, work as W


def run(task, M):
    b, c = task["backend"], task["cfg"]
    L, N, J_min, lam, J = W.geom(c)
    a = W.flm(task)
    r = M.call("analysis", S.analysis, b, W.signal(task, a), c)
    if not r:
        return
    sc, t = W._mx(r), W.tol(c)
    M.true("number-of-scales", len(r[0]) == J - J_min + 1, got=len(r[0]))
    for i, x in enumerate(r[0]):
        Nj = R.wav_N(L, J_min + i, N, lam)
        if x.shape[0] != 2 * Nj - 1:
            M.fail("orientations", got=x.shape[0], want=2 * Nj - 1)
            continue
        ga = 2 * np.pi * np.arange(2 * Nj - 1) / (2 * Nj - 1)
        n = np.arange(-(Nj - 1), Nj)
        F = np.tensordot(np.exp(-1j * np.outer(n, ga)) / (2 * Nj - 1), x, axes=(1, 0))
        odd = (n + N - 1) % 2 != 0
        M.true("only-matching-parity", np.abs(F[odd]).max(initial=0) <= t * sc, nontrivial=bool(np.abs(x).max() > t * sc),
               leak=float(np.abs(F[odd]).max(initial=0)), scale=sc, scale_index=i)
        # steering: N_j equispaced orientations over [0, pi) reproduce the sampled ones
        basis = np.pi * np.arange(Nj) / Nj
        ne = n[~odd]
        if len(ne) == Nj:
            B = np.exp(1j * np.outer(basis, ne))
            V = np.tensordot(B, F[~odd], axes=(1, 0))
            K = np.exp(1j * np.outer(ga, ne)) @ np.linalg.inv(B)
            M.close("steerable", np.tensordot(K, V, axes=(1, 0)), x, 10 * t, scale=sc)
        # half-turn symmetry of the wavelet: W(gamma + pi) = (-1)^(N-1) W(gamma)
        half = np.tensordot(np.exp(1j * np.outer(ga + np.pi, n)), F, axes=(1, 0))
        M.close("half-turn-parity", half, (-1.0) ** (N - 1) * x, 10 * t, scale=sc)
