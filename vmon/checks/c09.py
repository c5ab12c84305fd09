"""C09 containers: coefficients have the advertised shapes; the shape check is exact."""
import numpy as np

from .. import ref as R, sut as S, work as W


def s2(L, c):
    return (12 * c["nside"] ** 2,) if c["sampling"] == "healpix" else R.s2_shape(L, c["sampling"])


def shapes(c, mr):
    L, N, J_min, lam, J = W.geom(c)
    w = [(2 * R.wav_N(L, j, N, lam, mr) - 1,) + s2(R.wav_L(L, j, lam, mr), c) for j in range(J_min, J + 1)]
    return w, s2(R.scal_L(L, J_min, lam, mr), c)


def run(task, M):
    c, op, A = task["cfg"], task["op"], S.SAM
    L, N, J_min, lam, J = W.geom(c)
    mr = c.get("multires", True)
    ws, ss = shapes(c, mr)
    kw = dict(sampling=c["sampling"], nside=c.get("nside"), multiresolution=mr)
    if op == "out":
        b = task["backend"]
        f = W.signal(task)
        r = M.call("analysis", S.analysis, b, f, c)
        if not r:
            return
        M.true("number-of-scales", len(r[0]) == len(ws), got=len(r[0]), want=len(ws))
        M.true("wavelet-shapes", [x.shape for x in r[0]] == ws, got=[x.shape for x in r[0]], want=ws)
        M.true("scaling-shape", r[1].shape == ss, got=r[1].shape, want=ss)
        M.true("finite", all(np.all(np.isfinite(x)) for x in r[0]) and bool(np.all(np.isfinite(r[1]))))
        from .. import plans

        if not plans.blocked(b, c):
            g = M.call("synthesis", S.synthesis, b, r[0], r[1], c)
            if g is not None:
                M.true("signal-shape", np.shape(g) == f.shape, got=np.shape(g), want=f.shape)
        if r[0] and S.kind(b) in ("base", "looped", "c"):
            M.true("helpers-describe-output",
                   [x.shape for x in r[0]] == [x.shape for x in A.construct_f(L, N, J_min, lam, **kw)]
                   and r[1].shape == tuple(A.f_scal(L, J_min, lam, **kw)))
    elif op == "construct":
        f = M.call("construct_f", A.construct_f, L, N, J_min, lam, **kw)
        if f is not None:
            M.true("construct_f", [x.shape for x in f] == ws and all(not np.any(x) for x in f)
                   and all(np.iscomplexobj(x) for x in f), got=[x.shape for x in f], want=ws)
        fs = M.call("f_scal", A.f_scal, L, J_min, lam, **kw)
        M.true("f_scal", fs is not None and tuple(fs) == ss, got=fs, want=ss)
        for j in range(J_min, J + 1):
            fw = M.call("f_wav_j", A.f_wav_j, L, j, N, lam, **kw)
            M.true("f_wav_j", fw is not None and tuple(fw) == ws[j - J_min], got=fw, want=ws[j - J_min])
            q = tuple(A.flmn_wav_j(L, j, N, lam, mr))
            Lj, Nj = R.wav_L(L, j, lam, mr), R.wav_N(L, j, N, lam, mr)
            M.true("flmn_wav_j", q == (2 * Nj - 1, Lj, 2 * Lj - 1), got=q)
        ls = [(2 * R.wav_N(L, j, N, lam, mr) - 1, R.wav_L(L, j, lam, mr), 2 * R.wav_L(L, j, lam, mr) - 1)
              for j in range(J_min, J + 1)]
        Ls = R.scal_L(L, J_min, lam, mr)
        x = A.construct_flmn(L, N, J_min, lam, mr)
        M.true("construct_flmn", [y.shape for y in x] == ls and not any(np.any(y) for y in x))
        x = A.construct_flmn_torch(L, N, J_min, None, lam, mr)
        M.true("construct_flmn_torch", [tuple(y.shape) for y in x] == ls and not any(bool(S.torch.any(y != 0)) for y in x))
        Jm = J_min + task["seed"] % (J - J_min + 1)
        x = A.construct_flmn_torch(L, N, J_min, Jm, lam, mr)
        M.true("construct_flmn_torch-J_max", [tuple(y.shape) for y in x] == ls[: Jm - J_min + 1])
        x = A.construct_flm(L, J_min, lam, mr)
        M.true("construct_flm", x.shape == (Ls, 2 * Ls - 1) and not np.any(x))
        M.true("construct_f_torch", len(A.construct_f_torch(L, J_min, None, lam)) == len(ws)
               and len(A.construct_f_torch(L, J_min, Jm, lam)) == Jm - J_min + 1)
        j = J - 1
        M.true("scattering-container",
               A.construct_f(L, N, J_min, lam, scattering=True, **kw).shape
               == (2 * R.wav_N(L, j, N, lam, mr) - 1,) + s2(R.wav_L(L, j, lam, mr), c))
        Lj, Nj = R.wav_L(L, j, lam, mr), R.wav_N(L, j, N, lam, mr)
        M.true("scattering-container-lmn",
               A.construct_flmn(L, N, J_min, lam, mr, scattering=True).shape == (2 * Nj - 1, Lj, 2 * Lj - 1))
    elif op == "construct_jax":
        Jm = J_min + task["seed"] % (J - J_min + 1)
        for top in (None, Jm):
            ls = [(2 * R.wav_N(L, j, N, lam, mr) - 1, R.wav_L(L, j, lam, mr), 2 * R.wav_L(L, j, lam, mr) - 1)
                  for j in range(J_min, (J if top is None else top) + 1)]
            x = M.call("construct_flmn_jax", A.construct_flmn_jax, L, N, J_min, top, lam, mr)
            M.true("construct_flmn_jax", x is not None and [y.shape for y in x] == ls
                   and not any(np.any(np.asarray(y)) for y in x))
            x = M.call("construct_f_jax", A.construct_f_jax, L, J_min, top, lam)
            M.true("construct_f_jax", x is not None and len(x) == len(ls))
        Ls = R.scal_L(L, J_min, lam, mr)
        x = M.call("construct_flm_jax", A.construct_flm_jax, L, J_min, lam, mr)
        M.true("construct_flm_jax", x is not None and x.shape == (Ls, 2 * Ls - 1) and not np.any(np.asarray(x)))
    elif op == "check":
        g = W.rng(task)
        fw = [np.zeros(s) for s in ws]
        fs = np.zeros(ss)
        a = (L, N, J_min, lam)
        M.call("accepts-correct-shapes", A.wavelet_shape_check, fw, fs, *a, **kw)
        M.true("accepted", not M.failures)
        # every single-coordinate perturbation is refused
        for i in range(len(fw)):
            for ax in range(len(ws[i])):
                s = list(ws[i])
                s[ax] += int(g.choice((-1, 1))) if s[ax] > 1 else 1
                bad = fw[:i] + [np.zeros(s)] + fw[i + 1:]
                M.raises("rejects-wrong-scale", lambda: A.wavelet_shape_check(bad, fs, *a, **kw),
                         (AssertionError, ValueError), scale=i, axis=ax)
        for ax in range(len(ss)):
            s = list(ss)
            s[ax] += 1
            M.raises("rejects-wrong-scaling", lambda: A.wavelet_shape_check(fw, np.zeros(s), *a, **kw),
                     (AssertionError, ValueError))
        M.raises("rejects-missing-scale", lambda: A.wavelet_shape_check(fw[:-1], fs, *a, **kw),
                 (AssertionError, ValueError, IndexError))
        M.raises("rejects-extra-scale", lambda: A.wavelet_shape_check(fw + [fw[-1]], fs, *a, **kw),
                 (AssertionError, ValueError))
