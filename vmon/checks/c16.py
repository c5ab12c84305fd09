"""C16 purity: no call modifies its inputs, and results do not depend on call history,
memory layout, or concurrent calls."""
import copy
import threading

import numpy as np

from .. import plans, ref as R, sut as S, work as W


def snap(tree):
    """Deep numpy copy of a nest of arrays."""
    if isinstance(tree, (list, tuple)):
        return [snap(x) for x in tree]
    if tree is None:
        return None
    return np.array(S.npy(tree), copy=True)


def same(a, b):
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if a is None or b is None:
        return a is b
    b = S.npy(b)
    return a.shape == b.shape and a.dtype == b.dtype and np.array_equal(a, b, equal_nan=True)


def inputs(task, c, b, salt=0):
    """Native inputs of an analysis and of a synthesis."""
    t = dict(task, cfg=c)
    if task.get("signal", "").startswith("mono"):
        t["signal"] = "random"
    x = W.signal(t, W.flm(t, salt))
    w, s = W.coeffs_pix(*W.coeffs_lm(t, 7 + salt), c)
    if c["reality"] and task["seed"] % 3 == 0:
        # real data in complex containers, as some analyses return them
        w, s = [a + 0j for a in w], s + 0j
        if S.kind(b) != "c":
            x = x + 0j
    x = S.to_backend(x, b)
    w = [S.to_backend(a, b) for a in w]
    k = S.kind(b)
    fl = None if k in ("looped", "base") else S.filt(c, b)
    pa = ps = None
    if k in ("pre", "torch") or (k == "jax" and task["seed"] % 2):
        pa, ps = S.precomps(c, b, False), S.precomps(c, b, True)
    return x, w, S.to_backend(s, b), fl, pa, ps, S.to_backend(W.flm(t, salt), b)


def both(b, c, i):
    x, w, s, fl, pa, ps, lm = i
    a = S.run_analysis(b, x, c, fl, pa)
    g = None if plans.blocked(b, c) else S.run_synthesis(b, w, s, c, fl, ps)
    h = []
    if fl is not None and c.get("spin", 0) == 0:
        h = S.flm_to_analysis(b, lm, c, c.get("J_max"), fl[0], pa, raw=True)
    return a, g, h


def flat(r):
    (w, s), g, h = r
    return [S.npy(x) for x in w] + [S.npy(s)] + ([] if g is None else [S.npy(g)]) + [S.npy(x) for x in h]


def reference(task, c, b, salt=0):
    """What both() has to return for the same inputs, from the reference model."""
    t = dict(task, cfg=c)
    if task.get("signal", "").startswith("mono"):
        t["signal"] = "random"
    L, N, J_min, lam, J = W.geom(c)
    fl = R.filters(L, N, J_min, lam, c.get("spin", 0), c.get("spin0", 0))
    w, s = W.ref_analysis(W.flm(t, salt), c, fl)
    out = list(w) + [s]
    if not plans.blocked(b, c):
        out.append(W.ref_synthesis(*W.coeffs_lm(t, 7 + salt), c, fl))
    if S.kind(b) not in ("looped", "base") and c.get("spin", 0) == 0:
        out += list(w[: (J if c.get("J_max") is None else c["J_max"]) - J_min + 1])
    return out


def run(task, M):
    op = task["op"]
    if op == "filters":
        return _filters(task, M)
    b, c = task["backend"], task["cfg"]
    t = W.tol(c, 1e-9)
    i = inputs(task, c, b)
    if op == "mutate":
        before = snap(i)
        r = M.call("transform", both, b, c, i)
        if r is None:
            return
        for name, u, v in zip(("signal", "wavelets", "scaling", "filters", "precomps", "precomps", "flm"), before, i):
            M.true("input-unchanged:" + name, same(u, v), argument=name)
        first = snap(flat(r))
        r2 = M.call("transform", both, b, c, i)
        if r2 is None:
            return
        M.close_all("repeatable", flat(r2), first, 1e-12)
        M.true("earlier-result-unchanged", same(first, flat(r)))
        # returned buffers are fresh: writing to them changes neither inputs nor later results
        for a in flat(r2):
            if a.flags.writeable:
                a[...] = 7.25
        M.true("outputs-do-not-alias-inputs", all(same(u, v) for u, v in zip(before, i)))
        r3 = M.call("transform", both, b, c, i)
        if r3 is not None:
            M.close_all("outputs-not-cached", flat(r3), first, 1e-12)
    elif op == "history":
        r0 = M.call("transform", both, b, c, i)
        if r0 is None:
            return
        first = snap(flat(r0))
        alts = []
        for k, c2 in enumerate(task["alts"]):
            i2 = inputs(task, c2, b, 20 + k)
            ra = M.call("transform-interleaved", both, b, c2, i2)
            if ra is None:
                return
            alts.append((c2, i2, snap(flat(ra))))
            if task["signal"] != "hdr":
                ref = reference(task, c2, b, 20 + k)
                M.close_all("correct-after-history", flat(ra), ref, 2e-3, scale=max(float(np.abs(x).max()) for x in ref))
            rb = M.call("transform", both, b, c, i)
            if rb is None:
                return
            M.close_all("independent-of-history", flat(rb), first, 1e-12)
        for c2, i2, want in reversed(alts):
            ra = M.call("transform-interleaved", both, b, c2, i2)
            if ra is not None:
                M.close_all("independent-of-history", flat(ra), want, 1e-12)
        # a different signal of the same shape must not see anything of the first
        i3 = inputs(task, c, b, 50)
        r3 = M.call("transform", both, b, c, i3)
        if r3 is not None:
            ref = reference(task, c, b, 50)
            M.close_all("new-signal-new-result", flat(r3), ref, 2e-3, scale=max(float(np.abs(x).max()) for x in ref))
    elif op == "layout":
        r0 = M.call("transform", both, b, c, i)
        if r0 is None:
            return
        first = snap(flat(r0))
        for name, f in LAYOUTS.items():
            if S.kind(b) not in ("looped", "base", "torch") and name in ("negative-stride", "readonly"):
                continue
            j = (f(i[0], b), [f(x, b) for x in i[1]], f(i[2], b)) + i[3:]
            r = M.call("transform-layout", both, b, c, j)
            if r is not None:
                M.close_all("independent-of-layout:" + name, flat(r), first, t)
    elif op == "threads":
        import sys

        cfgs = [c, c]
        if S.kind(b) in ("base", "torch"):
            cfgs += [dict(c, reality=False), dict(c, N=max(1, c["N"] - 1))]
            cfgs = [q for q in cfgs if not plans.blocked(b, q)]
        with S._ctx(b):
            ins = [inputs(task, q, b, k) for k, q in enumerate(cfgs)]
            want = []
            for q, z in zip(cfgs, ins):
                r = M.call("transform", both, b, q, z)
                if r is None:
                    return
                want.append(snap(flat(r)))
            got = [[None] * 3 for _ in cfgs]
            errs = []
            bar = threading.Barrier(len(cfgs))

            def work(k):
                try:
                    bar.wait()
                    for n in range(3):
                        got[k][n] = snap(flat(both(b, cfgs[k], ins[k])))
                except Exception as e:
                    errs.append(repr(e))

            old = sys.getswitchinterval()
            sys.setswitchinterval(1e-5)
            try:
                th = [threading.Thread(target=work, args=(k,)) for k in range(len(cfgs))]
                [x.start() for x in th]
                [x.join() for x in th]
            finally:
                sys.setswitchinterval(old)
        M.true("concurrent-calls-succeed", not errs, detail=errs[:1])
        for k in range(len(cfgs)):
            for n in range(3):
                if got[k][n] is not None:
                    M.close_all("independent-of-concurrency", got[k][n], want[k], 1e-12)


def _np_apply(fn):
    def f(x, b):
        if S.kind(b) == "torch":
            return x
        if S.kind(b) in ("looped", "base"):
            return fn(np.array(x))
        return S.jnp.asarray(fn(np.array(x)))
    return f


def _strided(x):
    z = np.full(x.shape + (2,), 1e30, dtype=x.dtype)
    z[..., 0] = x
    return z[..., 0]


def _readonly(x):
    x.flags.writeable = False
    return x


def _torch_or(fn_np, fn_t):
    g = _np_apply(fn_np)
    return lambda x, b: fn_t(x) if S.kind(b) == "torch" else g(x, b)


LAYOUTS = {
    "fortran": _torch_or(np.asfortranarray, lambda x: x.permute(*range(x.dim() - 1, -1, -1)).contiguous().permute(
        *range(x.dim() - 1, -1, -1))),
    "strided": _torch_or(_strided, lambda x: S.torch.stack([x, x + 1e9], -1)[..., 0]),
    "negative-stride": _torch_or(lambda x: np.ascontiguousarray(x[..., ::-1])[..., ::-1], lambda x: x),
    "readonly": _torch_or(_readonly, lambda x: x),
}


def _filters(task, M):
    """Generators hand out independent, reproducible arrays."""
    c = task["cfg"]
    L, N, J_min, lam, J = W.geom(c)
    F, A = S.FIL, S.SAM
    gens = dict(
        looped=lambda: F.filters_directional(L, N, J_min, lam, c["spin"]),
        vectorised=lambda: F.filters_directional_vectorised(L, N, J_min, lam, c["spin"]),
        torch=lambda: F.filters_directional_vectorised(L, N, J_min, lam, c["spin"], using_torch=True),
        axisym=lambda: F.filters_axisym(L, J_min, lam),
        axisym_vec=lambda: F.filters_axisym_vectorised(L, J_min, lam),
        k_lam=lambda: [F.k_lam(L, lam)], tiling=lambda: [F.tiling_direction(L, N)],
        construct_f=lambda: A.construct_f(L, N, J_min, lam, c["sampling"], None, True),
        construct_flmn=lambda: A.construct_flmn(L, N, J_min, lam, True),
        construct_flm=lambda: [A.construct_flm(L, J_min, lam, True)],
        construct_flmn_torch=lambda: A.construct_flmn_torch(L, N, J_min, None, lam, True),
        precomps=lambda: _pre(c),
    )
    for name, g in gens.items():
        r = M.call("generate:" + name, g)
        if r is None:
            continue
        first = snap(r)
        q = M.call("generate:" + name, g)
        M.true("reproducible:" + name, same(first, q))
        for a in _leaves(r):
            if isinstance(a, S.torch.Tensor):
                a.fill_(3.0)
            elif isinstance(a, np.ndarray) and a.flags.writeable:
                a.fill(3.0)
        M.true("arrays-not-shared:" + name, same(first, q))
        q = M.call("generate:" + name, g)
        M.true("fresh-after-mutation:" + name, same(first, q))
    # a generator asked for one configuration after another answers each correctly
    for d in [c] + task.get("alts", []) + [c]:
        want = R.filters(d["L"], d["N"], d["J_min"], d["lam"], d["spin"], d.get("spin0", 0))
        for name, fn in (("looped", F.filters_directional), ("vectorised", F.filters_directional_vectorised),
                         ("jax", F.filters_directional_jax)):
            if name == "jax" and not task["seed"] % 3 == 0:
                continue
            r = M.call("generate-after-history:" + name, fn, d["L"], d["N"], d["J_min"], d["lam"], d["spin"],
                       d.get("spin0", 0))
            if r is not None:
                n = np.abs(want[0]).max(axis=(0, 2)) + np.abs(want[1]) + 1e-300
                M.close("generators-independent-of-history:" + name, S.npy(r[0])[d["J_min"]:] / n[None, :, None],
                        want[0][d["J_min"]:] / n[None, :, None], 5e-3, scale=1.0)


def _pre(c):
    a, b, w = S.precomps(c, "torchk", False)
    return [a, b] + list(w)


def _leaves(r):
    if isinstance(r, (list, tuple)):
        for x in r:
            yield from _leaves(x)
    else:
        yield r
