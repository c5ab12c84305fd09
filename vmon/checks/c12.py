"""C12 gradients are the exact derivatives of the transforms."""
import numpy as np

from .. import plans, sut as S, work as W


def _cot(g, x):
    x = S.npy(x)
    r = g.normal(size=x.shape)
    return r + 1j * g.normal(size=x.shape) if np.iscomplexobj(x) else r


def setup(task):
    """fn(list of native inputs) -> list of native outputs; inputs x and a direction d."""
    b, c, which = task["backend"], task["cfg"], task["which"]
    k = S.kind(b)
    if which == "synthesis":
        xs = W.coeffs_pix(*W.coeffs_lm(dict(task, signal="random")), c)
        ds = W.coeffs_pix(*W.coeffs_lm(dict(task, signal="random"), 8), c)
        x, d = list(xs[0]) + [xs[1]], list(ds[0]) + [ds[1]]
    elif which == "analysis":
        x = [W.signal(task)]
        d = [W.signal(task, W.flm(task, 3, signal="random"))]
    else:
        x = [W.flm(task)]
        d = [W.flm(task, 3, signal="random")]
    pre = S.precomps(c, b, which == "synthesis") if k in ("pre", "torch", "jax") else None
    fl = S.filt(c, b)

    def fn(v):
        if which == "analysis":
            w, s = S.run_analysis(b, v[0], c, fl, pre)
            return list(w) + [s]
        if which == "synthesis":
            return [S.run_synthesis(b, list(v[:-1]), v[-1], c, fl, pre)]
        return list(S.flm_to_analysis(b, v[0], c, None, fl[0], pre, raw=True))

    return fn, [S.to_backend(a, b) for a in x], [S.to_backend(a, b) for a in d], fl, pre


def run(task, M):
    b, c = task["backend"], task["cfg"]
    k = S.kind(b)
    g = W.rng(task, 9)
    t = W.tol(c)
    if task["op"] == "filters":
        return _filters(task, M)
    st = M.call("setup", setup, task)
    if st is None:
        return
    fn, x, d, fl, pre = st
    if k == "torch":
        x = [a.clone().requires_grad_(True) for a in x]

        def go():
            y = fn(x)
            cot = [S.torch.from_numpy(_cot(g, a)) for a in y]
            loss = sum((S.torch.conj(u).resolve_conj() * a).real.sum() if a.is_complex() else (u * a).sum()
                       for u, a in zip(cot, y))
            loss.backward()
            return cot, [a.grad for a in x], fn([a.detach() for a in d])

        r = M.call("gradient", go)
        if r is None:
            return
        cot, grads, Ad = r
        if any(a is None for a in grads):
            M.fail("adjoint", kind="no-gradient")
            return
        lhs = sum(float(np.real(np.sum(np.conj(S.npy(u)) * S.npy(a)))) for u, a in zip(cot, Ad))
        rhs = sum(float(np.real(np.sum(np.conj(S.npy(q)) * S.npy(a)))) for q, a in zip(grads, d))
        sc = sum(float(np.sum(np.abs(S.npy(u) * S.npy(a)))) for u, a in zip(cot, Ad))
        M.close("adjoint", np.array(rhs), np.array(lhs), t, scale=sc)
        return
    jax = S.jax
    if task["op"] == "jvp":
        r = M.call("gradient", lambda: jax.jvp(lambda *v: tuple(fn(v)), tuple(x), tuple(d)))
        Ad = M.call("forward", fn, d)
        if r is not None and Ad is not None:
            M.close_all("tangent", [S.npy(a) for a in r[1]], [S.npy(a) for a in Ad], t)
        return

    def go():
        y, vjp = jax.vjp(lambda *v: tuple(fn(v)), *x)
        cot = [_cot(g, a) for a in y]
        return cot, vjp(tuple(S.jnp.asarray(u) for u in cot)), fn(d)

    r = M.call("gradient", go)
    if r is None:
        return
    cot, grads, Ad = r
    lhs = sum(complex(np.sum(u * S.npy(a))) for u, a in zip(cot, Ad))
    rhs = sum(complex(np.sum(S.npy(q) * S.npy(a))) for q, a in zip(grads, d))
    if c["reality"]:  # the map is only real-linear: the pairing is the real part
        lhs, rhs = lhs.real, rhs.real
    sc = sum(float(np.sum(np.abs(u * S.npy(a)))) for u, a in zip(cot, Ad))
    M.close("adjoint", np.array(rhs), np.array(lhs), t, scale=sc)


def _filters(task, M):
    """The transforms are real-linear in the kernels: the change of the output under a
    change of the kernels is given exactly by the gradient."""
    b, c = task["backend"], task["cfg"]
    torch = S.torch
    g = W.rng(task, 13)
    f0 = W.native_filters(W.custom_filters(task), b)
    df = W.native_filters(W.custom_filters(task, 12), b)
    if task["which"] == "analysis":
        pre = S.precomps(c, b, False)
        x = S.to_backend(W.signal(task), b)

        def fn(fl):
            w, s = S.run_analysis(b, x, c, fl, pre)
            return list(w) + [s]
    else:
        pre = S.precomps(c, b, True)
        w, s = W.coeffs_pix(*W.coeffs_lm(task), c)
        w, s = [S.to_backend(a, b) for a in w], S.to_backend(s, b)

        def fn(fl):
            return [S.run_synthesis(b, w, s, c, fl, pre)]

    def go_jax():
        y, vjp = S.jax.vjp(lambda *p: tuple(fn(p)), *f0)
        cot = [_cot(g, a) for a in y]
        q = vjp(tuple(S.jnp.asarray(u) for u in cot))
        y1, y0 = fn(tuple(a + z for a, z in zip(f0, df))), fn(f0)
        dot = lambda ys: sum(float(np.real(np.sum(u * S.npy(a)))) for u, a in zip(cot, ys))
        sc = sum(float(np.sum(np.abs(u * S.npy(a)))) for u, a in zip(cot, y1))
        # JAX pairs gradients without conjugation
        return [np.conj(S.npy(a)) for a in q], dot(y1) - dot(y0), sc

    def go():
        if S.kind(b) != "torch":
            return go_jax()
        p = [a.clone().requires_grad_(True) for a in f0]
        y = fn(tuple(p))
        cot = [torch.from_numpy(_cot(g, a)) for a in y]
        dot = lambda ys: sum((torch.conj(u) * a).real.sum() for u, a in zip(cot, ys))
        dot(y).backward()
        y1 = fn(tuple(a + q for a, q in zip(f0, df)))
        y0 = fn(f0)
        sc = sum(float((u * a).abs().sum()) for u, a in zip(cot, y1))
        return [a.grad for a in p], float(dot(y1) - dot(y0)), sc

    r = M.call("gradient", go)
    if r is None:
        return
    grads, lhs, sc = r
    if any(a is None for a in grads):
        M.fail("adjoint", kind="no-gradient")
        return
    rhs = sum(float(np.real(np.sum(np.conj(S.npy(q)) * S.npy(a)))) for q, a in zip(grads, df))
    M.close("adjoint", np.array(rhs), np.array(lhs), W.tol(c), scale=sc)
