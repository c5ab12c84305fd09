"""C23 the JAX transforms compose with jit and vmap, kernels being ordinary (traced) arguments."""
import numpy as np

from .. import plans, sut as S, work as W


def run(task, M):
    b, c, op = task["backend"], task["cfg"], task["op"]
    jax, jnp = S.jax, S.jnp
    t = W.tol(c)
    K = 2
    which = task["which"]
    if which == "synthesis" and plans.blocked(b, c):
        return
    # one kernel set per batch entry: the generated one and one of the user's own
    fls = [W.own_filters(c), W.custom_filters(task)]
    pre = S.precomps(c, b, which == "synthesis")
    nat = [tuple(jnp.asarray(x) for x in f) for f in fls]

    if which == "analysis":
        lms = [W.flm(dict(task, signal="random"), 30 + k) for k in range(K)]
        xs = [(jnp.asarray(W.signal(task, a)),) for a in lms]
        want = []
        for a, f in zip(lms, fls):
            w, s = W.ref_analysis(a, c, f)
            want.append(list(w) + [s])

        def fn(fl, x):
            w, s = S.run_analysis(b, x, c, fl, pre)
            return list(w) + [s]
    elif which == "synthesis":
        lms = [W.coeffs_lm(dict(task, signal="random"), 30 + k) for k in range(K)]
        xs, want = [], []
        for (wl, sl), f in zip(lms, fls):
            w, s = W.coeffs_pix(wl, sl, c)
            xs.append(([jnp.asarray(x) for x in w], jnp.asarray(s)))
            want.append([W.ref_synthesis(wl, sl, c, f)])

        def fn(fl, w, s):
            return [S.run_synthesis(b, w, s, c, fl, pre)]
    else:
        lms = [W.flm(dict(task, signal="random"), 30 + k) for k in range(K)]
        xs = [(jnp.asarray(a),) for a in lms]
        want = [list(W.ref_analysis(a, c, f)[0]) for a, f in zip(lms, fls)]

        def fn(fl, a):
            return list(S.flm_to_analysis(b, a, c, None, fl[0], pre, raw=True))

    if op == "jit":
        j = jax.jit(fn)
        for k in range(K):
            r = M.call("jit-" + which, j, nat[k], *xs[k])
            if r is not None:
                M.close_all("same-under-jit", [S.npy(y) for y in r], want[k], t)
    else:
        stack = jax.tree_util.tree_map(lambda *a: jnp.stack([jnp.asarray(z, a[0].dtype) for z in a]), *[
            (nat[k],) + tuple(xs[k]) for k in range(K)])
        r = M.call("vmap-" + which, jax.vmap(fn), *stack)
        if r is not None:
            for k in range(K):
                M.close_all("same-under-vmap", [S.npy(y)[k] for y in r], want[k], t)
