"""C01 exact reconstruction: synthesis(analysis(f)) == f, outputs fed back natively."""
import numpy as np

from .. import sut as S, work as W


def run(task, M):
    b, c = task["backend"], task["cfg"]
    f = W.signal(task)
    x = S.to_backend(f, b)
    r = M.call("analysis", S.run_analysis, b, x, c)
    if r is None:
        return
    g = M.call("synthesis", S.run_synthesis, b, r[0], r[1], c)
    if g is None:
        return
    g = S.npy(g)
    M.close("roundtrip", g, f, W.tol(c))
    # the coefficients carry the signal: they are not all zero
    M.true("coefficients-carry-signal",
           sum(float(np.sum(np.abs(S.npy(a)))) for a in r[0]) + float(np.sum(np.abs(S.npy(r[1])))) > 0)
