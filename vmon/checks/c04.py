"""C04 all back ends agree: same analysis, same synthesis, whatever front end is used."""
import numpy as np

from .. import plans, ref as R, sut as S, work as W

FAST = ("loopedr", "c", "torchk", "pref", "jaxr")


def _one(task, M, b, f, w, s, g, c, t):
    M.extra = {"backend": b}
    if not plans.blocked(b, c, False):
        got = M.call("analysis", S.analysis, b, f, c)
        if got:
            W.compare(M, "agree", got, (w, s), t)
    if not plans.blocked(b, c, True):
        h = M.call("synthesis", S.synthesis, b, w, s, c)
        if h is not None:
            M.close("agree-synthesis", h, g, t)
    M.extra = {}


def run(task, M):
    c, op = task["cfg"], task["op"]
    t = W.tol(c, 1e-8)
    if op == "healpix":
        from s2fft.base_transforms import spherical

        a = W.flm(task)
        f = np.asarray(spherical.inverse(a, c["L"], c.get("spin", 0), "healpix", c["nside"], c["reality"]))
        f = f.real if c["reality"] else f
    else:
        f = W.signal(task)
    b0 = "base" if op == "healpix" or task["seed"] % 4 == 0 else "baser"
    r = M.call("analysis", S.analysis, b0, f, c)
    if not r:
        return
    w, s = r
    g = M.call("synthesis", S.synthesis, b0, w, s, c)
    if g is None:
        return
    if task["backend"] != "all":
        _one(task, M, task["backend"], f, w, s, g, c, t)
        return
    for b in FAST:
        if op == "healpix" and b in ("c", "jaxr"):
            continue
        _one(task, M, b, f, w, s, g, c, t)
