"""Workload plans: which configurations, signals and front ends each check drives.

Pure python (runs in the parent process, before the workers import anything)."""
from __future__ import annotations

import itertools

from . import ref as R

ASSUMPTIONS = [
    "double precision (jax_enable_x64) on CPU, as s2wav documents",
    "s2fft, numpy, scipy, jax, torch and ducc0 are trusted; front ends with suffix f/k run s2fft's numpy "
    "implementations in place of its JAX ones (see DESIGN.md)",
]
RULES: dict = {}

LAMS = (2, 2.0, 3, 1.5, 2.5, 4, 5, 1.3, 3.5, 1.7, 8, 1.4, 3.0)
SAMP = ("mw", "mwss", "dh", "gl")
SIGNALS = ("random",) * 6 + ("real", "top", "const", "zonal", "sectoral", "tiny", "huge", "imag", "mono", "hdr", "hdr", "posm", "negm", "one")

# relative cost of one analysis+synthesis, in seconds (only used for scheduling)
COST = dict(loopedr=0.05, baser=0.05, jaxr=0.6, looped=0.3, base=0.2, c=0.5, jaxf=0.8, pref=0.5, torchk=0.15, prek=1.2, jax=12, pre=8, torch=6)


def kind(b):
    return {"jaxr": "jax", "baser": "base", "loopedr": "looped", "jaxf": "jax", "pref": "pre", "prek": "pre", "torchk": "torch"}.get(b, b)


def nj_gt_lj(c):
    J = R.j_max(c["L"], c["lam"])
    return any(R.wav_N(c["L"], j, c["N"], c["lam"]) > R.wav_L(c["L"], j, c["lam"])
               for j in range(c["J_min"], J + 1))


def blocked(b, c, synth=True):
    """Configurations on which a known finding (known_findings.json) lies."""
    k = kind(b)
    if k == "c" and nj_gt_lj(c):
        return True
    if synth and k in ("pre", "torch") and c["N"] == 1 and c["sampling"] in ("mw", "mwss"):
        return True
    return False


class Cycle:
    """Shuffled round-robin over the values of a factor, so each value recurs."""

    def __init__(self, rng, vals):
        self.rng, self.vals, self.q = rng, list(vals), []

    def __call__(self):
        if not self.q:
            self.q = self.vals[:]
            self.rng.shuffle(self.q)
        return self.q.pop()


class Gen:
    def __init__(self, rng, Lmax=13, Nmax=6, lams=LAMS, samp=SAMP, spins=True, reality=True, Lmin=2, Jcap=9):
        self.rng, self.Jcap = rng, Jcap
        self.lam = Cycle(rng, lams)
        self.L = Cycle(rng, range(Lmin, Lmax + 1))
        self.samp = Cycle(rng, samp)
        self.sig = Cycle(rng, SIGNALS)
        self.spin = Cycle(rng, (0, 0, 0, 0, 1, -1, 2, -2, 3, -3) if spins else (0,))
        self.real = Cycle(rng, (True, False) if reality else (False,))
        self.jm = Cycle(rng, ("lo", "lo", "hi", "any", "any", "one"))
        self.n = Cycle(rng, (1, 2, 2, 3, 3, 4, 5, 6, "L", "L-1", "any"))
        self.Nmax = Nmax

    def cfg(self, **fix):
        while True:
            c = dict(L=self.L(), lam=self.lam(), sampling=self.samp())
            c.update({k: v for k, v in fix.items() if k in ("L", "lam", "sampling")})
            L, lam = c["L"], c["lam"]
            if R.near_tie(L, lam):
                continue
            J = R.j_max(L, lam)
            if J < 1 or J > self.Jcap:
                continue
            n = self.n()
            if n == "L":
                n = L
            elif n == "L-1":
                n = L - 1
            elif n == "any":
                n = self.rng.randint(1, L)
            c["N"] = max(1, min(n, L, self.Nmax))
            m = self.jm()
            c["J_min"] = {"lo": 0, "hi": J - 1, "one": min(1, J - 1)}.get(m, self.rng.randint(0, J - 1))
            s = self.spin()
            c["spin"] = s if abs(s) < L else 0
            c["reality"] = self.real() if c["spin"] == 0 else False
            c.update(fix)
            if c["spin"] != 0:
                c["reality"] = False
            if c["J_min"] > J - 1 or c["N"] > L:
                continue
            return c

    def task(self, backend, op="-", synth=True, **fix):
        for _ in range(1000):
            c = self.cfg(**fix)
            if not blocked(backend, c, synth):
                break
        # the cost of a configuration grows mostly with the number of scales
        w = COST.get(backend, 1) * (1 + R.j_max(c["L"], c["lam"]) - c["J_min"]) * (1 + c["L"] / 10)
        sig = self.sig()
        if sig == "mono":
            sig = f"mono:{self.rng.randint(abs(c['spin']), c['L'] - 1)}"
        return dict(op=op, backend=backend, cfg=c, signal=sig, seed=self.rng.randint(0, 2**31), weight=w)


def CORNERS(backend):
    """Configurations at the edges of the domain, always run."""
    base = dict(reality=False, spin=0, sampling="mw")
    cs = [
        dict(L=8, N=1, J_min=0, lam=2, sampling="dh"),          # every default, band-limit-1 scaling function
        dict(L=8, N=3, J_min=0, lam=2.0, sampling="mwss", reality=True),
        dict(L=2, N=2, J_min=0, lam=2, sampling="gl"),           # smallest useful band-limit
        dict(L=7, N=3, J_min=0, lam=8, sampling="mwss"),         # lam > L: single scale pair
        dict(L=9, N=4, J_min=1, lam=3, sampling="dh", reality=True),
        dict(L=8, N=2, J_min=2, lam=1.5),                        # L-1 < lam^(J-1) < L
        dict(L=7, N=2, J_min=0, lam=2.5, sampling="gl"),
        dict(L=12, N=4, J_min=3, lam=2, sampling="mwss"),        # J_min = J-1
        dict(L=10, N=2, J_min=0, lam=5, sampling="dh"),          # quadrature nodes at the support edge
        dict(L=6, N=2, J_min=0, lam=2, spin=2, sampling="gl"),   # scaling band-limit below |spin|
        dict(L=6, N=2, J_min=1, lam=2, spin=-2),
        dict(L=11, N=3, J_min=1, lam=1.5, spin=1, sampling="mwss"),
        dict(L=13, N=2, J_min=0, lam=3.5, reality=True),
        dict(L=16, N=5, J_min=2, lam=2, sampling="mw"),
        dict(L=17, N=2, J_min=0, lam=4, sampling="gl", reality=True),
        dict(L=9, N=2, J_min=1, lam=3, spin=-1, sampling="dh"),
    ]
    if kind(backend) != "c":
        cs += [dict(L=5, N=5, J_min=0, lam=2, sampling="dh"), dict(L=7, N=7, J_min=0, lam=1.5, sampling="gl")]
    return [{**base, **c} for c in cs]


def mk(backend, c, rng, op="-", signal="random", **kw):
    w = COST.get(backend, 1) * (1 + R.j_max(c["L"], c["lam"]) - c["J_min"]) * (1 + c["L"] / 10)
    return dict(op=op, backend=backend, cfg=c, signal=signal, seed=rng.randint(0, 2**31), weight=w, **kw)


# how many generated configurations per front end in the quick tier
QUICK = dict(loopedr=150, baser=200, looped=10, base=16, c=100, jaxr=60, jaxf=6, pref=48, torchk=200, prek=6, jax=5,
             pre=2, torch=2)
SCALE = dict(quick=1.0, thorough=12.0)


# front ends fast enough for unusual configurations, and how many of each family
EXOTIC = dict(baser=8, loopedr=6, c=6, torchk=8, jaxr=3, pref=3)


def exotic(b, op, rng, synth, n, **gkw):
    """Parameter values far from common use: large L, large N, large spins, lam close
    to 1 (many scales), very large lam (few scales), J_min in the middle of many scales."""
    out = []
    fams = [dict(Lmin=20, Lmax=40, Nmax=4, lams=(2, 3, 2.5, 4, 2.0)),
            dict(Lmin=9, Lmax=22, Nmax=22, lams=(2, 3, 2.5, 4, 8)),
            dict(Lmin=5, Lmax=14, Nmax=6, lams=LAMS),
            dict(Lmin=3, Lmax=8, Nmax=4, lams=(1.1, 1.15, 1.2, 1.25), Jcap=24),
            dict(Lmin=5, Lmax=30, Nmax=5, lams=(10, 16, 25.0, 40, 7, 9.5, 6))]
    for k, kw in enumerate(fams):
        if k == 3 and b in ("jaxr", "pref"):
            continue
        g = Gen(rng, **{**gkw, **kw})
        if k == 1:
            g.n = Cycle(rng, ("L", "L-1", "any", 8, 12))
        if k == 2:
            if not gkw.get("spins", True):
                continue
            g.spin = Cycle(rng, (4, -4, 5, -5, 6, -6, 7, -7, 9, -10, 12, -13))
        for _ in range(n if k != 3 else max(1, n // 2)):
            out.append(g.task(b, op, synth))
    if b in ("baser", "loopedr", "c") and n > 1:
        for L, lam in ((48, 2), (64, 2), (57, 3)):
            g = Gen(rng, **{**gkw, **dict(Nmax=3, Lmin=L, Lmax=L, lams=(lam,))})
            out.append(g.task(b, op, synth))
    return out


def huge(b, op, rng, synth, tier, **gkw):
    """Band-limits of real applications (the reference is pyssht/ducc0 there)."""
    out = []
    rs = [(65, 130), (131, 280)] if b in ("baser", "loopedr", "c", "jaxr") else [(45, 66)] if b in ("torchk", "pref") else []
    for lo, hi in rs:
        for _ in range(1 if tier == "quick" else 6):
            L = rng.randint(lo, hi)
            g = Gen(rng, **{**gkw, **dict(Nmax=3, Lmin=L, Lmax=L, lams=(2, 3, 2.5, 4, 2.0))})
            t = g.task(b, op, synth)
            t["weight"] = 12
            out.append(t)
    return out


def sweep(tier, rng, op="-", backends=QUICK, scale=1.0, synth=True, corners=True, Lmax=13, big=True, large=False,
          **gkw):
    """The standard sweep over front ends and configurations."""
    out = []
    for b, n in backends.items():
        n = max(1, int(round(n * scale * SCALE[tier])))
        slow = b in ("jax", "pre", "torch")
        g = Gen(rng, Lmax=9 if slow else Lmax, Nmax=4 if slow else 6, **gkw)
        out += [g.task(b, op, synth) for _ in range(n)]
        if corners and not slow:
            samp = gkw.get("samp", SAMP)
            for c in CORNERS(b):
                if c["sampling"] not in samp:
                    c["sampling"] = samp[0]
                if gkw.get("spins", True) is False and c["spin"] != 0:
                    continue
                if gkw.get("reality", True) is False and c["reality"]:
                    c["reality"] = False
                if not blocked(b, c, synth):
                    out.append(mk(b, c, rng, op))
        if large:
            out += huge(b, op, rng, synth, tier, **gkw)
        if big and b in EXOTIC:
            out += exotic(b, op, rng, synth, int(EXOTIC[b] * (1 if tier == "quick" else 6)), **gkw)
    return out


# --------------------------------------------------------------------------- checks


def _known_c(rng):
    b = dict(spin=0, reality=False)
    return [mk("c", dict(L=5, N=5, J_min=0, lam=2, sampling="mw", **b), rng),
            mk("c", dict(L=8, N=4, J_min=0, lam=1.5, sampling="gl", **b), rng)]


def _known_n1(rng):
    b = dict(spin=0, reality=False)
    return [mk("torchk", dict(L=8, N=1, J_min=0, lam=2, sampling="mw", **b), rng),
            mk("pref", dict(L=6, N=1, J_min=1, lam=2, sampling="mwss", **b), rng)]


def p_c01(tier, rng):
    return sweep(tier, rng, large=True) + _known_c(rng) + _known_n1(rng)


def p_c02(tier, rng):
    out = sweep(tier, rng, "own", synth=False, scale=0.8, large=True) + [dict(t, op="own") for t in _known_c(rng)]
    cu = sweep(tier, rng, "custom", synth=False, scale=0.5, corners=False, big=False,
               backends={k: v for k, v in QUICK.items() if k not in ("looped", "base", "loopedr", "baser")})
    for t in cu[::3]:
        t["signal"] = "hdr"
    out += cu
    g = Gen(rng)
    for b in ("loopedr", "baser"):
        for i in range(int(60 * SCALE[tier])):
            t = g.task(b, "spin0", synth=False)
            t["spin0"] = rng.choice((1, -1, 2, -2))
            if abs(t["spin0"]) < t["cfg"]["L"]:
                out.append(t)
    return out


def p_c03(tier, rng):
    out = sweep(tier, rng, "own", scale=0.8, large=True) + [dict(t, op="own") for t in _known_c(rng) + _known_n1(rng)]
    cu = sweep(tier, rng, "custom", scale=0.5, corners=False, big=False,
               backends={k: v for k, v in QUICK.items() if k not in ("looped", "base", "loopedr", "baser")})
    for t in cu[::3]:
        t["signal"] = "hdr"
    out += cu
    g = Gen(rng)
    for b in ("loopedr", "baser"):
        for i in range(int(60 * SCALE[tier])):
            t = g.task(b, "spin0")
            t["spin0"] = rng.choice((1, -1, 2, -2))
            if abs(t["spin0"]) < t["cfg"]["L"]:
                out.append(t)
    return out


def p_c04(tier, rng):
    out = []
    g = Gen(rng, Lmax=13)
    for i in range(int(70 * SCALE[tier])):
        t = g.task("base", "agree")
        out.append(dict(t, backend="all", weight=4))
    for c in CORNERS("base"):
        out.append(dict(mk("base", c, rng, "agree"), backend="all", weight=4))
    for b, n in (("jax", 5), ("pre", 2), ("torch", 2), ("prek", 8)):
        gs = Gen(rng, Lmax=9, Nmax=4)
        out += [gs.task(b, "agree") for _ in range(int(n * (1 if tier == "quick" else 10)))]
    # HEALPix: s2fft needs every band-limit >= 2 nside
    hp = [(8, 3, 2, 2, 2), (7, 2, 2, 2, 2), (8, 4, 2, 2, 2), (12, 3, 1, 4, 2), (9, 2, 2, 2, 2), (10, 2, 2, 2.5, 2),
          (6, 1, 2, 2, 2), (16, 2, 3, 2, 4), (8, 1, 2, 2, 2), (13, 5, 2, 2, 2), (9, 2, 2, 3, 4)]
    for L, N, J, lam, ns in hp:
        for real in (False, True):
            c = dict(L=L, N=N, J_min=J, lam=lam, spin=0, reality=real, sampling="healpix", nside=ns)
            if J < R.j_max(L, lam):
                out.append(dict(mk("base", c, rng, "healpix"), backend="all", weight=6))
    c = dict(L=8, N=1, J_min=2, lam=2, spin=0, reality=False, sampling="healpix", nside=2)
    out.append(mk("jax", c, rng, "healpix"))
    out.append(mk("jax", dict(c, N=3), rng, "healpix"))
    out.append(mk("pref", dict(c, N=2, spin=1), rng, "healpix"))
    return out


def p_c05(tier, rng):
    out = []
    n = dict(c=80, jaxr=50, jaxf=4, pref=45, torchk=180, prek=6, jax=5, pre=2, torch=2)
    for b, k in n.items():
        slow = b in ("jax", "pre", "torch")
        g = Gen(rng, Lmax=9 if slow else 13, Nmax=4 if slow else 6, spins=False)
        for i in range(int(k * SCALE[tier])):
            t = g.task(b, "flm", synth=False)
            J = R.j_max(t["cfg"]["L"], t["cfg"]["lam"])
            t["J_max"] = rng.choice([None, J] + [rng.randint(t["cfg"]["J_min"], J)] * 3)
            out.append(t)
        if not slow:
            for c in CORNERS(b):
                J = R.j_max(c["L"], c["lam"])
                if c["spin"] == 0 and not blocked(b, c, False):
                    for jm in {None, c["J_min"], J - 1, J}:
                        out.append(mk(b, c, rng, "flm", J_max=jm))
    return out


def _filter_cfgs(tier, rng, n, Lmax=40, spin=True):
    g = Gen(rng, Lmax=Lmax, Nmax=Lmax)
    g.n = Cycle(rng, (1, 2, 3, 4, 5, 6, 7, 9, 12, "L", "L-1", "any"))
    return [g.cfg() for _ in range(int(n * SCALE[tier]))]


def p_c06(tier, rng):
    out = []
    for op, n in (("looped", 120), ("vec", 220), ("torch", 60), ("jax", 40)):
        Lm = 12 if op == "jax" else 40
        for c in _filter_cfgs(tier, rng, n, Lm) + CORNERS("base"):
            out.append(mk("base", c, rng, op))
            out[-1]["weight"] = 4 if op == "jax" else 1
    for L, lam in ((64, 2), (96, 3), (128, 2), (101, 5), (81, 3), (125, 5), (27, 3), (50, 1.3), (64, 1.7), (60, 3.3)):
        c = dict(L=L, N=3, J_min=0, lam=lam, spin=0, reality=False, sampling="mw")
        out.append(dict(mk("base", c, rng, "vec"), weight=20))
    for op, hi in (("vec", 300), ("vec", 300), ("looped", 300), ("looped", 150), ("torch", 300), ("jax", 70), ("jax", 40)):
        g = Gen(rng, Lmin=hi // 3, Lmax=hi, Nmax=9, lams=(2, 3, 2.5, 4, 1.7, 5), Jcap=12)
        out.append(dict(mk("base", g.cfg(), rng, op), weight=25))
    return out


def p_c07(tier, rng):
    out = []
    for op, n in (("dir", 150), ("axisym", 80), ("klam", 60), ("tiling", 80)):
        for c in _filter_cfgs(tier, rng, n, 24) + CORNERS("base"):
            t = mk("base", c, rng, op)
            t["spin0"] = rng.choice((0, 0, 1, -1, 2, -2, 3, -3))
            if abs(t["spin0"]) >= c["L"]:
                t["spin0"] = 0
            t["weight"] = 1
            out.append(t)
    for c in _filter_cfgs(tier, rng, 40, 11) + CORNERS("base")[:8]:
        t = mk("base", c, rng, "jax")
        t["spin0"] = rng.choice((0, 0, 1, -1, 2, -2))
        if abs(t["spin0"]) >= c["L"]:
            t["spin0"] = 0
        t["weight"] = 6
        out.append(t)
    for op, hi in (("dir", 130), ("dir", 90), ("dir", 64), ("axisym", 200), ("klam", 300), ("klam", 120), ("tiling", 120),
                   ("jax", 48)):
        g = Gen(rng, Lmin=hi // 2, Lmax=hi, Nmax=12, lams=(2, 3, 2.5, 4, 1.7, 5), Jcap=12)
        out.append(dict(mk("base", g.cfg(), rng, op), weight=25, spin0=0))
    for i in range(4):
        out.append(dict(op="binomial", seed=rng.randint(0, 2**31), lo=i * 16, hi=i * 16 + 16))
    return out


def p_c08(tier, rng):
    lams = [2, 3, 4, 5, 6, 7, 8, 9, 10, 1.5, 2.5, 1.25, 1.1, 1.2, 1.3, 1.4, 1.6, 1.75, 3.5, 2.0, 3.0, 1.05, 2.2, 12.5]
    rng.shuffle(lams)
    hi = 520 if tier == "quick" else 5000
    out = [dict(op="arith", lam=lam, lo=2, hi=hi, seed=0, weight=2) for lam in lams]
    for i in range(6):
        out.append(dict(op="arith", lam=round(rng.uniform(1.05, 9), 3), lo=2, hi=hi, seed=0, weight=2))
    for c in _filter_cfgs(tier, rng, 220, 40) + CORNERS("base"):
        out.append(dict(mk("base", c, rng, "support"), weight=1))
    for L, lam in ((27, 3), (81, 3), (64, 2), (125, 5), (100, 10), (49, 7)):
        out.append(dict(mk("base", dict(L=L, N=2, J_min=0, lam=lam, spin=0, reality=False, sampling="mw"), rng,
                           "support"), weight=8))
    # end to end: nothing is lost outside the advertised band-limits
    out += sweep(tier, rng, "lossless", scale=0.25, corners=False, big=False,
                 backends={k: v for k, v in QUICK.items() if k in ("baser", "torchk", "c", "jaxr", "pref", "loopedr")})
    return out


def p_c09(tier, rng):
    out = sweep(tier, rng, "out", synth=False, scale=0.6,
                backends={k: v for k, v in QUICK.items() if k not in ("jax", "pre", "torch")})
    g = Gen(rng, Lmax=40, Nmax=12)
    for i in range(int(220 * SCALE[tier])):
        c = g.cfg()
        c["multires"] = rng.random() < 0.6
        if rng.random() < 0.2:
            c["sampling"], c["nside"] = "healpix", rng.choice((2, 4, 8))
        out.append(dict(mk("base", c, rng, "construct"), weight=1))
        out.append(dict(mk("base", c, rng, "check"), weight=1))
    for i in range(int(10 * SCALE[tier])):
        c = Gen(rng, Lmax=12).cfg()
        out.append(dict(mk("base", c, rng, "construct_jax"), weight=2))
    gf = Gen(rng, Lmax=10, Nmax=5)
    for b in ("baser", "loopedr"):
        for i in range(int(30 * SCALE[tier])):
            c = gf.cfg()
            c["multires"] = False
            out.append(mk(b, c, rng, "out"))
    return out


def p_c10(tier, rng):
    return sweep(tier, rng, scale=0.8, synth=False)


def p_c11(tier, rng):
    b = {k: v for k, v in QUICK.items() if k not in ("jax", "pre", "torch")}
    return sweep(tier, rng, scale=0.55, backends=b, big=False, large=True)


def p_c12(tier, rng):
    out = []
    for b, n, sc in (("torchk", 210, 1), ("c", 60, 1), ("prek", 45, 1), ("jax", 12, 1)):
        slow = b in ("jax", "prek")
        for i in range(int(n * SCALE[tier])):
            g = Gen(rng, Lmax=7 if slow else 10, Nmax=3 if slow else 5,
                    samp=("mw", "mwss", "gl") if b == "c" else SAMP, reality=(b != "c"),
                    lams=(2, 3, 2.5, 4) if slow else LAMS)
            t = g.task(b, rng.choice(("vjp", "vjp", "jvp") if b == "prek" else ("vjp",)))
            t["which"] = ("analysis", "synthesis", "flm")[i % 3]
            if t["which"] == "flm":
                t["cfg"]["spin"] = 0
            if b == "c" and nj_gt_lj(t["cfg"]):
                continue
            t["weight"] *= 2
            out.append(t)
    # functions of the filters: the wavelets themselves are differentiable inputs
    for i in range(int(60 * SCALE[tier])):
        k = i % 3
        t = Gen(rng, Lmax=7 if k == 2 else 9, Nmax=4, Jcap=6).task("prek" if k == 2 else "torchk", "filters")
        t["which"] = ("analysis", "synthesis")[(i // 3) % 2]
        out.append(t)
    for samp in ("dh",):
        c = dict(L=8, N=3, J_min=0, lam=2, spin=0, reality=False, sampling=samp)
        out.append(mk("c", c, rng, "vjp", which="analysis"))
    return out


def p_c13(tier, rng):
    b = {k: v for k, v in QUICK.items() if k not in ("pre", "torch")}
    b["jax"] = 3
    return sweep(tier, rng, scale=0.6, backends=b, spins=False, large=True)


def p_c14(tier, rng):
    out = []
    for b, n in (("baser", 150), ("loopedr", 120), ("base", 6), ("looped", 6)):
        g = Gen(rng, Lmax=13, Nmax=7)
        for i in range(int(n * SCALE[tier])):
            out.append(g.task(b, "multires"))
        if n > 10:
            out += [mk(b, c, rng, "multires") for c in CORNERS(b)]
            out += [t for t in exotic(b, "multires", rng, True, 3 if tier == "quick" else 20)
                    if t["cfg"]["L"] * t["cfg"]["N"] <= 160]
    return out


def p_c15(tier, rng):
    b = {k: v for k, v in QUICK.items() if k not in ("pre", "torch")}
    b["jax"] = 2
    b2 = {k: v for k, v in QUICK.items() if k in ("baser", "c", "torchk", "loopedr", "jaxr", "pref")}
    return (sweep(tier, rng, "azimuth", scale=0.5, backends=b, synth=False)
            + sweep(tier, rng, "general", scale=0.3, backends=b2, synth=False, corners=False, big=False, Lmax=10))


def p_c16(tier, rng):
    out = []
    for b, n in (("loopedr", 40), ("baser", 60), ("looped", 4), ("base", 8), ("c", 40), ("torchk", 70), ("jaxr", 30), ("jaxf", 3), ("pref", 24), ("prek", 4), ("jax", 2)):
        slow = b in ("jax", "prek")
        for op in ("mutate", "history", "layout"):
            g = Gen(rng, Lmax=8 if slow else 11, Nmax=4)
            if b == "jax" and op == "layout":
                continue
            for i in range(max(1, int(n * SCALE[tier] / (1 if op == "mutate" else 2)))):
                t = g.task(b, op)
                t["weight"] *= 3
                if op == "history":
                    # interleave with other configurations that share some parameters
                    alts = []
                    for key in ("L", "N", "J_min", "lam", "sampling", "reality", "spin"):
                        c = dict(t["cfg"])
                        for _ in range(20):
                            d = g.cfg()
                            c2 = dict(c, **{key: d[key]})
                            if (c2["spin"] == 0 or not c2["reality"]) and c2["J_min"] < R.j_max(c2["L"], c2["lam"]) \
                                    and c2["N"] <= c2["L"] and abs(c2["spin"]) < c2["L"] and c2 != c \
                                    and not blocked(b, c2) and R.j_max(c2["L"], c2["lam"]) < 10 \
                                    and not R.near_tie(c2["L"], c2["lam"]):
                                alts.append(c2)
                                break
                    if kind(b) in ("base", "looped"):
                        alts.append(dict(t["cfg"], multires=False))
                        s0 = rng.choice((1, -1, 2))
                        if abs(s0) < t["cfg"]["L"]:
                            alts.append(dict(t["cfg"], spin0=s0))
                    else:
                        J = R.j_max(t["cfg"]["L"], t["cfg"]["lam"])
                        alts.append(dict(t["cfg"], J_max=rng.randint(t["cfg"]["J_min"], J)))
                    rng.shuffle(alts)
                    t["alts"] = alts[: (2 if slow else 5)]
                out.append(t)
    for b, n in (("base", 6), ("torchk", 8), ("c", 6), ("prek", 3)):
        for i in range(int(n * SCALE[tier])):
            t = Gen(rng, Lmax=9, Nmax=3).task(b, "threads")
            t["weight"] *= 6
            out.append(t)
    for i in range(int(30 * SCALE[tier])):
        g = Gen(rng, Lmax=12)
        c = g.cfg()
        alts = []
        for key in ("N", "J_min", "lam", "spin", "spin0", "L"):
            for _ in range(20):
                v = rng.choice((1, -1, 2)) if key == "spin0" else g.cfg()[key]
                c2 = dict(c, **{key: v})
                if c2["J_min"] < R.j_max(c2["L"], c2["lam"]) < 10 and c2["N"] <= c2["L"] and c2 != c and \
                        abs(c2["spin"]) < c2["L"] and abs(c2.get("spin0", 0)) < c2["L"] and not R.near_tie(c2["L"], c2["lam"]):
                    alts.append(c2)
                    break
        rng.shuffle(alts)
        out.append(dict(mk("base", c, rng, "filters"), weight=3, alts=alts))
    return out


def p_c17(tier, rng):
    out = []
    for i in range(int(5 * SCALE[tier])):
        out.append(Gen(rng, Lmax=8, Nmax=3, lams=(2, 3, 2.5)).task("jax", "explicit"))
    for i in range(int(50 * SCALE[tier])):
        out.append(Gen(rng, Lmax=12).task("jaxr" if i % 8 else "jaxf", "explicit"))
    for i in range(int(60 * SCALE[tier])):
        out.append(Gen(rng, Lmax=12).task("torchk", "full", synth=False))
    for i in range(int(3 * SCALE[tier])):
        out.append(Gen(rng, Lmax=8, Nmax=3).task(("torch", "pre")[i % 2], "full_real"))
    for b, n in (("torchk", 90), ("pref", 30)):
        for i in range(int(n * SCALE[tier])):
            t = Gen(rng, Lmax=12).task(b, "reuse", synth=False)
            t["weight"] *= 2
            out.append(t)
        for c in CORNERS(b):
            out.append(mk(b, c, rng, "reuse"))
    for c in CORNERS("jaxr"):
        out.append(mk("jaxr", c, rng, "explicit"))
    return out


def p_c18(tier, rng):
    out = []
    g = Gen(rng, Lmax=20)
    for i in range(int(120 * SCALE[tier])):
        out.append(dict(mk("base", g.cfg(), rng, "jmin"), weight=2))
    for b in ("base", "looped"):
        gs = Gen(rng, Lmax=9, Nmax=4)
        for i in range(int(40 * SCALE[tier])):
            c = gs.cfg()
            c["multires"] = rng.random() < 0.7
            out.append(mk(b, c, rng, "shape"))
    for b in ("torchk", "pref", "pre"):
        for i in range(int(20 * SCALE[tier])):
            out.append(dict(mk(b, Gen(rng, Lmax=9).cfg(), rng, "noprecomp"), weight=2))
    for i in range(int(20 * SCALE[tier])):
        out.append(dict(mk("c", Gen(rng, Lmax=9).cfg(), rng, "chealpix"), weight=1))
    for b in ("base", "looped", "c", "jaxf", "jaxr", "pref", "torchk"):
        for i in range(int(10 * SCALE[tier])):
            out.append(dict(mk(b, Gen(rng, Lmax=9).cfg(), rng, "sampling"), weight=1))
    return out


def p_c19(tier, rng):
    g = Gen(rng, Lmax=13)
    out = []
    for i in range(int(260 * SCALE[tier])):
        t = g.task("baser" if i % 8 else "base", "scatter")
        t["cfg"]["multires"] = rng.random() < 0.7
        out.append(t)
    out += [mk("baser", c, rng, "scatter") for c in CORNERS("base")]
    out += exotic("baser", "scatter", rng, True, 4 if tier == "quick" else 25)
    return out


def p_c20(tier, rng):
    return sweep(tier, rng, scale=0.8, synth=False, large=True)


def p_c21(tier, rng):
    b = {k: v for k, v in QUICK.items() if k not in ("pre", "torch")}
    b["jax"] = 3
    return sweep(tier, rng, "mono", scale=0.7, backends=b, synth=False)


def p_c22(tier, rng):
    out = []
    n = dict(c=60, jaxr=40, jaxf=4, pref=30, torchk=80, jax=4)
    for b, k in n.items():
        for i in range(int(k * SCALE[tier])):
            t = Gen(rng, Lmax=8 if b == "jax" else 12, Nmax=3 if b == "jax" else 5).task(b, "filters_none")
            out.append(t)
    for b, k in dict(loopedr=30, baser=40, looped=4, base=4, c=24, jaxr=20, pref=14, torchk=30).items():
        for i in range(int(k * SCALE[tier])):
            L = rng.randint(4, 12)
            out.append(dict(op="omit", backend=b, L=L, N=rng.choice((2, 3)), seed=rng.randint(0, 2**31), weight=3))
    out += [dict(op="alias", backend="-", seed=0)]
    out += [dict(op="helper_defaults", backend="-", L=rng.randint(3, 20), seed=i) for i in range(12)]
    return out


def p_c23(tier, rng):
    out = []
    for b, n in (("prek", 60), ("jax", 8)):
        g = Gen(rng, Lmax=9 if b == "prek" else 7, Nmax=4 if b == "prek" else 3,
                lams=LAMS if b == "prek" else (2, 3, 2.5, 4), Jcap=5)
        for i in range(int(n * SCALE[tier])):
            which = ("analysis", "synthesis", "flm")[i % 3]
            fix = dict(spin=0) if which == "flm" else {}
            t = g.task(b, ("jit", "vmap", "vmap")[rng.randrange(3)], which == "synthesis", **fix)
            t["which"] = which
            out.append(t)
    return out


def p_c24(tier, rng):
    n = dict(loopedr=40, baser=60, base=4, looped=4, c=40, jaxr=14, jaxf=2, pref=14, torchk=60, prek=2, jax=2, pre=1, torch=1)
    return sweep(tier, rng, "forms", backends=n, big=False)


def p_c25(tier, rng):
    out = []
    for b, n in dict(base=50, looped=40, pref=25, torchk=50, pre=1, torch=1, prek=3).items():
        samp = Cycle(rng, (1, 2, 2, 4) if b != "prek" else (2,))  # s2fft's JAX FFT needs nside > 1
        base = kind(b) in ("base", "looped")
        for i in range(int(n * SCALE[tier])):
            for _ in range(10000):
                ns = samp() if b not in ("pre", "torch") else 2
                g = Gen(rng, Lmin=2 * ns, Lmax=(18 if ns == 4 else 14) if b not in ("pre", "torch") else 8,
                        Nmax=5, spins=base)
                c = g.cfg(sampling="healpix")
                c["nside"] = ns
                c["multires"] = not (base and rng.random() < 0.4)
                J = R.j_max(c["L"], c["lam"])
                low = min([R.scal_L(c["L"], c["J_min"], c["lam"], c["multires"])] +
                          [R.wav_L(c["L"], j, c["lam"], c["multires"]) for j in range(c["J_min"], J + 1)])
                if low >= 2 * ns:
                    break
            out.append(mk(b, c, rng, "healpix"))
    return out


def plan(check, tier, rng):
    return globals()["p_" + check.lower()](tier, rng)
