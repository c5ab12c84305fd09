"""Adapters around the real s2wav code (imported from /repo).  Only documented,
public entry points are called, always with keyword arguments where the public
signature allows it."""
from __future__ import annotations

import contextlib
import os
import sys
import warnings

REPO = os.environ.get("VERIF_REPO", "/repo")
sys.dont_write_bytecode = True
if sys.path[0] != REPO:
    sys.path.insert(0, REPO)
os.environ.setdefault("JAX_PLATFORMS", "cpu")
os.environ.setdefault("CUDA_VISIBLE_DEVICES", "")
for _v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(_v, "1")
# Compile quickly: numerical results of XLA at level 0 are as accurate.
os.environ.setdefault(
    "XLA_FLAGS",
    "--xla_backend_optimization_level=0 --xla_llvm_disable_expensive_passes=true "
    "--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1",
)
warnings.simplefilter("ignore")

import numpy as np  # noqa: E402
import jax  # noqa: E402

jax.config.update("jax_enable_x64", True)
import jax.numpy as jnp  # noqa: E402
import torch  # noqa: E402
from . import standin  # noqa: E402  (before s2wav)

torch.set_num_threads(1)
import s2wav  # noqa: E402
from s2wav import filters as FIL, samples as SAM  # noqa: E402,F401
from s2wav.transforms import construct as CON  # noqa: E402

assert os.path.realpath(s2wav.__file__).startswith(os.path.realpath(REPO) + os.sep), (
    s2wav.__file__
)

# Front ends of s2wav.  A suffix selects how the *dependency* s2fft is executed:
#   (none) genuine s2fft, under jit where s2wav uses jit
#   f      jit disabled, s2fft served by its own numpy implementations (standin.py)
#   r      jit disabled, s2fft numpy on top of the reference model's spherical transforms
#   k      genuine transforms, only the precomputed kernels come from numpy s2fft
BACKENDS = ("looped", "base", "jax", "c", "pre", "torch")
_KIND = {"jaxr": "jax", "baser": "base", "loopedr": "looped", "jaxf": "jax", "pref": "pre", "prek": "pre", "torchk": "torch"}


def kind(backend):
    return _KIND.get(backend, backend)


def _ctx(backend):
    if backend in ("jaxf", "pref"):
        return standin.fast()
    if backend in ("baser", "loopedr"):
        return standin.model()
    if backend == "jaxr":
        return standin.model(True)
    if backend in ("prek", "torchk"):
        return standin.fast_kernels()
    return contextlib.nullcontext()


def npy(x):
    if isinstance(x, torch.Tensor):
        return x.detach().resolve_conj().resolve_neg().numpy()
    return np.asarray(x)


def to_backend(x, backend):
    """numpy -> what a caller of that backend passes in."""
    k = kind(backend)
    if isinstance(x, (torch.Tensor, jax.Array)):
        return x
    if k == "torch":
        return torch.from_numpy(np.array(x))
    if k in ("looped", "base"):
        return np.array(x)
    return jnp.asarray(x)


def pos(cfg):
    return (cfg["L"], cfg["N"], cfg["J_min"], cfg["lam"])


def filt(cfg, backend="base"):
    """The kernels a user would pass to the transform of that backend."""
    return FIL.filters_directional_vectorised(
        *pos(cfg), spin=cfg.get("spin", 0), using_torch=(kind(backend) == "torch"),
    )


def precomps(cfg, backend, forward):
    kw = dict(sampling=cfg["sampling"], nside=cfg.get("nside"), forward=forward,
              reality=cfg["reality"])
    with _ctx(backend):
        if kind(backend) == "jax":
            return CON.generate_wigner_precomputes(*pos(cfg), **kw)
        if cfg.get("spin", 0):
            kw["spin"] = cfg["spin"]
        return CON.generate_full_precomputes(
            *pos(cfg), using_torch=(kind(backend) == "torch"), **kw)


def module(backend):
    T = s2wav.transforms
    return {"jax": T.wavelet, "c": T.wavelet_c, "pre": T.wavelet_precompute,
            "torch": T.wavelet_precompute_torch}[kind(backend)]


def _s0(cfg):
    return {"spin0": cfg["spin0"]} if cfg.get("spin0") else {}


def run_analysis(backend, x, cfg, filters=None, pre=None, **extra):
    """x is a native array; returns native (f_wav, f_scal)."""
    k = kind(backend)
    kw = dict(spin=cfg.get("spin", 0), sampling=cfg["sampling"], reality=cfg["reality"], **extra)
    if k in ("looped", "base"):
        T = s2wav.transforms.base
        fn = T.analysis_looped if k == "looped" else T.analysis
        with _ctx(backend):
            return fn(x, *pos(cfg), nside=cfg.get("nside"),
                      multiresolution=cfg.get("multires", True), **_s0(cfg), **kw)
    if filters is None and not cfg.get("default_filters"):
        filters = filt(cfg, backend)
    if pre is None and (k in ("pre", "torch") or (k == "jax" and cfg.get("explicit_pre"))):
        pre = precomps(cfg, backend, False)
    with _ctx(backend):
        if k == "c":
            return module(backend).analysis(x, *pos(cfg), filters=filters, **kw)
        return module(backend).analysis(
            x, *pos(cfg), nside=cfg.get("nside"), filters=filters, precomps=pre, **kw)


def run_synthesis(backend, w, s, cfg, filters=None, pre=None, **extra):
    k = kind(backend)
    kw = dict(spin=cfg.get("spin", 0), sampling=cfg["sampling"], reality=cfg["reality"], **extra)
    if k in ("looped", "base"):
        T = s2wav.transforms.base
        fn = T.synthesis_looped if k == "looped" else T.synthesis
        with _ctx(backend):
            return fn(w, s, *pos(cfg), nside=cfg.get("nside"),
                      multiresolution=cfg.get("multires", True), **_s0(cfg), **kw)
    if filters is None and not cfg.get("default_filters"):
        filters = filt(cfg, backend)
    if pre is None and (k in ("pre", "torch") or (k == "jax" and cfg.get("explicit_pre"))):
        pre = precomps(cfg, backend, True)
    with _ctx(backend):
        if k == "c":
            return module(backend).synthesis(w, s, *pos(cfg), filters=filters, **kw)
        return module(backend).synthesis(
            w, s, *pos(cfg), nside=cfg.get("nside"), filters=filters, precomps=pre, **kw)


def analysis(backend, f, cfg, filters=None, pre=None, raw=False, **extra):
    """Run the real analysis.  f is numpy; returns numpy unless raw."""
    f = np.asarray(f)
    x = to_backend(f.real if cfg["reality"] else f, backend)
    w, s = run_analysis(backend, x, cfg, filters, pre, **extra)
    return (w, s) if raw else ([npy(a) for a in w], npy(s))


def synthesis(backend, w, s, cfg, filters=None, pre=None, raw=False, **extra):
    w = [np.asarray(npy(a)) for a in w]
    s = np.asarray(npy(s))
    if cfg["reality"]:
        w, s = [a.real for a in w], s.real
    x = [to_backend(a, backend) for a in w]
    f = run_synthesis(backend, x, to_backend(s, backend), cfg, filters, pre, **extra)
    return f if raw else npy(f)


def flm_to_analysis(backend, flm, cfg, J_max=None, filters=None, pre=None, raw=False, **extra):
    k = kind(backend)
    if filters is None and not cfg.get("default_filters"):
        filters = filt(cfg, backend)[0]
    x = to_backend(flm, backend)
    a = (x, cfg["L"], cfg["N"], cfg["J_min"], J_max, cfg["lam"], cfg["sampling"])
    if pre is None and (k in ("pre", "torch") or (k == "jax" and cfg.get("explicit_pre"))):
        pre = precomps(cfg, backend, False)
    with _ctx(backend):
        if k == "c":
            w = module(backend).flm_to_analysis(*a, reality=cfg["reality"], filters=filters, **extra)
        else:
            w = module(backend).flm_to_analysis(
                *a, nside=cfg.get("nside"), reality=cfg["reality"], filters=filters,
                precomps=pre, **extra)
    return w if raw else [npy(b) for b in w]
