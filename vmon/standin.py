"""Dependency stand-ins for breadth.

s2wav's JAX front ends spend nearly all their time in XLA compilation of s2fft
recursions (10-20 s per configuration).  s2fft ships numpy implementations of the
same transforms; inside `fast()` the *s2fft* entry points used by s2wav are served
by those numpy implementations and JAX tracing is disabled, so that the real,
unmodified s2wav code runs eagerly in well under a second per configuration.
Outside `fast()` every call goes to the genuine s2fft function.

Installed before s2wav is imported, so it does not matter how s2wav imports them.
"""
from __future__ import annotations

import contextlib
import functools
import inspect

import numpy as np
import jax
import jax.numpy as jnp
import s2fft
import s2fft.base_transforms as _B
import s2fft.precompute_transforms as _P
import s2fft.transforms as _T
from s2fft.precompute_transforms import construct as _PC
from s2fft.recursions import price_mcewen as _PM

_state = {"fast": False, "kernels": False, "model": False}
COUNTS = {"standin_calls": 0, "real_calls": 0}


@contextlib.contextmanager
def fast():
    """jit off, s2fft served by its numpy implementations."""
    old = dict(_state)
    _state.update(fast=True, kernels=True)
    try:
        with jax.disable_jit():
            yield
    finally:
        _state.update(old)


@contextlib.contextmanager
def model(jit_off=False):
    """Spherical transforms of the numpy s2fft served by the (much faster) reference
    model; its Wigner transforms, built on them, run unchanged."""
    old = dict(_state)
    _state.update(model=True)
    try:
        if jit_off:
            with fast():
                yield
        else:
            yield
    finally:
        _state.update(old)


@contextlib.contextmanager
def fast_kernels():
    """Only the precomputed kernels come from s2fft's numpy implementation."""
    old = dict(_state)
    _state.update(kernels=True)
    try:
        yield
    finally:
        _state.update(old)


def _wrap(orig, numpy_impl, flag):
    sig = inspect.signature(orig)

    @functools.wraps(orig)
    def call(*a, **k):
        if not _state[flag] or any(isinstance(x, jax.core.Tracer) for x in jax.tree_util.tree_leaves((a, k))):
            COUNTS["real_calls"] += 1
            return orig(*a, **k)
        b = sig.bind(*a, **k)
        b.apply_defaults()
        try:
            out = numpy_impl(**b.arguments)
        except IndexError:
            # s2fft's numpy kernels do not cover N > L; use the genuine function
            if flag != "kernels":
                raise
            COUNTS["real_calls"] += 1
            with jax.disable_jit(False):
                return orig(*a, **k)
        COUNTS["standin_calls"] += 1
        return jnp.asarray(out)

    return call


def _np(x):
    return np.array(x)


def _fwd(f, L, spin, nside, sampling, reality, L_lower, **_):
    return _B.spherical.forward(_np(f), L, spin, sampling, nside, reality, L_lower)


def _inv(flm, L, spin, nside, sampling, reality, L_lower, **_):
    return _B.spherical.inverse(_np(flm), L, spin, sampling, nside, reality, L_lower)


_TOKENS: list = []
_REAL_GEN = None


@functools.lru_cache(maxsize=256)
def _real_precomps(args):
    with jax.disable_jit(False):
        return [np.asarray(x) for x in _REAL_GEN(*args)]


def _bad_token(precomps, *want):
    """True if the recursion precomputes handed over are not the ones that a
    transform with these arguments needs (compared by value when the arguments
    they were generated with differ)."""
    try:
        t = np.asarray(precomps[0])
        if t.shape != (2,) or t[0] != -7:
            return False
        have = _TOKENS[int(t[1])]
    except Exception:
        return False
    if have == want:
        return False
    a, b = _real_precomps(have), _real_precomps(want)
    return not (len(a) == len(b) and all(x.shape == y.shape and np.array_equal(x, y, equal_nan=True)
                                         for x, y in zip(a, b)))


def _wfwd(f, L, N, nside, sampling, reality, precomps, L_lower, **_):
    r = _B.wigner.forward(_np(f), L, N, L_lower, sampling, reality, nside)
    return r * np.nan if _bad_token(precomps, L, N, sampling, nside, True, reality, L_lower) else r


def _winv(flmn, L, N, nside, sampling, reality, precomps, L_lower, **_):
    r = _B.wigner.inverse(_np(flmn), L, N, L_lower, sampling, reality, nside)
    return r * np.nan if _bad_token(precomps, L, N, sampling, nside, False, reality, L_lower) else r


def _pfwd(f, kernel, **k):
    return _P.spherical.forward_transform(_np(f), _np(kernel), **k)


def _pinv(flm, kernel, **k):
    return _P.spherical.inverse_transform(_np(flm), _np(kernel), **k)


def _pwfwd(f, kernel, **k):
    return _P.wigner.forward_transform(_np(f), _np(kernel), **k)


def _pwinv(flmn, kernel, **k):
    return _P.wigner.inverse_transform(_np(flmn), _np(kernel), **k)


def _wk(**k):
    return _PC.wigner_kernel(**k)


def _sk(**k):
    return _PC.spin_spherical_kernel(**k)


def _install_model():
    from . import ref

    for name, impl in (("forward", ref.s2_forward_fast), ("inverse", ref.s2_inverse_fast)):
        orig = getattr(_B.spherical, name)
        sig = inspect.signature(orig)

        def call(*a, _orig=orig, _impl=impl, _sig=sig, **k):
            if not _state["model"]:
                return _orig(*a, **k)
            b = _sig.bind(*a, **k)
            b.apply_defaults()
            v = b.arguments
            x = v.get("f", v.get("flm"))
            L, sam = v["L"], v["sampling"]
            if sam.lower() not in ("mw", "mwss", "dh", "gl") or v.get("iter"):
                return _orig(*a, **k)
            want = ref.s2_shape(L, sam) if "f" in v else (L, 2 * L - 1)
            assert x.shape == want, (x.shape, want)
            assert 0 <= v["L_lower"] < L
            COUNTS["standin_calls"] += 1
            return _impl(x, L, v["spin"], sam, v["reality"], v["L_lower"])

        setattr(_B.spherical, name, functools.wraps(orig)(call))


def _install():
    _install_model()
    f = _wrap(_T.spherical.forward_jax, _fwd, "fast")
    i = _wrap(_T.spherical.inverse_jax, _inv, "fast")
    for m in (s2fft, _T.spherical):
        m.forward_jax, m.inverse_jax = f, i
    _T.wigner.forward_jax = _wrap(_T.wigner.forward_jax, _wfwd, "fast")
    _T.wigner.inverse_jax = _wrap(_T.wigner.inverse_jax, _winv, "fast")
    for mod, a, b in ((_P.spherical, _pfwd, _pinv), (_P.wigner, _pwfwd, _pwinv)):
        mod.forward_transform_jax = _wrap(mod.forward_transform_jax, a, "fast")
        mod.inverse_transform_jax = _wrap(mod.inverse_transform_jax, b, "fast")
    _PC.wigner_kernel_jax = _wrap(_PC.wigner_kernel_jax, _wk, "kernels")
    _PC.spin_spherical_kernel_jax = _wrap(_PC.spin_spherical_kernel_jax, _sk, "kernels")

    global _REAL_GEN
    real = _REAL_GEN = _PM.generate_precomputes_wigner_jax
    sig = inspect.signature(real)

    @functools.wraps(real)
    def gen(*a, **k):
        if not _state["fast"]:
            return real(*a, **k)
        b = sig.bind(*a, **k)
        b.apply_defaults()
        key = tuple(b.arguments.values())
        if key not in _TOKENS:
            _TOKENS.append(key)
        return [np.array([-7, _TOKENS.index(key)])]

    for m in (s2fft, _PM):
        m.generate_precomputes_wigner_jax = gen


_install()
