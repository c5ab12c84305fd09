"""The per-task monitor: every verdict on data produced by the running code goes
through here, so that what was actually observed can be counted."""
from __future__ import annotations

import traceback

import numpy as np


class Monitor:
    def __init__(self, task):
        self.task = task
        self.evals = 0
        self.by = {}
        self.failures = []
        self.nontrivial = False
        self.extra = {}
        self.margin = {}
        self.noise = 0.0  # rounding floor: a few hundred ulp of the largest input handed to the code
        self.auto_noise = True

    def observe_inputs(self, x):
        if isinstance(x, (list, tuple)):
            for y in x:
                self.observe_inputs(y)
        elif hasattr(x, "shape") and hasattr(x, "dtype"):
            try:
                a = np.asarray(x.detach() if hasattr(x, "detach") else x)
                if a.size and a.dtype.kind in "fc":
                    v = float(np.max(np.abs(a)))
                    if np.isfinite(v):
                        self.noise = max(self.noise, 3e-14 * v)
            except Exception:
                pass

    def _count(self, name):
        self.evals += 1
        key = name.split(":")[0]
        self.by[key] = self.by.get(key, 0) + 1

    def fail(self, name, **info):
        self._count(name)
        self.failures.append({**self.extra, **info, "monitor": name.split(":")[0], "where": name})

    def true(self, name, cond, nontrivial=True, **info):
        if cond:
            self._count(name)
            self.nontrivial |= nontrivial
            return True
        self.fail(name, **info)
        return False

    def close(self, name, got, want, tol=1e-8, scale=None, floor=1e-30, **info):
        """|got-want| <= tol * max(|want|, scale) + rounding floor; shapes must be equal; no NaN."""
        try:
            got = np.asarray(got)
            want = np.asarray(want)
            if got.shape != want.shape:
                self.fail(name, kind="shape", got=list(got.shape), want=list(want.shape), **info)
                return False
            ref = float(np.max(np.abs(want))) if want.size else 0.0
            s = max(ref, scale or 0.0, floor)
            err = float(np.max(np.abs(got - want))) if want.size else 0.0
        except Exception as e:  # not an array of numbers
            self.fail(name, kind="type", exc=type(e).__name__, detail=str(e)[:200], **info)
            return False
        if not err <= tol * s + self.noise:
            self.fail(name, kind="value", err=err, scale=s, tol=tol, **info)
            return False
        self._count(name)
        key = name.split(":")[0]
        self.margin[key] = max(self.margin.get(key, 0.0), err / (tol * s + self.noise))
        if ref > 0:
            self.nontrivial = True
        return True

    def close_all(self, name, got, want, tol=1e-8, scale=None, **info):
        """List-of-arrays comparison with one common scale."""
        got, want = list(got), list(want)
        if len(got) != len(want):
            self.fail(name, kind="length", got=len(got), want=len(want), **info)
            return False
        s = max([float(np.max(np.abs(w))) if np.size(w) else 0.0 for w in want] + [scale or 0.0])
        ok = True
        for i, (g, w) in enumerate(zip(got, want)):
            ok &= self.close(f"{name}:{i}", g, w, tol, s, **info)
        return ok

    def call(self, name, fn, *a, **k):
        """Run code under test; an exception there is an observation, not a crash."""
        if self.auto_noise:
            self.observe_inputs(a)
        try:
            return fn(*a, **k)
        except (MemoryError, KeyboardInterrupt):
            raise
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            self.fail(name, kind="exception", exc=type(e).__name__, detail=str(e)[:300],
                      frames=[f"{f.filename.rsplit('/', 2)[-1]}:{f.lineno}:{f.name}" for f in tb][-6:])
            return None

    def raises(self, name, fn, types=(Exception,), **info):
        """The code under test must refuse."""
        try:
            fn()
        except types:
            self._count(name)
            self.nontrivial = True
            return True
        except Exception as e:
            self.fail(name, kind="wrong-exception", exc=type(e).__name__, detail=str(e)[:200], **info)
            return False
        self.fail(name, kind="not-rejected", **info)
        return False

    def export(self):
        return dict(evaluations=self.evals, monitors=self.by, failures=self.failures[:40],
                    nontrivial=bool(self.nontrivial), margin=self.margin)
