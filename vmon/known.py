"""Matches observed failures against the committed known-findings file.

A finding names the configurations it lies on and the failure it shows; anything
else on the same configuration, or the same failure elsewhere, is a violation."""
from __future__ import annotations

import json
import os

from . import plans

_FILE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
_ENT = None


def entries():
    global _ENT
    if _ENT is None:
        with open(_FILE) as fh:
            _ENT = json.load(fh)["known"]
    return _ENT


def _where(name, task, failure):
    c = task.get("cfg") or {}
    k = plans.kind(task.get("backend", "-"))
    if k == "all":
        k = plans.kind(failure.get("backend", "-"))
    if name == "c-nj":
        return k == "c" and plans.nj_gt_lj(c)
    if name == "precompute-n1":
        return k in ("pre", "torch") and c.get("N") == 1 and c.get("sampling") in ("mw", "mwss")
    if name == "c-grad-dh":
        return k == "c" and c.get("sampling") == "dh"
    if name == "healpix-spin":
        return c.get("sampling") == "healpix" and (
            (k == "jax" and c.get("N", 1) > 1) or c.get("spin", 0) != 0)
    return False


def match(check, task, failure):
    for e in entries():
        if check not in e["properties"]:
            continue
        if e.get("exc") and failure.get("exc") != e["exc"]:
            continue
        if failure["monitor"] not in e["monitors"]:
            continue
        if _where(e["where"], task, failure):
            return e
    return None
