"""Task runner: forks workers, executes the monitored workload, collects what the
monitors observed, writes the evidence file and decides the exit code.

Verdict of a run: VIOLATION (a monitor saw the property broken), HELD (every monitor
evaluation passed and at least one was made) or INCONCLUSIVE (exit code 2: the
harness could not observe, e.g. a worker died)."""
from __future__ import annotations

import hashlib
import importlib
import json
import multiprocessing as mp
import os
import queue
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(ROOT, "evidence")
REPL = os.path.join(ROOT, "replays")
DEADLINE = {"quick": 420.0, "thorough": 3300.0}
HARD = {"quick": 700.0, "thorough": 4200.0}


def _jsonable(x):
    try:
        import numpy as np

        if isinstance(x, np.generic):
            return x.item()
        if isinstance(x, np.ndarray):
            return x.tolist()
    except Exception:
        pass
    return str(x)


def dumps(x):
    return json.dumps(x, sort_keys=True, default=_jsonable)


def _rss():
    with open("/proc/self/statm") as fh:
        return int(fh.read().split()[1]) * 4096


def _trim():
    """Drop compilation and reference caches so that long runs stay within memory."""
    import ctypes
    import gc

    try:
        import jax

        from . import ref

        jax.clear_caches()
        if _rss() > 1.5e9:
            ref._DCACHE.clear()
            ref._PINV.clear()
        gc.collect()
        ctypes.CDLL("libc.so.6").malloc_trim(0)
    except Exception:
        pass


def _worker(check, inq, outq, stop_at):
    # keep third-party chatter off our stdout/stderr
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 2)
    os.dup2(devnull, 1)
    try:
        from . import monitor

        mod = importlib.import_module("vmon.checks." + check.lower())
    except BaseException:
        outq.put(("fatal", traceback.format_exc()))
        return
    n = 0
    while True:
        try:
            item = inq.get(timeout=1.0)
        except queue.Empty:
            continue
        if item is None:
            outq.put(("bye", None))
            return
        i, task = item
        if time.time() > stop_at:
            outq.put(("skip", i))
            continue
        outq.put(("begin", (i, os.getpid())))
        t = time.time()
        M = monitor.Monitor(task)
        try:
            mod.run(task, M)
            err = None
        except (MemoryError, OSError, KeyboardInterrupt):
            err = traceback.format_exc()
        except BaseException as e:
            err = None
            M.fail("unusable-result", exc=type(e).__name__,
                   detail=traceback.format_exc()[-1500:])
        n += 1
        outq.put(("done", (i, M.export(), err, time.time() - t)))
        if n % 40 == 0 or _rss() > 2e9:
            _trim()


def run_tasks(check, tasks, tier, nproc=None):
    nproc = nproc or min(int(os.environ.get("VERIF_PROCS", "8")), max(1, len(tasks)))
    ctx = mp.get_context("fork")
    inq, outq = ctx.Queue(), ctx.Queue()
    start = time.time()
    stop_at = start + DEADLINE[tier]
    order = sorted(range(len(tasks)), key=lambda i: -tasks[i].get("weight", 1.0))
    for i in order:
        inq.put((i, tasks[i]))
    for _ in range(nproc):
        inq.put(None)
    procs = [ctx.Process(target=_worker, args=(check, inq, outq, stop_at), daemon=True)
             for _ in range(nproc)]
    for p in procs:
        p.start()
    results, errors, skipped, running, byes = {}, [], [], {}, 0
    while len(results) + len(skipped) < len(tasks) and byes < nproc:
        try:
            kind, val = outq.get(timeout=2.0)
        except queue.Empty:
            dead = [p for p in procs if not p.is_alive() and p.exitcode != 0]
            for p in dead:
                procs.remove(p)
                i = running.pop(p.pid, None)
                errors.append(f"worker {p.pid} died with {p.exitcode} on task "
                              f"{dumps(tasks[i]) if i is not None else None}")
                if i is not None:
                    skipped.append(i)
            if not any(p.is_alive() for p in procs) and outq.empty():
                break
            if time.time() - start > HARD[tier]:
                errors.append("hard time limit reached; still running: "
                              + dumps([tasks[i] for i in running.values()]))
                break
            continue
        if kind == "fatal":
            errors.append(val)
            byes += 1
        elif kind == "bye":
            byes += 1
        elif kind == "skip":
            skipped.append(val)
        elif kind == "begin":
            running[val[1]] = val[0]
        else:
            i, obs, err, dt = val
            for pid, j in list(running.items()):
                if j == i:
                    del running[pid]
            if err:
                errors.append(err)
                skipped.append(i)
            else:
                results[i] = (obs, dt)
    for p in procs:
        if p.is_alive():
            p.terminate()
    return results, errors, skipped


def selftest():
    """The reference model agrees with the trusted s2fft; the tree under test imports."""
    import numpy as np
    from s2fft.base_transforms import spherical, wigner

    from . import ref as R, sut as S

    g = np.random.default_rng(0)
    for sam in ("mw", "mwss", "dh", "gl"):
        a = R.rand_flmn(g, 6, 3)
        assert np.allclose(wigner.inverse(a, 6, 3, 0, sam), R.so3_inverse(a, 6, 3, sam))
        assert np.allclose(R.so3_forward(R.so3_inverse(a, 6, 3, sam), 6, 3, sam)[0], a)
        for spin in (0, 2, -1):
            a = R.rand_flm(g, 6, spin)
            f = spherical.inverse(a, 6, spin, sam)
            assert np.allclose(f, R.s2_inverse(a, 6, spin, sam))
            assert np.allclose(f, R.s2_inverse_fast(a, 6, spin, sam))
            assert np.allclose(R.s2_forward_fast(f, 6, spin, sam), a)
            assert np.allclose(spherical.forward(f, 6, spin, sam), a)
        for spin in (0, 2, -1):
            a = R.rand_flm(g, 9, spin)
            f = R.s2_inverse(a, 9, spin, sam)
            assert np.allclose(R.big_inverse(a, 9, spin, sam), f) and np.allclose(R.big_forward(f, 9, spin, sam), a)
        a = R.rand_flmn(g, 9, 4)
        assert np.allclose(R.big_so3_inverse(a, 9, 4, sam), R.so3_inverse(a, 9, 4, sam))
    print("selftest ok, code under test:", S.s2wav.__file__)
    return 0


def main(argv):
    if argv and argv[0] == "--selftest":
        return selftest()
    check = argv[0].upper()
    replay = None
    if "--replay" in argv:
        replay = argv[argv.index("--replay") + 1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    if tier not in DEADLINE:
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    mod_plan = importlib.import_module("vmon.plans")
    import random

    if replay:
        tasks = [json.load(open(replay))["task"]]
    else:
        tasks = mod_plan.plan(check, tier, random.Random(f"{check}-{tier}-{seed}"))
        seen, uniq = set(), []
        for t in tasks:
            k = dumps({a: b for a, b in t.items() if a != "weight"})
            if k not in seen:
                seen.add(k)
                uniq.append(t)
        tasks = uniq
    results, errors, skipped = run_tasks(check, tasks, tier)

    from . import known

    evals = nontriv = 0
    monitors: dict = {}
    viol, found = [], {}
    distinct = set()
    covered: dict = {}
    tmax = 0.0
    margin: dict = {}
    closest: list = []
    for i, (obs, dt) in sorted(results.items()):
        tmax = max(tmax, dt)
        evals += obs["evaluations"]
        for k, v in obs["monitors"].items():
            monitors[k] = monitors.get(k, 0) + v
        for k, v in obs["margin"].items():
            margin[k] = max(margin.get(k, 0.0), v)
            closest.append((v, k, i))
        if obs["nontrivial"]:
            nontriv += 1
            distinct.add(dumps({a: b for a, b in tasks[i].items() if a not in ("weight", "seed")}))
        b = tasks[i].get("backend", tasks[i].get("op", "-"))
        covered[b] = covered.get(b, 0) + 1
        for f in obs["failures"]:
            kf = known.match(check, tasks[i], f)
            if kf:
                found.setdefault(kf["id"], [kf, 0])
                found[kf["id"]][1] += 1
            else:
                viol.append((i, f))

    samples = [tasks[i] for i in sorted(results)[:: max(1, len(results) // 5)]][:6]
    wall = time.time() - t0
    ev = {
        "property": check, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": len(results),
            "monitor_verdicts": evals,
            "distinct_nontrivial": len(distinct),
            "rule": mod_plan.RULES.get(check, "") + " A case is one task (front end x configuration x "
            "signal); it is non-trivial if at least one monitor compared a non-zero reference quantity, and "
            "cases are distinct by everything except the random seed. 'evaluations' counts executed cases, 'monitor_verdicts' single verdicts "
            "over data returned by the running code.",
            "samples": samples,
            "tasks_planned": len(tasks), "tasks_run": len(results), "tasks_skipped_deadline": len(skipped),
            "tasks_per_front_end": covered,
            "monitor_evaluations": monitors,
            "largest_passing_error_over_tolerance": {k: float(f"{v:.2g}") for k, v in margin.items()},
            "closest_to_tolerance": [{"monitor": k, "error_over_tolerance": float(f"{v:.2g}"), "task": tasks[i]}
                                     for v, k, i in sorted(closest, reverse=True)[:5]],
            "known_findings_observed": {k: v[1] for k, v in found.items()},
            "slowest_task_s": round(tmax, 2),
        },
        "assumptions": mod_plan.ASSUMPTIONS,
        "wall_s": round(wall, 2),
        "violations": len(viol),
    }
    if not replay:
        os.makedirs(EVID, exist_ok=True)
        with open(os.path.join(EVID, check + ".json"), "w") as fh:
            json.dump(json.loads(dumps(ev)), fh, indent=1)
    for k, (kf, n) in sorted(found.items()):
        print(f"KNOWN-FINDING: property={check} {kf['what']} [{k}, observed {n}x]")
    print(f"{check} {tier} seed={seed}: {len(results)}/{len(tasks)} tasks, {evals} monitor evaluations, "
          f"{len(distinct)} distinct non-trivial cases, {len(viol)} violations, {wall:.1f}s "
          f"monitors={monitors}")
    if errors:
        for e in errors[:5]:
            print("HARNESS-ERROR", str(e)[-1500:])
    if viol:
        os.makedirs(REPL, exist_ok=True)
        shown = set()
        for i, f in viol:
            sig = (f["monitor"], tasks[i].get("backend"), f.get("exc"))
            if sig in shown and len(shown) > 0:
                continue
            shown.add(sig)
            name = f"{check}-{hashlib.sha1(dumps([tasks[i], f['monitor']]).encode()).hexdigest()[:10]}.json"
            path = os.path.join(REPL, name)
            with open(path, "w") as fh:
                fh.write(dumps({"property": check, "task": tasks[i], "failure": f,
                                "replay": f"cd {ROOT} && ./check {check} --replay {path}"}))
            print(f"VIOLATION property={check} replay={path}")
            print("  task:", dumps(tasks[i]))
            print("  failure:", dumps(f)[:900])
            if len(shown) >= 8:
                break
        return 1
    if evals == 0 or (errors and len(results) < 0.5 * len(tasks)):
        print("INCONCLUSIVE: the monitors observed too little")
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
