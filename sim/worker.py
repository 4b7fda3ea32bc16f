"""One lane of a check: runs its share of the plans in one process."""

from __future__ import annotations

import argparse
import importlib
import json
import os
import sys
import time
import traceback

from . import core, lib


def setup_jax(x64: bool):
    import jax

    jax.config.update("jax_enable_x64", bool(x64))
    try:
        jax.config.update("jax_cpu_enable_async_dispatch", False)
    except Exception:
        pass
    return jax


def module_for(prop: str):
    return importlib.import_module(f"sim.{prop.lower()}")


class Ctx:
    """Per-process state shared by the runs of a lane (compile caches only)."""

    def __init__(self, x64: bool, tier: str):
        self.x64 = x64
        self.tier = tier
        self.cache: dict = {}


def safe_run(module, plan, ctx):
    try:
        return core.run_plan(module, plan, ctx)
    except Exception as e:  # neither a verdict nor a skip
        tb = traceback.extract_tb(e.__traceback__)
        src = os.path.realpath(lib.SRC)
        through = any(os.path.realpath(f.filename).startswith(src) for f in tb)
        text = "".join(traceback.format_exception(e))[-4000:]
        if through and not isinstance(e, MemoryError) and "RESOURCE_EXHAUSTED" not in text:
            # the library raised where the plan expects it not to
            return {"index": plan.get("index"), "skipped": False, "error": None,
                    "violation": {"kind": "exception",
                                  "detail": f"{type(e).__name__}: {str(e)[:500]}"},
                    "digest": "", "events": 0, "faults": {}, "probes": {},
                    "sig": "", "sim_time": 0.0, "metrics": {}, "known": [],
                    "ops": 0, "tail": text.splitlines()[-12:]}
        return {"index": plan.get("index"), "error": text, "violation": None}


def make_plan(module, prop, seed, index, tier):
    rng = core.rng_for(seed, prop, index)
    lane = index % core.LANES
    x64 = lane not in getattr(module, "F32_LANES", (6, 7))
    plan = module.generate(rng, index, tier, x64)
    plan.update(prop=prop, seed=seed, index=index, x64=x64)
    return json.loads(json.dumps(plan))  # exactly what a replay file holds


def prepare(module):
    if getattr(module, "USES_HINTS", False):
        from . import hints

        hints.compute()


def lane_main(a):
    module = module_for(a.prop)
    x64 = a.lane not in getattr(module, "F32_LANES", (6, 7))
    setup_jax(x64)
    lib.load()
    ctx = Ctx(x64, a.tier)
    out = open(a.out, "a", buffering=1)

    def emit(obj):
        out.write(json.dumps(obj) + "\n")
        out.flush()

    prepare(module)
    emit({"ev": "ready"})
    t_end = time.monotonic() + a.wall
    for index in range(a.lane, a.count, core.LANES):
        stop = _stop_index(a.stop)
        if stop is not None and index > stop:
            break
        if time.monotonic() > t_end:
            emit({"ev": "wall"})
            break
        plan = make_plan(module, a.prop, a.seed, index, a.tier)
        with open(a.out + ".plan", "w") as f:    # should the run never end
            json.dump(plan, f)
        emit({"ev": "start", "index": index})
        t = time.monotonic()
        res = safe_run(module, plan, ctx)
        res["wall"] = time.monotonic() - t
        res["ev"] = "done"
        if res.get("violation"):
            res["plan"] = plan
            emit({"ev": "found", "index": index})
            kind = res["violation"]["kind"]

            class M:  # module view whose run never raises
                ALLOW_EMPTY_OPS = getattr(module, "ALLOW_EMPTY_OPS", False)
                shrink = staticmethod(getattr(module, "shrink", lambda p: ()))

                @staticmethod
                def execute(p, run, c):
                    r = safe_run(module, p, c)
                    if r.get("violation"):
                        raise core.Violation(**r["violation"])

            best, n = core.minimise(
                plan, kind, M, ctx, budget_runs=60,
                deadline=time.monotonic() + 60, clock=time.monotonic)
            res["minimal"] = best
            res["shrink_runs"] = n
            emit(res)
            break
        emit(res)
        if res.get("error"):
            break
    emit({"ev": "end"})
    out.close()
    os._exit(0)


def _stop_index(path):
    try:
        with open(path) as f:
            return int(f.read() or -1)
    except (OSError, ValueError):
        return None


def replay_main(a):
    """Run the plans of a replay file in order; report the last one's verdict."""
    with open(a.replay) as f:
        rep = json.load(f)
    plans = rep.get("prefix", []) + [rep["plan"]]
    setup_jax(plans[-1]["x64"])
    lib.load()
    ctx = Ctx(plans[-1]["x64"], a.tier)
    module = module_for(rep["property"])
    if any(isinstance(p, int) for p in plans):
        prepare(module)
    res = None
    for p in plans:
        if isinstance(p, int):
            p = make_plan(module, rep["property"], rep["seed"], p, rep["tier"])
        res = safe_run(module, p, ctx)
    with open(a.out, "w") as f:
        json.dump(res, f)
    sys.stdout.flush()
    os._exit(0)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--lane", type=int, default=0)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--count", type=int, default=8)
    ap.add_argument("--wall", type=float, default=400)
    ap.add_argument("--out", required=True)
    ap.add_argument("--stop", default="")
    ap.add_argument("--replay")
    a = ap.parse_args()
    sys.dont_write_bytecode = True
    if a.replay:
        replay_main(a)
    else:
        lane_main(a)


if __name__ == "__main__":
    main()
