"""C07: concurrent callers get the answers they would get alone."""

from __future__ import annotations

import contextlib

from . import c08
from . import catalog as C
from . import lib, sched
from .core import Violation, canon, ddmin_candidates

USES_HINTS = True
TRACES: dict = {}


def generate(rng, index, tier, x64):
    heavy = rng.random() < 0.10
    jit = heavy or rng.random() < 0.35
    g = C.Gen(rng, cases=rng.choice([1, 2, 2]), heavy=0.6 if heavy else 0.0,
              kepler=0.1 if not jit else 0.02)
    n = rng.choice([2, 2, 3, 4])
    alike = rng.random() < 0.65          # all callers use the same operation
    threads = []

    def pick(name=None):
        for _ in range(400):
            c = g.call()
            if jit and not c.get("heavy") and (c.get("eager") or c["fn"] in C.RECOMPILES) \
                    and rng.random() < 0.9:
                continue
            if name is None or c["fn"] == name:
                return c
        return None

    first = pick()
    cheap = not first.get("heavy") and (first.get("eager") or first["fn"] not in C.RECOMPILES)
    if alike and cheap and rng.random() < 0.6:
        # many calls from a small palette: equal requests meet each other
        palette = [first] + [pick(first["fn"]) or first for _ in range(rng.choice([1, 2, 3]))]
        kind = rng.choice([None, "py", "py", "np"])
        palette = [vary(rng, c, kind) for c in palette]
        threads = [[rng.choice(palette) for _ in range(rng.choice([2, 4, 6]))]
                   for _ in range(n)]
    for i in range(n if not threads else 0):
        calls = []
        for _ in range(rng.choice([1, 2, 2, 3]) if not heavy else 1):
            c = None
            if alike:
                c = pick(first["fn"])
            calls.append(c or (first if alike else pick()) or first)
        threads.append(calls)
    kind = rng.choice(["hot", "hot", "random", "pct"])
    pol = {"kind": kind, "seed": rng.randrange(1 << 30),
           "rate": rng.choice([0.005, 0.03, 0.15, 0.5]) if kind == "random" else 0.02}
    if kind == "pct":
        pol.update(depth=rng.choice([1, 2, 3, 5]), span=rng.choice([100, 400, 2000]))
    plan = {"pool": g.pool, "threads": threads, "policy": pol, "jit": jit,
            "after": [rng.choice(rng.choice(threads)) for _ in range(2)]}
    if rng.random() < 0.3:               # one caller's call runs out of memory or fails
        i = rng.randrange(n)
        plan["fault"] = {"caller": i, "call": rng.randrange(len(threads[i])),
                         "kind": rng.choice(["no-memory", "callee-error"]),
                         "frac": rng.random()}
    elif rng.random() < 0.2:             # callers working in different precisions
        plan["x64s"] = [rng.random() < 0.5 for _ in range(n)]
    return plan


def vary(rng, call, kind):
    """The call with its plain numbers changed a little, all of one kind."""
    args = []
    for a in call["args"]:
        if a[0] in ("py", "jax", "np") and isinstance(a[1], float):
            a = [kind or a[0], a[1] * rng.choice([1.0, rng.uniform(0.98, 1.02)])]
        args.append(a)
    return {**call, "args": args}


def precision(plan, i):
    import jax

    return jax.enable_x64(plan["x64s"][i]) if "x64s" in plan else contextlib.nullcontext()


def execute(plan, run, ctx):
    import jax

    mon = sched.monitor()
    mon.on = None
    inst = lib.fresh(replace={"threading": sched.threading_standin()})
    pool = C.make_pool(plan["pool"])
    frozen = [C.copy_obj(z) for z in pool]
    n = len(plan["threads"])
    jax.config.update("jax_disable_jit", not plan["jit"])
    before = C.Settings()
    alone = {}

    def solo(call, i=None):
        k = canon([call, plan["x64s"][i] if "x64s" in plan and i is not None else None])
        if k not in alone:
            with precision(plan, i) if i is not None else contextlib.nullcontext():
                alone[k] = C.invoke(lib.fresh(), call, [C.copy_obj(z) for z in frozen])
        return alone[k]

    fault, breaker, doomed = plan.get("fault"), None, None
    if fault and fault["call"] < len(plan["threads"][fault["caller"]]):
        doomed = (fault["caller"], fault["call"])
        probe = c08.Breaker(fault["kind"])
        c08.under(c08.new_instance(), probe, plan["threads"][doomed[0]][doomed[1]],
                  [C.copy_obj(z) for z in frozen])
        if probe.n:
            breaker = c08.Breaker(fault["kind"], 1 + min(int(fault["frac"] * probe.n), probe.n - 1))
    busy = {}

    s = sched.Sched(n, plan["policy"], plan.get("schedule"))
    try:
        want = [[solo(c, i) for c in calls] for i, calls in enumerate(plan["threads"])]

        def body(i, calls):
            def go():
                out = []
                with precision(plan, i):
                    for j, c in enumerate(calls):
                        busy[i] = j
                        out.append(C.invoke(inst, c, pool))
                return out
            return go

        def on(code, offset):
            i = s.me()
            if i is not None:
                s.point(offset in sched.hot_offsets(code))
                if breaker is not None and doomed == (i, busy[i]):
                    breaker(code, offset)

        mon.watch(inst.codes)
        mon.on = on
        try:
            got = s.run([body(i, c) for i, c in enumerate(plan["threads"])])
        finally:
            mon.on = None
            mon.forget(inst.codes)
        TRACES.clear()
        TRACES[canon(plan)] = list(s.trace)
        run.ops += sum(len(c) for c in plan["threads"])
        switches = len(s.trace)
        run.fault("preemption", switches)
        run.sig += [c["fn"] for calls in plan["threads"] for c in calls]
        run.sig.append(str(s.trace))
        run.probe(f"policy {plan['policy']['kind']}")
        run.probe("steps", s.steps)
        if s.outside:
            run.probe("waited-outside-the-seam", s.outside)
        run.log("schedule", s.steps, s.trace[:200], switches)
        hit = ""
        if breaker is not None and breaker.where:
            run.fault(fault["kind"])
            hit = f" (caller {doomed[0]}, call {doomed[1]} failed in {breaker.where})"
            run.log("failed", breaker.where)
        if "x64s" in plan:
            run.fault("mixed-precision")
        if s.abort:
            raise Violation("deadlock", str(s.abort) + hit)
        for i in range(n):
            for j, c in enumerate(plan["threads"][i]):
                what = f"caller {i}, call {j} ({c['fn']})"
                if got[i] is None:
                    raise Violation("died", f"{what}: the caller did not finish")
                a, b = got[i][j], want[i][j]
                if hit and doomed == (i, j) and a[0] == "raised":
                    continue             # the error reached its caller
                run.log(what, a[0], *(a[1] if a[0] == "ok" else [a[1]]))
                if not C.same_result(a, b):
                    raise Violation("concurrent", f"{what}: gave {C.show(a)} among {n} concurrent "
                                                  f"callers{hit}, alone it gives {C.show(b)}")
        for c in plan["after"]:
            a, b = C.invoke(inst, c, pool), solo(c)
            run.log("after", c["fn"], a[0])
            if not C.same_result(a, b):
                raise Violation("afterwards", f"{c['fn']} after the concurrent calls gives "
                                              f"{C.show(a)}, alone {C.show(b)}{hit}")
        if not all(C.same_obj(a, b) for a, b in zip(pool, frozen)):
            raise Violation("argument-changed", "a shared argument was modified")
        d = before.diff(C.Settings())
        if d:
            raise Violation("settings", "left changed: " + "; ".join(d)[:500])
    except sched.WouldBlock as e:
        raise Violation("deadlock", f"a call after the concurrent ones waits for ever ({e})")
    finally:
        mon.on = None
        jax.config.update("jax_disable_jit", False)


def shrink(plan):
    """First fix the schedule as a list of switches, then drop switches and calls."""
    if plan.get("schedule") is None:
        trace = TRACES.get(canon(plan))
        if trace is not None:
            yield {**plan, "schedule": [list(z) for z in trace]}
        return
    fixed = [z for z in plan["schedule"] if z[0] < 0]
    sw = [z for z in plan["schedule"] if z[0] >= 0]
    for cand in ddmin_candidates(sw):
        yield {**plan, "schedule": sorted(fixed + cand, key=lambda z: abs(z[0]))}
    if plan["after"]:
        yield {**plan, "after": []}
    for key in ("fault", "x64s"):
        if key in plan:
            yield {k: v for k, v in plan.items() if k != key}
    for i, calls in enumerate(plan["threads"]):
        if len(calls) > 1:
            yield {**plan, "threads": plan["threads"][:i] + [calls[:-1]] + plan["threads"][i + 1:]}
