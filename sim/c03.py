"""C03: a failing force model never produces a wrong trajectory silently."""

from __future__ import annotations

import math

import numpy as np

from . import chaos, findings, lib
from . import refmodel as ref
from . import world as W
from .core import Skip, Violation

NONFINITE = ("nan", "inf", "neginf", "partial", "partinf")
INFINITE = ("inf", "neginf", "partinf")
FINITE = ("spike", "stale", "zero")
ROUGH = 20.0      # finite corruption is bounded by the error estimate only
def generate(rng, index, tier, x64):
    orbit = W.gen_orbit(rng, emax=0.8, ehyp=3.0)
    forces = W.gen_forces(rng, orbit, W.lane_field(index))
    T = W.timescale(orbit)
    ops = []
    for _ in range(rng.randint(1, 3)):
        span = rng.choice([-1, 1]) * rng.uniform(0.5, 6.0) * T
        leg = W.gen_leg(rng, span, T, W.MODES, "default", sizes=(8,))
        leg.pop("pyfloat", None)
        if leg["mode"] == "fixed":   # callback per stage: keep it short
            leg["dt"] = span / rng.randint(20, 80)
        script = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            k = rng.choice(NONFINITE + FINITE + ("exc",))
            if leg["mode"] == "fixed" and k in FINITE:
                k = "nan"
            a = rng.random()
            at = rng.randrange(0, 16) if a < 0.4 else rng.randrange(0, 240)
            ln = rng.choice([1, 1, 1, 2, 6, 7, 30])
            if k in NONFINITE and rng.random() < 0.12:
                ln = None            # never comes back
            if k == "exc" and rng.random() < 0.3:
                ln = None
            if k in FINITE:
                ln = 1   # a lasting finite fault is just another force model
            script.append({"kind": k, "at": at, "len": ln,
                           "comp": rng.randrange(6),
                           "gain": rng.choice([10.0, 1e3, -1e3, 1e6, 1e12])})
        fin = [f for f in script if f["kind"] in FINITE]
        script = [f for f in script if f["kind"] not in FINITE] + fin[:1]
        if rng.random() < 0.1:
            script = []
        op = {"leg": leg, "script": script}
        if rng.random() < 0.3 and leg["mode"] != "fixed":
            op["chaos"] = chaos.gen_chaos(rng)
        if index == 0 and not ops:   # the listed finding is looked at every time
            op = {"leg": {"mode": "custom", "span": span, "ctl": "default",
                          "ts": [span * k / 8 for k in range(1, 9)]},
                  "script": [{"kind": "nan", "at": 40, "len": None, "comp": 0,
                              "gain": 10.0}]}
        ops.append(op)
    return {"orbit": orbit, "forces": forces, "ops": ops}


def _call(ctx, plan, leg, x, spec):
    adx = lib.load()
    orb = adx.prop.OrbDynx(chaos.service_term(ctx, plan["forces"]["kind"]),
                           W.args_for(plan["orbit"], plan["forces"]))
    over = {}
    if spec:
        over["stepsize_controller"] = chaos.chaos(ctx, spec)
    try:
        return W.propagate(ctx, orb, leg, x, **over), None
    except Exception as e:
        return None, e


def _judge(run, plan, leg, sent, x0, tr, grow, rough, what):
    """Finite states are right ones; returns how many finite states came back."""
    orbit, x64 = plan["orbit"], plan["x64"]
    nref = len(tr.sol.sol.ts)
    span = leg["span"]
    n = len(sent.ts)
    idx = range(n) if n <= 6 else sorted({0, 1, n // 4, n // 2, 3 * n // 4, n - 2, n - 1})
    good = 0
    fin = np.all(np.isfinite(sent.ys), axis=1)
    # the outputs next to a change from finite to non-finite are the risky ones
    edges = {i for i in range(n - 1) if fin[i] != fin[i + 1]}
    for i in sorted(set(idx) | edges):
        if not fin[i]:
            continue
        good += 1
        t = float(sent.ts[i])
        tt = min(max(t, min(0.0, span)), max(0.0, span))
        amp = grow.to(tt)
        b = W.leg_bound(orbit, leg, amp, nref, x64) * rough
        if rough > 1.0:
            # One wrong evaluation enters the step with the weight b_i of its stage and the
            # error estimate with the weight e_i: the worst |b_i/e_i| of Tsit5 is 61, and
            # the estimate is held, in the root mean square, below atol + rtol |x|.
            size = np.maximum(np.abs(x0), np.abs(tr.at(tt)))
            b += 300 * 1e-8 * float(np.max((1 + size) / W.scale_state(orbit))) * amp
        if leg["mode"] == "fixed":
            b += W.leg_bound(orbit, leg, amp, nref, x64) * 50
        if not x64:
            b += W.speed(orbit, tr.at(tt)) * 2e-7 * abs(span) / W.timescale(orbit)
        e = W.err_scaled(orbit, sent.ys[i], tr.at(tt))
        run.metric(f"{leg['mode']}{'/rough' if rough > 1 else ''}"
                   + ("" if x64 else "/f32"), e / b)
        if not e <= b:
            raise Violation("wrong-state",
                            f"{what}: finite state at t={t} is off by {e:.3e} "
                            f"(allowed {b:.3e}), mode {leg['mode']}")
    return good, fin


def execute(plan, run, ctx):
    orbit, forces = plan["orbit"], plan["forces"]
    T = W.timescale(orbit)
    x0 = np.asarray(orbit["x0"], float)
    if not plan["x64"]:
        x0 = x0.astype(np.float32).astype(float)
    svc = chaos.service(ctx)
    for k, op in enumerate(plan["ops"]):
        leg, script, spec = op["leg"], op["script"], op.get("chaos")
        run.ops += 1
        what = f"op {k} ({leg['mode']})"
        try:
            tr = ref.Trajectory(x0, leg["span"], **W.ref_kwargs(orbit, forces))
        except ArithmeticError as e:
            raise Skip(str(e))
        grow = W.Growth(orbit, x0, leg["span"])
        controlled = leg["mode"] != "fixed"
        limit = 15000 if leg["mode"] == "custom" else 60000
        svc.arm(script, limit=limit)
        sent, exc = _call(ctx, plan, leg, x0, spec)
        fired = dict(svc.fired)
        for kind, n in sorted(fired.items()):
            run.fault("force-" + kind, n)
        if spec:
            run.fault("spurious-rejection-stream")
        run.sim_time += abs(leg["span"]) / T
        run.log("op", k, leg["mode"], svc.n, type(exc).__name__ if exc else "ok",
                *( [sent.ts, sent.ys] if sent else []))
        run.sig.append(f"{leg['mode']}/{'ok' if sent else 'raise'}/"
                       + ",".join(f"{f['kind']}@{f['at']}+{f['len']}" for f in script))
        forever = [f for f in script if f["len"] is None and f["kind"] in fired]
        dead = [f for f in forever if f["kind"] in NONFINITE]
        # an infinity poisons the integrator's error estimate: it may give up
        poisoned = bool(dead) or any(f in fired for f in INFINITE)
        rough = ROUGH if any(f in fired for f in FINITE) else 1.0
        if svc.runaway:
            finding = findings.match("C03", kind="livelock", mode=leg["mode"],
                                     nonfinite_force=poisoned)
            if finding:
                run.probe("known-runaway")
                run.known.append(finding)
            else:
                raise Violation("livelock", f"{what}: propagation never ends "
                                            f"({limit} evaluations) faults {script}")
        elif sent is None:
            if "exc" in fired:
                run.probe("raised-for-exception")
            elif poisoned and controlled:
                run.probe("raised-for-dead-force")
            elif controlled:
                raise Violation("gave-up", f"{what}: transient fault {script} ended the "
                                           f"propagation: {type(exc).__name__} "
                                           f"{str(exc)[:200]}")
            elif fired:
                run.probe("raised-fixed")
            else:
                raise Violation("gave-up", f"{what}: raised without any fault: "
                                           f"{type(exc).__name__} {str(exc)[:200]}")
        else:
            if "exc" in fired:
                raise Violation("swallowed", f"{what}: the force model raised, the call "
                                             "returned as if nothing happened")
            good, fin = _judge(run, plan, leg, sent, x0, tr, grow, rough, what)
            if controlled and poisoned and np.all(fin):
                need = leg["ts"][-1] if leg.get("ts") else leg["span"]
                if len(sent.ts) == 0 or abs(sent.ts[-1] - need) > 1e-5 * abs(leg["span"]):
                    raise Violation("truncated", f"{what}: returned quietly with the output "
                                    f"ending at {sent.ts[-1] if len(sent.ts) else None}, "
                                    f"not at {need}")
            if not fired or (controlled and not poisoned):
                if fired:
                    run.probe("rode-out-fault")
                if not np.all(fin):
                    raise Violation("lost-state", f"{what}: non-finite output although the "
                                                  f"fault went away: {script}")
                need = leg["ts"][-1] if leg.get("ts") else leg["span"]
                if len(sent.ts) == 0 or abs(sent.ts[-1] - need) > 1e-5 * abs(leg["span"]):
                    raise Violation("truncated", f"{what}: output ends at "
                                    f"{sent.ts[-1] if len(sent.ts) else None}, not at {need}")
        if fired:
            # once the faults stop, the same request is served correctly
            svc.arm([], limit=200000)
            sent2, exc2 = _call(ctx, plan, leg, x0, spec)
            if sent2 is None:
                raise Violation("no-recovery", f"{what}: the repeated request failed after "
                                f"the faults stopped: {type(exc2).__name__} {str(exc2)[:200]}")
            run.log("retry", sent2.ts, sent2.ys)
            _, fin2 = _judge(run, plan, leg, sent2, x0, tr, grow, 1.0, what + " retry")
            if not np.all(fin2):
                raise Violation("no-recovery", f"{what}: the repeated request gave "
                                               "non-finite states")


def shrink(plan):
    for k, op in enumerate(plan["ops"]):
        put = lambda o: {**plan, "ops": plan["ops"][:k] + [o] + plan["ops"][k + 1:]}  # noqa
        if "chaos" in op:
            yield put({a: b for a, b in op.items() if a != "chaos"})
        for j in range(len(op["script"])):
            yield put({**op, "script": op["script"][:j] + op["script"][j + 1:]})
        for j, f in enumerate(op["script"]):
            if f["len"] not in (None, 1):
                g = {**f, "len": 1}
                yield put({**op, "script": op["script"][:j] + [g] + op["script"][j + 1:]})


del math
