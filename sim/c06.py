"""C06: output epochs are exactly the promised ones and every mode agrees."""

from __future__ import annotations

import math

import numpy as np

from . import chaos, lib
from . import refmodel as ref
from . import world as W
from .core import Skip, Violation


def generate(rng, index, tier, x64):
    orbit = W.gen_orbit(rng, emax=0.9, ehyp=3.0)
    forces = W.gen_forces(rng, orbit, W.lane_field(index))
    T = W.timescale(orbit)
    far = 12.0 if x64 else 6.0
    span = rng.choice([-1, 1]) * rng.choice([rng.uniform(0.01, 1), rng.uniform(1, far)]) * T
    ops = []
    for _ in range(rng.randint(2, 4)):
        leg = W.gen_leg(rng, span, T, ("final", "custom", "custom", "fixed", "fixed",
                                       "adaptive", "adaptive", "general"),
                        W.lane_ctl(index, x64), sizes=(1, 8))
        if leg["mode"] == "fixed":
            k = rng.random()
            h = abs(leg["dt"])
            if k < 0.1:
                h = abs(span) * rng.uniform(1.0, 3.0)   # one step is enough
                h = min(h, 0.3 * T)
            elif k < 0.2:
                h = abs(span) / rng.randint(1, 12)
                h = min(h, 0.2 * T)
            h = max(h, abs(span) / 3000)
            leg["dt"] = math.copysign(h, span)
        if leg.get("ts") and len(leg["ts"]) > 2:
            ts = leg["ts"]
            k = rng.random()
            if k < 0.2:      # crowded epochs
                c = rng.random() * span
                leg["ts"] = sorted((min(max(abs(c) + j * 1e-5 * T, 0), abs(span))
                                    for j in range(len(ts))))
                leg["ts"] = [math.copysign(a, span) for a in leg["ts"]]
            elif k < 0.35:   # both ends
                ts[0], ts[-1] = 0.0, span
            elif k < 0.45:   # only the first stretch is wanted
                leg["ts"] = [t * 0.05 for t in ts]
        op = {"leg": leg}
        if leg["mode"] != "fixed" and rng.random() < 0.5:
            op["chaos"] = chaos.gen_chaos(rng)
        ops.append(op)
    return {"orbit": orbit, "forces": forces, "ops": ops}


def epochs(run, leg, sent, x64, what):
    """The promised epochs, whatever steps were accepted and rejected."""
    dt_ = np.float64 if x64 else np.float32
    mode, span = leg["mode"], leg["span"]
    eps = 1e-13 if x64 else 2e-6
    sgn = math.copysign(1.0, span)
    ts = sent.ts
    n = len(ts)
    save = leg.get("save")
    if not np.all(sent.used[:n]) or np.any(sent.used[n:]):
        raise Violation("padding", f"{what}: unused slots are mixed with used ones")
    if sent.raw_ys.shape != (len(sent.raw_ts), 6):
        raise Violation("shape", f"{what}: shapes {sent.raw_ts.shape} {sent.raw_ys.shape}")
    if not np.all(np.isfinite(sent.ys)):
        raise Violation("nonfinite", f"{what}: non-finite state at a finite epoch")
    if np.any(np.isfinite(sent.raw_ys[n:])):
        raise Violation("padding", f"{what}: finite state in an unused slot")
    if mode == "custom" or save == "ts":
        want = np.asarray(leg["ts"], dt_).astype(float)
        if len(sent.raw_ts) != len(want) or not np.array_equal(ts, want):
            raise Violation("epochs", f"{what}: asked for {want}, got {sent.raw_ts}")
        return
    end = float(dt_(span))
    if n == 0 or abs(ts[-1] - end) > eps * abs(span):
        raise Violation("final-epoch", f"{what}: last epoch {ts[-1] if n else None}, "
                                       f"not {end}")
    if mode == "final" or save == "t1":
        if n != 1:
            raise Violation("epochs", f"{what}: {n} outputs instead of one")
        return
    if ts[0] != 0.0:
        raise Violation("epochs", f"{what}: first epoch is {ts[0]}, not 0")
    if np.any(np.diff(ts) * sgn <= 0):
        raise Violation("epochs", f"{what}: epochs are not strictly monotone")
    if mode == "fixed":
        h = float(dt_(leg["dt"]))
        grid = np.arange(n) * h
        tol = (1e-9 if x64 else 2e-3) * abs(h) + eps * abs(span) * (1 if x64 else math.sqrt(n) / 4)
        d = np.abs(ts[:-1] - grid[:-1])
        if n > 1 and np.max(d) > tol:
            raise Violation("epochs", f"{what}: epoch {ts[int(np.argmax(d))]} is off the "
                                      f"grid of step {h} by {np.max(d)}")
        k = abs(span) / abs(h)
        slack = 1e-6 if x64 else 1e-3 * k + 0.02
        if n - 1 > math.ceil(k + slack) or n - 1 < math.ceil(k - slack):
            raise Violation("epochs", f"{what}: {n - 1} steps of {h} over {span}")


def execute(plan, run, ctx):
    adx = lib.load()
    orbit, forces = plan["orbit"], plan["forces"]
    T = W.timescale(orbit)
    x0 = np.asarray(orbit["x0"], float)
    if not plan["x64"]:
        x0 = x0.astype(np.float32).astype(float)
    span = plan["ops"][0]["leg"]["span"]
    try:
        tr = ref.Trajectory(x0, span, **W.ref_kwargs(orbit, forces))
    except ArithmeticError as e:
        raise Skip(str(e))
    grow = W.Growth(orbit, x0, span)
    nref = len(tr.sol.sol.ts)
    orb = adx.prop.OrbDynx(W.term(ctx, forces["kind"]), W.args_for(orbit, forces))
    for k, op in enumerate(plan["ops"]):
        leg, spec = op["leg"], op.get("chaos")
        what = f"op {k} ({leg['mode']})"
        run.ops += 1
        over = {}
        if spec:
            over["stepsize_controller"] = chaos.chaos(
                ctx, spec, W.TOL[leg.get("ctl", "default")])
        sent = W.propagate(ctx, orb, leg, x0, **over)
        rej = int(sent.sol.stats.get("num_rejected_steps", 0))
        if spec:
            run.fault("spurious-rejection-stream")
            run.fault("rejected-step", rej)
        run.sim_time += abs(span) / T
        run.log(leg["mode"], span, sent.raw_ts, sent.raw_ys, sent.steps, rej)
        run.sig.append(f"{leg['mode']}/{leg.get('save')}/{len(leg.get('ts') or [])}/"
                       f"{sent.steps}/{rej}")
        epochs(run, leg, sent, plan["x64"], what)
        n = len(sent.ts)
        idx = range(n) if n <= 8 else sorted({0, 1, n // 5, n // 3, n // 2, (4 * n) // 5,
                                              n - 2, n - 1})
        for i in idx:
            t = float(sent.ts[i])
            tt = min(max(t, min(0.0, span)), max(0.0, span))
            b = W.leg_bound(orbit, leg, grow.to(tt), nref, plan["x64"])
            if leg["mode"] == "fixed":
                b += 2.0 * (min(abs(leg["dt"]), abs(span)) / T) ** 5 * grow.to(tt)
            if not plan["x64"]:
                b += W.speed(orbit, tr.at(tt)) * 2e-7 * abs(span) / T
            e = W.err_scaled(orbit, sent.ys[i], tr.at(tt))
            run.metric(leg["mode"] + ("" if plan["x64"] else "/f32"), e / b)
            if not e <= b:
                raise Violation("state", f"{what}: state at epoch {t} is off the common "
                                         f"trajectory by {e:.3e} (allowed {b:.3e})")


def shrink(plan):
    for k, op in enumerate(plan["ops"]):
        if "chaos" in op:
            o2 = {a: b for a, b in op.items() if a != "chaos"}
            yield {**plan, "ops": plan["ops"][:k] + [o2] + plan["ops"][k + 1:]}
