"""C01: numerical propagation survives checkpoint, crash and restart."""

from __future__ import annotations

import math

import numpy as np

from . import lib
from . import refmodel as ref
from . import world as W
from .core import Skip, Violation


def generate(rng, index, tier, x64):
    orbit = W.gen_orbit(rng, emax=0.9, ehyp=3.0)
    forces = W.gen_forces(rng, orbit, W.lane_field(index))
    T = W.timescale(orbit)
    horizon = (12.0 if x64 else 6.0) * T
    if orbit["e"] < 0.99:
        horizon = max(horizon, min(1.5 * W.period(orbit), 40 * T)) if x64 else horizon
    nops = rng.randint(2, 7)
    ops, t = [], 0.0
    modes = W.MODES if rng.random() < 0.5 else tuple(
        rng.sample(W.MODES, rng.randint(1, 3)))
    for _ in range(nops):
        # where to next: forward, backward (clock set back), or home to epoch 0
        k = rng.random()
        if k < 0.6:
            target = rng.uniform(0, horizon)
        elif k < 0.8:
            target = t + rng.choice([-1, 1]) * rng.uniform(0.005, 0.3) * T
        elif k < 0.9:
            target = 0.0
        else:
            target = -rng.uniform(0, horizon / 2)
        span = target - t
        if abs(span) < 1e-3 * T:
            continue
        leg = W.gen_leg(rng, span, T, modes, W.lane_ctl(index, x64))
        if forces["kind"] == "pm" and rng.random() < 0.08:
            leg = {"mode": "kepler", "span": span, "ctl": "default"}
            leg["ts"] = [span] if rng.random() < 0.5 else [span * rng.random(), span]
        op = {"leg": leg}
        f = rng.random()
        if f < 0.22:
            op["fault"] = "crash"        # dies before the checkpoint is durable
        elif f < 0.32:
            op["fault"] = "torn"         # checkpoint torn: previous one is used
        elif f < 0.42:
            op["fault"] = "dup"          # request delivered twice
        elif f < 0.47 and (index // 8) % 25 == 7:
            op["fault"] = "restart"      # process restart: library re-imported
        if leg["mode"] != "kepler" and rng.random() < 0.35:
            op["pick"] = rng.random()    # checkpoint an interior output instead
        ops.append(op)
        if op.get("fault") in ("crash", "torn"):
            continue
        t = target
    return {"orbit": orbit, "forces": forces, "ops": ops}


def _send(ctx, plan, leg, x, epoch):
    adx = lib.load()
    if leg["mode"] == "kepler":
        import jax
        import jax.numpy as jnp

        if leg.get("eager"):
            old = jax.config.jax_disable_jit
            jax.config.update("jax_disable_jit", True)
            try:
                return _send(ctx, plan, {**leg, "eager": False}, x, epoch)
            finally:
                jax.config.update("jax_disable_jit", old)

        class R:
            pass
        out = R()
        xs = jnp.asarray(np.asarray(x, float))
        r, v = adx.prop.kepler(jnp.asarray(leg["ts"]), xs[:3], xs[3:],
                               jnp.asarray(plan["orbit"]["mu"]))
        jax.block_until_ready(v)
        out.ts = np.asarray(leg["ts"], float)
        out.ys = np.concatenate([np.asarray(r, float), np.asarray(v, float)], axis=1)
        out.steps = 1
        return out
    orb = adx.prop.OrbDynx(W.term(ctx, plan["forces"]["kind"]),
                           W.args_for(plan["orbit"], plan["forces"], epoch))
    return W.propagate(ctx, orb, leg, x)


def check_leg(run, plan, leg, x, epoch, sent, what, judge=True, seen=None):
    """Every returned state lies on the reference trajectory from (epoch, x).

    Returns (amp, bound) of the whole leg.  With judge off nothing is decided
    here; `seen` collects (index, epoch in the leg, growth, bound)."""
    orbit, forces = plan["orbit"], plan["forces"]
    span = leg["span"]
    try:
        tr = ref.Trajectory(x, span, **W.ref_kwargs(orbit, forces, epoch))
    except ArithmeticError as e:
        raise Skip(str(e))
    nref = len(tr.sol.sol.ts)
    tr.growth = W.Growth(orbit, x, span)
    amp_end = tr.growth.to(span)
    if len(sent.ts) == 0:
        raise Violation("no-output", f"{what}: no state came back")
    # every output, with its own amplification at a few of them
    n = len(sent.ts)
    idx = sorted({0, n - 1, n // 2, n // 3, (2 * n) // 3} | {min(n - 1, 1)})
    if n <= 5:
        idx = list(range(n))
    for i in idx:
        t = float(sent.ts[i])
        if judge and (t * math.copysign(1, span) > abs(span) * (1 + 1e-6) + 1e-30 or
                      t * math.copysign(1, span) < -1e-6 * abs(span)):
            raise Violation("epoch", f"{what}: output epoch {t} outside [0,{span}]")
        tt = min(max(t, min(0.0, span)), max(0.0, span))
        amp = amp_end if i == n - 1 else tr.growth.to(tt)
        b = W.leg_bound(orbit, leg, amp, nref, plan["x64"])
        if leg["mode"] == "kepler":
            b = W.kepler_bound(orbit, tr.at(tt), tt, amp, plan["x64"])
        if not plan["x64"]:  # output epoch itself is rounded
            b += W.speed(orbit, tr.at(tt)) * 2e-7 * abs(span) / W.timescale(orbit)
        if seen is not None:
            seen.append((i, tt, amp, b))
        if not judge:
            continue
        e = W.err_scaled(orbit, sent.ys[i], tr.at(tt))
        run.metric(f"leg/{leg['mode']}" + ("" if plan["x64"] else "/f32"), e / b)
        if not e <= b:
            raise Violation(
                "leg-state",
                f"{what}: state at t={t} is off the trajectory by {e:.3e} "
                f"(allowed {b:.3e}) mode={leg['mode']}")
    return amp_end, W.leg_bound(orbit, leg, amp_end, nref, plan["x64"]), tr


def execute(plan, run, ctx, observe=None):
    """`observe(x0, states, bounds, what)` replaces the trajectory verdicts."""
    judge = observe is None
    orbit, forces = plan["orbit"], plan["forces"]
    T = W.timescale(orbit)
    x0 = np.asarray(orbit["x0"], float)
    if not plan["x64"]:
        x0 = x0.astype(np.float32).astype(float)
    store = [(0.0, x0, 0.0)]        # durable checkpoints: epoch, state, bound
    lo = hi = 0.0
    mission = {}
    run.log("mission", orbit["units"], orbit["conic"], forces["kind"])
    for k, op in enumerate(plan["ops"]):
        epoch, x, bound = store[-1]
        leg = dict(op["leg"])
        fault = op.get("fault")
        what = f"op {k}"
        run.ops += 1
        run.sig.append(f"{leg['mode']}/{leg['ctl']}/{'+' if leg['span'] > 0 else '-'}"
                       f"/{fault}/{'p' if 'pick' in op else ''}")
        if fault == "restart":
            run.fault("process-restart")
            lib._shared = None
            lib.load()
            ctx.cache.clear()
        sent = _send(ctx, plan, leg, x, epoch)
        run.sim_time += abs(leg["span"]) / T
        run.log("leg", k, leg["mode"], epoch, leg["span"], sent.ts, sent.ys, sent.steps)
        seen = []
        amp, b, tr = check_leg(run, plan, leg, x, epoch, sent, what, judge, seen)
        if observe is not None:
            observe(x0, [sent.ys[s[0]] for s in seen],
                    [s[2] * bound + s[3] for s in seen], what)
        if fault == "dup":
            run.fault("duplicate-delivery")
            again = _send(ctx, plan, leg, x, epoch)
            check_leg(run, plan, leg, x, epoch, again, what + " (redelivered)", judge)
            if judge and (again.ys.shape != sent.ys.shape
                          or not np.array_equal(again.ys, sent.ys)):
                raise Violation("redelivery", f"{what}: redelivered request gave "
                                              "a different answer")
        if fault == "crash":
            run.fault("crash-before-checkpoint")
            continue                 # volatile result lost
        i = len(sent.ts) - 1
        if "pick" in op and len(sent.ts) > 1:
            i = int(op["pick"] * len(sent.ts))
            run.probe("interior-checkpoint")
        if leg["mode"] in ("custom", "general", "kepler") and "pick" not in op \
                and abs(sent.ts[i] - leg["span"]) > 1e-9 * T:
            run.probe("checkpoint-before-end")
        t_rel = float(sent.ts[i])
        if fault == "torn":
            run.fault("torn-checkpoint")
            continue                 # checksum mismatch: the old one survives
        tt = min(max(t_rel, min(0.0, leg["span"])), max(0.0, leg["span"]))
        a_i = tr.growth.to(tt)
        nb = W.leg_bound(orbit, leg, a_i, len(tr.sol.sol.ts), plan["x64"])
        if leg["mode"] == "kepler":
            nb = W.kepler_bound(orbit, tr.at(tt), tt, a_i, plan["x64"])
        if not plan["x64"]:
            nb += W.speed(orbit, tr.at(tt)) * 2e-7 * abs(leg["span"]) / T
        store.append((epoch + t_rel, np.array(sent.ys[i]), a_i * bound + nb))
        run.log("checkpoint", epoch + t_rel, store[-1][1])
        if not judge:
            continue
        # whole-mission oracle: one uninterrupted propagation from epoch 0
        te, xe, be = store[-1]
        if te != 0.0:
            key = te > 0
            if key not in mission or abs(mission[key].t1) < abs(te):
                far = max(abs(te), 8 * T) * (1 if key else -1)
                try:
                    mission[key] = ref.Trajectory(
                        x0, far, **W.ref_kwargs(orbit, forces))
                except ArithmeticError as e:
                    raise Skip(str(e))
            want = mission[key].at(te)
        else:
            want = x0
        e = W.err_scaled(orbit, xe, want)
        run.metric("mission" + ("" if plan["x64"] else "/f32"), e / be if be else 0.0)
        lo, hi = min(lo, te), max(hi, te)
        if not e <= be + 1e-13:
            raise Violation("mission-state",
                            f"after {what} the restarted mission is {e:.3e} away from "
                            f"the uninterrupted one at epoch {te} (allowed {be:.3e})")
    run.log("end", len(store))


def shrink(plan):
    f = plan["forces"]
    for k, op in enumerate(plan["ops"]):
        for drop in ("fault", "pick"):
            if drop in op:
                o2 = {a: b for a, b in op.items() if a != drop}
                yield {**plan, "ops": plan["ops"][:k] + [o2] + plan["ops"][k + 1:]}
    for key in ("J4", "J3", "J2", "thrust"):
        if f[key]:
            yield {**plan, "forces": {**f, key: 0.0}}
