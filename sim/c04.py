"""C04: a step budget is honoured and a result is never silently truncated."""

from __future__ import annotations

import math

import numpy as np

from . import chaos, lib
from . import world as W
from .core import Skip, Violation

CAP = 4096        # the documented limit of the final-state mode
PLAIN = {"seed": 0, "rate": 0, "burst": 1, "factor": 0.5}


def generate(rng, index, tier, x64):
    orbit = W.gen_orbit(rng, emax=0.8, ehyp=3.0)
    forces = W.gen_forces(rng, orbit, W.lane_field(index))
    T = W.timescale(orbit)
    ops = []
    for _ in range(rng.randint(2, 5)):
        sgn = rng.choice([-1, 1])
        mode = rng.choice(["fixed", "fixed", "adaptive", "adaptive", "general", "general",
                           "custom", "final"])
        op = {"mode": mode, "sgn": sgn}
        if mode == "fixed":
            m = rng.choice([16, 64])
            k = rng.choice([m, m, m - 1, m + 1, m + rng.uniform(-0.9, 0.9),
                            rng.uniform(1, m), rng.uniform(m, 2 * m), 1, 0.4])
            op.update(M=m, k=k, dt=sgn * rng.uniform(0.01, 0.1) * T)
        elif mode in ("adaptive", "general"):
            op.update(M=rng.choice([24, 64]), off=rng.choice(
                [0, 0, 1, 1, -1, -1, 2, 4, -4, -10, 20]), frac=rng.uniform(0.2, 0.8))
            if mode == "general":
                op["save"] = rng.choice(["t1", "steps", "ts"])
            if rng.random() < 0.6:
                op["chaos"] = chaos.gen_chaos(rng)
        else:
            # around the built-in limit, the step size held down by the controller
            if rng.random() < (0.4 if x64 else 0.1):
                op.update(big=True, off=rng.choice([-40, -3, -2, -1, 0, 1, 2, 3, 60]),
                          frac=rng.uniform(0.2, 0.8), span=sgn * rng.uniform(2, 8) * T)
            else:
                op.update(span=sgn * rng.uniform(0.1, 20.0 if x64 else 8.0) * T)
            if rng.random() < 0.6:
                op["chaos"] = chaos.gen_chaos(rng)
        ops.append(op)
    return {"orbit": orbit, "forces": forces, "ops": ops}


def controller(ctx, op, dtmax=None):
    import jax.numpy as jnp
    from diffrax import PIDController

    spec = op.get("chaos") or PLAIN
    c = chaos.chaos(ctx, spec)
    if dtmax is None:
        return c
    import equinox as eqx
    return eqx.tree_at(lambda z: z.inner, c, PIDController(
        rtol=1e-8, atol=1e-8, dtmax=jnp.asarray(abs(float(dtmax)))))


def needs(ctx, orb, x0, span, ctl, mode="adaptive"):
    """Steps the problem takes, counted with the bare integrator."""
    import diffrax
    import jax.numpy as jnp

    sol = diffrax.diffeqsolve(
        orb.terms, diffrax.Tsit5(), 0, jnp.asarray(float(span)), None, jnp.asarray(x0),
        args=orb.args, max_steps=6000, stepsize_controller=ctl, throw=False,
        saveat=diffrax.SaveAt(t0=True, steps=True))
    if sol.result != diffrax.RESULTS.successful:
        return None, None
    t = np.asarray(sol.ts, float)
    return int(sol.stats["num_steps"]), t[np.isfinite(t)]


def execute(plan, run, ctx):
    adx = lib.load()
    orbit, forces, x64 = plan["orbit"], plan["forces"], plan["x64"]
    T = W.timescale(orbit)
    x0 = np.asarray(orbit["x0"], float)
    if not x64:
        x0 = x0.astype(np.float32).astype(float)
    orb = adx.prop.OrbDynx(W.term(ctx, forces["kind"]), W.args_for(orbit, forces))
    for k, op in enumerate(plan["ops"]):
        mode = op["mode"]
        what = f"op {k} ({mode})"
        over, M, loose = {}, op.get("M"), 0
        if op.get("chaos"):
            run.fault("spurious-rejection-stream")
        if mode == "fixed":
            span = op["dt"] * op["k"]
            leg = {"mode": "fixed", "span": span, "dt": op["dt"]}
            if isinstance(op["k"], int) and op["k"] > 1:   # divides exactly
                leg["dt"] = span / op["k"]
            dtp = np.float64 if x64 else np.float32
            kk = float(abs(dtp(span)) / abs(dtp(leg["dt"])))
            S = math.ceil(kk - (1e-6 if x64 else 2e-4 * max(kk, 1)))
            if not x64 and abs(kk - round(kk)) < 1e-3 * kk:
                loose = 1
            over["max_steps"] = M
        elif mode in ("adaptive", "general"):
            over["stepsize_controller"] = ctl = controller(ctx, op)
            over["max_steps"] = M
            # a span that takes about as many steps as the budget
            span = op["sgn"] * 40.0 * T
            S, ts = needs(ctx, orb, x0, span, ctl)
            j = M + op["off"]
            if ts is None:
                raise Skip("problem too long")
            if op.get("chaos"):
                j = max(2, int(j * (len(ts) - 1) / S))
            if j < len(ts):
                span = float(ts[j - 1] + (ts[j] - ts[j - 1]) * op["frac"])
                S, ts = needs(ctx, orb, x0, span, ctl)
            leg = {"mode": mode, "span": span}
            if mode == "general":
                leg["save"] = op["save"]
                if op["save"] == "ts":
                    leg["ts"] = [span * (i + 1) / 8 for i in range(8)]
            loose = 0 if x64 else 2
        else:
            span = op["span"]
            if op.get("big"):
                rate = 1.0 if not op.get("chaos") else 0.8
                dtmax = abs(span) / ((CAP + op["off"]) * rate)
                over["stepsize_controller"] = controller(ctx, op, dtmax)
            else:
                over["stepsize_controller"] = controller(ctx, op)
            S, ts = needs(ctx, orb, x0, span, over["stepsize_controller"])
            if S is None:
                raise Skip("problem too long")
            if op.get("big") and len(ts) > 200:   # put the boundary where it bites
                j = len(ts) - 1 - (S - CAP - op["off"])
                if 0 < j < len(ts):
                    span = float(ts[j - 1] + (ts[j] - ts[j - 1]) * op["frac"])
                    S, ts = needs(ctx, orb, x0, span, over["stepsize_controller"])
            leg = {"mode": mode, "span": span}
            if mode == "custom":
                leg["ts"] = [span * (i + 1) / 8 for i in range(8)]
            M = CAP if mode == "final" else None
            loose = 0 if x64 else 2
        run.ops += 1
        run.sim_time += abs(span) / T
        try:
            sent = W.propagate(ctx, orb, leg, x0, **over)
            err = None
        except Exception as e:
            sent, err = None, type(e).__name__
        run.log(mode, M, S, err, None if sent is None else sent.steps)
        run.sig.append(f"{mode}/{op.get('save')}/{M}/{S}/{err}/{bool(op.get('chaos'))}")
        fits = M is None or S <= M
        sure = M is None or abs(S - M) >= loose and not (loose and S == M)
        run.probe("fits" if fits else "too-long")
        if M is not None and abs(S - M) <= 1:
            run.probe("boundary")
        if M is None and S > CAP:
            run.probe("beyond-4096-unlimited")
        if err is not None:
            if fits and sure:
                raise Violation("refused", f"{what}: raised {err}, although the {S} steps it "
                                           f"takes fit in the budget {M}")
            continue
        n = len(sent.ts)
        want = leg["ts"] if leg.get("ts") else [span]
        dt_ = np.float64 if x64 else np.float32
        end = float(dt_(want[-1]))
        eps = (1e-12 if x64 else 2e-6) * abs(span)
        if n == 0 or abs(sent.ts[-1] - end) > eps or (leg.get("ts") and n != len(want)):
            raise Violation("truncated", f"{what}: returned as success with the output ending "
                            f"at {sent.ts[-1] if n else None} instead of {end}")
        if not np.all(np.isfinite(sent.ys)):
            raise Violation("truncated", f"{what}: non-finite state returned as success")
        if M is not None and sent.steps > M:
            raise Violation("over-budget", f"{what}: took {sent.steps} steps with a budget "
                                           f"of {M}")
        if not fits and sure:
            raise Violation("over-budget", f"{what}: came back with {sent.steps} steps, the "
                                           f"problem takes {S} and the budget is {M}")
        if abs(sent.steps - S) > max(2 * loose, 2 if mode != "fixed" else 0):
            raise Violation("step-count", f"{what}: took {sent.steps} steps, the integrator "
                                          f"takes {S} on this problem")
        # the answer is the one an ample budget gives
        ref = W.propagate(ctx, orb, leg, x0, **{**over, **(
            {"max_steps": 5000} if "max_steps" in over else {})})
        m = min(len(ref.ts), n)
        b = 1e-8 if x64 else 1e-3
        e = W.err_scaled(orbit, sent.ys[-1], ref.ys[m - 1])
        run.metric("same-answer" + ("" if x64 else "/f32"), e / b)
        if len(ref.ts) != n and not loose or e > b:
            raise Violation("changed", f"{what}: the budget {M} changes the answer by {e:.2e}")


def shrink(plan):
    for k, op in enumerate(plan["ops"]):
        if "chaos" in op:
            o2 = {a: b for a, b in op.items() if a != "chaos"}
            yield {**plan, "ops": plan["ops"][:k] + [o2] + plan["ops"][k + 1:]}
