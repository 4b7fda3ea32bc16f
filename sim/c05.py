"""C05: the minimum-radius stopping condition ends every mode at the descent."""

from __future__ import annotations

import math

import numpy as np
from scipy.optimize import brentq

from . import chaos, lib
from . import refmodel as ref
from . import world as W
from .core import Skip, Violation


def generate(rng, index, tier, x64):
    conics = ("ell", "ell", "par", "hyp")
    for _ in range(rng.choice([1, 6, 6, 6])):
        orbit = W.gen_orbit(rng, conics=conics, emin=0.1, emax=0.85, ehyp=2.5)
        if math.cos(orbit["nu"]) < 0.8:   # well before or after periapsis
            break
    forces = W.gen_forces(rng, orbit, W.lane_field(index))
    T = W.timescale(orbit)
    ops = []
    for _ in range(rng.randint(1, 4)):
        # mostly towards periapsis, so that there is a descent to notice
        down = -1 if math.sin(orbit["nu"]) > 0 else 1
        span = rng.choice([down, down, down, down, -down]) \
            * rng.uniform(1.0, 10.0 if x64 else 6.0) * T
        leg = W.gen_leg(rng, span, T, W.MODES, W.lane_ctl(index, x64), sizes=(8,))
        if leg["mode"] == "fixed":
            leg["dt"] = math.copysign(rng.uniform(0.01, 0.1) * T, span)
        op = {"leg": leg, "root": rng.random() < 0.5,
              # where rmin lies: between lowest and start radius, or below all
              "depth": rng.choice(["cross", "cross", "cross", "never"]),
              "frac": rng.random()}
        if leg["mode"] != "fixed" and rng.random() < 0.3:
            op["chaos"] = chaos.gen_chaos(rng)
        ops.append(op)
    return {"orbit": orbit, "forces": forces, "ops": ops}


def event(ctx, root, x64, length):
    import jax.numpy as jnp
    import optimistix as optx
    from astrodynx import diffeq

    adx = lib.load()
    if not root:
        if "event" not in ctx.cache:
            ctx.cache["event"] = diffeq.Event(adx.events.radius_islow)
        return ctx.cache["event"]
    # reachable in this precision and in these units (arrays: no recompilation)
    rtol, atol = (1e-11, 1e-11 * length) if x64 else (1e-5, 1e-5 * length)
    rf = optx.Newton(rtol=jnp.asarray(rtol), atol=jnp.asarray(atol))
    return diffeq.Event(adx.events.radius_islow, root_finder=rf)


def profile(tr, span):
    """Radius along the reference trajectory, finely sampled."""
    n = 1500
    ts = np.linspace(0.0, span, n + 1)
    ys = tr.sol.sol(ts)
    ys[:, -1] = tr.end
    return ts, np.linalg.norm(ys[:3], axis=0)


def execute(plan, run, ctx):
    import jax.numpy as jnp

    from astrodynx import diffeq
    adx = lib.load()
    orbit, forces, x64 = plan["orbit"], plan["forces"], plan["x64"]
    T, q = W.timescale(orbit), orbit["q"]
    x0 = np.asarray(orbit["x0"], float)
    if not x64:
        x0 = x0.astype(np.float32).astype(float)
    import diffrax
    for k, op in enumerate(plan["ops"]):
        leg, spec = op["leg"], op.get("chaos")
        span, mode = leg["span"], leg["mode"]
        sgn = math.copysign(1.0, span)
        what = f"op {k} ({mode}{', root finder' if op['root'] else ''})"
        try:
            tr = ref.Trajectory(x0, span, **W.ref_kwargs(orbit, forces))
        except ArithmeticError as e:
            raise Skip(str(e))
        ts, rr = profile(tr, span)
        r0, rlow = float(rr[0]), float(rr.min())
        if op["depth"] == "cross":
            if r0 - rlow < 0.05 * q:
                run.probe("no-descent-in-span")
                rmin = rlow - (0.02 + 0.2 * op["frac"]) * q
            else:
                rmin = rlow + (r0 - rlow) * (0.05 + 0.85 * op["frac"])
        else:
            rmin = rlow - (0.02 + 0.5 * op["frac"]) * q
        rmin = float(np.float32(rmin)) if not x64 else rmin
        cross = bool(rlow < rmin)
        over = {}
        if spec:
            over["stepsize_controller"] = chaos.chaos(
                ctx, spec, W.TOL[leg.get("ctl", "default")])
            run.fault("spurious-rejection-stream")
        orb = adx.prop.OrbDynx(W.term(ctx, forces["kind"]),
                               W.args_for(orbit, forces, rmin=rmin),
                               event(ctx, op["root"], x64, q))
        sent = W.propagate(ctx, orb, leg, x0, **over)
        stopped = bool(sent.sol.result == diffrax.RESULTS.event_occurred)
        run.ops += 1
        run.sim_time += abs(span) / T
        run.log(mode, op["root"], rmin, span, sent.raw_ts, sent.raw_ys, stopped)
        run.sig.append(f"{mode}/{leg.get('save')}/{op['root']}/{cross}/{stopped}/"
                       f"{sgn > 0}/{sent.steps}/{bool(spec)}")
        nref = len(tr.sol.sol.ts)
        grow = W.Growth(orbit, x0, span)
        if not np.all(np.isfinite(sent.ys)):
            raise Violation("nonfinite", f"{what}: non-finite state at a finite epoch")
        # every returned state is a state of the trajectory
        n = len(sent.ts)
        idx = range(n) if n <= 8 else sorted({0, n // 3, n // 2, n - 2, n - 1})
        slack_t = 0.0
        for i in idx:
            t = float(sent.ts[i])
            tt = min(max(t, min(0.0, span)), max(0.0, span))
            if abs(t - tt) > 1e-6 * abs(span):
                raise Violation("epoch", f"{what}: epoch {t} outside [0, {span}]")
            b = W.leg_bound(orbit, leg, grow.to(tt), nref, x64)
            if op["root"] and i == n - 1:   # comes from the dense interpolant
                b = W.leg_bound(orbit, {**leg, "ts": [1]} if mode != "fixed" else leg,
                                grow.to(tt), nref, x64)
            if mode == "fixed":
                b += 2.0 * (abs(leg["dt"]) / T) ** 5 * grow.to(tt) \
                    + 0.05 * (abs(leg["dt"]) / T) ** 4 * grow.to(tt)
            if not x64:
                b += W.speed(orbit, tr.at(tt)) * 4e-7 * abs(span) / T
            slack_t = max(slack_t, b)
            e = W.err_scaled(orbit, sent.ys[i], tr.at(tt))
            run.metric(("state/root" if op["root"] else "state/") + mode
                       + ("" if x64 else "/f32"), e / b)
            if not e <= b:
                raise Violation("state", f"{what}: state at epoch {t} is off the "
                                         f"trajectory by {e:.3e} (allowed {b:.3e})")
        eps_root = (1e-7 if x64 else 5e-4) * q + 2 * rmin * (1e-12 if x64 else 1e-6)
        eps_r = 4 * slack_t * q + (1e-12 if x64 else 1e-6) * rmin
        # the steps the integrator takes on this problem without the condition
        steps = _steps(ctx, plan, leg, x0, spec)
        hmax = float(np.max(np.abs(np.diff(steps)))) if len(steps) > 1 else abs(span)
        under = rr < rmin - eps_r
        if not cross:
            if stopped:
                raise Violation("false-stop", f"{what}: stopped at "
                                f"{sent.ts[-1] if n else None} although the radius never "
                                f"falls below {rmin} (lowest {rlow})")
            _complete(leg, sent, span, what)
            run.probe("never-below")
            continue
        first = int(np.argmax(rr < rmin))
        t_star = brentq(lambda t: tr.radius(t) - rmin, ts[first - 1], ts[first],
                        xtol=1e-14 * abs(span), rtol=1e-15)
        rdot = abs(float(np.dot(tr.at(t_star)[:3], tr.at(t_star)[3:]))
                   / tr.radius(t_star))
        eps_t = eps_r / max(rdot, 1e-3 * q / T) + (1e-10 if x64 else 2e-5) * abs(span)
        # how long the first dips last: a dip shorter than a step may be missed
        must = None
        i = first
        while i < len(ts):
            j = i
            while j < len(ts) and rr[j] < rmin:
                j += 1
            if abs(ts[min(j, len(ts) - 1)] - ts[i]) > 2.0 * hmax + 4 * eps_t and \
                    np.any(under[i:j]):
                must = i
                break
            i = j
            while i < len(ts) and rr[i] >= rmin:
                i += 1
        if not stopped:
            if must is not None:
                raise Violation("missed-stop", f"{what}: not stopped although the radius is "
                                f"below {rmin} from t={t_star} for more than two steps")
            run.probe("short-dip-missed")
            _complete(leg, sent, span, what)
            continue
        run.probe("stopped-root" if op["root"] else "stopped")
        saves_end = mode in ("final", "adaptive", "fixed") or leg.get("save") in ("t1", "steps")
        limit = abs(ts[must]) + 2.0 * hmax + eps_t if must is not None else 1.00001 * abs(span)
        if saves_end:
            if n == 0:
                raise Violation("no-output", f"{what}: stopped without a final state")
            te = float(sent.ts[-1])
            re = float(np.linalg.norm(sent.ys[-1][:3]))
            if op["root"]:
                if abs(te) > limit:
                    raise Violation("late-stop", f"{what}: stopped at {te}, the radius is "
                                                 f"below {rmin} from {t_star} on")
                run.metric("root-radius" + ("" if x64 else "/f32"),
                           abs(re - rmin) / eps_root)
                if abs(re - rmin) > eps_root:
                    raise Violation("root", f"{what}: stopped at radius {re}, not at the "
                                            f"crossing of {rmin}")
                if must == first and abs(te - t_star) > eps_t + 1e-9 * T:
                    raise Violation("root", f"{what}: stopped at {te}, the crossing is at "
                                            f"{t_star}")
            else:
                if abs(te) < abs(t_star) - eps_t:
                    raise Violation("early-stop", f"{what}: stopped at {te}, before the "
                                                  f"descent at {t_star}")
                if abs(te) > limit:
                    raise Violation("late-stop", f"{what}: stopped at {te}, the radius is "
                                                 f"below {rmin} from {t_star} on")
                if re >= rmin + eps_r:
                    raise Violation("early-stop", f"{what}: stopped above the minimum "
                                                  f"radius ({re} >= {rmin})")
            if mode in ("adaptive", "fixed") or leg.get("save") == "steps":
                if sent.ts[0] != 0.0 or np.any(np.diff(sent.ts) * sgn <= 0):
                    raise Violation("epochs", f"{what}: epochs are not 0 and then "
                                              "strictly monotone")
                rs = np.linalg.norm(sent.ys[:, :3], axis=1)
                low = np.nonzero(rs[:-1] < rmin - eps_r)[0]
                if len(low):
                    raise Violation("ran-past", f"{what}: {len(rs) - 1 - low[0]} more states "
                                                "after the first one below the minimum")
                if np.any(np.isfinite(sent.raw_ys[n:])):
                    raise Violation("padding", f"{what}: finite state in an unused slot")
        else:
            dt_ = np.float64 if x64 else np.float32
            want = np.asarray(leg["ts"], dt_).astype(float)
            if not np.array_equal(sent.ts, want[:n]) or np.any(np.isfinite(sent.raw_ts[n:])):
                raise Violation("epochs", f"{what}: outputs {sent.raw_ts} are not a prefix of "
                                          f"the request {want}")
            lost = [t for t in want[n:] if abs(t) < abs(t_star) - eps_t]
            if lost:
                raise Violation("early-stop", f"{what}: epochs {lost} before the descent at "
                                              f"{t_star} are missing")
            far = abs(t_star) + eps_t if op["root"] and must == first else limit
            late = [t for t in want[:n] if abs(t) > far]
            if late:
                raise Violation("ran-past", f"{what}: outputs at {late} after the descent at "
                                            f"{t_star}")


def _complete(leg, sent, span, what):
    want = leg["ts"][-1] if leg.get("ts") else span
    if len(sent.ts) == 0 or abs(sent.ts[-1] - want) > 1e-5 * abs(span) + 1e-12:
        raise Violation("truncated", f"{what}: not stopped, yet the output ends at "
                        f"{sent.ts[-1] if len(sent.ts) else None} instead of {want}")


def _steps(ctx, plan, leg, x0, spec):
    """Step ends of the bare integrator on the same problem (no library code
    but the gravity terms): how finely the condition can be noticed."""
    import diffrax
    import jax.numpy as jnp

    span = leg["span"]
    if leg["mode"] == "fixed":
        h = abs(leg["dt"])
        return np.minimum(np.arange(int(abs(span) / h) + 2) * h, abs(span))
    orbit, forces = plan["orbit"], plan["forces"]
    ctl = W.controller(ctx, leg.get("ctl", "default"))
    if spec:
        ctl = chaos.chaos(ctx, spec, W.TOL[leg.get("ctl", "default")])
    sol = diffrax.diffeqsolve(
        W.term(ctx, forces["kind"]), diffrax.Tsit5(), 0, jnp.asarray(float(span)),
        y0=jnp.asarray(x0), args=W.args_for(orbit, forces), max_steps=4096,
        dt0=None if leg.get("dt0") is None else jnp.asarray(float(leg["dt0"])),
        stepsize_controller=ctl, saveat=diffrax.SaveAt(t0=True, steps=True))
    t = np.asarray(sol.ts, float)
    t = t[np.isfinite(t)]
    return np.abs(t)


def shrink(plan):
    for k, op in enumerate(plan["ops"]):
        if "chaos" in op:
            o2 = {a: b for a, b in op.items() if a != "chaos"}
            yield {**plan, "ops": plan["ops"][:k] + [o2] + plan["ops"][k + 1:]}
