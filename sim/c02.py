"""C02: analytic propagation is independent of how time is cut up."""

from __future__ import annotations

import math

import numpy as np

from . import lib
from . import refmodel as ref
from . import world as W
from .core import Violation

# The library's solver recompiles on every call (0.9 s); with JAX's compiled
# loops switched off the same code takes 0.2 s, so most float64 runs do that.


def _dt(rng, orbit, T, far):
    k = rng.random()
    if k < 0.35:
        d = rng.uniform(-1, 1) * 12 * T
    elif k < 0.48:
        d = rng.choice([-1, 1]) * 10 ** rng.uniform(-4, 0) * T
    elif k < 0.72:
        d = rng.uniform(-1, 1) * far * T
    elif k < 0.92 and orbit["e"] < 0.995:
        d = rng.choice([-2, -1, -0.5, 0.5, 1, 2, rng.uniform(-15, 15), rng.uniform(-15, 15)])
        d *= W.period(orbit)
        if abs(d) > far * T:
            d = rng.uniform(-1, 1) * far * T
    elif k < 0.95:
        d = 0.0
    else:
        # land on periapsis: where the motion is fastest
        d = _to_periapsis(orbit)
        if abs(d) > far * T:
            d = rng.uniform(-1, 1) * T
    return float(d)


def _to_periapsis(orbit):
    e, nu, q, mu = orbit["e"], orbit["nu"], orbit["q"], orbit["mu"]
    nu = math.remainder(nu, 2 * math.pi)
    T = W.timescale(orbit)
    if abs(e - 1) < 1e-3:
        D = math.tan(nu / 2)
        return -T * math.sqrt(2.0) * (D + D**3 / 3)
    if e < 1:
        E = 2 * math.atan(math.sqrt((1 - e) / (1 + e)) * math.tan(nu / 2))
        return -(E - e * math.sin(E)) * T / (1 - e) ** 1.5
    H = 2 * math.atanh(math.sqrt((e - 1) / (e + 1)) * math.tan(nu / 2))
    return -(e * math.sinh(H) - H) * T / (e - 1) ** 1.5


def generate(rng, index, tier, x64):
    orbit = W.gen_orbit(rng, emax=0.985, ehyp=rng.choice([2.0, 4.0, 10.0]) if x64 else 3.0)
    T = W.timescale(orbit)
    far = rng.choice([10, 30, 100, 100, 100]) if x64 else rng.choice([10, 30])
    ops = []
    jit = not x64 or rng.random() < 0.15
    for _ in range(rng.randint(2, 6) if not jit else rng.randint(1, 3)):
        k = rng.random()
        if k < 0.3:
            op = {"op": "jump", "ts": [_dt(rng, orbit, T, far)]}
            if rng.random() < 0.3:
                op["scalar"] = True
        elif k < 0.8:
            n = rng.choice([10, 32])
            ts = [_dt(rng, orbit, T, far) for _ in range(n)]
            if rng.random() < 0.5:
                ts.sort()
            if rng.random() < 0.4:
                ts[rng.randrange(n)] = ts[rng.randrange(n)]
                if rng.random() < 0.5:
                    ts[-1] = ts[0]
            op = {"op": "batch", "ts": ts}
        else:
            op = {"op": "home"}
        if op["op"] != "home":
            op["keep"] = rng.randrange(len(op["ts"]))
        f = rng.random()
        if f < 0.15:
            op["fault"] = "lost"
        elif f < 0.3 and op["op"] == "batch":
            op["fault"] = "reorder"
            op["perm"] = rng.sample(range(len(op["ts"])), len(op["ts"]))
        elif f < 0.4:
            op["fault"] = "dup"
        elif f < 0.5 and op["op"] == "batch":
            op["fault"] = "split"
            op["alone"] = rng.randrange(len(op["ts"]))
        ops.append(op)
    return {"orbit": orbit, "ops": ops,
            "mu_arg": rng.choice(["array", "float", "default"]),
            "jit": jit}


def ask(plan, ts, x, scalar=False):
    import jax
    import jax.numpy as jnp

    adx = lib.load()
    mu = plan["orbit"]["mu"]
    extra = (jnp.asarray(mu),)
    if plan["mu_arg"] == "float":
        extra = (mu,)
    elif plan["mu_arg"] == "default" and mu == 1.0:
        extra = ()
    x = jnp.asarray(np.asarray(x, float))
    t = float(ts[0]) if scalar else jnp.asarray(np.asarray(ts, float))
    old = jax.config.jax_disable_jit
    jax.config.update("jax_disable_jit", not plan["jit"])
    try:
        r, v = adx.prop.kepler(t, x[:3], x[3:], *extra)
        r, v = np.asarray(r, float), np.asarray(v, float)
    finally:
        jax.config.update("jax_disable_jit", old)
    n = len(ts)
    if r.shape != (n, 3) or v.shape != (n, 3):
        raise Violation("shape", f"{n} epochs gave shapes {r.shape} {v.shape}")
    return np.concatenate([r, v], axis=1)


def check_states(run, plan, x, ts, ys, what, inv0):
    orbit, x64 = plan["orbit"], plan["x64"]
    mu = orbit["mu"]
    grow = W.Growth(orbit, x, max(ts, key=abs) or 1.0)
    sx = "" if x64 else "/f32"
    bounds = []
    for t, y in zip(ts, ys):
        want = np.concatenate(ref.twobody(x[:3], x[3:], t, mu))
        amp = grow.to(t)
        b = W.kepler_bound(orbit, want, t, amp, x64)
        bounds.append((amp, b))
        if not np.all(np.isfinite(y)):
            raise Violation("nonfinite", f"{what}: no finite state at dt={t}")
        e = W.err_scaled(orbit, y, want)
        run.metric("state/" + orbit["conic"] + sx, e / b)
        if not e <= b:
            raise Violation("state", f"{what}: state after dt={t} is off by {e:.3e} "
                                     f"(allowed {b:.3e}), {orbit['conic']} e={orbit['e']}")
        # integrals of motion, relative to the state this call started from
        rn = float(np.linalg.norm(y[:3]))
        kin = 0.5 * float(y[3:] @ y[3:])
        E, h, ev = ref.invariants(y[:3], y[3:], mu)
        E0, h0, ev0 = inv0(x)
        eps = 2e-15 if x64 else 1.2e-7
        # F*Gt-G*Ft = 1 only up to round-off of its terms
        far = max(1.0, rn / orbit["q"], np.linalg.norm(x[:3]) / orbit["q"])
        k = 300 * eps * amp * far
        se = mu / orbit["q"]
        for name, got, ref0, sc in (
                ("energy", E, E0, se),
                ("angular momentum", h, h0, math.sqrt(mu * orbit["q"])),
                ("eccentricity vector", ev, ev0, 1.0)):
            d = float(np.max(np.abs(np.asarray(got) - np.asarray(ref0)))) / sc
            run.metric(name.split()[0] + sx, d / k)
            if not d <= k:
                raise Violation("integral", f"{what}: {name} changed by {d:.3e} "
                                            f"(allowed {k:.3e}) over dt={t}")
    return bounds


def execute(plan, run, ctx):
    orbit = plan["orbit"]
    mu, T = orbit["mu"], W.timescale(orbit)
    x0 = np.asarray(orbit["x0"], float)
    if not plan["x64"]:
        x0 = x0.astype(np.float32).astype(float)
    t, x, bound = 0.0, x0, 0.0
    inv0 = lambda s: ref.invariants(s[:3], s[3:], mu)  # noqa: E731
    run.log("orbit", orbit["units"], orbit["conic"], orbit["e"])
    for k, op in enumerate(plan["ops"]):
        run.ops += 1
        fault = op.get("fault")
        if op["op"] == "home":
            ts, keep = [-t], 0
        else:
            ts, keep = list(op["ts"]), min(op["keep"], len(op["ts"]) - 1)
        if not plan["x64"]:
            ts = [float(np.float32(a)) for a in ts]
        what = f"op {k} ({op['op']}, {len(ts)} epochs)"
        run.sig.append(f"{op['op']}{len(ts)}/{fault}/{orbit['conic']}/"
                       f"{sum(a < 0 for a in ts)}/{keep}")
        ys = ask(plan, ts, x, op.get("scalar", False))
        run.log(op["op"], t, np.asarray(ts), ys)
        run.sim_time += sum(abs(a) for a in ts) / T
        if any(a < 0 for a in ts):
            run.fault("clock-set-back", sum(a < 0 for a in ts))
        bounds = check_states(run, plan, x, ts, ys, what, inv0)
        if fault == "lost":
            run.fault("answer-lost")
            continue
        if fault == "dup":
            run.fault("duplicate-delivery")
            again = ask(plan, ts, x, op.get("scalar", False))
            if not np.array_equal(again, ys):
                raise Violation("redelivery", f"{what}: asked twice, answered differently")
        if fault == "reorder":
            run.fault("reordered-batch")
            perm = [p for p in op["perm"] if p < len(ts)]
            zs = ask(plan, [ts[p] for p in perm], x)
            check_states(run, plan, x, [ts[p] for p in perm], zs, what + " reordered", inv0)
        if fault == "split":
            run.fault("batch-split")
            i = min(op["alone"], len(ts) - 1)
            z = ask(plan, [ts[i]], x)
            check_states(run, plan, x, [ts[i]], z, what + " asked alone", inv0)
        amp, b = bounds[keep]
        t, x, bound = t + ts[keep], np.array(ys[keep]), amp * bound + b
        if not plan["x64"]:
            bound += 1e-7 * W.speed(orbit, x) * abs(t) / T
        want = np.concatenate(ref.twobody(x0[:3], x0[3:], t, mu))
        e = W.err_scaled(orbit, x, want)
        run.metric("history" + ("" if plan["x64"] else "/f32"), e / (bound + 1e-11))
        if not e <= bound + 1e-11:
            raise Violation("history", f"after {what} the history is {e:.3e} away from "
                                       f"one jump over {t} (allowed {bound:.3e})")
    run.log("end", t, x)


def shrink(plan):
    for k, op in enumerate(plan["ops"]):
        if "fault" in op:
            o2 = {a: b for a, b in op.items() if a not in ("fault", "perm", "alone")}
            yield {**plan, "ops": plan["ops"][:k] + [o2] + plan["ops"][k + 1:]}
        n = len(op.get("ts", []))
        if n > 1 and op.get("fault") != "reorder":
            for half in (op["ts"][: n // 2], op["ts"][n // 2:]):
                o2 = {**op, "ts": half, "keep": min(op["keep"], len(half) - 1)}
                yield {**plan, "ops": plan["ops"][:k] + [o2] + plan["ops"][k + 1:]}
