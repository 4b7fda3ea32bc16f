"""C15: what the path checks predict comes true when the transfer is flown."""

from __future__ import annotations

import math

import numpy as np

from . import lib
from . import refmodel as ref
from . import world as W
from .core import Violation

PI = math.pi


def generate(rng, index, tier, x64):
    o = W.gen_orbit(rng, emax=0.95, ehyp=5.0)
    if o["e"] < 0.005:
        o["e"] = rng.choice([0.005, 0.02, 0.1])
        r, v = ref.coe_to_state(o["q"] * (1 + o["e"]), o["e"], o["inc"], o["raan"], o["argp"],
                                o["nu"], o["mu"])
        o["x0"] = [float(t) for t in np.concatenate([r, v])]
    T, P = W.timescale(o), W.period(o)
    far = 40.0 if x64 else 10.0
    ops = []
    for _ in range(rng.randint(2, 6)):
        k = rng.random()
        if math.isfinite(P):
            span = rng.uniform(0.01, 0.99) * P
            if k < 0.25:
                span = rng.choice([0.5, 0.25, 0.75, 0.02, 0.97]) * P * rng.uniform(0.98, 1.02)
            span = min(span, 4 * far * T)
        else:
            span = rng.uniform(0.02, far if k < 0.4 else 4.0) * T
        op = {"op": "transfer", "span": span, "by": rng.choice(["ref", "ref", "ref", "num", "kepler"]),
              "rmin": rng.choice([rng.uniform(0.3, 2.5), 1 + rng.choice([-1, 1]) * 10 ** rng.uniform(-4, -1)]),
              "stay": rng.random() < 0.5, "cut": rng.random(),
              "fault": rng.choice([None, None, "crash", "dup", "waypoint-lost"])}
        if rng.random() < 0.4:
            e = rng.uniform(0.0, 0.9)
            op = {"op": "revs", "e": e, "q": o["L"] * rng.uniform(1.0, 2.0),
                  "nu1": rng.choice([PI, rng.uniform(0, 2 * PI)]),
                  "nu2": rng.uniform(0, 2 * PI), "turns": rng.randint(0, 7),
                  "part": rng.random(), "slack": rng.choice([1.0, 1.0, rng.uniform(0.3, 1.0)]),
                  "py": rng.random() < 0.3, "fault": rng.choice([None, "dup"])}
        ops.append(op)
    return {"orbit": o, "ops": ops, "mu_arg": rng.choice(["array", "float"])}


def sweep(x, span, mu):
    """Angle swept and whether periapsis is passed, from the flight itself:
    (angle, passes, margins) by the reference solver."""
    p, e, inc, raan, argp, nu = ref.state_to_coe(x[:3], x[3:], mu)
    r, v = ref.twobody(x[:3], x[3:], span, mu)
    y = np.concatenate([r, v])
    nu2 = ref.state_to_coe(r, v, mu)[5]
    # less than one revolution forward: the anomaly grows monotonically
    d = (nu2 - nu) % (2 * PI)
    passes = nu + d > 2 * PI
    near = min(abs(math.remainder(nu, 2 * PI)), abs(math.remainder(nu2, 2 * PI)))
    return y, d, passes, near, e


def walk(x, span, mu, n=24):
    """Radius and swept angle sampled along the flight (independent of the
    elements): lowest radius, angle, sign change of the radial velocity."""
    low = float(np.linalg.norm(x[:3]))
    ang, prev, up = 0.0, x[:3], float(x[:3] @ x[3:]) > 0
    turned = False
    for k in range(1, n + 1):
        r, v = ref.twobody(x[:3], x[3:], span * k / n, mu)
        c = float(np.linalg.norm(np.cross(prev, r)))
        ang += math.atan2(c, float(prev @ r))
        rising = float(r @ v) > 0
        if rising and not up:
            turned = True
        up, prev = rising, r
        low = min(low, float(np.linalg.norm(r)))
    return low, ang, turned


def execute(plan, run, ctx):
    import jax
    import jax.numpy as jnp

    adx = lib.load()
    tw = adx.twobody
    o, x64 = plan["orbit"], plan["x64"]
    rnd = (lambda z: np.asarray(z, float)) if x64 else (
        lambda z: np.asarray(z, np.float32).astype(float))
    mu = float(rnd(o["mu"]))
    o = {**o, "mu": mu}
    T = W.timescale(o)
    eps = 2.3e-16 if x64 else 1.2e-7
    m = mu if plan["mu_arg"] == "float" else jnp.asarray(mu)
    x, epoch = rnd(o["x0"]), 0.0
    zero = {"kind": "pm", "R_eq": 1.0, "J2": 0.0, "J3": 0.0, "J4": 0.0, "thrust": 0.0,
            "omega": 0.0}
    key = "vmapped"
    if key not in ctx.cache:
        ctx.cache[key] = (
            jax.jit(jax.vmap(tw.is_short_way, in_axes=(None, None, 0))),
            jax.jit(jax.vmap(tw.pass_perigee, in_axes=(None, None, 0, None))))
    for k, op in enumerate(plan["ops"]):
        run.ops += 1
        what = f"op {k} ({op['op']})"
        fault = op.get("fault")
        if op["op"] == "revs":
            revolutions(run, plan, op, what, mu, rnd, eps, k)
            continue
        span = op["span"]
        y, d, passes, near, e = sweep(x, span, mu)
        q = float(np.linalg.norm(np.cross(x[:3], x[3:]))) ** 2 / mu / (1 + e)
        low, ang, turned = walk(x, span, mu)
        if op["by"] == "num":
            orb = adx.prop.OrbDynx(W.term(ctx, "pm"), W.args_for(o, zero))
            yl = W.propagate(ctx, orb, {"mode": "final", "span": span}, x).ys[-1]
        elif op["by"] == "kepler":
            old = jax.config.jax_disable_jit
            jax.config.update("jax_disable_jit", True)
            try:
                r, v = adx.prop.kepler(jnp.asarray([span]), jnp.asarray(x[:3]),
                                       jnp.asarray(x[3:]), jnp.asarray(mu))
            finally:
                jax.config.update("jax_disable_jit", old)
            yl = np.concatenate([np.asarray(r, float)[0], np.asarray(v, float)[0]])
        else:
            yl = rnd(y)
        if not np.all(np.isfinite(yl)):
            raise Violation("nonfinite", f"{what}: the flight has no finite end")
        run.sim_time += span / T
        # how far the flown end may be from the exact one, as an angle
        off = float(np.linalg.norm(yl[:3] - y[:3]) / np.linalg.norm(y[:3]))
        margin = 10 * off + 300 * eps * (1 + 1 / e) + (1e-7 if x64 else 1e-3)
        r1, v1, r2 = (jnp.asarray(z) for z in (x[:3], x[3:], yl[:3]))
        # a waypoint in between is predicted along with the end
        yc, dc, pc, nc, _ = sweep(x, span * op["cut"], mu)
        both = jnp.asarray(np.array([yl[:3], rnd(yc)[:3]]))
        short = bool(tw.is_short_way(r1, v1, r2))
        peri = bool(tw.pass_perigee(r1, v1, r2, m))
        vs, vp = (np.asarray(ctx.cache[key][0](r1, v1, both)),
                  np.asarray(ctx.cache[key][1](r1, v1, both, jnp.asarray(mu))))
        run.log("predict", k, short, peri, vs, vp, d, int(passes))
        run.sig.append(f"{op['by']}/{fault}/{short}/{peri}/{int(d * 4)}/{o['conic']}")
        if fault == "dup":
            run.fault("duplicate-query")
            if bool(tw.is_short_way(r1, v1, r2)) != short or \
                    bool(tw.pass_perigee(r1, v1, r2, m)) != peri:
                raise Violation("redelivery", f"{what}: asked twice, answered differently")
        for name, dd, pp, nn, s, p in (("end", d, passes, near, (short, vs[0]), (peri, vp[0])),
                                       ("waypoint", dc, pc, nc, (vs[1],), (vp[1],))):
            if min(abs(math.sin(dd)), 1) < margin:
                run.probe("on-the-boundary")
                continue
            for z in s:
                if bool(z) != (dd < PI):
                    raise Violation("short-way", f"{what}: {name}: predicted "
                                    f"{'short' if z else 'long'} way, the flight swept {dd:.6f} rad")
            if nn < margin:
                run.probe("on-the-boundary")
                continue
            for z in p:
                if bool(z) != pp:
                    raise Violation("perigee", f"{what}: {name}: predicted "
                                    f"{'a' if z else 'no'} periapsis passage, the flight from "
                                    f"anomaly through {dd:.6f} rad has {'one' if pp else 'none'}")
            if name == "end" and nn > 1e-6 and abs(ang - dd) < 1e-6 and span / 24 < 0.1 * T and \
                    turned != pp:
                raise RuntimeError(f"{what}: the two references disagree")
        rmin = float(rnd(q * op["rmin"]))
        lower = bool(tw.rp_islower_rmin(rmin if op["stay"] else jnp.asarray(rmin), r1, v1, m))
        g = 1 + float(x[3:] @ x[3:]) * float(np.linalg.norm(x[:3])) / mu
        tol = 100 * eps * q * g * max(1.0, np.linalg.norm(x[:3]) / q)
        run.log("lower", lower, rmin)
        if abs(rmin - q) > tol and lower != (q < rmin):
            raise Violation("rmin", f"{what}: lowest radius {q!r} predicted "
                                    f"{'below' if lower else 'not below'} {rmin!r}")
        if passes and near > 1e-6 and abs(low - q) < 1e-3 * q and abs(rmin - low) > 2e-3 * q \
                and lower != (low < rmin):
            raise Violation("rmin", f"{what}: the flight's lowest radius {low!r} against {rmin!r}, "
                                    f"predicted {lower}")
        # the same is predicted from the end of the transfer
        g2 = 1 + float(yl[3:] @ yl[3:]) * float(np.linalg.norm(yl[:3])) / mu
        S = W.scale_state(o)
        drift = float(np.max(np.abs(yl - y) / S)) * 20 * (1 + np.linalg.norm(yl[:3]) / o["q"]) ** 2
        tol2 = tol + q * drift + 100 * eps * q * g2 * max(1.0, np.linalg.norm(yl[:3]) / q)
        lower2 = bool(tw.rp_islower_rmin(rmin, r2, jnp.asarray(yl[3:]), m))
        if abs(rmin - q) > tol2 and lower2 != (q < rmin):
            raise Violation("rmin", f"{what}: from the end, lowest radius {q!r} predicted "
                                    f"{'below' if lower2 else 'not below'} {rmin!r}")
        if fault == "crash":
            run.fault("crash-before-checkpoint")
            continue
        if fault == "waypoint-lost":
            run.fault("restart-from-waypoint")
            x, epoch = rnd(yc), epoch + span * op["cut"]
        else:
            x, epoch = rnd(yl), epoch + span
        if np.linalg.norm(x[:3]) > 60 * o["q"]:
            x = rnd(o["x0"])         # out of the region of interest: start over
    run.log("end")


def revolutions(run, plan, op, what, mu, rnd, eps, k):
    """Fly several revolutions of an orbit above the minimum periapsis."""
    import jax.numpy as jnp

    tw = lib.load().twobody
    e, q = op["e"], float(rnd(op["q"]))
    a = q / (1 - e)
    P = 2 * PI * math.sqrt(a**3 / mu)

    def t_of(nu):
        E = 2 * math.atan2(math.sqrt(1 - e) * math.sin(nu / 2),
                           math.sqrt(1 + e) * math.cos(nu / 2)) % (2 * PI)
        return (E - e * math.sin(E)) / (2 * PI) * P

    first = (t_of(op["nu2"]) - t_of(op["nu1"])) % P
    tof = float(rnd(first + op["turns"] * P))
    r1, v1 = ref.coe_to_state(q * (1 + e), e, 0.5, 1.0, 2.0, op["nu1"], mu)
    r2, _ = ref.twobody(r1, v1, tof, mu)
    n1, n2 = float(rnd(np.linalg.norm(r1))), float(rnd(np.linalg.norm(r2)))
    rp_min = float(rnd(q * op["slack"]))
    conv = float if op["py"] else jnp.asarray
    args = [conv(z) for z in (rp_min, n1, n2, tof, mu)]
    got = float(tw.nmax_by_periapsis(*args))
    swapped = float(tw.nmax_by_periapsis(args[0], args[2], args[1], args[3], args[4]))
    run.log("nmax", k, got, tof, n1, n2, rp_min)
    run.sig.append(f"revs/{op['turns']}/{got}/{op['slack'] == 1.0}")
    if op.get("fault") == "dup":
        run.fault("duplicate-query")
        if float(tw.nmax_by_periapsis(*args)) != got:
            raise Violation("redelivery", f"{what}: asked twice, answered differently")
    # complete revolutions of this flight, which respects the limit
    turns = tof / P
    edge = 50 * eps * (1 + turns)
    flown = math.floor(turns - edge)
    if not math.isfinite(got) or got != math.floor(got) or got < 0:
        raise Violation("count", f"{what}: the maximum number of revolutions is {got}")
    if flown > got:
        raise Violation("revolutions", f"{what}: a flight above the limit makes {flown} complete "
                                       f"revolutions, the maximum was predicted as {got}")
    # the orbit from the limit up to the farther point makes exactly that many
    best = tof / (2 * PI) * math.sqrt(mu / (0.5 * (max(n1, n2) + rp_min)) ** 3)
    if abs(best - round(best)) > 100 * eps * (1 + best):
        if got != math.floor(best) or swapped != got:
            raise Violation("revolutions", f"{what}: predicted {got} (points exchanged {swapped}), "
                                           f"the fastest flight makes {best:.9f}")
    run.sim_time += tof / math.sqrt(q**3 / mu)


def shrink(plan):
    for k, op in enumerate(plan["ops"]):
        if op.get("fault"):
            yield {**plan, "ops": plan["ops"][:k] + [{**op, "fault": None}] + plan["ops"][k + 1:]}
