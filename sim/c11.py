"""C11: orbits saved as classical elements are restored as the same orbit."""

from __future__ import annotations

import math

import numpy as np

from . import lib
from . import refmodel as ref
from . import world as W
from .core import Skip, Violation

PI = math.pi
QUADRANT = (0.0, PI / 2, PI, 3 * PI / 2)


def angle(rng, k=0.25):
    """Any angle, often on or next to a quadrant boundary."""
    if rng.random() < k:
        d = rng.choice([0.0, 0.0, 1e-3, 1e-6, 0.05]) * rng.choice([-1, 1])
        return (rng.choice(QUADRANT) + d) % (2 * PI)
    return rng.uniform(0, 2 * PI)


def gen(rng, units=None):
    o = W.gen_orbit(rng, emax=0.985, ehyp=6.0, units=units)
    e = o["e"]
    if e < 2e-3:
        e = rng.choice([2e-3, 0.01, rng.uniform(2e-3, 0.1)])
    k = rng.random()
    inc = o["inc"]
    if k < 0.15:
        inc = rng.choice([0.002, PI - 0.002, PI / 2, PI / 2, 0.02, PI - 0.02])
    inc = min(max(inc, 0.002), PI - 0.002)
    nu = angle(rng, 0.2)
    if e > 1 - 1e-3:
        lim = (math.acos(-1 / e) if e > 1 else PI) * 0.8
        nu = math.remainder(nu, 2 * PI)
        nu = max(-lim, min(lim, nu))
    o.update(e=e, inc=inc, raan=angle(rng), argp=angle(rng), nu=nu)
    r, v = ref.coe_to_state(o["q"] * (1 + e), e, inc, o["raan"], o["argp"], nu, o["mu"])
    o["x0"] = [float(t) for t in np.concatenate([r, v])]
    return o


def generate(rng, index, tier, x64):
    orbit = gen(rng)
    T = W.timescale(orbit)
    far = 20.0 if x64 else 8.0
    ops, t = [], 0.0
    for _ in range(rng.randint(2, 7)):
        k = rng.random()
        if k < 0.5:
            span = rng.uniform(-far, far) * rng.random() * T
            if abs(t + span) > far * T:
                span = -t
            if abs(span) < 1e-3 * T:
                continue
            op = {"op": "fly", "span": span, "by": rng.choice(["lib", "ref", "ref"]),
                  "fault": rng.choice([None, None, "crash", "torn", "dup"])}
            if op["fault"] not in ("crash", "torn"):
                t += span
        elif k < 0.7:
            op = {"op": "cycles", "n": rng.choice([1, 2, 5, 12])}
        elif k < 0.8:
            op = {"op": "jit"}
        else:
            n = rng.choice([3, 3, 2])
            op = {"op": "batch", "orbits": [gen(rng)["x0"] for _ in range(n)], "mus": None}
            one = [gen(rng) for _ in range(n)]
            op["orbits"] = [o["x0"] for o in one]
            op["mus"] = [o["mu"] for o in one]
            op["order"] = rng.sample(range(n), n)
        ops.append(op)
    return {"orbit": orbit, "ops": ops}


def arr(z):
    import jax.numpy as jnp
    return jnp.asarray(np.asarray(z, float))


def save(x, mu, f=None):
    adx = lib.load()
    out = (f or adx.rv2coe)(arr(x[..., :3]), arr(x[..., 3:]), arr(mu))
    return [np.asarray(z, float) for z in out]


def restore(el, mu, f=None):
    adx = lib.load()
    r, v = (f or adx.coe2rv)(*[arr(z) for z in el], arr(mu))
    return np.concatenate([np.asarray(r, float), np.asarray(v, float)], axis=-1)


def cond(x, mu):
    """Conditioning of the elements of a state: 1/e + 1/sin i, e, sin i."""
    p, e, inc, *_ = ref.state_to_coe(x[:3], x[3:], mu)
    s = math.sin(inc)
    if e < 1e-3 or s < 1e-3:
        raise Skip("circular or equatorial")
    return 1 / e + 1 / s, e, s, p


def dist(x, y, mu):
    """Difference of two states relative to their own size."""
    if not np.all(np.isfinite(x)):
        return math.inf
    r, v = np.linalg.norm(y[:3]), np.linalg.norm(y[3:])
    return max(float(np.max(np.abs(x[:3] - y[:3]))) / r,
               float(np.max(np.abs(x[3:] - y[3:]))) / v)


def judge_elements(run, el, x, mu, x64, what):
    c, e, s, p = cond(x, mu)
    eps = 2.3e-16 if x64 else 1.2e-7
    want = ref.state_to_coe(x[:3], x[3:], mu)
    # the velocity and radius enter the eccentricity vector with this gain
    g = 1 + float(np.dot(x[3:], x[3:])) * np.linalg.norm(x[:3]) / mu
    tol = [50 * eps * p, 40 * eps * g, 40 * eps / s, 40 * eps / s,
           60 * eps * g * (1 / s + 1 / e), 60 * eps * g / e]
    tol[2] = max(tol[2], 40 * eps)
    for k, name in enumerate(("semiparameter", "eccentricity", "inclination", "node",
                              "periapsis argument", "true anomaly")):
        got = float(el[k])
        d = abs(got - want[k])
        if k > 2:
            d = abs(math.remainder(got - want[k], 2 * PI))
            if not -1e-5 <= got <= 2 * PI + 1e-5:
                raise Violation("range", f"{what}: {name} {got} outside [0, 2 pi]")
        run.metric(f"element {name}" + ("" if x64 else "/f32"), d / tol[k])
        if not d <= tol[k]:
            raise Violation("elements", f"{what}: saved {name} is {got}, not {want[k]}")


def roundtrip(run, x, mu, x64, what, n=1, fs=(None, None)):
    c, e, s, p = cond(x, mu)
    g = 1 + float(np.dot(x[3:], x[3:])) * np.linalg.norm(x[:3]) / mu
    rr = max(1.0, np.linalg.norm(x[:3]) / p)
    tol = (40 * 2.3e-16 if x64 else 40 * 1.2e-7) * c * g * rr
    if tol > 0.05:
        raise Skip("ill conditioned in this precision")
    y = x
    for _ in range(n):
        el = save(y, mu, fs[0])
        judge_elements(run, el, y, mu, x64, what)
        y = restore(el, mu, fs[1])
        if y.shape != x.shape:
            raise Violation("shape", f"{what}: restored shape {y.shape}")
    d = dist(y, x, mu)
    run.metric("restored" + ("" if x64 else "/f32"), d / (tol * math.sqrt(n)))
    if not d <= tol * math.sqrt(n):
        raise Violation("restored", f"{what}: the restored state differs by {d:.3e} "
                                    f"(allowed {tol * math.sqrt(n):.3e})")
    return y, el, tol * math.sqrt(n)


def execute(plan, run, ctx):
    import jax

    adx = lib.load()
    orbit, x64 = plan["orbit"], plan["x64"]
    mu, T = orbit["mu"], W.timescale(orbit)
    rnd = (lambda z: np.asarray(z, float)) if x64 else (
        lambda z: np.asarray(z, np.float32).astype(float))
    mu = float(rnd(mu))
    x0 = rnd(orbit["x0"])
    forces = {"kind": "pm", "R_eq": 1.0, "J2": 0.0, "J3": 0.0, "J4": 0.0, "thrust": 0.0,
              "omega": 0.0}
    live = x0
    y, el, b0 = roundtrip(run, x0, mu, x64, "first checkpoint")
    disk = (0.0, el, b0)            # the durable checkpoint: elements at an epoch
    grow_ref = {**orbit, "mu": mu}
    for k, op in enumerate(plan["ops"]):
        kind = op["op"]
        what = f"op {k} ({kind})"
        run.ops += 1
        run.sig.append(f"{kind}/{op.get('by')}/{op.get('fault')}/{op.get('n')}")
        if kind == "fly":
            t, el, bound = disk
            x = restore(el, mu)             # every leg starts from the disk
            span = op["span"]
            try:
                if op["by"] == "lib":
                    orb = adx.prop.OrbDynx(W.term(ctx, "pm"), W.args_for(grow_ref, forces))
                    xn = W.propagate(ctx, orb, {"mode": "final", "span": span}, x).ys[-1]
                else:
                    xn = np.concatenate(ref.twobody(x[:3], x[3:], span, mu))
                want = np.concatenate(ref.twobody(x0[:3], x0[3:], t + span, mu)) \
                    if t + span else x0
            except ArithmeticError as e:
                raise Skip(str(e))
            run.sim_time += abs(span) / T
            live = rnd(xn)
            if op["fault"] == "crash":
                run.fault("crash-before-checkpoint")
                continue
            el2 = save(live, mu)
            if op["fault"] == "torn":
                run.fault("torn-checkpoint")
                continue
            if op["fault"] == "dup":
                run.fault("duplicate-save")
                if any(not np.array_equal(a, b) for a, b in zip(el2, save(live, mu))):
                    raise Violation("redelivery", f"{what}: saving twice gave different elements")
            back, el2, b = roundtrip(run, live, mu, x64, what)
            r0, v0 = np.linalg.norm(x[:3]), np.linalg.norm(x[3:])
            amp = W.Growth({**grow_ref}, x, span).to(span)
            # restored-state error of the start, carried along, plus this leg's own
            start = bound * max(r0 / orbit["q"], v0 * T / orbit["q"])
            nref = 20 + 8 * abs(span) / T
            own = W.leg_bound(grow_ref, {"mode": "final"}, amp, nref, x64) \
                if op["by"] == "lib" else 1e-11 * amp
            if not x64:
                own += 1e-6 * amp + W.speed(grow_ref, live) * 4e-7 * abs(span) / T
            end = b * max(np.linalg.norm(live[:3]) / orbit["q"],
                          np.linalg.norm(live[3:]) * T / orbit["q"])
            total = amp * start + own + end
            e = W.err_scaled(orbit, back, want)
            run.metric("mission" + ("" if x64 else "/f32"), e / total)
            if not e <= total:
                raise Violation("mission", f"after {what} the mission restored from elements is "
                                f"{e:.3e} off the uninterrupted one (allowed {total:.3e})")
            nb = total / max(min(np.linalg.norm(back[:3]) / orbit["q"],
                                 np.linalg.norm(back[3:]) * T / orbit["q"]), 1e-6)
            disk = (t + span, el2, nb)
            run.log("fly", k, t + span, *el2, back)
        elif kind == "cycles":
            y, el, b = roundtrip(run, live, mu, x64, what, op["n"])
            run.fault("save-restore-cycle", op["n"])
            run.log("cycles", k, y)
        elif kind == "jit":
            if "jit" not in ctx.cache:
                ctx.cache["jit"] = (jax.jit(adx.rv2coe), jax.jit(adx.coe2rv))
            y, el, b = roundtrip(run, live, mu, x64, what, 1, ctx.cache["jit"])
            run.log("jit", k, y)
        else:
            xs = np.array([rnd(z) for z in op["orbits"]])[op["order"]]
            mus = np.array([float(rnd(m)) for m in op["mus"]])[op["order"]]
            for x, m in zip(xs, mus):
                cond(x, m)
            els = save(xs, mus[:, None])
            if any(z.shape not in ((len(xs),), (len(xs), len(xs))) for z in els):
                raise Violation("shape", f"{what}: shapes {[z.shape for z in els]}")
            run.log("batch", k, *els)
            back = restore(els, mus)
            for i, (x, m) in enumerate(zip(xs, mus)):
                one = [z[i] for z in els]
                judge_elements(run, one, x, m, x64, f"{what} entry {i}")
                y1, _, tol = roundtrip(run, x, m, x64, f"{what} entry {i}")
                d = dist(back[i], x, m)
                if not d <= tol:
                    raise Violation("batch", f"{what}: entry {i} restored from the batch "
                                             f"differs by {d:.3e} (allowed {tol:.3e})")
    run.log("end")
