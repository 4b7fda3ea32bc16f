"""C10: state transition matrices chain across any split of an arc.

The simulated party is a navigation filter that carries the sensitivity of the
current state to the initial one through a sequence of updates, some of which
are lost, delivered twice, split, or take the clock back."""

from __future__ import annotations

import math

import numpy as np

from . import lib
from . import refmodel as ref
from . import world as W
from .core import Skip, Violation

J6 = np.block([[np.zeros((3, 3)), np.eye(3)], [-np.eye(3), np.zeros((3, 3))]])


def generate(rng, index, tier, x64):
    orbit = W.gen_orbit(rng, emax=0.985, ehyp=4.0)
    T = W.timescale(orbit)
    far = min(60.0 if x64 else 20.0, 2 * W.period(orbit) / T)
    ops, t = [], 0.0
    for _ in range(rng.randint(2, 6)):
        k = rng.random()
        if k < 0.5:
            target = rng.uniform(-far, far) * rng.random() * T
        elif k < 0.75:
            target = t + rng.choice([-1, 1]) * 10 ** rng.uniform(-2, 0.5) * T
        elif k < 0.85:
            target = 0.0
        elif orbit["e"] < 0.99:
            target = t + rng.choice([-1, -0.5, 0.5, 1]) * W.period(orbit)
        else:
            target = -t
        if abs(target) > far * T or abs(target - t) < 1e-3 * T:
            continue
        op = {"to": target, "fault": rng.choice(
            [None, None, "lost", "dup", "split", "split"])}
        if op["fault"] == "split":
            op["at"] = rng.choice([rng.random(), rng.random(), -0.3, 1.4])
        op["plain"] = rng.random() < 0.04
        ops.append(op)
        if op["fault"] != "lost":
            t = target
    return {"orbit": orbit, "ops": ops}


def stm(ctx, x, x0, dt, mu, plain):
    import jax
    import jax.numpy as jnp

    adx = lib.load()
    if "stm" not in ctx.cache:
        ctx.cache["stm"] = jax.jit(adx.twobody.dxdx0)
    f = adx.twobody.dxdx0 if plain else ctx.cache["stm"]
    a = [jnp.asarray(np.asarray(z, float)) for z in (x[:3], x[3:], x0[:3], x0[3:], dt, mu)]
    return np.asarray(f(*a), float)


def flight(orbit, x, dt, x64):
    """The reference flight, as the filter sees it (rounded to the precision)."""
    try:
        y = np.concatenate(ref.twobody(x[:3], x[3:], dt, orbit["mu"]))
    except ArithmeticError as e:
        raise Skip(str(e))
    return y if x64 else y.astype(np.float32).astype(float)


def reference(orbit, x, dt, sc):
    """Differences of reference flights (scaled), Richardson-extrapolated."""
    def diff(h):
        cols = []
        for k in range(6):
            z = []
            for s in (h, -h):
                y = x.copy()
                y[k] += s * sc[k]
                z.append(np.concatenate(ref.twobody(y[:3], y[3:], dt, orbit["mu"])))
            cols.append((z[0] - z[1]) / (2 * h * sc))
        return np.array(cols).T
    h = 1e-4
    return (4 * diff(h / 2) - diff(h)) / 3


def norm(a):
    return float(np.abs(a).sum(axis=1).max())


def execute(plan, run, ctx):
    orbit, x64 = plan["orbit"], plan["x64"]
    mu, T = orbit["mu"], W.timescale(orbit)
    sc = W.scale_state(orbit)
    eps = 5e-7 if x64 else 4e-4
    eps2 = 1e-9 if x64 else 1e-4      # between matrices of the library
    tag = "" if x64 else "/f32"
    x0 = np.asarray(orbit["x0"], float)
    if not x64:
        x0 = x0.astype(np.float32).astype(float)
    t, x = 0.0, x0
    P, E = np.eye(6), 0.0      # chained matrix (scaled) and its error bound
    for k, op in enumerate(plan["ops"]):
        what = f"op {k}"
        dt = op["to"] - t
        run.ops += 1
        run.sim_time += abs(dt) / T
        run.sig.append(f"{orbit['conic']}/{op['fault']}/{dt > 0}/{int(math.log10(abs(dt) / T) * 2)}")
        cuts = [0.0, dt]
        if op["fault"] == "split":
            cuts = [0.0, dt * op["at"], dt]
            run.fault("split-update" if 0 < op["at"] < 1 else "clock-set-back")
        legs, xi = [], x
        for a, b in zip(cuts, cuts[1:]):
            xn = flight(orbit, x, b, x64)
            M = stm(ctx, xn, xi, b - a, mu, op["plain"])
            if M.shape != (6, 6):
                raise Violation("shape", f"{what}: matrix of shape {M.shape}")
            if op["fault"] == "dup":
                run.fault("duplicate-update")
                if not np.array_equal(M, stm(ctx, xn, xi, b - a, mu, op["plain"])):
                    raise Violation("redelivery", f"{what}: the same request gave two "
                                                  "different matrices")
            legs.append((check(run, ctx, plan, xi, xn, b - a, M, sc, (eps, eps2), what, tag, op),
                         xi, xn, b - a))
            xi = xn
        run.log("update", k, t, op["to"], *[m[0] for m in legs])
        if op["fault"] == "lost":
            run.fault("update-lost")
            continue
        if len(legs) == 2:     # composition against the undivided arc
            whole = stm(ctx, xi, x, dt, mu, False) * sc[None, :] / sc[:, None]
            prod = legs[1][0] @ legs[0][0]
            n = norm(legs[1][0]) * norm(legs[0][0])
            compare(run, "compose" + tag, prod, whole, 3 * eps2 * n,
                    "composition", f"{what}: the two halves of the arc do not "
                    "multiply to the whole")
        for m, _, _, _ in legs:
            E = norm(m) * E + 2 * eps * norm(m) * norm(P)
            P = m @ P
        t, x = op["to"], flight(orbit, x0, op["to"], x64)
        if abs(t) > 0.0 and E < 0.05 * max(norm(P), 1.0):
            want = reference(orbit, x0, t, sc)
            compare(run, "chain" + tag, P, want, E + eps * norm(want), "chain",
                    f"after {what} the chained matrix is not the one of the whole flight")
            run.probe("chain-checked")
        elif t == 0.0 and E < 0.05:
            run.probe("came-home")
            compare(run, "home" + tag, P, np.eye(6), E, "chain",
                    f"after {what} the chain home is not the identity")
        else:
            P, E = np.eye(6), 0.0       # ill conditioned by now: start a new chain
            x0, t = x, 0.0
            run.probe("chain-restarted")
            plan = {**plan, "ops": plan["ops"][:k + 1] + [
                {**o, "to": o["to"] - op["to"]} for o in plan["ops"][k + 1:]]}
            return _rest(plan, run, ctx, k + 1, x0)
    run.log("end")


def _rest(plan, run, ctx, k, x0):
    """Go on with the remaining updates as a new mission from state x0."""
    sub = {**plan, "ops": plan["ops"][k:],
           "orbit": {**plan["orbit"], "x0": [float(v) for v in x0]}}
    if sub["ops"]:
        execute(sub, run, ctx)


def compare(run, name, got, want, bound, kind, text):
    e = float(np.max(np.abs(got - want)))
    run.metric(name, e / bound)
    if not e <= bound:
        raise Violation(kind, f"{text}: off by {e:.3e} (allowed {bound:.3e})")


def check(run, ctx, plan, xa, xb, dt, M, sc, eps, what, tag, op):
    """One matrix against the flight it stands for; returns it scaled."""
    orbit, (eps, eps2) = plan["orbit"], eps
    S = M * sc[None, :] / sc[:, None]
    if dt == 0.0:
        return S
    try:
        want = reference(orbit, xa, dt, sc)
    except ArithmeticError as e:
        raise Skip(str(e))
    m = norm(want)
    for i in (0, 3):
        for j in (0, 3):
            blk = np.s_[i:i + 3, j:j + 3]
            b = eps * (0.3 * m + float(np.abs(want[blk]).max()))
            compare(run, "matrix" + tag, S[blk], want[blk], b, "matrix",
                    f"{what}: over {dt} the matrix is not the sensitivity of the flight")
    compare(run, "symplectic" + tag, S.T @ J6 @ S, J6, 6 * eps2 * m * m, "symplectic",
            f"{what}: the matrix over {dt} is not symplectic")
    if m < (300 if plan["x64"] else 20):
        B = stm(ctx, xa, xb, -dt, orbit["mu"], op["plain"]) * sc[None, :] / sc[:, None]
        compare(run, "there-and-back" + tag, B @ S, np.eye(6), 6 * eps2 * m * m, "inverse",
                f"{what}: the matrices over {dt} and back do not cancel")
    return S
