"""C14: zonal gravity conserves energy and axial angular momentum in flight."""

from __future__ import annotations

import math

import numpy as np

from . import c01, lib
from . import refmodel as ref
from . import world as W
from .core import Violation

PAD = 8


def generate(rng, index, tier, x64):
    plan = c01.generate(rng, index, tier, x64)
    o, f = plan["orbit"], plan["forces"]
    if f["kind"] != "pm":
        f["kind"] = "zonal"
        f["thrust"] = f["omega"] = 0.0
        for k in ("J2", "J3", "J4"):
            f[k] = rng.choice([0.0, f[k] or 1e-3, rng.uniform(-0.01, 0.01),
                               rng.uniform(-0.03, 0.03)])
        if not (f["J2"] or f["J3"] or f["J4"]):
            f[rng.choice(["J2", "J3", "J4"])] = rng.uniform(-0.02, 0.02)
        f["R_eq"] = o["L"] * rng.choice([1.0, 1.0, rng.uniform(0.5, 1.0)])
    k = rng.random()
    if k < 0.25:            # over the poles or exactly in the equator
        inc = rng.choice([math.pi / 2, 0.0, 0.0, math.pi])
        r, v = ref.coe_to_state(o["q"] * (1 + o["e"]), o["e"], inc, o["raan"], o["argp"],
                                o["nu"], o["mu"])
        x = np.concatenate([r, v])
        if inc in (0.0, math.pi):
            x[2] = x[5] = 0.0
        o.update(inc=inc, x0=[float(t) for t in x])
    for op in plan["ops"]:
        if op.get("fault") == "restart":
            del op["fault"]
        if op["leg"]["mode"] == "kepler":
            op["leg"] = {"mode": "final", "span": op["leg"]["span"], "ctl": "default"}
        op["order"] = rng.sample(range(4), 4)
        op["times"] = rng.choice([0.0, 1.0, -3.5])
    plan["arg_kind"] = rng.choice(["array", "float", "extra"])
    return plan


def potential(x, p):
    """-U of the reference potential, by Legendre recursion."""
    mu, R, *J = p
    r = float(np.linalg.norm(x[:3]))
    s = x[2] / r
    P0, P1, u = 1.0, s, 1.0
    for n, j in zip((2, 3, 4), J):
        P = ((2 * n - 1) * s * P1 - (n - 1) * P0) / n
        u -= j * (R / r) ** n * P
        P0, P1 = P1, P
    return -mu / r * u


def energy(x, p):
    return 0.5 * float(x[3:] @ x[3:]) + potential(x, p)


def terms(ctx, plan, X, t, p):
    """The four accelerations at a batch of states, alone."""
    import jax
    import jax.numpy as jnp

    g = lib.load().gravity
    mu, R, J2, J3, J4 = p
    conv = float if plan["arg_kind"] == "float" else jnp.asarray
    extra = {"rmin": 0.1, "drag": jnp.zeros(3)} if plan["arg_kind"] == "extra" else {}
    if "acc" not in ctx.cache:
        fs = (g.point_mass_grav, g.j2_acc, g.j3_acc, g.j4_acc)
        ctx.cache["acc"] = [jax.jit(jax.vmap(f, in_axes=(None, 0, None))) for f in fs]
        ctx.cache["acc1"] = fs
    args = {"mu": conv(mu), "R_eq": conv(R), "J2": conv(J2), "J3": conv(J3), "J4": conv(J4),
            **extra}
    X = jnp.asarray(X)
    many = [np.asarray(f(t, X, args), float) for f in ctx.cache["acc"]]
    alone = [np.asarray(f(t, X[0], args), float) for f in ctx.cache["acc1"]]
    return many, alone


def pure(x, p, n, j):
    """One zonal term by itself, without cancellation against the point mass."""
    mu, R = p[0], p[1]
    r = float(np.linalg.norm(x[:3]))
    u = x[:3] / r
    s = u[2]
    P = {2: (3 * s * s - 1) / 2, 3: (5 * s**3 - 3 * s) / 2,
         4: (35 * s**4 - 30 * s * s + 3) / 8}[n]
    D = {2: 3 * s, 3: (15 * s * s - 3) / 2, 4: (35 * s**3 - 15 * s) / 2}[n]
    c = j * mu * R**n / r ** (n + 2)
    return c * (((n + 1) * P + s * D) * u - D * np.array([0.0, 0.0, 1.0])), c


def execute(plan, run, ctx):
    orbit, f, x64 = plan["orbit"], plan["forces"], plan["x64"]
    rnd = float if x64 else (lambda z: float(np.float32(z)))
    sx = "" if x64 else "/f32"
    eps = 2.3e-16 if x64 else 1.2e-7
    p = tuple(rnd(z) for z in (orbit["mu"], f["R_eq"], f["J2"], f["J3"], f["J4"]))
    plan = {**plan, "orbit": {**orbit, "mu": p[0]},
            "forces": {**f, "R_eq": p[1], "J2": p[2], "J3": p[3], "J4": p[4]}}
    orbit = plan["orbit"]
    T, q = W.timescale(orbit), orbit["q"]

    def accelerations(X, n, op, what):
        many, alone = terms(ctx, plan, np.concatenate([X, np.repeat(X[:1], PAD - n, axis=0)]),
                            op["times"], p)
        for i in range(n):
            x = X[i]
            got = [m[i] for m in many]
            want = [np.array(ref.accel(x, p[0]))]
            size = [p[0] / float(x[:3] @ x[:3])]
            for m, j in ((2, p[2]), (3, p[3]), (4, p[4])):
                w, c = pure(x, p, m, j)
                want.append(w)
                size.append(abs(c))
            for k, name in enumerate(("point mass", "J2", "J3", "J4")):
                tol = (60, 200, 250, 500)[k] * eps * size[k]
                for src, a in (("", got[k]),) + ((" (one state)", alone[k]),) * (i == 0):
                    if a.shape != (3,) or not np.all(np.isfinite(a)):
                        raise Violation("acceleration", f"{what}: {name}{src} gave {a}")
                    d = float(np.max(np.abs(a - want[k])))
                    run.metric(f"acceleration {name}{sx}", d / tol if tol else 0.0)
                    if not d <= tol:
                        raise Violation("acceleration",
                                        f"{what}: {name} acceleration{src} is {a.tolist()}, the "
                                        f"gradient of its potential {want[k].tolist()}")
            total = sum(want)
            for order in (op["order"], op["order"][::-1]):
                s = np.zeros(3) if x64 else np.zeros(3, np.float32)
                for k in order:
                    s = s + (got[k] if x64 else got[k].astype(np.float32))
                d = float(np.max(np.abs(s - total)))
                tol = 500 * eps * sum(size)
                if not d <= tol:
                    raise Violation("sum", f"{what}: the sum of the accelerations is off by {d}")
        run.log("accelerations", *many)

    def observe(x0, states, bounds, what):
        op = plan["ops"][int(what.split()[1])]
        X = np.array(states, float)
        if not np.all(np.isfinite(X)):
            raise Violation("nonfinite", f"{what}: a returned state is not finite")
        n = len(X)
        accelerations(X, n, op, what)
        E0, L0 = energy(x0, p), x0[0] * x0[4] - x0[1] * x0[3]
        for x, b in zip(X, bounds):
            a = np.array(ref.accel(x, *p))
            r, v = np.linalg.norm(x[:3]), np.linalg.norm(x[3:])
            # gradient of energy and axial momentum in scaled state units
            sE = np.abs(a).sum() * q + np.abs(x[3:]).sum() * q / T
            sL = (abs(x[3]) + abs(x[4])) * q + (abs(x[0]) + abs(x[1])) * q / T
            kE = 0.2 * b * sE + 30 * eps * (0.5 * v * v + p[0] / r + p[0] / q)
            kL = 0.2 * b * sL + 30 * eps * (r * v + abs(L0))
            dE, dL = abs(energy(x, p) - E0), abs(x[0] * x[4] - x[1] * x[3] - L0)
            run.metric("energy" + sx, dE / kE)
            run.metric("axial momentum" + sx, dL / kL)
            if not dE <= kE:
                raise Violation("energy", f"{what}: the energy changed by {dE:.3e} in flight "
                                          f"(allowed {kE:.3e})")
            if not dL <= kL:
                raise Violation("axial", f"{what}: the polar angular momentum changed by {dL:.3e} "
                                         f"in flight (allowed {kL:.3e})")

    c01.execute(plan, run, ctx, observe)


shrink = c01.shrink
