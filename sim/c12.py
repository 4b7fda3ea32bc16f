"""C12: the integrals of two-body motion stay constant along every flight."""

from __future__ import annotations

import math

import numpy as np

from . import c01, lib
from . import refmodel as ref
from . import world as W
from .core import Violation

PI = math.pi
PAD = 8


def generate(rng, index, tier, x64):
    plan = c01.generate(rng, index, tier, x64)
    zero = dict(kind="pm", J2=0.0, J3=0.0, J4=0.0, thrust=0.0, omega=0.0)
    plan["forces"] = {**plan["forces"], **zero}
    for op in plan["ops"]:
        leg = op["leg"]
        if leg["mode"] != "kepler" and rng.random() < 0.3:
            span = leg["span"]
            op["leg"] = leg = {"mode": "kepler", "span": span, "ctl": "default",
                               "ts": [span * rng.random(), span]}
        if leg["mode"] == "kepler":
            leg["eager"] = rng.random() < 0.9
        if op.get("fault") == "restart":
            del op["fault"]
    plan["mu_arg"] = rng.choice(["array", "float"])
    return plan


NAMES = ("angular momentum x", "angular momentum y", "angular momentum z",
         "eccentricity vector x", "eccentricity vector y", "eccentricity vector z",
         "1/semimajor axis", "semiparameter", "eccentricity", "periapsis radius",
         "inclination", "node", "periapsis argument")
ANGLES = ("inclination", "node", "periapsis argument")


def truth(x, mu):
    """The conserved quantities, computed independently."""
    E, h, ev = ref.invariants(x[:3], x[3:], mu)
    p, e, inc, raan, argp, nu = ref.state_to_coe(x[:3], x[3:], mu)
    return np.array([*h, *ev, -2 * E / mu, p, e, p / (1 + e), inc, raan, argp])


def sens(x, mu):
    """d truth / d (relative position, relative velocity), by differences."""
    r, v = np.linalg.norm(x[:3]), np.linalg.norm(x[3:])
    cols = []
    for k in range(6):
        d = np.zeros(6)
        d[k] = 1e-6 * (r if k < 3 else v)
        z = truth(x + d, mu) - truth(x - d, mu)
        z[10:] = [math.remainder(a, 2 * PI) for a in z[10:]]
        cols.append(z / 2e-6)
    return np.array(cols).T


def report(X, mu, signed=True):
    """What the library says about a batch of states (n, 6)."""
    import jax.numpy as jnp

    adx = lib.load()
    X = jnp.asarray(X)
    r, v = X[:, :3], X[:, 3:]
    h = adx.angular_momentum(r, v)
    ev = adx.eccentricity_vector(r, v, mu)
    hm = jnp.linalg.vector_norm(h, axis=-1)
    em = jnp.linalg.vector_norm(ev, axis=-1)
    rm = jnp.linalg.vector_norm(r, axis=-1)
    vm = jnp.linalg.vector_norm(v, axis=-1)
    a = adx.semimajor_axis(rm, vm, mu)
    p = adx.semiparameter(hm, mu)
    node = jnp.stack([-h[:, 1], h[:, 0], jnp.zeros_like(h[:, 0])], axis=-1)
    out = {
        "h": h, "ev": ev, "a": a, "p": p, "e": em,
        "rp": adx.radius_periapsis(p, em), "ra": adx.radius_apoapsis(p, em),
        "inc": adx.inclination(h)[:, 0], "raan": adx.right_ascension(node)[:, 0],
        "argp": adx.argument_of_periapsis(node, ev)[:, 0],
        "nu": adx.true_anomaly(r, ev)[:, 0],
        "a_pe": adx.a_from_pe(p, em), "p_ae": adx.semipara_from_ae(a, em),
        "P": adx.orb_period(jnp.abs(a), mu),
        "r": rm,
    }
    out["n"] = adx.mean_motion(out["P"])
    out["a_P"] = adx.a_from_period(out["P"], mu)
    out["r_eq"] = adx.equ_of_orbit(p, em, out["nu"])
    return {k: np.asarray(z, float) for k, z in out.items()}


def judge(run, plan, x0, states, bounds, what, mu):
    x64 = plan["x64"]
    orbit = plan["orbit"]
    sx = "" if x64 else "/f32"
    eps = 2.3e-16 if x64 else 1.2e-7
    X = np.array(states, float)
    n = len(X)
    if not np.all(np.isfinite(X)):
        raise Violation("nonfinite", f"{what}: a returned state is not finite")
    got = report(np.concatenate([X, np.repeat(X[:1], PAD - n, axis=0)]),
                 mu if plan["mu_arg"] == "float" else np.asarray(mu))
    want0 = truth(x0, mu)
    T, q = W.timescale(orbit), orbit["q"]
    for i in range(n):
        x = X[i]
        r, v = np.linalg.norm(x[:3]), np.linalg.norm(x[3:])
        J = np.abs(sens(x, mu))
        local = truth(x, mu)
        e, inc, p = local[8], local[10], local[7]
        g = 1 + v * v * r / mu
        # |e| has a kink at e = 0: bound its change by that of the vector
        J[8] = np.sqrt((J[3:6] ** 2).sum(axis=0))
        J[9] += p / (1 + e) ** 2 * J[8]
        rnd = 12 * eps * (J.sum(axis=1) + np.abs(local)) + 25 * eps * g * np.array(
            [0, 0, 0, 1, 1, 1, 1 / r, 0, 1, p / (1 + e), 0, 0, 0])
        rnd[:3] += 12 * eps * r * v
        rnd[10] += 12 * eps / max(math.sin(inc), 1e-3)
        # a quantity whose value is decided by rounding alone is not judged
        dead = np.zeros(13, bool)
        dead[11] = math.sin(inc) < 1e-3
        dead[12] = dead[11] or e < (1e-4 if x64 else 1e-2)
        lib13 = np.array([*got["h"][i], *got["ev"][i], 1 / got["a"][i], got["p"][i],
                          got["e"][i], got["rp"][i], got["inc"][i], got["raan"][i],
                          got["argp"][i]])
        # argument_of_periapsis alone is unsigned: [0, pi]
        loc, w0 = local.copy(), want0.copy()
        for z in (loc, w0):
            z[12] = abs(math.remainder(z[12], 2 * PI))
            if not 0 <= lib13[11] <= 2 * PI * (1 + 1e-6):
                raise Violation("range", f"{what}: node {lib13[11]} outside [0, 2 pi]")
        flight = 0.4 * bounds[i] * (J[:, :3].sum(axis=1) * q / r
                                  + J[:, 3:].sum(axis=1) * q / T / v)
        for k, name in enumerate(NAMES):
            if dead[k]:
                continue
            for kind, w, tol in (("definition", loc[k], rnd[k]),
                                 ("conservation", w0[k], rnd[k] + flight[k])):
                d = lib13[k] - w
                if name in ANGLES:
                    d = math.remainder(d, 2 * PI)
                    if tol > 0.3:
                        continue
                run.metric(f"{kind} {name.split(' ')[0]}{sx}", abs(d) / tol)
                if not abs(d) <= tol:
                    raise Violation(
                        kind, f"{what}: reported {name} is {lib13[k]!r}, but {w!r} "
                              f"{'by definition' if kind == 'definition' else 'at the start'}"
                              f" (allowed difference {tol:.3e})")
        # relations between the reported values
        al = 1 / got["a"][i]
        ee = got["e"][i]
        amax = abs(1 - ee * ee)
        rel = [("orbit equation", got["r_eq"][i], got["r"][i],
                rnd[7] / p * r + 60 * eps * g * r * (r / p)
                * (1 + (0 if e > 1e-4 else 1))),
               ("mean motion", got["n"][i] * got["P"][i], 2 * PI, 30 * eps),
               ("period", got["P"][i] ** 2 * mu, 4 * PI**2 * abs(got["a"][i]) ** 3,
                60 * eps * 4 * PI**2 * abs(got["a"][i]) ** 3),
               ("axis from period", got["a_P"][i], abs(got["a"][i]),
                60 * eps * abs(got["a"][i])),
               ("periapsis radius", got["rp"][i] * (1 + ee), got["p"][i], 30 * eps * p)]
        if amax > (1e-6 if x64 else 1e-2):
            rel += [("apoapsis radius", got["ra"][i] * (1 - ee), got["p"][i], 30 * eps * p),
                    ("axis from p and e", got["a_pe"][i] * (1 - ee * ee), got["p"][i],
                     30 * eps * p * (1 + ee * ee / amax)),
                    ("p from axis and e", got["p_ae"][i] * al, 1 - ee * ee,
                     30 * eps * (1 + ee * ee))]
        for name, a, b, tol in rel:
            if not math.isfinite(a) or not math.isfinite(b):
                if abs(al) * p < 1e-7 if x64 else abs(al) * p < 1e-2:
                    continue        # parabola: the axis is infinite
            run.metric(f"{name}{sx}", abs(a - b) / tol)
            if not abs(a - b) <= tol:
                raise Violation("relation", f"{what}: {name}: {a!r} against {b!r} "
                                            f"(allowed {tol:.3e})")
    run.log("integrals", *[got[k][:n] for k in sorted(got)])


def execute(plan, run, ctx):
    mu = plan["orbit"]["mu"]
    if not plan["x64"]:
        mu = float(np.float32(mu))
        plan = {**plan, "orbit": {**plan["orbit"], "mu": mu}}

    def observe(x0, states, bounds, what):
        judge(run, plan, x0, states, bounds, what, mu)

    c01.execute(plan, run, ctx, observe)


shrink = c01.shrink
