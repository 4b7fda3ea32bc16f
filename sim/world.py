"""The simulated world: orbits, units, force models, propagation services."""

from __future__ import annotations

import math

import numpy as np

from . import lib
from . import refmodel as ref

PI = math.pi


# --------------------------------------------------------------- generation
def gen_units(rng, allow_km=True):
    """(name, mu, length unit): the periapsis radius is a few length units."""
    k = rng.random()
    if k < 0.45:
        return "canonical", 1.0, 1.0
    if k < 0.6:
        return "scaled-mu", rng.choice([0.25, 0.5, 2.0, 3.986, 5.0]), 1.0
    if k < 0.75:
        return "au-yr", 4 * PI * PI, 1.0
    if k < 0.85 or not allow_km:
        return "scaled-len", rng.uniform(0.5, 4.0), rng.uniform(1.0, 30.0)
    return "km-s", 398600.4418, 6378.1363


def gen_orbit(rng, conics=("ell", "par", "hyp"), emax=0.95, emin=0.0,
              ehyp=4.0, allow_km=True, units=None, angles=None):
    """A random orbit as explicit numbers (state included)."""
    name, mu, L = units or gen_units(rng, allow_km)
    conic = rng.choice(conics)
    if conic == "ell":
        e = rng.choice([rng.uniform(emin, emax), rng.uniform(emin, emax) ** 2,
                        emax - rng.random() * 0.05 * emax])
        e = min(max(e, emin), emax)
        if emin == 0.0 and rng.random() < 0.1:
            e = 0.0
    elif conic == "par":
        e = 1.0 + rng.choice([0.0, 0.0, 1e-9, -1e-9, 1e-6, -1e-6, 1e-4, -1e-4])
    else:
        e = rng.choice([1.0 + rng.random() * 0.2, rng.uniform(1.0, ehyp)])
        e = max(e, 1.0 + 1e-3)
    q = L * rng.uniform(1.02, 2.5)
    p = q * (1 + e)
    ang = angles or rng.random()
    if ang < 0.7:
        inc = math.acos(rng.uniform(-1, 1))
    elif ang < 0.8:
        inc = PI / 2
    elif ang < 0.9:
        inc = rng.uniform(0.01, 0.1)
    else:
        inc = PI - rng.uniform(0.01, 0.3)
    raan, argp = rng.uniform(0, 2 * PI), rng.uniform(0, 2 * PI)
    if e < 1 - 1e-3:
        nu = rng.uniform(0, 2 * PI)
    else:
        lim = math.acos(-1 / e) if e > 1 else PI
        nu = rng.uniform(-0.75, 0.75) * lim
    if rng.random() < 0.1:
        nu = 0.0
    r, v = ref.coe_to_state(p, e, inc, raan, argp, nu, mu)
    return {"units": name, "mu": mu, "L": L, "conic": conic, "q": q, "e": e,
            "inc": inc, "raan": raan, "argp": argp, "nu": nu,
            "x0": [float(t) for t in np.concatenate([r, v])]}


def timescale(orbit) -> float:
    return math.sqrt(orbit["q"] ** 3 / orbit["mu"])


def period(orbit):
    e = orbit["e"]
    if e >= 1:
        return math.inf
    return 2 * PI * timescale(orbit) / (1 - e) ** 1.5


def gen_forces(rng, orbit, kinds=("pm", "j2", "j234", "thrust")):
    k = rng.choice(kinds)
    f = {"kind": k, "R_eq": orbit["L"], "J2": 0.0, "J3": 0.0, "J4": 0.0,
         "thrust": 0.0, "omega": 0.0}
    if k in ("j2", "j234", "thrust"):
        f["J2"] = rng.choice([1.08262668e-3, rng.uniform(-0.01, 0.02)])
    if k in ("j234", "thrust"):
        f["J3"] = rng.choice([-2.5327e-6, rng.uniform(-0.01, 0.01)])
        f["J4"] = rng.choice([-1.6196e-6, rng.uniform(-0.01, 0.01)])
    if k == "thrust":
        f["thrust"] = rng.uniform(1e-4, 5e-3) * orbit["mu"] / orbit["q"] ** 2
        f["omega"] = rng.uniform(0.2, 2.0) / timescale(orbit)
    return f


# ------------------------------------------------------------ the real thing
def field(ctx, kind):
    """The user's vector field, built from the library's own gravity models."""
    kind = "pm" if kind == "pm" else "full"   # one compiled field, J's may be 0
    key = ("field", kind)
    if key in ctx.cache:
        return ctx.cache[key]
    import jax.numpy as jnp

    adx = lib.load()
    g = adx.gravity

    if kind == "pm":
        def vf(t, x, args):
            return jnp.concatenate([x[3:], g.point_mass_grav(t, x, args)])
    elif kind == "full":
        def vf(t, x, args):
            a = g.point_mass_grav(t, x, args) + g.j2_acc(t, x, args)
            a = a + g.j3_acc(t, x, args) + g.j4_acc(t, x, args)
            w = args["omega"] * (args["epoch"] + t)
            a = a + args["thrust"] * jnp.stack(
                [jnp.cos(w), jnp.sin(w), 0.3 * jnp.cos(2.0 * w)])
            return jnp.concatenate([x[3:], a])
    else:
        raise ValueError(kind)
    ctx.cache[key] = vf
    return vf


def term(ctx, kind):
    from astrodynx import diffeq

    kind = "pm" if kind == "pm" else "full"
    key = ("term", kind)
    if key not in ctx.cache:
        ctx.cache[key] = diffeq.ODETerm(field(ctx, kind))
    return ctx.cache[key]


def args_for(orbit, forces, epoch=0.0, rmin=0.0):
    import jax.numpy as jnp

    d = {"mu": orbit["mu"], "R_eq": forces["R_eq"], "J2": forces["J2"],
         "J3": forces["J3"], "J4": forces["J4"], "thrust": forces["thrust"],
         "omega": forces["omega"], "epoch": epoch, "rmin": rmin}
    return {k: jnp.asarray(float(v)) for k, v in d.items()}


def ref_kwargs(orbit, forces, epoch=0.0):
    return dict(mu=orbit["mu"], R_eq=forces["R_eq"], J2=forces["J2"],
                J3=forces["J3"], J4=forces["J4"], thrust=forces["thrust"],
                omega=forces["omega"], epoch=epoch)


def controller(ctx, name):
    """Named step-size controllers a user may pass."""
    from astrodynx import diffeq

    key = ("ctrl", name)
    if key not in ctx.cache:
        rt = {"loose": 1e-6, "default": 1e-8, "tight": 1e-10}[name]
        ctx.cache[key] = diffeq.PIDController(rtol=rt, atol=rt)
    return ctx.cache[key]


TOL = {"loose": 1e-6, "default": 1e-8, "tight": 1e-10}


# ------------------------------------------------------------ error model
def scale_state(orbit):
    T = timescale(orbit)
    return np.array([orbit["q"]] * 3 + [orbit["q"] / T] * 3)


class Growth:
    """Growth of state errors along an arc (two-body finite differences from
    its start, in scaled units); only used to size tolerances."""

    J = np.block([[np.zeros((3, 3)), np.eye(3)], [-np.eye(3), np.zeros((3, 3))]])

    def __init__(self, orbit, x0, span, n=5):
        self.o, self.x0, self.sc = orbit, np.asarray(x0, float), scale_state(orbit)
        self.inv = []
        for k in range(n):
            t = span * k / n
            self.inv.append((abs(t), -self.J @ self.phi(t).T @ self.J))

    def phi(self, t):
        if t == 0.0:
            return np.eye(6)
        mu, h, cols = self.o["mu"], 1e-6, []
        for k in range(6):
            z = []
            for s in (h, -h):
                y = self.x0.copy()
                y[k] += s * self.sc[k]
                z.append(np.concatenate(ref.twobody(y[:3], y[3:], t, mu)))
            cols.append((z[0] - z[1]) / (2 * h * self.sc))
        return np.array(cols).T

    def to(self, t):
        """Largest growth from any earlier point of the arc to time t."""
        m = self.phi(t)
        worst = 1.0
        for a, inv in self.inv:
            if a <= abs(t):
                g = float(np.abs(m @ inv).sum(axis=1).max())
                if math.isfinite(g):
                    worst = max(worst, g)
        return worst


def err_scaled(orbit, x, xref):
    x = np.asarray(x, float)
    if not np.all(np.isfinite(x)):
        return math.inf
    return float(np.max(np.abs(x - np.asarray(xref)) / scale_state(orbit)))


# ------------------------------------------------------ propagation services
MODES = ("final", "custom", "fixed", "adaptive", "general")


class Sent:
    """What came back from one propagation call."""

    def __init__(self, sol):
        import jax

        self.sol = sol
        jax.block_until_ready(sol.ys)
        self.raw_ts = np.asarray(sol.ts, float)
        self.raw_ys = np.asarray(sol.ys, float)
        used = np.isfinite(self.raw_ts)
        self.used = used
        self.ts = self.raw_ts[used]
        self.ys = self.raw_ys[used]
        self.steps = int(sol.stats["num_steps"])


def propagate(ctx, orb, leg, x, **over):
    """Call the propagation entry point named by leg["mode"].

    leg: mode, span, ctl, and per mode: ts (list), dt, dt0, save, pyfloat.
    """
    import jax.numpy as jnp

    from astrodynx import diffeq

    prop = lib.load().prop
    num = (lambda v: float(v)) if leg.get("pyfloat") else (lambda v: jnp.asarray(float(v)))
    x = jnp.asarray(np.asarray(x, float))
    t1 = num(leg["span"])
    mode = leg["mode"]
    kw = {}
    if leg.get("ctl", "default") != "default":
        kw["stepsize_controller"] = controller(ctx, leg["ctl"])
    if "stepsize_controller" in over:
        kw["stepsize_controller"] = over["stepsize_controller"]
    if "solver" in over:
        kw["solver"] = over["solver"]
    if mode == "final":
        sol = prop.to_final(orb, x, t1, **kw)
    elif mode == "custom":
        sol = prop.custom_steps(orb, x, t1, jnp.asarray(np.asarray(leg["ts"], float)), **kw)
    elif mode == "fixed":
        kw.pop("stepsize_controller", None)
        if "max_steps" in over:
            kw["max_steps"] = over["max_steps"]
        sol = prop.fixed_steps(orb, x, t1, num(leg["dt"]), **kw)
    elif mode == "adaptive":
        if "max_steps" in over:
            kw["max_steps"] = over["max_steps"]
        sol = prop.adaptive_steps(orb, x, t1, **kw)
    elif mode == "general":
        save = leg.get("save", "t1")
        if save == "t1":
            sa = diffeq.SaveAt(subs=diffeq.SubSaveAt(t1=True))
        elif save == "steps":
            sa = diffeq.SaveAt(t0=True, steps=True)
        else:
            sa = diffeq.SaveAt(ts=jnp.asarray(np.asarray(leg["ts"], float)))
        if leg.get("dt0") is not None:
            kw["dt0"] = num(leg["dt0"])
        if "max_steps" in over:
            kw["max_steps"] = over["max_steps"]
        sol = prop.cowell_method(orb, x, t1, sa, **kw)
    else:
        raise ValueError(mode)
    return Sent(sol)


def lane_field(index):
    """Force kinds by lane: few distinct compiled programs per process."""
    return ("pm",) if index % 8 in (0, 4) else ("j2", "j234", "thrust")


def lane_ctl(index, x64):
    return "tight" if x64 and index % 8 in (1, 3, 4) else "default"


def gen_leg(rng, span, T, modes=MODES, ctl="default", sizes=(1, 8)):
    """One propagation request over `span` (signed)."""
    mode = rng.choice(modes)
    leg = {"mode": mode, "span": span, "ctl": ctl}
    if mode == "custom" or (mode == "general" and rng.random() < 0.3):
        n = sizes[-1] if mode == "general" else rng.choice(sizes)
        fr = sorted(rng.random() for _ in range(n))
        if rng.random() < 0.5:
            fr[-1] = 1.0
        if n > 1 and rng.random() < 0.3:
            fr[0] = 0.0
        leg["ts"] = [f * span for f in fr]
    if mode == "general":
        leg["save"] = "ts" if "ts" in leg else rng.choice(["t1", "steps"])
        if leg["save"] != "t1":
            leg["dt0"] = math.copysign(rng.choice([1e-3, 0.02, 0.3]) * T, span)
            if abs(leg["dt0"]) > abs(span):
                leg["dt0"] = span / 2
    if mode == "fixed":
        h = max(rng.uniform(0.01, 0.03) * T, abs(span) / 3900)   # 4096 by default
        if rng.random() < 0.5 and abs(span) > h:
            h = abs(span) / max(1, round(abs(span) / h))
        leg["dt"] = math.copysign(h, span)
        leg["ctl"] = "default"
    if rng.random() < 0.004:
        leg["pyfloat"] = True
    return leg


def leg_bound(orbit, leg, amp, nref, x64, rmax=1.0):
    """Scaled error a correct propagation of this leg may show (with head-room).

    Error-controlled: head-room * tol * sqrt(steps) * amplification; the
    measured worst case on the unchanged tree is about 0.05 of this bound.
    """
    eps = 0.0 if x64 else 6e-8
    n = math.sqrt(max(nref, 4))
    if leg["mode"] == "fixed":
        steps = abs(leg["span"] / leg["dt"])
        local = 0.02 * (abs(leg["dt"]) / timescale(orbit)) ** 5
        return (local * n + 20 * eps * (n + steps / 5)) * amp + 1e-12 * amp
    # outputs between steps come from the solver's dense interpolant
    local = (40.0 if leg.get("ts") else 3.0) * TOL[leg.get("ctl", "default")]
    return (local + 20 * eps) * n * amp + 1e-12 * amp


def speed(orbit, x):
    T = timescale(orbit)
    x = np.asarray(x)
    r = np.linalg.norm(x[:3])
    v = np.linalg.norm(x[3:]) * T / orbit["q"]
    a = orbit["mu"] / r**2 * T * T / orbit["q"]
    return max(v, a)


def kepler_bound(orbit, x, dt, amp, x64):
    T = timescale(orbit)
    s = speed(orbit, x)
    dtol = 1e-6 / math.sqrt(orbit["mu"])          # documented residual tolerance
    b = 5 * s * dtol / T + 1e-11 * amp
    if not x64:
        far = max(1.0, float(np.linalg.norm(np.asarray(x)[:3])) / orbit["q"] / 4)
        b += 150 * 6e-8 * far * (amp + s * (1 + abs(dt) / T))
    return b
