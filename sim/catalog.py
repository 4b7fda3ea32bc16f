"""Every public operation of the library, with random valid arguments.

A call is a JSON object {"fn": dotted name, "args": [...], "kw": {...}}; each
argument is ["ref", i] (an object of the run's pool, shared between calls),
["py", x], ["jax", x], ["np", x] or, for force models, a description of the
dynamics.  Building a call against a library instance is a pure function of
the call, the pool and the instance.
"""

from __future__ import annotations

import math

import numpy as np

from . import refmodel as ref
from . import world as W

PI = math.pi


# ------------------------------------------------------------------ generation
class Case:
    """One orbit with everything the recipes need, in plain numbers."""

    def __init__(self, rng, conics=("ell", "hyp", "ell")):
        o = W.gen_orbit(rng, conics=conics, emax=0.9, emin=0.01, ehyp=3.0,
                        units=rng.choice([("canonical", 1.0, 1.0), ("canonical", 1.0, 1.0),
                                          ("scaled-mu", 2.0, 1.0), ("au-yr", 4 * PI * PI, 1.0)]))
        self.o, self.mu, self.e = o, o["mu"], o["e"]
        self.x = np.array(o["x0"])
        self.T = W.timescale(o)
        self.dts = [rng.uniform(-2, 2) * self.T for _ in range(4)]
        self.xs = np.array([np.concatenate(ref.twobody(self.x[:3], self.x[3:], t, self.mu))
                            for t in self.dts])
        self.fill(self.x)

    def fill(self, x):
        mu = self.mu
        E, self.h, self.ev = ref.invariants(x[:3], x[3:], mu)
        self.a = -mu / (2 * E)
        self.al = 1 / self.a
        self.p = float(self.h @ self.h) / mu
        self.el = ref.state_to_coe(x[:3], x[3:], mu)
        self.r, self.v = float(np.linalg.norm(x[:3])), float(np.linalg.norm(x[3:]))
        self.s0 = float(x[:3] @ x[3:]) / math.sqrt(mu)
        self.node = np.array([-self.h[1], self.h[0], 0.0])


def lst(z):
    return np.asarray(z, float).tolist()


class Gen:
    def __init__(self, rng, cases=2, heavy=0.1, kepler=0.1, only=None):
        """`only`: the one kind of number and array to pass ("py" or "np")."""
        self.only = only
        self.rng, self.heavy, self.kepler = rng, heavy, kepler
        self.pool = []
        self.cases = [Case(rng) for _ in range(cases)]
        for c in self.cases:
            c.ref = {}
            for name, z in (("r", c.x[:3]), ("v", c.x[3:]), ("x", c.x), ("rb", c.xs[:, :3]),
                            ("vb", c.xs[:, 3:])):
                c.ref[name] = len(self.pool)
                self.pool.append({"t": "np" if only else rng.choice(["np", "np", "jax"]),
                                  "v": lst(z)})
            c.ref["args"] = len(self.pool)
            v = {"mu": c.mu, "R_eq": 1.0, "J2": rng.choice([1e-3, 0.01]), "J3": 1e-4,
                 "J4": -1e-4, "rmin": rng.choice([0.01, 0.5])}
            if rng.random() < 0.25:          # a caller who gives less, or more, than needed
                for k in rng.sample(sorted(v), rng.choice([1, 1, 2, 3])):
                    del v[k]
            if rng.random() < 0.25:
                v[rng.choice(["name", "J5", "thrust", "R_moon"])] = 2.0
            v = dict(rng.sample(sorted(v.items()), len(v)))
            self.pool.append({"t": "dict", "v": v, "leaf": only or rng.choice(["py", "jax", "np"])})
            c.ref["el"] = [len(self.pool) + k for k in range(6)]
            for z in c.el:
                self.pool.append({"t": only or rng.choice(["np", "jax", "np", "py"]), "v": z})

    def num(self, z, kinds=("py", "jax", "np", "jax")):
        z = float(z)
        if self.only:
            return [self.only, z]
        if z == int(z) and self.rng.random() < 0.3:
            return ["py", int(z)]
        return [self.rng.choice(kinds), z]

    def mu(self, c, out):
        """mu as a last argument, left out now and then where it is the default."""
        if c.mu == 1.0 and self.rng.random() < 0.3:
            return out
        return out + [self.num(c.mu)]

    def vec(self, c, name, own):
        if self.rng.random() < 0.7:
            return ["ref", c.ref[name]]
        return [self.rng.choice(["np", "jax"]), lst(own)]

    def call(self):
        rng = self.rng
        c = rng.choice(self.cases)
        if HINTS and rng.random() < 0.5:
            return self.named(rng.choice(HINTS), c)
        k = rng.random()
        if k < self.heavy:
            return self.numeric(c)
        if k < self.heavy + self.kepler:
            return self.keplerian(c)
        return self.simple(rng.choice(NAMES), c)

    def named(self, name, c=None):
        c = c or self.rng.choice(self.cases)
        if name in HEAVY:
            return self.numeric(c, name.split(".")[1])
        return self.keplerian(c) if name == "prop.kepler" else self.simple(name, c)

    # ---- numerical propagation
    def numeric(self, c, mode=None):
        rng = self.rng
        mode = mode or rng.choice(["to_final", "to_final", "custom_steps", "fixed_steps",
                                   "adaptive_steps", "cowell_method"])
        span = rng.choice([-1, 1]) * rng.uniform(0.2, 2.0) * c.T
        own = rng.random() < 0.75
        orb = ["orb", {"field": "own" if own else "lib", "args": ["ref", c.ref["args"]],
                       "event": rng.random() < 0.15, "default_args": c.mu == 1.0 and
                       own and rng.random() < 0.3}]
        x = self.vec(c, "x", c.x)
        t1 = [rng.choice(["jax", "np"]), span]
        args = [orb, x, t1]
        if mode == "custom_steps":
            args.append([rng.choice(["jax", "np"]), [span * f for f in (0.2, 0.5, 1.0)]])
        elif mode == "fixed_steps":
            args.append(["jax", span / rng.choice([20, 20.5, 30])])
        elif mode == "cowell_method":
            args.append(["saveat", None])
        kw = {"max_steps": 64} if mode in ("fixed_steps", "adaptive_steps") else {}
        return {"fn": "prop." + mode, "args": args, "kw": kw, "heavy": True}

    def keplerian(self, c):
        rng = self.rng
        ts = c.dts[:rng.choice([1, 3])]
        a = [[rng.choice(["jax", "np"]), ts], self.vec(c, "r", c.x[:3]),
             self.vec(c, "v", c.x[3:])]
        return {"fn": "prop.kepler", "args": self.mu(c, a), "kw": {}, "eager": True}

    # ---- closed-form functions
    def simple(self, name, c):
        rng, n = self.rng, self.num
        e_ell, e_hyp = min(c.e, 0.9), max(c.e, 1.2)
        ang = rng.uniform(-4, 4)
        dt = rng.choice(c.dts)
        chi = rng.uniform(-2, 2)
        U = ref.ufuncs(chi, c.al)
        A = abs(c.a)
        P = 2 * PI * math.sqrt(A**3 / c.mu)
        y = c.xs[rng.randrange(4)]
        r1, v1 = self.vec(c, "r", c.x[:3]), self.vec(c, "v", c.x[3:])
        bat = rng.random() < 0.4
        R = ["ref", c.ref["rb"]] if bat else r1
        V = ["ref", c.ref["vb"]] if bat else v1
        jn = lambda z: [rng.choice(["jax", "np"]), lst(z)]  # noqa: E731
        tbl = {
            "orb_period": lambda: self.mu(c, [n(A)]),
            "a_from_period": lambda: self.mu(c, [n(P)]),
            "semimajor_axis": lambda: self.mu(c, [n(c.r), n(c.v)]),
            "semiparameter": lambda: self.mu(c, [n(np.linalg.norm(c.h))]),
            "mean_motion": lambda: [n(P)],
            "equ_of_orbit": lambda: [n(c.p), n(c.e), n(c.el[5])],
            "equ_of_orb_uvi": lambda: [n(U[0]), n(U[1]), n(U[2]), n(c.r), n(c.s0)],
            "radius_periapsis": lambda: [n(c.p), n(c.e)],
            "radius_apoapsis": lambda: [n(c.p), n(c.e)],
            "semipara_from_ae": lambda: [n(c.a), n(c.e)],
            "a_from_pe": lambda: [n(c.p), n(c.e)],
            "kepler_equ_elps": lambda: [n(ang), n(e_ell)] + [n(0.3)] * (rng.random() < 0.6),
            "dE": lambda: [n(ang), n(e_ell)],
            "kepler_equ_hypb": lambda: [n(ang), n(e_hyp)] + [n(0.3)] * (rng.random() < 0.6),
            "dH": lambda: [n(ang), n(e_hyp)],
            "mean_anomaly_elps": lambda: self.mu(c, [n(A), n(dt)]),
            "mean_anomaly_hypb": lambda: self.mu(c, [n(-A), n(dt)]),
            "kepler_equ_uni": lambda: self.mu(
                c, [n(chi), n(c.al), n(c.r), n(c.s0), n(dt)]),
            "generalized_anomaly": lambda: self.mu(
                c, [n(c.al), n(chi), n(c.s0), n(dt)]),
            "inclination": lambda: [jn(c.h)],
            "true_anomaly": lambda: [R, jn(c.ev)],
            "right_ascension": lambda: [jn(c.node)],
            "argument_of_periapsis": lambda: [jn(c.node), jn(c.ev)],
            "angular_momentum": lambda: [R, V],
            "eccentricity_vector": lambda: self.mu(c, [R, V]),
            "rv2coe": lambda: self.mu(c, [R, V]),
            "coe2rv": lambda: self.mu(c, [["ref", i] for i in c.ref["el"]]),
            "twobody.sigma_fn": lambda: self.mu(c, [R, V]),
            "twobody.lagrange_F": lambda: [n(U[2]), n(c.r)],
            "twobody.lagrange_G": lambda: self.mu(c, [n(U[1]), n(U[2]), n(c.s0), n(c.r)]),
            "twobody.lagrange_Ft": lambda: self.mu(c, [n(U[1]), n(c.r * 1.1), n(c.r)]),
            "twobody.lagrange_Gt": lambda: [n(U[2]), n(c.r)],
            "twobody.C_func": lambda: self.mu(
                c, [n(chi), n(U[2]), n(0.1), n(0.05), n(dt)]),
            "twobody.prpr0": lambda: self.mu(c, [jn(y[:3]), jn(y[3:]), r1, v1, n(.3), n(.2)]),
            "twobody.prpv0": lambda: self.mu(
                c, [jn(y[:3]), jn(y[3:]), r1, v1, n(.3), n(.4), n(.2)]),
            "twobody.pvpr0": lambda: self.mu(c, [jn(y[:3]), jn(y[3:]), r1, v1, n(.3), n(.2)]),
            "twobody.pvpv0": lambda: self.mu(
                c, [jn(y[:3]), jn(y[3:]), r1, v1, n(.3), n(.4), n(.2)]),
            "twobody.dxdx0": lambda: self.mu(
                c, [jn(c.xs[0][:3]), jn(c.xs[0][3:]), r1, v1, n(c.dts[0])]),
            "twobody.nmax_by_periapsis": lambda: self.mu(
                c, [n(0.9), n(c.r), n(c.r * 1.2), n(abs(dt) * 9)]),
            "twobody.is_short_way": lambda: [r1, v1, jn(y[:3])],
            "twobody.pass_perigee": lambda: self.mu(c, [r1, v1, jn(y[:3])]),
            "twobody.rp_islower_rmin": lambda: self.mu(c, [n(1.5), r1, v1]),
            "events.radius_islow": lambda: [n(dt), self.vec(c, "x", c.x),
                                            ["ref", c.ref["args"]]],
        }
        for k in range(6):
            tbl[f"twobody.ufunc{k}"] = lambda: [n(chi), n(c.al)]
        for k in "xyz":
            tbl[f"utils.rotmat3d{k}"] = lambda: [n(ang) if rng.random() < .5 else
                                                 jn([ang, 0.1, -ang])]
        for k in ("point_mass_grav", "j2_acc", "j3_acc", "j4_acc"):
            tbl[f"gravity.{k}"] = lambda: [n(dt), self.vec(c, "x", c.x)] + (
                [] if k == "point_mass_grav" and c.mu == 1 and rng.random() < .3
                else [["ref", c.ref["args"]]])
        if name in ("solve_kepler_elps", "solve_kepler_hypb"):
            e = e_ell if name.endswith("elps") else e_hyp
            return {"fn": name, "args": [n(ang), n(e)], "kw": {}, "eager": True}
        if name == "solve_kepler_uni":
            return {"fn": name, "args": self.mu(c, [n(dt), n(c.al), n(c.r), n(c.s0)]), "kw": {},
                    "eager": True}
        out = {"fn": name, "args": tbl[name](), "kw": {}}
        if name in RECOMPILES and rng.random() < 0.9:
            out["eager"] = True
        return out


# JAX compiles these anew on every call; with its compiled branches and loops
# switched off the same code runs an order of magnitude faster
RECOMPILES = {f"twobody.ufunc{k}" for k in range(6)} | {"twobody.dxdx0", "kepler_equ_uni"}

NAMES = ["orb_period", "a_from_period", "semimajor_axis", "semiparameter", "mean_motion",
         "equ_of_orbit", "equ_of_orb_uvi", "radius_periapsis", "radius_apoapsis",
         "semipara_from_ae", "a_from_pe", "kepler_equ_elps", "dE", "kepler_equ_hypb", "dH",
         "mean_anomaly_elps", "mean_anomaly_hypb", "kepler_equ_uni", "generalized_anomaly",
         "inclination", "true_anomaly", "right_ascension", "argument_of_periapsis",
         "angular_momentum", "eccentricity_vector", "rv2coe", "rv2coe", "coe2rv", "coe2rv",
         "solve_kepler_elps", "solve_kepler_hypb", "solve_kepler_uni",
         "events.radius_islow"] + \
        [f"twobody.{k}" for k in
         ("sigma_fn", "lagrange_F", "lagrange_G", "lagrange_Ft", "lagrange_Gt", "C_func",
          "prpr0", "prpv0", "pvpr0", "pvpv0", "dxdx0", "dxdx0", "nmax_by_periapsis",
          "is_short_way", "pass_perigee", "rp_islower_rmin")] + \
        [f"twobody.ufunc{k}" for k in range(6)] + \
        [f"utils.rotmat3d{k}" for k in "xyz"] + \
        [f"gravity.{k}" for k in ("point_mass_grav", "j2_acc", "j3_acc", "j4_acc")]


HEAVY = ["prop.to_final", "prop.custom_steps", "prop.fixed_steps", "prop.adaptive_steps",
         "prop.cowell_method"]

# operations of the tree under test that touch lasting state (sim.hints)
HINTS: list = []


# ---------------------------------------------------------------- construction
def own_field(t, x, args):
    """A user's own force model: no library code in it."""
    import jax.numpy as jnp

    r = x[:3]
    return jnp.concatenate([x[3:], -args["mu"] * r / jnp.linalg.norm(r) ** 3])


def leaf(kind, v):
    import jax.numpy as jnp

    if kind == "py":
        return v
    if kind == "np":
        return np.asarray(v, float)
    if kind == "jax":
        return jnp.asarray(np.asarray(v, float))
    raise ValueError(kind)


def make_pool(pool):
    out = []
    for d in pool:
        if d["t"] == "dict":
            out.append({k: leaf(d["leaf"], v) for k, v in d["v"].items()})
        else:
            out.append(leaf(d["t"], d["v"]))
    return out


def copy_obj(z):
    if isinstance(z, dict):
        return {k: copy_obj(v) for k, v in z.items()}
    if isinstance(z, np.ndarray):
        return z.copy()
    return z                    # jax arrays and numbers are immutable


def same_obj(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return list(a) == list(b) and all(same_obj(a[k], b[k]) for k in a)
    if hasattr(a, "dtype"):
        x, y = np.asarray(a), np.asarray(b)
        return x.dtype == y.dtype and x.shape == y.shape and x.tobytes() == y.tobytes()
    if isinstance(a, float):
        return a == b or (a != a and b != b)
    return a == b


def own_rhs(field):
    return field


def build(inst, call, pool, over=None):
    """(function, args, kwargs) of a call against a library instance."""
    adx = inst.adx
    f = adx
    for part in call["fn"].split("."):
        f = getattr(f, part)

    def arg(z):
        kind, v = z
        if kind == "ref":
            return pool[v]
        if kind == "orb":
            return orbdyn(inst, v, pool, over)
        if kind == "saveat":
            return inst.modules["astrodynx.diffeq"].SaveAt(t1=True)
        return leaf(kind, v)

    return f, [arg(z) for z in call["args"]], dict(call["kw"])


def orbdyn(inst, d, pool, over=None):
    diffeq = inst.modules["astrodynx.diffeq"]
    adx = inst.adx
    if d["field"] == "own":
        f = own_field
    else:
        f = inst.__dict__.get("_field")
        if f is None:
            import jax.numpy as jnp
            g = adx.gravity

            def f(t, x, args):
                a = g.point_mass_grav(t, x, args) + g.j2_acc(t, x, args) + \
                    g.j3_acc(t, x, args) + g.j4_acc(t, x, args)
                return jnp.concatenate([x[3:], a])
            inst.__dict__["_field"] = f
    if over and "field" in over:
        f = over["field"](f)
    kw = {}
    if not d["default_args"]:
        kw["args"] = pool[d["args"][1]]
    if d["event"]:
        kw["event"] = diffeq.Event(adx.events.radius_islow)
        kw["args"] = pool[d["args"][1]]
    return adx.prop.OrbDynx(diffeq.ODETerm(f), **kw)


def perform(inst, call, pool, over=None):
    """Make the call: ("ok", leaves, result) or ("raised", type name, exception)."""
    import jax

    old = jax.config.jax_disable_jit
    if call.get("eager"):
        jax.config.update("jax_disable_jit", True)
    try:
        return invoke(inst, call, pool, over)
    finally:
        if call.get("eager"):
            jax.config.update("jax_disable_jit", old)


def invoke(inst, call, pool, over=None):
    import jax

    try:
        f, a, kw = build(inst, call, pool, over)
        out = f(*a, **kw)
        jax.block_until_ready(out)
    except (Exception, KeyboardInterrupt) as e:
        return "raised", type(e).__name__, e
    return "ok", leaves(out), out


def leaves(out):
    import jax

    return [np.array(z) if hasattr(z, "dtype") else z for z in jax.tree.leaves(out)]


def same_result(a, b):
    if a[0] != b[0]:
        return False
    if a[0] == "raised":
        return a[1] == b[1]
    return len(a[1]) == len(b[1]) and all(same_obj(x, y) for x, y in zip(a[1], b[1]))


def show(res):
    if res[0] == "raised":
        return f"{res[1]}: {str(res[2])[:200]}"
    return str([z.tolist() if hasattr(z, "tolist") else z for z in res[1]])[:300]


class Settings:
    """The process-wide numerical configuration a call must not change."""

    def __init__(self):
        import decimal
        import os
        import sys
        import warnings

        import jax

        self.v = {
            "jax": {k: repr(v) for k, v in sorted(jax.config.values.items())},
            "x64": bool(jax.config.jax_enable_x64),
            "jit": bool(jax.config.jax_disable_jit),
            "numpy": str(np.geterr()),
            "np random": hash(np.random.get_state()[1].tobytes()),
            "print": str(np.get_printoptions()),
            "warnings": len(warnings.filters),
            "env": hash(tuple(sorted(os.environ.items()))),
            "recursion": sys.getrecursionlimit(),
            "switch": sys.getswitchinterval(),
            "decimal": str(decimal.getcontext()),
            "hooks": (id(sys.excepthook), id(sys.stdout), id(sys.gettrace())),
        }

    def diff(self, other):
        out = []
        for k in self.v:
            if self.v[k] != other.v[k]:
                if k == "jax":
                    a, b = self.v[k], other.v[k]
                    out += [f"jax.{n}: {a.get(n)} -> {b.get(n)}" for n in sorted(set(a) | set(b))
                            if a.get(n) != b.get(n)]
                else:
                    out.append(f"{k}: {self.v[k]} -> {other.v[k]}")
        return out
