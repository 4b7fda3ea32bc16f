"""C16: members of a fleet served in one request get the answers they get alone."""

from __future__ import annotations

import functools
import math

import numpy as np

from . import catalog as C
from . import lib
from . import refmodel as ref
from . import world as W
from .core import Skip, Violation

PI = math.pi

# name -> how each argument may be passed to the operation itself, without a
# vectorising transformation: s = a number per member or one for all, n = per
# member only, c = one for all only, v = a vector per member or one for all,
# m = a number per member in a column (it meets vectors).  None = only under vmap.
NATIVE = {
    "orb_period": "ss", "a_from_period": "ss", "semimajor_axis": "sss", "semiparameter": "ss",
    "mean_motion": "n", "equ_of_orbit": "sss", "equ_of_orb_uvi": "sssss",
    "radius_periapsis": "ss", "radius_apoapsis": "ss", "semipara_from_ae": "ss",
    "a_from_pe": "ss", "kepler_equ_elps": "sss", "dE": "ss", "kepler_equ_hypb": "sss", "dH": "ss",
    "mean_anomaly_elps": "sss", "mean_anomaly_hypb": "sss", "kepler_equ_uni": "ncsssc",
    "generalized_anomaly": "sssss", "inclination": "v", "true_anomaly": "vv",
    "right_ascension": "v", "argument_of_periapsis": "vv", "angular_momentum": "vv",
    "eccentricity_vector": "vvm", "rv2coe": "vvm", "coe2rv": "sssssss",
    "solve_kepler_elps": None, "solve_kepler_hypb": None, "solve_kepler_uni": None,
    "twobody.sigma_fn": "vvm", "twobody.lagrange_F": "ss", "twobody.lagrange_G": "sssss",
    "twobody.lagrange_Ft": "ssss", "twobody.lagrange_Gt": "ss", "twobody.C_func": "ssssss",
    "twobody.prpr0": None, "twobody.prpv0": None, "twobody.pvpr0": None, "twobody.pvpv0": None,
    "twobody.dxdx0": None, "twobody.nmax_by_periapsis": "sssss",
    "twobody.is_short_way": None, "twobody.pass_perigee": None, "twobody.rp_islower_rmin": None,
    "events.radius_islow": None, "gravity.point_mass_grav": None, "gravity.j2_acc": None,
    "gravity.j3_acc": None, "gravity.j4_acc": None,
    **{f"twobody.ufunc{k}": "nc" for k in range(6)},
    **{f"utils.rotmat3d{k}": "s" for k in "xyz"},
}
# weighted: where entries meet vectors, axes and branches there is more to go wrong
NAMES = sorted(NATIVE) + 5 * ["rv2coe", "coe2rv"] + 2 * [
    "eccentricity_vector", "angular_momentum", "true_anomaly", "argument_of_periapsis",
    "inclination", "right_ascension", "twobody.sigma_fn", "solve_kepler_uni", "kepler_equ_uni",
    "utils.rotmat3dx", "utils.rotmat3dy", "utils.rotmat3dz"]
# JAX compiles these anew on every call: their lone answers come compiled too
LOOPS = {f"twobody.ufunc{k}" for k in range(6)} | {
    "twobody.dxdx0", "kepler_equ_uni", "solve_kepler_elps", "solve_kepler_hypb",
    "solve_kepler_uni"}
SOLVERS = {"solve_kepler_elps", "solve_kepler_hypb", "solve_kepler_uni"}
FLIGHTS = ("final", "custom", "fixed", "adaptive")
SIZES = (1, 2, 3, 3, 3, 4, 6)
BAD = ("nan", "nan", "inf", "zero", "huge", "sign")


# ------------------------------------------------------------------ generation
def rows_for(rng, name, cases):
    """Arguments of each member, as plain numbers, vectors and dictionaries."""
    out = []
    ang = [rng.uniform(-4, 4) for _ in cases]
    for c, A in zip(cases, ang):
        e_ell, e_hyp = min(c.e, 0.9), max(c.e, 1.2)
        dt = rng.choice(c.dts)
        chi = rng.uniform(-2, 2)
        U = ref.ufuncs(chi, c.al)
        a = abs(c.a)
        P = 2 * PI * math.sqrt(a**3 / c.mu)
        y = c.xs[rng.randrange(4)]
        r, v, z = c.x[:3], c.x[3:], c.x
        d = {"mu": c.mu, "R_eq": 1.0, "J2": rng.choice([1e-3, 0.01]), "J3": 1e-3, "J4": -1e-3,
             "rmin": rng.uniform(0.5, 2.5)}
        row = {
            "orb_period": (a, c.mu), "a_from_period": (P, c.mu),
            "semimajor_axis": (c.r, c.v, c.mu), "semiparameter": (np.linalg.norm(c.h), c.mu),
            "mean_motion": (P,), "equ_of_orbit": (c.p, c.e, c.el[5]),
            "equ_of_orb_uvi": (U[0], U[1], U[2], c.r, c.s0),
            "radius_periapsis": (c.p, c.e), "radius_apoapsis": (c.p, c.e),
            "semipara_from_ae": (c.a, c.e), "a_from_pe": (c.p, c.e),
            "kepler_equ_elps": (A, e_ell, rng.uniform(-1, 1)), "dE": (A, e_ell),
            "kepler_equ_hypb": (A, e_hyp, rng.uniform(-1, 1)), "dH": (A, e_hyp),
            "mean_anomaly_elps": (a, dt, c.mu), "mean_anomaly_hypb": (-a, dt, c.mu),
            "kepler_equ_uni": (chi, c.al, c.r, c.s0, dt, c.mu),
            "generalized_anomaly": (c.al, chi, c.s0, dt, c.mu),
            "inclination": (c.h,), "true_anomaly": (r, c.ev), "right_ascension": (c.node,),
            "argument_of_periapsis": (c.node, c.ev), "angular_momentum": (r, v),
            "eccentricity_vector": (r, v, c.mu), "rv2coe": (r, v, c.mu),
            "coe2rv": tuple(c.el) + (c.mu,), "solve_kepler_elps": (A, e_ell),
            "solve_kepler_hypb": (A, e_hyp), "solve_kepler_uni": (dt, c.al, c.r, c.s0, c.mu),
            "twobody.sigma_fn": (r, v, c.mu), "twobody.lagrange_F": (U[2], c.r),
            "twobody.lagrange_G": (U[1], U[2], c.s0, c.r, c.mu),
            "twobody.lagrange_Ft": (U[1], c.r * 1.1, c.r, c.mu),
            "twobody.lagrange_Gt": (U[2], c.r * 1.2),
            "twobody.C_func": (chi, U[2], 0.1, 0.05, dt, c.mu),
            "twobody.prpr0": (y[:3], y[3:], r, v, A, 0.2, c.mu),
            "twobody.prpv0": (y[:3], y[3:], r, v, A, 0.4, 0.2, c.mu),
            "twobody.pvpr0": (y[:3], y[3:], r, v, A, 0.2, c.mu),
            "twobody.pvpv0": (y[:3], y[3:], r, v, A, 0.4, 0.2, c.mu),
            "twobody.dxdx0": (c.xs[0][:3], c.xs[0][3:], r, v, c.dts[0], c.mu),
            "twobody.nmax_by_periapsis": (0.9, c.r, c.r * 1.2, abs(dt) * 9, c.mu),
            "twobody.is_short_way": (r, v, y[:3]), "twobody.pass_perigee": (r, v, y[:3], c.mu),
            "twobody.rp_islower_rmin": (rng.uniform(0.8, 2.0), r, v, c.mu),
            "events.radius_islow": (dt, z, d), "gravity.point_mass_grav": (dt, z, d),
            "gravity.j2_acc": (dt, z, d), "gravity.j3_acc": (dt, z, d),
            "gravity.j4_acc": (dt, z, d),
        }
        for k in range(6):
            row[f"twobody.ufunc{k}"] = (chi, c.al)
        for k in "xyz":
            row[f"utils.rotmat3d{k}"] = (A,)
        out.append([w if isinstance(w, dict) else np.asarray(w, float).tolist()
                    for w in row[name]])
    return out


def spoil(rng, row, kind):
    """One member's arguments as broken telemetry delivers them."""
    spots = []
    for j, w in enumerate(row):
        if isinstance(w, dict):
            spots += [(j, k) for k in sorted(w)]
        elif isinstance(w, list):
            spots += [(j, k) for k in range(len(w))]
        else:
            spots.append((j, None))
    new = [dict(w) if isinstance(w, dict) else list(w) if isinstance(w, list) else w for w in row]
    for j, k in rng.sample(spots, rng.choice([1, 1, min(2, len(spots))])):
        old = new[j] if k is None else new[j][k]
        val = {"nan": math.nan, "inf": rng.choice([math.inf, -math.inf]), "zero": 0.0,
               "huge": old * 1e12, "sign": -old}[kind]
        if k is None:
            new[j] = val
        else:
            new[j][k] = val
    return new


def generate(rng, index, tier, x64):
    cases = [C.Case(rng) for _ in range(rng.choice(SIZES))]
    if rng.random() < 0.5:              # one body of reference for the fleet
        units = rng.choice([("canonical", 1.0, 1.0), ("au-yr", 4 * PI * PI, 1.0)])
        for k in range(len(cases)):
            while abs(cases[k].mu - units[1]) > 1e-9:
                cases[k] = C.Case(rng)
    ops = []
    for _ in range(rng.randint(2, 5)):
        if index % 16 in (3, 12) and not any(o["op"] == "flight" for o in ops):
            ops.append(flight(rng, index))
            continue
        name = rng.choice(NAMES)
        forms = NATIVE[name]
        rows = rows_for(rng, name, cases)
        order = list(range(len(cases)))
        if rng.random() < 0.5:          # late, lost and repeated members
            rng.shuffle(order)
        if len(order) > 1 and rng.random() < 0.2:
            order.pop()
        if rng.random() < 0.2:
            order[-1] = order[0]
        how = rng.choice(["native", "native", "vmap", "jit"]) if forms else \
            rng.choice(["vmap", "jit"])
        if name in LOOPS and how == "vmap":
            how = "jit"
        rows = [rows[i] for i in order]
        common = []
        for j in range(len(rows[0])):
            f = forms[j] if how == "native" else "s"
            if f == "c" or (f in "svm" and rng.random() < 0.15):
                common.append(j)
        if len(common) == len(rows[0]):
            common = [j for j in common if how == "native" and forms[j] == "c"]
        if how == "native" and "v" in forms and all(
                j in common for j, f in enumerate(forms) if f == "v"):
            common = []                 # at least one vector of every member's own
        bad = {}
        if rng.random() < 0.45 and len(rows) > 1:
            for i in rng.sample(range(len(rows)), rng.choice([1, 1, len(rows) - 1])):
                kind = rng.choice(BAD)
                rows[i] = spoil(rng, rows[i], kind)
                bad[str(i)] = kind
        n = len(rows)
        lead = rng.choice([[n], [n], [n], [1, n], [n, 1]] + ([[2, n // 2]] if n in (4, 6) else []) +
                          ([[n // 2, 2]] if n == 6 else []))
        if how != "native":
            lead = [n]
        src = next((i for i in range(n) if str(i) not in bad), 0)
        ops.append({"op": "ask", "fn": name, "how": how, "rows": rows, "common": common,
                    "src": src, "bad": bad, "lead": lead, "faults": len(set(order)) < len(cases)})
    return {"ops": ops}


def flight(rng, index):
    """A fleet flown by one vectorised numerical propagation."""
    mode = FLIGHTS[(index // 16 + index) % 4]
    n = 3
    members = []
    for _ in range(n):
        o = W.gen_orbit(rng, emax=0.8, ehyp=2.0, units=("canonical", 1.0, 1.0))
        T = W.timescale(o)
        span = rng.choice([-1, 1]) * rng.uniform(0.1, 6.0) * T
        members.append({"orbit": o, "span": span, "h": span / rng.choice([20.5, 33, 60]),
                        "f": [0.25, rng.uniform(0.3, 0.9), 1.0],
                        "rmin": rng.choice([0.01, 0.01, 0.01, o["q"] * rng.uniform(1.0, 1.4)])})
    bad = {}
    if rng.random() < 0.5:
        # without a step limit a flight of broken data never ends (see C03)
        kind = rng.choice(["nan", "still", "low", "low"]) if mode != "custom" else "low"
        bad[str(rng.randrange(n))] = kind
    return {"op": "flight", "mode": mode, "members": members, "bad": bad}


# ------------------------------------------------------------------- execution
def fetch(fn, x64=False):
    f = lib.load()
    for part in fn.split("."):
        f = getattr(f, part)
    if x64 and fn in SOLVERS:           # iterated to the end: nothing left to the last step
        return functools.partial(f, tol=1e-12)
    return f


def arr(w):
    import jax.numpy as jnp

    if isinstance(w, dict):
        return {k: jnp.asarray(float(v)) for k, v in w.items()}
    return jnp.asarray(np.asarray(w, float))


def stack(ws, lead, column=False):
    import jax.numpy as jnp

    if isinstance(ws[0], dict):
        return {k: stack([w[k] for w in ws], lead) for k in ws[0]}
    z = np.asarray(ws, float)
    z = z.reshape(tuple(lead) + z.shape[1:])
    return jnp.asarray(z[..., None] if column else z)


def out_leaves(out):
    import jax

    return [np.asarray(z) for z in jax.tree.leaves(out)]


def cached(ctx, key, make):
    if key not in ctx.cache:
        ctx.cache[key] = make()
    return ctx.cache[key]


def lone(ctx, name):
    import jax

    f = fetch(name, ctx.x64)
    return cached(ctx, ("lone", name), lambda: jax.jit(f)) if name in LOOPS else f


def nudge(row, k, eps):
    """The row, each number moved by a few units in the last place."""
    rng = np.random.default_rng(1000 + k)
    out = []
    for w in row:
        if isinstance(w, dict):
            out.append({n: v * (1 + eps * rng.uniform(-4, 4)) for n, v in w.items()})
        else:
            z = np.asarray(w, float)
            out.append(z * (1 + eps * rng.uniform(-4, 4, z.shape)))
    return out


def ask(plan, op, run, ctx, k):
    import jax

    name, rows, lead = op["fn"], op["rows"], op["lead"]
    forms = NATIVE[name]
    n = len(rows)
    rows = [[rows[op["src"]][j] if j in op["common"] else w for j, w in enumerate(row)]
            for row in rows]
    what = f"request {k}: {name} {op['how']} for {n} members as {tuple(lead)}"
    if op["how"] == "native":
        args = [arr(rows[0][j]) if j in op["common"] else
                stack([r[j] for r in rows], lead, forms[j] == "m") for j in range(len(rows[0]))]
        call = fetch(name, ctx.x64)
    else:
        axes = tuple(None if j in op["common"] else 0 for j in range(len(rows[0])))
        args = [arr(rows[0][j]) if j in op["common"] else stack([r[j] for r in rows], lead)
                for j in range(len(rows[0]))]
        call = jax.vmap(fetch(name, ctx.x64), in_axes=axes)
        if op["how"] == "jit":
            call = cached(ctx, ("jit", name, axes), lambda: jax.jit(call))
    alone = lone(ctx, name)
    singles, refused = [], False
    for i, row in enumerate(rows):
        try:
            singles.append(out_leaves(alone(*[arr(w) for w in row])))
        except Exception:  # noqa: BLE001
            if str(i) not in op["bad"]:
                raise
            singles.append(None)        # broken data is refused: so may the request be
            refused = True
    if refused:
        run.probe("broken-member-refused")
    first = next(z for z in singles if z is not None)
    try:
        got = out_leaves(call(*args))
    except Exception as e:  # noqa: BLE001 - any failure of the request is judged
        if "RESOURCE_EXHAUSTED" in str(e):
            raise
        if refused:
            run.log("ask", k, name, "refused")
            return
        raise Violation("request", f"{what}: raised {type(e).__name__}: {str(e)[:200]} though "
                                   f"every member alone is answered")
    run.log("ask", k, name, op["how"], *got)
    if len(got) != len(first):
        raise Violation("shape", f"{what}: {len(got)} results, alone {len(first)}")
    eps = 2.3e-16 if plan["x64"] else 1.2e-7
    for g, s in zip(got, first):
        if g.shape != tuple(lead) + s.shape:
            raise Violation("shape", f"{what}: shape {g.shape}, each member alone {s.shape}")
        if g.dtype != s.dtype:
            raise Violation("dtype", f"{what}: {g.dtype}, each member alone {s.dtype}")
    flat = [g.reshape((n,) + s.shape) for g, s in zip(got, first)]
    for i in range(n):
        if str(i) in op["bad"]:
            continue
        run.probe("healthy-member")
        for q, (g, s) in enumerate(zip(flat, singles[i])):
            a = g[i]
            if np.array_equal(a, s, equal_nan=True):
                continue
            near = [out_leaves(alone(*[arr(w) for w in nudge(rows[i], m, eps)]))[q]
                    for m in range(6)]
            if s.dtype == bool or s.dtype.kind in "iu":
                if all(np.array_equal(z, s) for z in near):
                    raise Violation("member", f"{what}: member {i} gets {a}, alone {s}")
                continue
            if not np.array_equal(np.isfinite(a), np.isfinite(s)):
                if all(np.array_equal(np.isfinite(z), np.isfinite(s)) for z in near):
                    raise Violation("member", f"{what}: member {i} gets {a.tolist()}, alone "
                                              f"{s.tolist()}")
                continue
            if not np.all(np.isfinite(s)):
                continue
            spread = max(float(np.max(np.abs(z.astype(float) - s))) for z in near)
            size = float(np.max(np.abs(s))) if s.size else 0.0
            tol = 30 * spread + 64 * eps * size
            if name in SOLVERS:                    # the last Newton step taken or not
                tol += 1e-10 if plan["x64"] else 2e-5
            if name == "inclination" or (name == "rv2coe" and q == 2):
                # an arc cosine: its last digit is worth 1/sin(i)
                tol += 16 * eps / max(math.sin(float(np.min(s))), math.sqrt(eps))
            d = float(np.max(np.abs(a.astype(float) - s)))
            run.metric("member" + ("" if plan["x64"] else "/f32"), d / tol if tol else 0.0)
            if not d <= tol:
                raise Violation("member", f"{what}: member {i} gets {a.tolist()}, alone "
                                          f"{s.tolist()} (allowed difference {tol:.2e})")


def fleet_fn(ctx, mode):
    """One propagation as a function of arrays, and its vectorised form."""
    import jax

    def make():
        from astrodynx import diffeq

        prop, adx = lib.load().prop, lib.load()
        term = W.term(ctx, "full")

        def fly(x, t1, h, ts, args):
            orb = prop.OrbDynx(term, args, diffeq.Event(adx.events.radius_islow))
            if mode == "final":
                s = prop.to_final(orb, x, t1)
            elif mode == "custom":
                s = prop.custom_steps(orb, x, t1, ts)
            elif mode == "fixed":
                s = prop.fixed_steps(orb, x, t1, h, max_steps=64)
            else:
                s = prop.adaptive_steps(orb, x, t1, max_steps=256)
            return s.ts, s.ys

        return jax.jit(fly), jax.jit(jax.vmap(fly))

    return cached(ctx, ("fleet", mode), make)


def fleet(plan, op, run, ctx, k):
    import jax
    import jax.numpy as jnp

    mode, ms = op["mode"], op["members"]
    what = f"request {k}: fleet of {len(ms)} flown to {mode}"
    xs, ts, hs, es, rs = [], [], [], [], []
    for i, m in enumerate(ms):
        x = np.array(m["orbit"]["x0"])
        kind = op["bad"].get(str(i))
        span, h, rmin = m["span"], m["h"], m["rmin"]
        if kind == "nan":
            x[1] = math.nan
        elif kind == "still":
            x[3:] = 0.0
        elif kind == "low":
            rmin = 10.0 * float(np.linalg.norm(x[:3]))
        xs.append(x)
        ts.append(span)
        hs.append(h)
        es.append([f * span for f in m["f"]])
        rs.append(rmin)
    one, many = fleet_fn(ctx, mode)
    base = {"mu": 1.0, "R_eq": 1.0, "J2": 1e-3, "J3": 1e-4, "J4": 1e-4, "thrust": 0.0,
            "omega": 0.0, "epoch": 0.0}

    def args(rmin):
        shape = np.shape(rmin)
        return {**{n: jnp.full(shape, v) for n, v in base.items()},
                "rmin": jnp.asarray(np.asarray(rmin, float))}

    def call(f, *a):
        try:
            out = f(*a)
            jax.block_until_ready(out)
            return [np.asarray(z, float) for z in out], None
        except Exception as e:  # noqa: BLE001
            if "RESOURCE_EXHAUSTED" in str(e):
                raise
            return None, e

    lone_ = [call(one, jnp.asarray(xs[i]), jnp.asarray(ts[i]), jnp.asarray(hs[i]),
                  jnp.asarray(np.array(es[i])), args(rs[i])) for i in range(len(ms))]
    got, err = call(many, jnp.asarray(np.array(xs)), jnp.asarray(np.array(ts)),
                    jnp.asarray(np.array(hs)), jnp.asarray(np.array(es)), args(rs))
    run.probe("fleet-flight")
    run.sim_time += sum(abs(t) for t in ts)
    for i, (o, e) in enumerate(lone_):
        if e is not None and str(i) not in op["bad"]:
            raise Violation("request", f"{what}: member {i} alone is not answered: "
                                       f"{type(e).__name__}: {str(e)[:200]}")
    failed = [i for i, (o, e) in enumerate(lone_) if e is not None]
    if got is None:
        run.log("fleet", k, mode, "raised")
        if not failed:
            raise Violation("request", f"{what}: raised {str(err)[:200]} though every member "
                                       f"alone is answered")
        run.probe("fleet-raised-for-a-member")
        return
    run.log("fleet", k, mode, *got)
    if failed:
        raise Violation("member", f"{what}: answered, though member {failed[0]} alone raises")
    for i, m in enumerate(ms):
        if str(i) in op["bad"]:
            continue
        run.probe("healthy-member")
        (t, y), (gt, gy) = lone_[i][0], (got[0][i], got[1][i])
        if t.shape != gt.shape or y.shape != gy.shape:
            raise Violation("shape", f"{what}: member {i} gets {gt.shape} {gy.shape}, alone "
                                     f"{t.shape} {y.shape}")
        orbit, T = m["orbit"], W.timescale(m["orbit"])
        used = np.isfinite(t)
        dense = mode == "adaptive"
        if not dense and (not np.array_equal(used, np.isfinite(gt)) or
                          np.max(np.abs(t[used] - gt[used]), initial=0.0) >
                          (1e-9 if plan["x64"] else 1e-3) * T):
            if m["rmin"] > 0.1:
                # the step that crosses the limit may differ by rounding
                continue
            raise Violation("member", f"{what}: member {i} gets epochs {gt.tolist()}, alone "
                                      f"{t.tolist()}")
        last = int(used.sum()) - 1
        glast = int(np.isfinite(gt).sum()) - 1
        if dense and (last < 0 or glast < 0 or abs(t[last] - gt[glast]) > 1e-6 * T):
            if m["rmin"] > 0.1:
                continue
            raise Violation("member", f"{what}: member {i} ends at {gt[glast]}, alone {t[last]}")
        try:
            amp = W.Growth(orbit, xs[i], ts[i]).to(ts[i])
        except ArithmeticError as e:
            raise Skip(str(e))
        leg = {"mode": {"fixed": "final"}.get(mode, mode), "ts": [1] if mode == "custom" else None}
        tol = W.leg_bound(orbit, leg, amp, 20 + 8 * abs(ts[i]) / T, plan["x64"])
        pairs = [(last, glast)] if dense else [(j, j) for j in np.flatnonzero(used)]
        for j, gj in pairs:
            d = W.err_scaled(orbit, gy[gj], y[j])
            run.metric("fleet" + ("" if plan["x64"] else "/f32"), d / tol)
            if not d <= tol:
                raise Violation("member", f"{what}: member {i} at {t[j]}: {gy[gj].tolist()}, alone "
                                          f"{y[j].tolist()} (scaled difference {d:.2e}, "
                                          f"allowed {tol:.2e})")


def execute(plan, run, ctx):
    for k, op in enumerate(plan["ops"]):
        run.ops += 1
        for kind in op["bad"].values():
            run.fault("member-" + kind)
        if op["op"] == "flight":
            run.sig.append(f"fleet/{op['mode']}/{sorted(op['bad'].values())}")
            fleet(plan, op, run, ctx, k)
            continue
        if op["faults"]:
            run.fault("member-lost")
        run.sig.append(f"{op['fn']}/{op['how']}/{op['lead']}/{op['common']}/"
                       f"{sorted(op['bad'].items())}")
        ask(plan, op, run, ctx, k)
    run.log("end")


def shrink(plan):
    for k, op in enumerate(plan["ops"]):
        def put(**over):
            ops = list(plan["ops"])
            ops[k] = {**op, **over}
            return {**plan, "ops": ops}

        if op["op"] != "ask":
            for i in op["bad"]:
                yield put(bad={})
            continue
        n = len(op["rows"])
        if len(op["lead"]) > 1:
            yield put(lead=[n])
        if n > 1:
            for i in range(n):
                if i == op["src"]:
                    continue
                bad = {str(int(j) - (int(j) > i)): z for j, z in op["bad"].items() if int(j) != i}
                yield put(rows=op["rows"][:i] + op["rows"][i + 1:], lead=[n - 1], bad=bad,
                          src=op["src"] - (op["src"] > i))
        for j in op["common"]:
            if op["how"] != "native" or NATIVE[op["fn"]][j] != "c":
                yield put(common=[z for z in op["common"] if z != j])
