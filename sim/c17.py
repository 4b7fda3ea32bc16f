"""C17: derivatives taken through the library are the true sensitivities."""

from __future__ import annotations

import math

import numpy as np

from . import c16
from . import catalog as C
from . import lib
from . import refmodel as ref
from . import world as W
from .core import Skip, Violation

F32_LANES = ()      # rounding would hide what a derivative gets wrong

PARAMS = ref.PARAMS
# one compiled sensitivity program per lane
LANES = ("final", "fixed", "adaptive", "general", "stop", "ts", "final", "fixed")
MAX = 512

# judged by value elsewhere, and piecewise constant: nothing to differentiate
FLAT = {"twobody.is_short_way", "twobody.pass_perigee", "twobody.rp_islower_rmin",
        "twobody.nmax_by_periapsis"}
NAMES = sorted(set(c16.NATIVE) - FLAT) + 3 * [
    "coe2rv", "rv2coe", "solve_kepler_uni", "solve_kepler_hypb", "solve_kepler_elps",
    "kepler_equ_uni"] + 2 * ["twobody.dxdx0", "twobody.ufunc0", "twobody.ufunc1"]
COMPILED = c16.LOOPS
ONLY_FORWARD = c16.SOLVERS          # a loop with no fixed length cannot be run backwards

# places where guesses, branches and roots meet: argument -> value
SPECIAL = {
    "solve_kepler_hypb": [{0: 0.0}], "solve_kepler_elps": [{0: 0.0}, {1: 0.0}, {0: math.pi}],
    "solve_kepler_uni": [{0: 0.0}, {1: 0.0}, {1: 1e-13}, {1: -1e-13}, {0: 0.0, 3: 0.0},
                         {1: "circle", 3: 0.0}, {1: "circle", 3: 0.0, 0: 0.0}],
    "kepler_equ_uni": [{0: 0.0}, {1: 0.0}, {1: 1e-13}, {1: -1e-13}, {4: 0.0}],
    "kepler_equ_elps": [{0: 0.0}, {1: 0.0}], "dE": [{0: 0.0}, {1: 0.0}],
    "kepler_equ_hypb": [{0: 0.0}], "dH": [{0: 0.0}],
    "coe2rv": [{1: 0.0}, {2: 0.0}, {5: 0.0}, {1: 1.0}, {4: 0.0}],
    "equ_of_orbit": [{1: 0.0}, {2: 0.0}], "generalized_anomaly": [{0: 0.0}, {3: 0.0}],
    "mean_anomaly_elps": [{1: 0.0}], "mean_anomaly_hypb": [{1: 0.0}],
    "twobody.C_func": [{0: 0.0}, {4: 0.0}],
    **{f"twobody.ufunc{k}": [{0: 0.0}, {1: 0.0}, {1: 1e-13}, {1: -1e-13}, {0: 0.0, 1: 0.0}]
       for k in range(6)},
    **{f"utils.rotmat3d{k}": [{0: 0.0}, {0: math.pi / 2}] for k in "xyz"},
    # on the lines of apsides and of nodes, over a pole, above the equator
    "rv2coe": [{0: [-1.5, 0.0, 0.0], 1: [0.0, -0.5, 0.3]}, {0: [0.0, -2.0, 0.0],
               1: [0.4, 0.0, -0.3]}, {0: [0.0, 0.0, 1.25], 1: [0.5, 0.0, 0.0]},
               {0: [0.5, 0.0, -1.5], 1: [0.0, 0.6, 0.0]}],
    "eccentricity_vector": [{0: [1.0, 0.0, 0.0], 1: [0.0, 1.0, 0.0], 2: 1.0}],
    "inclination": [{0: [1.0, 0.3, 0.0]}],
    "true_anomaly": [{0: [0.0, 1.5, 0.0], 1: [0.3, 0.0, 0.0]}],
    "right_ascension": [{0: [-1.0, 0.5, 0.0]}, {0: [0.0, 1.0, 0.0]}],
    "argument_of_periapsis": [{0: [1.0, 0.0, 0.0], 1: [0.0, 0.0, 0.3]}],
    **{f"gravity.{k}": [{1: [0.0, 0.0, 1.2, 0.1, 0.9, 0.0]}, {1: [0.0, 0.0, -1.2, 0.1, 0.9, 0.0]},
                        {1: [1.1, 0.3, 0.0, 0.1, 0.9, 0.0]}, {1: [0.0, 1.1, 0.4, 0.9, 0.0, 0.1]}]
       for k in ("point_mass_grav", "j2_acc", "j3_acc", "j4_acc")},
}


# ------------------------------------------------------------------ generation
def generate(rng, index, tier, x64):
    lane = index % 8
    mode = LANES[lane]
    orbit = W.gen_orbit(rng, emax=0.8, ehyp=2.0)
    forces = W.gen_forces(rng, orbit, ("j2", "j234", "thrust", "thrust") if lane else
                          ("pm", "j234"))
    T = W.timescale(orbit)
    ops, t = [], 0.0
    flying = rng.random() < 0.5
    for _ in range(rng.randint(2, 6)):
        if not flying or rng.random() < 0.3:
            ops.append(question(rng))
            continue
        k = rng.random()
        if k < 0.6:
            target = t + rng.uniform(0.1, 3.0) * T
        elif k < 0.85:
            target = t - rng.uniform(0.1, 2.0) * T
        else:
            target = 0.0
        target = max(-5 * T, min(8 * T, target))
        span = target - t
        if abs(span) < 0.05 * T:
            continue
        op = {"op": "leg", "span": span}
        if mode == "fixed":
            op["h"] = span / rng.choice([40, 60, 60.5, 90])
        if mode == "ts":
            op["f"] = [rng.uniform(0.1, 0.5), rng.uniform(0.5, 0.9), 1.0]
        if mode == "stop":
            op["low"] = rng.choice([-0.5, 0.15, 0.3, 0.5, 0.8])
            x = orbit["x0"]
            falling = sum(a * b for a, b in zip(x[:3], x[3:])) < 0
            op["span"] = abs(span) * (1 if falling else -1)
        f = rng.random()
        if f < 0.2:
            op["fault"] = "crash"
        elif f < 0.3:
            op["fault"] = "torn"
        elif f < 0.4:
            op["fault"] = "dup"
        ops.append(op)
        if op.get("fault") in ("crash", "torn") or mode == "stop":
            continue
        t = target
    return {"orbit": orbit, "forces": forces, "mode": mode, "ops": ops}


def question(rng):
    name = rng.choice(NAMES)
    forms = ["jvp", "vjp", "jit-jvp", "jit-vjp", "fleet-jvp", "fleet-vjp"]
    if name in COMPILED:
        forms = forms[2:4]
    if name in ONLY_FORWARD:
        forms = [f for f in forms if f.endswith("jvp")]
    form = rng.choice(forms)
    n = 3 if form.startswith("fleet") else 1
    rows, dirs = [], []
    for row in c16.rows_for(rng, name, [C.Case(rng) for _ in range(n)]):
        if name in SPECIAL and rng.random() < 0.5:
            for j, v in rng.choice(SPECIAL[name]).items():
                row[j] = 1.0 / row[2] if v == "circle" else v
        rows.append(row)
        dirs.append([round(rng.gauss(0, 1), 6) for _ in range(size(row))])
    return {"op": "ask", "fn": name, "form": form, "rows": rows, "dirs": dirs,
            "seed": rng.randrange(10**6)}


def size(row):
    return sum(len(w) if isinstance(w, (dict, list)) else 1 for w in row)


def pack(row):
    out = []
    for w in row:
        out += [w[k] for k in sorted(w)] if isinstance(w, dict) else \
            list(w) if isinstance(w, list) else [w]
    return np.array(out, float)


# ------------------------------------------------------------------- questions
def flatten(fn, row):
    """The operation as a function of one vector, returning one vector."""
    import jax
    import jax.numpy as jnp

    def f(v):
        args, i = [], 0
        for w in row:
            if isinstance(w, dict):
                args.append({k: v[i + m] for m, k in enumerate(sorted(w))})
                i += len(w)
            elif isinstance(w, list):
                args.append(v[i:i + len(w)])
                i += len(w)
            else:
                args.append(v[i])
                i += 1
        return jnp.concatenate([jnp.ravel(z) for z in jax.tree.leaves(fn(*args))])
    return f


def programs(ctx, op):
    """(value, derivative) of an operation in the form asked for."""
    import jax

    name, form = op["fn"], op["form"]

    def value():
        f = flatten(c16.fetch(name, True), op["rows"][0])
        return jax.jit(f) if name in COMPILED else f

    def deriv():
        f = flatten(c16.fetch(name, True), op["rows"][0])
        if form.endswith("jvp"):
            def g(x, d, w):
                return jax.jvp(f, (x,), (d,))[1]
        else:
            def g(x, d, w):
                return jax.vjp(f, x)[1](w)[0]
        if form.startswith("fleet"):
            g = jax.vmap(g)
        return jax.jit(g) if form.startswith("jit") else g

    return (c16.cached(ctx, ("value", name), value),
            c16.cached(ctx, ("deriv", name, form), deriv))


def slope(f, x, d, y):
    """Directional derivative by extrapolated central differences, its uncertainty,
    and whether there is a kink (the slope jumps, so that there is no derivative)."""
    import jax.numpy as jnp

    def at(h):
        up = np.asarray(f(jnp.asarray(x + h * d)), float)
        down = np.asarray(f(jnp.asarray(x - h * d)), float)
        return (up - down) / (2 * h), (up - 2 * y + down) / h

    h = 1e-4
    D, J = zip(at(2 * h), at(h), at(h / 2))
    a, b = (4 * D[1] - D[0]) / 3, (4 * D[2] - D[1]) / 3
    r = (16 * b - a) / 15
    # half the step: half the difference of the slopes where the operation is smooth
    noise = 1e-7 * np.max(np.abs(y), initial=0.0)
    kink = bool(np.any(np.abs(J[2]) > 0.75 * np.abs(J[1]) + noise))
    return r, np.abs(r - b), kink


def ask(plan, op, run, ctx, k):
    import jax.numpy as jnp

    name, form = op["fn"], op["form"]
    value, deriv = programs(ctx, op)
    xs = [pack(r) for r in op["rows"]]
    ds = [np.array(d) * np.maximum(np.abs(x), 0.05) for x, d in zip(xs, op["dirs"])]
    ys = [np.asarray(value(jnp.asarray(x)), float) for x in xs]
    g = np.random.default_rng(op["seed"])
    ws = [g.standard_normal(y.shape) / max(1e-300, float(np.max(np.abs(y), initial=0.0)) or 1.0)
          for y in ys]
    what = f"question {k}: {form} of {name}"
    fleet = form.startswith("fleet")
    put = (lambda z: jnp.asarray(np.array(z))) if fleet else (lambda z: jnp.asarray(z[0]))
    try:
        got = np.asarray(deriv(put(xs), put(ds), put(ws)), float)
    except Exception as e:  # noqa: BLE001 - not differentiable any more, whatever the reason
        if "RESOURCE_EXHAUSTED" in str(e):
            raise
        raise Violation("refused", f"{what}: raised {type(e).__name__}: {str(e)[:200]}")
    run.log("ask", k, name, form, got)
    got = got if fleet else got[None]
    for i, (x, d, y, w) in enumerate(zip(xs, ds, ys, ws)):
        want, unc, kink = slope(value, x, d, y)
        if not (np.all(np.isfinite(want)) and np.all(np.isfinite(y))):
            run.probe("not-judged")
            continue
        big = float(np.max(np.abs(want)))
        level = float(np.max(np.abs(y), initial=0.0))
        if kink or float(np.max(unc)) > 1e-4 * max(big, level):
            run.probe("not-judged")         # a boundary between branches: no derivative
            continue
        run.probe("derivative-judged")
        tol = 3e-7 * big + 300 * float(np.max(unc)) + 3e-9 * level
        if name in c16.SOLVERS:
            tol += 1e-6 * max(big, level)
        if form.endswith("jvp"):
            err = float(np.max(np.abs(got[i] - want)))
        else:
            err = abs(float(got[i] @ d) - float(w @ want))
            tol *= float(np.sum(np.abs(w)))
            want = w @ want
            got_i = got[i] @ d
        run.metric("ask", err / tol if tol else 0.0)
        if not err <= tol:
            have = got[i] if form.endswith("jvp") else got_i
            raise Violation("derivative", f"{what}: along {d.tolist()} at {x.tolist()}: "
                                          f"{have.tolist()}, differences give {want.tolist()} "
                                          f"(off by {err:.2e}, allowed {tol:.2e})")


# --------------------------------------------------------------------- flights
def flight_fn(ctx, mode):
    """The end state of a flight with its derivatives, as one compiled program."""
    import jax
    import jax.numpy as jnp

    def make():
        from astrodynx import diffeq

        prop, adx = lib.load().prop, lib.load()
        term = W.term(ctx, "full")

        def fly(x, t1, args, h, fr):
            if mode == "stop":
                import optimistix as optx

                ev = diffeq.Event(adx.events.radius_islow, optx.Newton(1e-10, 1e-10))
                s = prop.to_final(prop.OrbDynx(term, args, ev), x, t1)
            else:
                orb = prop.OrbDynx(term, args)
                if mode == "final":
                    s = prop.to_final(orb, x, t1)
                elif mode == "fixed":
                    s = prop.fixed_steps(orb, x, t1, h, max_steps=MAX)
                elif mode == "adaptive":
                    s = prop.adaptive_steps(orb, x, t1, max_steps=MAX)
                elif mode == "ts":
                    s = prop.cowell_method(orb, x, t1, diffeq.SaveAt(ts=fr * t1))
                else:
                    s = prop.cowell_method(orb, x, t1, diffeq.SaveAt(t1=True))
            if mode == "ts":
                return s.ys, (s.ys, s.ts)
            n = jnp.sum(jnp.isfinite(s.ts)) - 1
            return s.ys[n][None], (s.ys[n][None], s.ts[n][None])

        return jax.jit(jax.jacrev(fly, argnums=(0, 1, 2), has_aux=True))

    return c16.cached(ctx, ("flight", mode), make)


def send(plan, op, ctx, x, epoch):
    import jax
    import jax.numpy as jnp

    mode = plan["mode"]
    rmin = 0.0
    if mode == "stop":
        rmin = low(plan, op, x)
    args = W.args_for(plan["orbit"], plan["forces"], epoch, rmin)
    out = flight_fn(ctx, mode)(jnp.asarray(np.asarray(x, float)), jnp.asarray(op["span"]), args,
                               jnp.asarray(op.get("h", op["span"])),
                               jnp.asarray(np.array(op.get("f", [1.0]))))
    jax.block_until_ready(out)
    (dx, dt, da), (ys, ts) = out
    da = {k: np.asarray(v, float) for k, v in da.items()}
    return np.asarray(ts, float), np.asarray(ys, float), np.asarray(dx, float), \
        np.asarray(dt, float), da



def low(plan, op, x):
    """A minimum radius between the lowest one of the orbit and the present one."""
    q = plan["orbit"]["q"]
    return q + op["low"] * (float(np.linalg.norm(np.asarray(x)[:3])) - q)


def units(plan):
    """Scales of the parameters, so that matrices can be compared entry by entry."""
    o, f = plan["orbit"], plan["forces"]
    T = W.timescale(o)
    return {"mu": o["mu"], "R_eq": f["R_eq"], "J2": 1e-2, "J3": 1e-2, "J4": 1e-2,
            "thrust": 1e-2 * o["mu"] / o["q"] ** 2, "omega": 1.0 / T, "epoch": T}


def rate(plan, epoch, t, x):
    o, f = plan["orbit"], plan["forces"]
    a = np.array(ref.accel(x, o["mu"], f["R_eq"], f["J2"], f["J3"], f["J4"]))
    w = f["omega"] * (epoch + t)
    a = a + f["thrust"] * np.array([math.cos(w), math.sin(w), 0.3 * math.cos(2 * w)])
    return np.concatenate([x[3:], a])


def bound(plan, amp):
    """Scaled error a correct sensitivity may show: the library's flights keep 1e-8
    per step; outputs between steps come from the dense interpolant."""
    return (2e-5 if plan["mode"] == "ts" else 3e-6) * amp


def compare(run, plan, what, label, got, want, scale_in, amp):
    """Matrices of derivatives, in units of the state and of what it depends on."""
    sc = W.scale_state(plan["orbit"])
    g = np.atleast_2d(np.asarray(got, float).T).T / sc[:, None] * scale_in
    w = np.atleast_2d(np.asarray(want, float).T).T / sc[:, None] * scale_in
    tol = bound(plan, amp)
    if not np.all(np.isfinite(g)):
        raise Violation("derivative", f"{what}: d(state)/d({label}) is {g.tolist()}")
    err = float(np.max(np.abs(g - w)))
    run.metric(f"{plan['mode']}/{label}", err / tol)
    if not err <= tol:
        raise Violation("derivative", f"{what}: d(state)/d({label}) in scaled units is "
                                      f"{g.tolist()}, true {w.tolist()} (off by {err:.2e}, "
                                      f"allowed {tol:.2e})")


def judge(plan, op, run, x, epoch, sent, what):
    """Every returned derivative against the reference sensitivities."""
    ts, ys, dx, dt, da = sent
    orbit, forces, span = plan["orbit"], plan["forces"], op["span"]
    kw = W.ref_kwargs(orbit, forces, epoch)
    sgn = math.copysign(1, span)
    if not np.all(np.isfinite(ts)) or np.any(np.diff(ts * sgn) < 0) or ts[-1] * sgn < 0 or \
            abs(ts[-1]) > abs(span) * (1 + 1e-9):
        raise Violation("epoch", f"{what}: output epochs {ts.tolist()} on a flight of {span}")
    try:
        true = ref.sensitivities(x, ts, **kw)
        grow = W.Growth(orbit, x, span)
    except ArithmeticError as e:
        raise Skip(str(e))
    sc, un = W.scale_state(orbit), units(plan)
    T = W.timescale(orbit)
    out = []
    for j, (t, (xr, phi, psi)) in enumerate(zip(ts, true)):
        amp = grow.to(t) ** 2
        f1 = rate(plan, epoch, t, xr)
        stopped = plan["mode"] == "stop" and abs(t) < abs(span) * (1 - 1e-9)
        psi, steep = dict(psi), np.zeros(6)
        tail = f1 if abs(t - span) <= 1e-9 * abs(span) else f1 * 0.0
        if plan["mode"] == "ts":
            tail = f1 * op["f"][j]
        if stopped:
            run.probe("stopped")
            u = np.concatenate([xr[:3] / np.linalg.norm(xr[:3]), np.zeros(3)])
            rr = float(u @ f1)
            if abs(rr) * T / orbit["q"] < 0.05:
                run.probe("grazing-stop")
                return None
            push = np.eye(6) - np.outer(f1, u) / rr
            phi = push @ phi
            psi = {k: push @ v for k, v in psi.items()}
            amp *= 3 * (1 + 1 / (abs(rr) * T / orbit["q"])) ** 2
            steep = f1 / rr
        compare(run, plan, what, "state", dx[j], phi, sc[None, :], amp)
        compare(run, plan, what, "end epoch", dt[j], tail, T, amp)
        for k in PARAMS:
            compare(run, plan, what, k, da[k][j], psi[k], un[k], amp)
        if plan["mode"] == "stop":      # reaching a higher limit takes less of the fall
            compare(run, plan, what, "minimum radius", da["rmin"][j], steep, orbit["q"], amp)
        run.probe("flight-judged")
        out.append((xr, phi, psi, amp))
    return out


def execute(plan, run, ctx):
    orbit, forces = plan["orbit"], plan["forces"]
    T = W.timescale(orbit)
    x0 = np.asarray(orbit["x0"], float)
    zero = {k: np.zeros(6) for k in PARAMS}
    store = [(0.0, x0, np.eye(6), zero, 1.0)]
    run.log("mission", orbit["units"], orbit["conic"], forces["kind"], plan["mode"])
    for k, op in enumerate(plan["ops"]):
        run.ops += 1
        if op["op"] == "ask":
            run.sig.append(f"{op['fn']}/{op['form']}")
            ask(plan, op, run, ctx, k)
            continue
        epoch, x, phi, psi, amp0 = store[-1]
        fault, what = op.get("fault"), f"leg {k}"
        if plan["mode"] == "stop" and \
                low(plan, op, x) > 0.97 * float(np.linalg.norm(x[:3])):
            continue
        run.sig.append(f"{plan['mode']}/{'+' if op['span'] > 0 else '-'}/{fault}")
        sent = send(plan, op, ctx, x, epoch)
        run.sim_time += abs(op["span"]) / T
        run.log("leg", k, epoch, op["span"], *sent[:4])
        res = judge(plan, op, run, x, epoch, sent, what)
        if fault == "dup":
            run.fault("duplicate-delivery")
            again = send(plan, op, ctx, x, epoch)
            if not all(np.array_equal(a, b, equal_nan=True)
                       for a, b in zip(sent[:4], again[:4])):
                raise Violation("redelivery", f"{what}: redelivered request gave another answer")
        if fault == "crash":
            run.fault("crash-before-checkpoint")
            continue
        if fault == "torn":
            run.fault("torn-checkpoint")
            continue
        if res is None or plan["mode"] == "stop":
            continue            # the filter goes on from the last checkpoint
        ts, ys, dx, dt, da = sent
        amp1 = res[-1][3]
        psi = {p: dx[-1] @ psi[p] + da[p][-1] for p in PARAMS}
        # the chain's parameters are those of the mission: its clock runs on
        store.append((epoch + float(ts[-1]), ys[-1].copy(), dx[-1] @ phi, psi, amp0 * amp1))
        run.log("checkpoint", *store[-1][:3])
        te, xe, phie, psie, ampe = store[-1]
        if abs(te) < 1e-9 * T or ampe > 1e4:
            run.probe("chain-not-judged")
            continue
        try:
            xr, ph, ps = ref.sensitivities(x0, [te], **W.ref_kwargs(orbit, forces))[0]
        except ArithmeticError as e:
            raise Skip(str(e))
        un, sc = units(plan), W.scale_state(orbit)
        run.probe("chain-judged")
        compare(run, plan, what + ", mission so far", "state", phie, ph, sc[None, :], ampe)
        for p in PARAMS:
            compare(run, plan, what + ", mission so far", p, psie[p], ps[p], un[p], ampe)
    run.log("end", len(store))


def shrink(plan):
    for k, op in enumerate(plan["ops"]):
        def put(**over):
            new = {a: b for a, b in {**op, **over}.items() if b is not None}
            return {**plan, "ops": plan["ops"][:k] + [new] + plan["ops"][k + 1:]}

        if "fault" in op:
            yield put(fault=None)
    f = plan["forces"]
    for key in ("J4", "J3", "J2", "thrust"):
        if f[key]:
            yield {**plan, "forces": {**f, key: 0.0}}
