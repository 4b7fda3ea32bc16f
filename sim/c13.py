"""C13: the anomaly clocks agree with the flight at every instant."""

from __future__ import annotations

import math

import numpy as np

from . import lib
from . import refmodel as ref
from . import world as W
from .core import Violation

PI = math.pi


# ------------------------------------------------------------- reference side
def bracket(f, lo, hi):
    """Root of an increasing function by bisection down to rounding."""
    for _ in range(200):
        mid = 0.5 * (lo + hi)
        if mid <= lo or mid >= hi:
            break
        if f(mid) > 0:
            hi = mid
        else:
            lo = mid
    return 0.5 * (lo + hi)


def ecc_anomaly(M, e):
    k = 2 * PI * round(M / (2 * PI))
    m = M - k
    return k + bracket(lambda E: (E - e * math.sin(E)) - m, m - e - 1e-9, m + e + 1e-9)


def hyp_anomaly(N, e):
    b = math.asinh(abs(N) / (e - 1)) + 1e-9
    return bracket(lambda H: (e * math.sinh(H) - H) - N, -b, b)


def uni_anomaly(dt, al, r0, s0, mu):
    def f(c):
        _, u1, u2, u3 = ref.ufuncs(c, al)
        return r0 * u1 + s0 * u2 + u3 - math.sqrt(mu) * dt

    s = math.copysign(1.0, dt)
    a, b = 0.0, s * 1e-3 * math.sqrt(r0)
    if dt == 0:
        return 0.0
    while f(b) * s < 0:
        a, b = b, 2 * b
    return bracket(f, min(a, b), max(a, b))


def position_anomaly(orbit, t):
    """Anomaly of the actual position t after periapsis, unwrapped."""
    e, q, mu = orbit["e"], orbit["q"], orbit["mu"]
    r0, v0 = ref.coe_to_state(q * (1 + e), e, 0.7, 0.3, 0.2, 0.0, mu)
    r, v = ref.twobody(r0, v0, t, mu)
    rn, a = float(np.linalg.norm(r)), q / (1 - e)
    if e < 1:
        E = math.atan2(float(r @ v) / math.sqrt(mu * a), 1 - rn / a) if e > 1e-3 else None
        if E is None:
            nu = math.atan2(float(np.cross(r0, r) @ np.cross(r0, v0)) /
                            float(np.linalg.norm(np.cross(r0, v0))), float(r0 @ r))
            E = 2 * math.atan2(math.sqrt(1 - e) * math.sin(nu / 2),
                               math.sqrt(1 + e) * math.cos(nu / 2))
        else:
            E = math.atan2(float(r @ v) / math.sqrt(mu * a) / e, (1 - rn / a) / e)
        M = math.sqrt(mu / a**3) * t
        return E + 2 * PI * round((M - E) / (2 * PI)), rn
    return math.asinh(float(r @ v) / math.sqrt(-mu * a) / e), rn


# ------------------------------------------------------------------ generation
def generate(rng, index, tier, x64):
    form = rng.choice(["ell", "ell", "hyp", "hyp", "uni", "uni", "uni"])
    if form == "ell":
        o = W.gen_orbit(rng, conics=("ell",), emax=0.95)
    elif form == "hyp":
        o = W.gen_orbit(rng, conics=("hyp",), ehyp=5.0)
        o["e"] = max(o["e"], 1.05)
    else:
        o = W.gen_orbit(rng, emax=0.95, ehyp=5.0)
    T = W.timescale(o)
    P = W.period(o)
    ops, now = [], 0.0
    far = 60.0 if x64 else 12.0

    def epoch():
        k = rng.random()
        if k < 0.3 and math.isfinite(P):
            return rng.uniform(-4, 4) * min(P, far * T)
        if k < 0.4 and math.isfinite(P):
            z = rng.choice([-2, -1, -0.5, 0.5, 1, 2, 3]) * P
            return z if abs(z) < 4 * far * T else 0.5 * T
        if k < 0.5:
            return rng.choice([0.0, 1e-3, -1e-3, 1e-6, -1e-6]) * T
        if k < 0.8:
            return rng.uniform(-3, 3) * T
        return rng.uniform(-far, far) * T

    for _ in range(rng.randint(2, 7)):
        k = rng.random()
        op = {"ts": [epoch()], "how": "alone"}
        if k < 0.6:
            n = 12
            op = {"ts": [epoch() for _ in range(n)], "how": rng.choice(["batch", "batch", "jit"])}
            if rng.random() < 0.4:
                op["ts"].sort()
        if rng.random() < 0.25:
            op["tol"] = rng.choice([1e-10, 1e-8] if x64 else [3e-6, 1e-5])
        f = rng.random()
        if f < 0.15 and len(op["ts"]) > 1:
            op["fault"] = "reorder"
            op["perm"] = rng.sample(range(12), 12)
        elif f < 0.3:
            op["fault"] = "dup"
        elif f < 0.45 and len(op["ts"]) > 1:
            op["fault"] = "split"
            op["alone"] = rng.randrange(12)
        if rng.random() < 0.1 and form == "uni":
            op["flown"] = True
        ops.append(op)
    return {"orbit": o, "form": form, "ops": ops, "eager": index // 8 % 12 == 5}


# ------------------------------------------------------------------- execution
def solver(ctx, form, how, tol):
    """The library's clock reading as a function of (epoch, *orbit)."""
    import jax

    adx = lib.load()
    key = (form, how, tol is not None)

    def ell(t, tol, a, e, mu):
        M = adx.mean_anomaly_elps(a, t, mu)
        E = adx.solve_kepler_elps(M, e, *tol)
        return M, E, adx.kepler_equ_elps(E, e, M), adx.dE(E, e)

    def hyp(t, tol, a, e, mu):
        N = adx.mean_anomaly_hypb(a, t, mu)
        H = adx.solve_kepler_hypb(N, e, *tol)
        return N, H, adx.kepler_equ_hypb(H, e, N), adx.dH(H, e)

    def uni(t, tol, al, r0, s0, mu):
        import jax.numpy as jnp

        chi = adx.solve_kepler_uni(t, al, r0, s0, mu, *tol)
        tw = adx.twobody
        r = adx.equ_of_orb_uvi(tw.ufunc0(chi, al), tw.ufunc1(chi, al),
                               tw.ufunc2(chi, al), r0, s0)
        return chi * 0, chi, adx.kepler_equ_uni(chi, al, r0, s0, t, mu), r

    f = {"ell": ell, "hyp": hyp, "uni": uni}[form]
    if how == "eager":
        return f
    if key not in ctx.cache:
        if how == "alone":
            ctx.cache[key] = jax.jit(f)
        else:
            axes = (0, None) + (None,) * (4 if form == "uni" else 3)
            ctx.cache[key] = jax.jit(jax.vmap(f, in_axes=axes))
    return ctx.cache[key]


def execute(plan, run, ctx):
    import jax
    import jax.numpy as jnp

    adx = lib.load()
    o, form, x64 = plan["orbit"], plan["form"], plan["x64"]
    sx = "" if x64 else "/f32"
    rnd = float if x64 else (lambda z: float(np.float32(z)))
    eps = 2.3e-16 if x64 else 1.2e-7
    mu, e = rnd(o["mu"]), rnd(o["e"])
    if form == "ell" and e >= 1:
        e = rnd(0.95)
    T, q = W.timescale(o), o["q"]
    if form != "uni":
        a = rnd(q / (1 - e))
        q = a * (1 - e)
        o = {**o, "mu": mu, "e": e, "q": q}
        pars = (a, e, mu)
    else:
        x0 = np.asarray(o["x0"], float)
        if not x64:
            x0 = x0.astype(np.float32).astype(float)
        rn = float(np.linalg.norm(x0[:3]))
        r0 = rnd(rn)
        al = rnd(2 / rn - float(x0[3:] @ x0[3:]) / mu)
        s0 = rnd(float(x0[:3] @ x0[3:]) / math.sqrt(mu))
        pars = (al, r0, s0, mu)
    J = [jnp.asarray(z) for z in pars]
    run.log("orbit", form, e, q, mu)

    def ask(ts, how, tol):
        tl = () if tol is None else (jnp.asarray(tol),)
        if how == "alone" and plan["eager"]:
            how = "eager"
        f = solver(ctx, form, how, tol)
        t = jnp.asarray(ts[0]) if how in ("alone", "eager") else jnp.asarray(np.asarray(ts))
        if how == "eager":
            with jax.disable_jit():
                out = f(t, tl, *J)
        else:
            out = f(t, tl, *J)
        return [np.atleast_1d(np.asarray(z, float)) for z in out]

    def judge(ts, out, tol, what):
        tl = 1e-6 if tol is None else tol
        for t, mean, anom, res, slope in zip(ts, *out):
            where = f"{what}: {form} t={t!r}"
            if not all(map(math.isfinite, (mean, anom, res, slope))):
                raise Violation("nonfinite", f"{where}: no finite anomaly")
            if form == "ell":
                n = math.sqrt(mu / a**3)
                M = n * t
                dM = 6 * eps * abs(M)
                want = ecc_anomaly(M, e)
                w = 1 - e * math.cos(want)
                # Newton stops once a step is below tol: the next error is quadratic
                d = (dM + 8 * eps * (abs(M) + 1)) / w + \
                    4 * min(tl, tl * tl * e / (2 * w))
                pos, r = position_anomaly(o, t)
                pe = (dM * 2 + 1e-11 * (1 + abs(M))) / w / max(min(1.0, e * 1e3), 1e-3) + d
                slope_want, sl_tol = w, e * d + 20 * eps
                res_tol = 8 * eps * (abs(M) + 2) + 4 * min(tl, tl * tl * e)
                r_lib = a * slope
            elif form == "hyp":
                n = math.sqrt(mu / -a**3)
                M = n * t
                dM = 6 * eps * abs(M)
                want = hyp_anomaly(M, e)
                w = e * math.cosh(want) - 1
                d = (dM + 8 * eps * (abs(M) + abs(want) + 1e-3)) / w + 1.25 * tl / w + 8 * eps * abs(want)
                pos, r = position_anomaly(o, t)
                pe = (dM * 2 + 1e-11 * (1 + abs(M))) / w + d
                slope_want, sl_tol = w, e * d * (2 * abs(math.sinh(want)) + math.cosh(want) * d) \
                    + 20 * eps * w
                res_tol = tl * 1.25 + 30 * eps * (abs(M) + 1) * (1 + abs(want))
                r_lib = -a * slope
            else:
                M, dM = 0.0, 0.0
                want = uni_anomaly(t, al, r0, s0, mu)
                _, u1, u2, u3 = ref.ufuncs(want, al)
                u0 = 1 - al * u2
                w = r0 * u0 + s0 * u1 + u2
                big = abs(r0 * u1) + abs(s0 * u2) + abs(u3) + math.sqrt(mu) * abs(t)
                # the argument alpha*chi^2 of the functions carries rounding too
                turn = 1 + math.sqrt(abs(al)) * abs(want)
                d = (tl * 1.25 + 8 * eps * big * turn) / w + 8 * eps * abs(want)
                pos, pe, r = want, d, w
                sl = abs(-al * r0 * u1 + s0 * u0 + u1)
                slope_want = w
                sl_tol = sl * d * 2 + 2 * (1 + abs(al) * w) * d * d + 20 * eps * turn * (abs(r0 * u0) + abs(s0 * u1) + abs(u2))
                res_tol = tl * 1.25 + 16 * eps * big * turn
                r_lib = slope
            run.metric(f"anomaly/{form}{sx}", abs(anom - want) / d)
            run.metric(f"residual/{form}{sx}", abs(res) / res_tol)
            run.metric(f"slope/{form}{sx}", abs(slope - slope_want) / sl_tol)
            if form != "uni":
                run.metric(f"mean/{form}{sx}", abs(mean - M) / (dM + 1e-300) if M else 0.0)
                if not abs(mean - M) <= dM:
                    raise Violation("mean", f"{where}: mean anomaly {mean!r}, not {M!r}")
            if not abs(anom - want) <= d:
                raise Violation("anomaly", f"{where}: solved anomaly {anom!r}, but the equation's "
                                           f"root is {want!r} (allowed {d:.3e})")
            if not abs(anom - pos) <= pe:
                raise Violation("position", f"{where}: the clock reads {anom!r}, the body is at "
                                            f"{pos!r} (allowed {pe:.3e})")
            if not abs(res) <= res_tol:
                raise Violation("residual", f"{where}: Kepler's equation is off by {res!r} "
                                            f"(allowed {res_tol:.3e})")
            if not abs(slope - slope_want) <= sl_tol:
                raise Violation("slope", f"{where}: derivative/radius {slope!r}, "
                                         f"not {slope_want!r} (allowed {sl_tol:.3e})")
            rt = (sl_tol * (abs(a) if form != "uni" else 1.0)
                  + 1e-9 * r + (60 * eps * (abs(M) + 1) * r if form != "uni" else 0))
            if form != "uni":   # a itself is rounded: q is a difference for e near 1
                rt += 4 * eps * abs(a)
            run.metric(f"radius/{form}{sx}", abs(r_lib - r) / rt)
            if not abs(r_lib - r) <= rt:
                raise Violation("radius", f"{where}: the anomaly puts the body at radius "
                                          f"{r_lib!r}, it is at {r!r} (allowed {rt:.3e})")

    def two_states(ts, out, tol, what):
        """Universal anomaly from two states of the flight."""
        xs = [np.concatenate(ref.twobody(x0[:3], x0[3:], t, mu)) if t else x0 for t in ts]
        sig = np.array([float(x[:3] @ x[3:]) / math.sqrt(mu) for x in xs])
        if len(ts) == 1:
            sg = adx.twobody.sigma_fn(jnp.asarray(xs[0][:3]), jnp.asarray(xs[0][3:]), mu)
        else:
            sg = adx.twobody.sigma_fn(jnp.asarray(np.array(xs)[:, :3]),
                                      jnp.asarray(np.array(xs)[:, 3:]), mu)
        sg = np.ravel(np.asarray(sg, float))
        chi = np.atleast_1d(np.asarray(adx.generalized_anomaly(
            J[0], jnp.asarray(sg), J[2], jnp.asarray(np.asarray(ts)), J[3]), float))
        for t, x, s, g, c, k in zip(ts, xs, sig, sg, chi, out[1]):
            v, r = np.linalg.norm(x[3:]), np.linalg.norm(x[:3])
            # alpha, r0, sigma0 are rounded: their effect over the flight
            move = W.Growth({**o, "mu": mu}, x0, t or 1.0).to(t) if t else 1.0
            ts_ = 12 * eps * r * v / math.sqrt(mu)
            if not abs(g - s) <= ts_:
                raise Violation("sigma", f"{what}: sigma {g!r}, not {s!r}")
            ss = v * o["q"] + r * o["q"] / T
            d = (ts_ + 12 * eps * (abs(al) * math.sqrt(mu) * abs(t) + abs(s0) + abs(s))
                 + 6 * eps * move * ss / math.sqrt(mu) * 4
                 + 6 * eps * math.sqrt(mu) * abs(t) * (2 / r0 + v * v / mu)
                 + (1e-6 if tol is None else tol) * 1.25 / r)
            # the solver used rounded alpha, r0, sigma0 of the start
            d += 6 * eps * (1 + abs(al) * c * c) * abs(c) * (1 + move)
            run.metric("two-states" + sx, abs(c - k) / d)
            if not abs(c - k) <= d:
                raise Violation("two-states", f"{what}: universal anomaly from the end states is "
                                f"{c!r}, from the elapsed time {k!r} (allowed {d:.3e}) t={t!r}")

    last = 0.0
    for k, op in enumerate(plan["ops"]):
        run.ops += 1
        how, tol, fault = op["how"], op.get("tol"), op.get("fault")
        ts = [rnd(t) for t in op["ts"]]
        what = f"op {k} ({how}, {len(ts)} epochs)"
        run.sig.append(f"{form}/{how}/{tol}/{fault}/{sum(t < 0 for t in ts)}/"
                       f"{int(max(map(abs, ts)) / T)}")
        back = sum(y < x for x, y in zip([last] + ts, ts))
        if back:
            run.fault("clock-set-back", back)
        last = ts[-1]
        out = ask(ts, how, tol)
        run.log("ask", k, np.asarray(ts), *out)
        run.sim_time += sum(map(abs, ts)) / T
        judge(ts, out, tol, what)
        if form == "uni":
            two_states(ts, out, tol, what)
        if fault == "dup":
            run.fault("duplicate-query")
            again = ask(ts, how, tol)
            if any(not np.array_equal(p, r) for p, r in zip(out, again)):
                raise Violation("redelivery", f"{what}: asked twice, answered differently")
        elif fault == "reorder":
            run.fault("reordered-batch")
            t2 = [ts[p] for p in op["perm"]]
            judge(t2, ask(t2, how, tol), tol, what + " reordered")
        elif fault == "split":
            run.fault("batch-split")
            t2 = [ts[op["alone"]]]
            judge(t2, ask(t2, "alone", tol), tol, what + " alone")
        if op.get("flown"):
            run.probe("flown-by-library")
            old = jax.config.jax_disable_jit
            jax.config.update("jax_disable_jit", True)
            try:
                r, v = adx.prop.kepler(jnp.asarray(np.asarray(ts)), jnp.asarray(x0[:3]),
                                       jnp.asarray(x0[3:]), J[3])
            finally:
                jax.config.update("jax_disable_jit", old)
            rr = np.linalg.norm(np.asarray(r, float), axis=-1)
            for t, x, y in zip(ts, rr, out[3]):
                amp = W.Growth({**o, "mu": mu}, x0, t or 1.0).to(t) if t else 1.0
                b = W.kepler_bound({**o, "mu": mu},
                                   np.concatenate(ref.twobody(x0[:3], x0[3:], t, mu)),
                                   t, amp, x64) * o["q"] * 4 + 1e-9 * x
                if not abs(x - y) <= b:
                    raise Violation("flown", f"{what}: the library's flight is at radius {x!r}, "
                                             f"its anomaly says {y!r} (allowed {b:.3e}) t={t!r}")
    run.log("end")


def shrink(plan):
    for k, op in enumerate(plan["ops"]):
        for drop in ("fault", "tol", "flown"):
            if drop in op:
                o2 = {a: b for a, b in op.items() if a != drop}
                yield {**plan, "ops": plan["ops"][:k] + [o2] + plan["ops"][k + 1:]}
