"""Seams into the integrator: step-size chaos and the faulty force service."""

from __future__ import annotations

import numpy as np

from . import lib
from . import world as W


def chaos_class(ctx):
    """A legal step-size controller that also rejects good steps.

    Wraps the library's default PID controller.  Which attempts are rejected
    spuriously is a hash of (seed, attempt number): part of the plan, not of
    the run.  Rejected attempts are retried with a smaller step, as after a
    genuine rejection, so a correct propagation is unaffected."""
    if "chaos" in ctx.cache:
        return ctx.cache["chaos"]
    import equinox as eqx
    import jax
    import jax.numpy as jnp
    from diffrax import AbstractAdaptiveStepSizeController, PIDController

    class Chaos(AbstractAdaptiveStepSizeController):
        inner: PIDController
        seed: jax.Array
        rate: jax.Array      # out of 1000
        burst: jax.Array     # at most this many spurious rejections in a row
        factor: jax.Array

        @property
        def rtol(self):
            return self.inner.rtol

        @property
        def atol(self):
            return self.inner.atol

        @property
        def norm(self):
            return self.inner.norm

        def wrap(self, direction):
            return eqx.tree_at(lambda c: c.inner, self, self.inner.wrap(direction))

        def init(self, *args, **kw):
            t1, st = self.inner.init(*args, **kw)
            z = jnp.asarray(0, jnp.int32)
            return t1, (st, z, z)

        def adapt_step_size(self, t0, t1, *args):
            *rest, state = args
            st, n, row = state
            keep, nt0, nt1, jump, st2, result = self.inner.adapt_step_size(
                t0, t1, *rest, st)
            x = (n.astype(jnp.uint32) * jnp.uint32(2654435761)
                 ^ self.seed.astype(jnp.uint32))
            x = (x ^ (x >> 15)) * jnp.uint32(2246822519)
            x = (x ^ (x >> 13)) * jnp.uint32(3266489917)
            x = x ^ (x >> 16)
            hit = (x % jnp.uint32(1000)).astype(jnp.int32) < self.rate
            bad = keep & hit & (row < self.burst)
            keep2 = keep & ~bad
            nt0b = jnp.where(bad, t0, nt0)
            nt1b = jnp.where(bad, t0 + (t1 - t0) * self.factor, nt1)
            st3 = jax.tree_util.tree_map(
                lambda a, b: jnp.where(bad, a, b) if eqx.is_array(b) else b, st, st2)
            row2 = jnp.where(bad, row + 1, 0)
            return keep2, nt0b, nt1b, jump, (st3, n + 1, row2), result

    ctx.cache["chaos"] = Chaos
    return Chaos


def chaos(ctx, spec, tol=1e-8):
    import jax.numpy as jnp

    inner = W.controller(ctx, {1e-6: "loose", 1e-8: "default", 1e-10: "tight"}[tol])
    return chaos_class(ctx)(
        inner, jnp.asarray(spec["seed"] & 0x7FFFFFFF, jnp.int32),
        jnp.asarray(spec["rate"], jnp.int32), jnp.asarray(spec["burst"], jnp.int32),
        jnp.asarray(float(spec["factor"])))


def gen_chaos(rng):
    # mild enough that the steps always grow back
    rate, factor = rng.choice([(50, 0.1), (100, 0.5), (200, 0.5), (300, 0.7), (500, 0.9)])
    return {"seed": rng.getrandbits(31), "rate": rate,
            "burst": rng.choice([1, 2, 3]), "factor": factor}


# ----------------------------------------------------------- force service
class ForceDown(RuntimeError):
    """What the user's force model raises when it fails."""


class Runaway(RuntimeError):
    """The simulator ended a propagation that will not end by itself."""


class ForceService:
    """The user's force model as an external service behind a call seam.

    Each evaluation of the derivative passes through `__call__`; the script
    decides which evaluations fail and how."""

    def __init__(self):
        self.script = []
        self.n = 0
        self.fired = {}
        self.limit = 200000
        self.runaway = False

    def arm(self, script, limit=200000):
        self.script = list(script)
        self.n = 0
        self.fired = {}
        self.limit = limit
        self.runaway = False
        self.last = None

    def __call__(self, t, d):
        i = self.n
        self.n += 1
        d = np.asarray(d)
        if i >= self.limit:
            self.runaway = True
            raise Runaway("force model evaluated too often")
        for f in self.script:
            if i < f["at"] or (f["len"] is not None and i >= f["at"] + f["len"]):
                continue
            k = f["kind"]
            self.fired[k] = self.fired.get(k, 0) + 1
            if k == "exc":
                raise ForceDown("force model is down")
            out = d.copy()
            if k == "nan":
                out[:] = np.nan
            elif k == "inf":
                out[3:] = np.inf
            elif k == "neginf":
                out[:] = -np.inf
            elif k == "partial":
                out[f["comp"]] = np.nan
            elif k == "partinf":
                out[f["comp"]] = np.inf
            elif k == "spike":
                out[f["comp"]] = out[f["comp"]] * f["gain"] + f["gain"] * abs(out).max()
            elif k == "stale" and self.last is not None:
                out = self.last.copy()
            elif k == "zero":
                out[3:] = 0.0
            self.last = d
            return out.astype(d.dtype)
        self.last = d
        return d


def service(ctx):
    if "service" not in ctx.cache:
        ctx.cache["service"] = ForceService()
    return ctx.cache["service"]


def service_term(ctx, kind):
    """The library's gravity field routed through the force service."""
    kind = "pm" if kind == "pm" else "full"
    key = ("svc-term", kind)
    if key not in ctx.cache:
        import jax
        import jax.numpy as jnp
        from astrodynx import diffeq

        vf0 = W.field(ctx, kind)
        svc = service(ctx)

        def vf(t, x, args):
            d = vf0(t, x, args)
            return jax.pure_callback(
                svc, jax.ShapeDtypeStruct(d.shape, d.dtype), t, d,
                vmap_method="sequential")

        del jnp
        ctx.cache[key] = diffeq.ODETerm(vf)
    return ctx.cache[key]


del lib
