"""C09: an answer depends only on the arguments, not on earlier calls."""

from __future__ import annotations

import copy
import gc
import math

import numpy as np

from . import catalog as C
from . import lib
from .core import Violation

USES_HINTS = True
F32_LANES = (6, 7)


def near(rng, call):
    """The same call with one literal argument nearly or formally equal."""
    call = copy.deepcopy(call)
    idx = [i for i, a in enumerate(call["args"]) if a[0] in ("py", "jax", "np")
           and isinstance(a[1], (int, float))]
    if not idx:
        return None
    a = call["args"][rng.choice(idx)]
    k = rng.random()
    v = float(a[1])
    if k < 0.3:
        a[1] = math.nextafter(v, rng.choice([math.inf, -math.inf]))
    elif k < 0.5:
        a[1] = v * (1 + rng.choice([-1, 1]) * 10 ** rng.uniform(-13, -4))
    elif k < 0.6:
        a[1] = -v if v < 0 or call["fn"].startswith(("utils", "dE", "dH", "kepler_equ")) else v
    elif k < 0.7:
        a[1] = round(v) or 1
    else:
        a[1] = v
    a[0] = rng.choice(["py", "jax", "np"])
    return call


def generate(rng, index, tier, x64):
    kind = rng.random()
    g = C.Gen(rng, cases=rng.choice([1, 2]), heavy=0.05 if kind < 0.7 else 0.35,
              kepler=0.06 if kind < 0.7 else 0.2)
    ops, calls = [], []
    for _ in range(rng.randint(6, 22)):
        k = rng.random()
        if not calls or k < 0.38:
            c = g.call()
            calls.append(c)
            ops.append({"op": "call", "call": c})
        elif k < 0.52:
            ops.append({"op": "call", "call": rng.choice(calls), "note": "again"})
        elif k < 0.68:
            c = near(rng, rng.choice(calls))
            if c:
                ops.append({"op": "call", "call": c, "note": "near"})
                if rng.random() < 0.5:
                    calls.append(c)
        elif k < 0.84:
            i = rng.randrange(len(g.pool))
            op = {"op": rng.choice(["mutate", "mutate", "recycle"]), "i": i,
                  "by": rng.choice([1 + 1e-7, 1.01, 0.97, 1.0000001])}
            if g.pool[i]["t"] == "dict":
                op["key"] = rng.choice(sorted(g.pool[i]["v"]))
            ops.append(op)
            users = [c for c in calls if ["ref", i] in c["args"]]
            if users:
                ops.append({"op": "call", "call": rng.choice(users), "note": "again"})
        elif k < 0.89:
            cheap = [c for c in calls if not c.get("heavy") and c["fn"] != "prop.kepler"
                     and (c.get("eager") or c["fn"] not in C.RECOMPILES)]
            if cheap:
                c = rng.choice(cheap)
                slow = c.get("eager") or c["fn"] in ("rv2coe", "coe2rv")
                n = rng.choice([40, 40, 40, 140] if slow else [40, 140, 300])
                ops.append({"op": "burst", "call": c, "n": n,
                            "seed": rng.randrange(1 << 30)})
                ops.append({"op": "call", "call": c, "note": "again"})
        elif k < 0.93:
            ops.append({"op": "precision"})
        elif k < 0.97:
            cheap = [c for c in calls if not c.get("heavy") and not c.get("eager")
                     and c["fn"] not in ("prop.kepler",)]
            if cheap:
                c = rng.choice(cheap)
                ops.append({"op": "traced", "call": c})
                ops.append({"op": "call", "call": c, "note": "again"})
        else:
            ops.append({"op": "collect"})
    return {"pool": g.pool, "ops": ops}


def traced(inst, call, pool):
    """The call under a caller's jax.jit, its array arguments traced."""
    import jax

    try:
        f, a, kw = C.build(inst, call, pool)
        out = jax.jit(lambda *z: f(*z, **kw))(*a)
        jax.block_until_ready(out)
    except Exception as e:
        return "raised", type(e).__name__, e
    return "ok", C.leaves(out), out


def execute(plan, run, ctx):
    import jax

    inst = lib.fresh()                  # the process whose history is written
    pool = C.make_pool(plan["pool"])
    kept = []                           # results the caller still holds
    x64 = plan["x64"]
    before = C.Settings()
    import random
    try:
        for k, op in enumerate(plan["ops"]):
            kind = op["op"]
            what = f"op {k} ({kind})"
            if kind in ("call", "traced", "burst"):
                call = op["call"]
                what = f"op {k} ({op.get('note', kind)} {call['fn']})"
                run.ops += 1
                run.sig.append(f"{op.get('note', kind)}:{call['fn']}")
            else:
                run.sig.append(kind)
            if kind in ("call", "traced"):
                do = C.perform if kind == "call" else traced
                frozen = [C.copy_obj(z) for z in pool]
                got = do(inst, call, pool)
                if not all(C.same_obj(a, b) for a, b in zip(pool, frozen)):
                    raise Violation("argument-changed", f"{what}: the call modified an argument")
                want = do(lib.fresh(), call, frozen)
                run.log(what, got[0], *(got[1] if got[0] == "ok" else [got[1]]))
                run.probe(got[0])
                if op.get("note"):
                    run.probe(op["note"])
                if not C.same_result(got, want):
                    raise Violation("history", f"{what}: gave {C.show(got)} after this history, "
                                               f"but {C.show(want)} as a first call")
                if got[0] == "ok":
                    kept.append((what, got[2], got[1]))
                    for z in jax.tree.leaves(got[2]):   # the caller scribbles on its result
                        if isinstance(z, np.ndarray) and z.ndim and z.flags.writeable and not any(
                                isinstance(p, np.ndarray) and np.shares_memory(z, p)
                                for p in pool):
                            z[...] = -7.0
                            kept.pop()
                            run.fault("result-overwritten-by-caller")
                            break
            elif kind == "burst":
                r = random.Random(op["seed"])
                run.fault("burst-of-calls", op["n"])
                for _ in range(op["n"]):
                    c = near(r, op["call"]) or op["call"]
                    got = C.perform(inst, c, pool)
                run.log(what, got[0])
            elif kind == "mutate":
                z = pool[op["i"]]
                if isinstance(z, dict):
                    z[op["key"]] = z[op["key"]] * op["by"]
                    run.fault("dict-modified-by-caller")
                elif isinstance(z, np.ndarray):
                    z *= op["by"]
                    run.fault("array-modified-by-caller")
                else:
                    pool[op["i"]] = z * op["by"]
                    run.fault("array-replaced")
            elif kind == "recycle":
                # a new object where the old one was: same address, most likely
                z = pool[op["i"]]
                new = ({a: b for a, b in z.items()} if isinstance(z, dict)
                       else np.asarray(z) * op["by"])
                if isinstance(new, dict):
                    new[op["key"]] = new[op["key"]] * op["by"]
                was_np = isinstance(z, (np.ndarray, dict))
                pool[op["i"]] = None
                del z
                if isinstance(new, dict):
                    pool[op["i"]] = dict(new)
                else:
                    pool[op["i"]] = np.array(new) if was_np else jax.numpy.asarray(new)
                run.fault("argument-object-recycled")
            elif kind == "precision":
                jax.config.update("jax_enable_x64", not jax.config.jax_enable_x64)
                before = C.Settings()
                run.fault("precision-switched")
            elif kind == "collect":
                gc.collect()
                run.fault("garbage-collected")
            after = C.Settings()
            d = before.diff(after)
            if d:
                raise Violation("settings", f"{what}: left changed: {'; '.join(d)[:500]}")
        for what, out, snap in kept:
            now = C.leaves(out)
            if not all(C.same_obj(a, b) for a, b in zip(now, snap)):
                raise Violation("result-changed", f"the result of {what} changed afterwards")
    finally:
        jax.config.update("jax_enable_x64", x64)
        jax.config.update("jax_disable_jit", False)
    run.log("end", len(kept))
