"""Where to search harder: operations that touch state outliving the call.

Each operation is called a few times on a pristine instance while the
library's module state, the locks it takes and the configuration it touches
are watched.  The result steers the generator and judges nothing: a tree in
which every operation is pure gives no hints and is searched uniformly.
"""

from __future__ import annotations

import random
import types

import numpy as np

from . import catalog as C
from . import lib, sched

SKIP = (types.ModuleType, types.CodeType, property)


def digest(v, depth=0, seen=None):
    seen = set() if seen is None else seen
    if depth > 4 or id(v) in seen:
        return "..."
    if v is None or isinstance(v, (bool, int, float, complex, str, bytes)):
        return repr(v)
    if isinstance(v, SKIP):
        return "-"
    seen = seen | {id(v)}
    if hasattr(v, "cache_info"):
        try:
            return str(v.cache_info())
        except Exception:
            return "-"
    if isinstance(v, np.ndarray):
        return str((v.dtype, v.shape, v.tobytes()[:4096]))
    if isinstance(v, dict):
        return "{%d %s}" % (len(v), ";".join(
            f"{digest(a, depth + 1, seen)}:{digest(b, depth + 1, seen)}"
            for a, b in list(v.items())[-20:]))
    if isinstance(v, (list, tuple, set, frozenset)) or type(v).__name__ in ("deque",):
        z = list(v)
        return "[%d %s]" % (len(z), ";".join(digest(a, depth + 1, seen) for a in z[-20:]))
    if isinstance(v, types.FunctionType):
        if not str(v.__module__).startswith("astrodynx"):
            return "f"
        parts = [digest(v.__dict__, depth + 1, seen), digest(v.__defaults__, depth + 1, seen),
                 digest(v.__kwdefaults__, depth + 1, seen)]
        for c in v.__closure__ or ():
            try:
                parts.append(digest(c.cell_contents, depth + 1, seen))
            except ValueError:
                pass
        return "f" + "|".join(parts)
    mod = str(getattr(type(v), "__module__", ""))
    if isinstance(v, type):
        if str(v.__module__).startswith("astrodynx"):
            return "c" + digest({k: z for k, z in vars(v).items()
                                 if not k.startswith("__")}, depth + 1, seen)
        return "c"
    if hasattr(v, "dtype"):
        return f"a{id(v)}"
    if mod.startswith("astrodynx") or mod in ("_thread", "threading", "sim.sched"):
        d = getattr(v, "__dict__", None)
        return f"o{digest(d, depth + 1, seen)}" if d else f"o{id(v)}"
    if hasattr(v, "__len__"):
        try:
            return f"o{id(v)}:{len(v)}"
        except Exception:
            pass
    return f"o{id(v)}"


def state(inst):
    return {n: digest({k: v for k, v in vars(m).items() if not k.startswith("__")})
            for n, m in inst.modules.items()}


def compute(seed=7):
    import jax

    C.HINTS = []
    inst = lib.fresh(replace={"threading": sched.threading_standin()})
    rng = random.Random(seed)
    touched = [0]
    real = jax.config.update

    def update(*a, **k):
        touched[0] += 1
        return real(*a, **k)

    out = []
    names = sorted(set(C.NAMES)) + ["prop.kepler"] + C.HEAVY
    jax.config.update = update
    # the integrations themselves are of no interest here
    inst.modules["astrodynx.diffeq"].diffeqsolve = lambda *a, **k: None
    real("jax_disable_jit", True)
    try:
        for name in names:
            for only in ("py", "np", "np"):
                if only == "np" and name == "prop.kepler":
                    continue
                g = C.Gen(rng, cases=1, only=only)
                call = g.named(name)
                pool = C.make_pool(g.pool)
                a, n, t = state(inst), sched.SimLock.taken, touched[0]
                try:
                    C.invoke(inst, call, pool)
                except sched.WouldBlock:
                    pass
                if state(inst) != a or sched.SimLock.taken != n or touched[0] != t:
                    out.append(name)
                    break
    finally:
        jax.config.update = real
        real("jax_disable_jit", False)
    C.HINTS = out
    return out
