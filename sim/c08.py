"""C08: interrupted or failed calls leave nothing behind."""

from __future__ import annotations

import ast
import dis
import warnings

from . import catalog as C
from . import lib, sched
from .core import Violation

USES_HINTS = True
FAULTS = ("interrupt", "interrupt", "no-memory", "no-memory", "callee-error", "user-error",
          "bad-argument")


class Injected(Exception):
    """An error raised by the user's force model."""


# ------------------------------------------------------------ injection points
_points: dict = {}
_cleanup: dict = {}


def cleanup_lines(path):
    """Lines of except and finally blocks: no fault is injected into clean-up code."""
    got = _cleanup.get(path)
    if got is None:
        got = set()
        with open(path) as f:
            tree = ast.parse(f.read())
        for node in ast.walk(tree):
            blocks = []
            if isinstance(node, ast.Try):
                blocks = node.finalbody + node.handlers
            elif isinstance(node, ast.FunctionDef) and node.name in (
                    "__exit__", "__del__", "release", "close"):
                blocks = [node]
            for b in blocks:
                got |= set(range(b.lineno, b.end_lineno + 1))
        _cleanup[path] = got
    return got


def points(code):
    """{offset: kinds} where CPython itself can break this code off.

    A callee can fail at a call or an operator; an interrupt is delivered on
    entry, after a call and on a backward jump."""
    got = _points.get(code)
    if got is not None:
        return got
    got = {}
    skip = cleanup_lines(code.co_filename)
    ins = [i for i in dis.get_instructions(code) if i.opname != "CACHE"]
    first = True
    for k, i in enumerate(ins):
        line = i.positions.lineno if i.positions else None
        if line in skip or i.opname in ("RESUME", "COPY_FREE_VARS", "MAKE_CELL",
                                        "RETURN_GENERATOR", "NOP"):
            continue
        kinds = set()
        if first:
            kinds.add("interrupt")
            first = False
        if i.opname.startswith("CALL") and not i.opname.startswith("CALL_INTRINSIC"):
            leaving = i.argval == 2 and k >= 3 and all(
                z.opname == "LOAD_CONST" and z.argval is None for z in ins[k - 3:k])
            if not leaving:
                kinds |= {"no-memory", "callee-error"}
        if i.opname in ("BINARY_OP", "BINARY_SUBSCR", "COMPARE_OP", "UNARY_NEGATIVE",
                        "BUILD_MAP", "BUILD_LIST", "BUILD_TUPLE"):
            kinds |= {"no-memory"}
        if k and ins[k - 1].opname.startswith("CALL"):
            kinds.add("interrupt")
        if i.opname.startswith("JUMP_BACKWARD"):
            kinds.add("interrupt")
        if kinds:
            got[i.offset] = kinds
    _points[code] = got
    return got


ERRORS = {"interrupt": KeyboardInterrupt, "no-memory": MemoryError,
          "callee-error": RuntimeError}


class Breaker:
    """Counts the eligible points of a call, or breaks it off at one of them."""

    def __init__(self, kind, at=None):
        self.kind, self.at, self.n, self.where = kind, at, 0, None

    def __call__(self, code, offset):
        if self.kind in points(code).get(offset, ()):
            self.n += 1
            if self.n == self.at:
                line = next((l for s, e, l in code.co_lines() if s <= offset < e), 0)
                self.where = f"{code.co_qualname} line {line}"
                raise ERRORS[self.kind]("injected")


def under(inst, breaker, call, pool):
    mon = sched.monitor()
    mon.watch(inst.codes)
    mon.on = breaker
    try:
        return C.perform(inst, call, pool)
    finally:
        mon.on = None
        mon.forget(inst.codes)


# -------------------------------------------------------------------- planning
def spoil(rng, g, call):
    """The call with an invalid argument, or None."""
    call = {**call, "args": [list(a) for a in call["args"]], "kw": dict(call["kw"])}
    if call.get("heavy") and rng.random() < 0.4:
        if call["fn"].split(".")[1] in ("fixed_steps", "adaptive_steps"):
            call["kw"]["max_steps"] = rng.choice([1, 2, 3])
            return call
    i = rng.randrange(len(call["args"]))
    a = call["args"][i]
    if a[0] == "saveat":
        return None
    if a[0] == "orb":
        d = dict(a[1])
        d["args"] = bad_ref(rng, g, d["args"])
        call["args"][i] = ["orb", d]
        return call
    if a[0] == "ref":
        call["args"][i] = bad_ref(rng, g, a)
        return call
    call["args"][i] = rng.choice([["py", None], ["py", "two"], ["np", [1.0, 2.0]],
                                  ["np", []], ["py", {}]])
    if isinstance(call["args"][i][1], list) and call["fn"].startswith("prop."):
        call["args"][i] = ["py", None]
    return call


def bad_ref(rng, g, a):
    d = g.pool[a[1]]
    if d["t"] == "dict":
        v = {k: z for k, z in d["v"].items() if k != rng.choice(["mu", "J2", "R_eq", "rmin"])}
        new = {**d, "v": v}
    else:
        v = d["v"]
        new = {**d, "v": rng.choice([v[:2], [], [v, v, v]]) if isinstance(v, list)
               else [v, v, v, v]}
    g.pool.append(new)
    return ["ref", len(g.pool) - 1]


def generate(rng, index, tier, x64):
    heavy = rng.random() < 0.12
    g = C.Gen(rng, cases=rng.choice([1, 1, 2]), heavy=0.7 if heavy else 0.02, kepler=0.08)
    ops = []
    for _ in range(1 if heavy else rng.choice([2, 3, 4])):
        victim = g.call()
        fault = rng.choice(FAULTS)
        if victim.get("heavy") and rng.random() < 0.4:
            fault = "user-error"
        if rng.random() < 0.3:
            ops.append({"op": "call", "call": rng.choice([victim, g.call()])})
        for _ in range(rng.choice([1, 1, 1, 2])):
            op = {"op": "break", "call": victim, "fault": fault, "frac": rng.random()}
            if fault == "user-error":
                while not (victim.get("heavy")):
                    if not heavy:
                        break
                    victim = g.numeric(rng.choice(g.cases))
                if not victim.get("heavy"):
                    op["fault"] = rng.choice(["interrupt", "no-memory"])
                op["call"] = victim
                op["nth"] = rng.choice([1, 1, 2, 3])
            elif fault == "bad-argument":
                bad = spoil(rng, g, victim)
                if bad is None:
                    op["fault"] = "interrupt"
                else:
                    op["call"] = bad
            ops.append(op)
        ops.append({"op": "call", "call": victim})
        for _ in range(rng.choice([0, 1])):
            ops.append({"op": "call", "call": g.call()})
    plan = {"pool": g.pool, "ops": ops}
    if rng.random() < 0.3:               # a caller with settings of his own
        plan["config"] = rng.sample(CONFIG, rng.choice([1, 1, 2]))
    return plan


# settings a caller may have changed: a call that ends early must not put back
# the defaults instead
CONFIG = [["jax_debug_infs", True], ["jax_debug_nans", True],
          ["jax_default_matmul_precision", "highest"], ["jax_numpy_rank_promotion", "warn"],
          ["numpy err", "ignore"], ["numpy print", 4], ["recursion", 4000]]


class Configured:
    """The caller's own settings for the length of a run."""

    def __init__(self, plan):
        self.todo = plan.get("config", [])

    def __enter__(self):
        import sys
        import warnings

        import jax
        import numpy as np

        self.undo = []
        for k, v in self.todo:
            if k == "numpy err":
                old = np.seterr(all=v)
                self.undo.append(lambda old=old: np.seterr(**old))
            elif k == "numpy print":
                old = np.get_printoptions()["precision"]
                np.set_printoptions(precision=v)
                self.undo.append(lambda old=old: np.set_printoptions(precision=old))
            elif k == "recursion":
                old = sys.getrecursionlimit()
                sys.setrecursionlimit(v)
                self.undo.append(lambda old=old: sys.setrecursionlimit(old))
            else:
                old = getattr(jax.config, k)
                jax.config.update(k, v)
                self.undo.append(lambda k=k, old=old: jax.config.update(k, old))
                if k == "jax_numpy_rank_promotion":
                    warnings.simplefilter("ignore")
        return self

    def __exit__(self, *exc):
        for f in self.undo:
            f()


# ------------------------------------------------------------------- execution
def new_instance():
    return lib.fresh(replace={"threading": sched.threading_standin()})


def failing_field(nth):
    seen, fired = [0], []

    def wrap(f):
        def g(t, x, args):
            seen[0] += 1
            if seen[0] == nth:
                fired.append(1)
                raise Injected("the force model failed")
            return f(t, x, args)
        return g
    return wrap, fired


def execute(plan, run, ctx):
    with warnings.catch_warnings(), Configured(plan):
        if "config" in plan:
            run.fault("caller's own settings")
        _execute(plan, run, ctx)


def _execute(plan, run, ctx):
    import jax

    mon = sched.monitor()
    mon.on = None
    inst = new_instance()
    pool = C.make_pool(plan["pool"])
    before = C.Settings()
    try:
        for k, op in enumerate(plan["ops"]):
            call = op["call"]
            run.ops += 1
            frozen = [C.copy_obj(z) for z in pool]
            run.sig.append(f"{op['op']}:{op.get('fault')}:{call['fn']}")
            if op["op"] == "call":
                what = f"op {k} ({call['fn']})"
                got = C.perform(inst, call, pool)
                want = C.perform(lib.fresh(), call, [C.copy_obj(z) for z in frozen])
                run.log(what, got[0], *(got[1] if got[0] == "ok" else [got[1]]))
                if not C.same_result(got, want):
                    raise Violation("later-call", f"{what}: gives {C.show(got)} after broken-off "
                                                  f"calls, as a first call {C.show(want)}")
            else:
                fault = op["fault"]
                what = f"op {k} ({call['fn']} broken off by {fault})"
                if fault in ERRORS:
                    probe = Breaker(fault)
                    want = under(new_instance(), probe, call,
                                 [C.copy_obj(z) for z in frozen])
                    if probe.n == 0:
                        run.probe("no point")
                        run.log(what, "no point")
                        continue
                    at = 1 + min(int(op["frac"] * probe.n), probe.n - 1)
                    br = Breaker(fault, at)
                    got = under(inst, br, call, pool)
                    run.log(what, probe.n, at, br.where, got[0])
                    run.sig.append(str(br.where))
                    if br.where:
                        run.fault(fault)
                        what += f" at {br.where}, point {at} of {probe.n}"
                    if got[0] == "ok" and not C.same_result(got, want):
                        raise Violation("swallowed", f"{what}: returned {C.show(got)}, "
                                                     f"undisturbed it gives {C.show(want)}")
                    if br.where and got[0] == "raised":
                        run.probe("reached the caller")
                elif fault == "user-error":
                    wrap, fired = failing_field(op["nth"])
                    got = C.perform(inst, call, pool, {"field": wrap})
                    run.log(what, got[0], got[1] if got[0] == "raised" else "")
                    if fired:
                        run.fault(fault)
                    if fired and got[0] == "raised":
                        chain, e = [], got[2]
                        while e is not None and len(chain) < 20:
                            chain.append(e)
                            e = e.__cause__ or e.__context__
                        if not any(isinstance(z, Injected) for z in chain):
                            raise Violation("lost-error", f"{what}: the caller got {C.show(got)}")
                    else:
                        want = C.perform(lib.fresh(), call, [C.copy_obj(z) for z in frozen])
                        if not C.same_result(got, want):
                            raise Violation("swallowed", f"{what}: returned {C.show(got)}, "
                                                         f"undisturbed {C.show(want)}")
                else:
                    got = C.perform(inst, call, pool)
                    want = C.perform(lib.fresh(), call, [C.copy_obj(z) for z in frozen])
                    run.log(what, got[0], got[1] if got[0] == "raised" else "")
                    if got[0] == "raised":
                        run.fault(fault)
                    if not C.same_result(got, want):
                        raise Violation("later-call", f"{what}: gives {C.show(got)}, as a first "
                                                      f"call {C.show(want)}")
            if not all(C.same_obj(a, b) for a, b in zip(pool, frozen)):
                raise Violation("argument-changed", f"{what}: an argument was left modified")
            d = before.diff(C.Settings())
            if d:
                raise Violation("settings", f"{what}: left changed: {'; '.join(d)[:500]}")
    except sched.WouldBlock as e:
        raise Violation("blocked", f"{what}: waits for ever for {e}, held since a broken-off call")
    finally:
        mon.on = None
        jax.config.update("jax_disable_jit", False)
        jax.config.update("jax_enable_x64", plan["x64"])


def shrink(plan):
    if "config" in plan:
        yield {k: v for k, v in plan.items() if k != "config"}
    for i, op in enumerate(plan["ops"]):
        if op["op"] == "break" and op["frac"] not in (0.0,):
            for f in (0.0, op["frac"] / 2):
                yield {**plan, "ops": plan["ops"][:i] + [{**op, "frac": f}] + plan["ops"][i + 1:]}
