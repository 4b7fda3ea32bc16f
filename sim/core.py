"""Simulator core: seeds, plans, runs, minimisation.  No JAX in here.

A *plan* is a JSON object that fully determines one simulated run: the world
(orbit, force model, precision), the operations, and every schedule decision
and fault.  Plans are generated from (VERIF_SEED, property, index) and from
nothing else.  Running a plan is a pure function of the plan and of the code
in /repo; the run returns its violations, counters, an event-log digest and a
signature used to count distinct interleavings.
"""

from __future__ import annotations

import hashlib
import json
import random

LANES = 8


class Violation(Exception):
    """The property does not hold in this run."""

    def __init__(self, kind: str, detail: str):
        super().__init__(f"{kind}: {detail}")
        self.kind = kind
        self.detail = detail


class Skip(Exception):
    """The plan left the property's stated domain: nothing is decided."""


def rng_for(seed: int, prop: str, index: int) -> random.Random:
    h = hashlib.sha256(f"{seed}/{prop}/{index}".encode()).digest()
    return random.Random(int.from_bytes(h[:8], "big"))


def canon(obj) -> str:
    return json.dumps(obj, sort_keys=True, separators=(",", ":"))


class Run:
    """Collects what one simulated run did.  Logging never draws randomness."""

    def __init__(self, plan):
        self.plan = plan
        self._h = hashlib.sha256()
        self.events = 0
        self.faults: dict[str, int] = {}
        self.probes: dict[str, int] = {}
        self.sig: list[str] = []
        self.sim_time = 0.0
        self.metrics: dict[str, float] = {}
        self.known: list[str] = []
        self.ops = 0
        self.tail: list[str] = []

    def log(self, *what):
        s = " ".join(_show(w) for w in what)
        self._h.update(s.encode())
        self._h.update(b"\n")
        self.events += 1
        self.tail.append(s if len(s) < 400 else s[:400] + "...")
        if len(self.tail) > 60:
            del self.tail[0]

    def fault(self, kind: str, n: int = 1):
        self.faults[kind] = self.faults.get(kind, 0) + n
        self.log("FAULT", kind, n)

    def probe(self, name: str, n: int = 1):
        self.probes[name] = self.probes.get(name, 0) + n

    def metric(self, name: str, value: float):
        """Track the largest value/tolerance ratio seen (head-room of an oracle)."""
        value = float(value)
        if not (value == value):
            value = 1e300
        if value > self.metrics.get(name, -1.0):
            self.metrics[name] = value

    def digest(self) -> str:
        return self._h.hexdigest()[:24]

    def signature(self) -> str:
        return hashlib.sha256("|".join(self.sig).encode()).hexdigest()[:16]


def _show(w) -> str:
    if isinstance(w, float):
        return w.hex()
    if hasattr(w, "tobytes") and hasattr(w, "dtype"):
        return f"{w.dtype}{w.shape}{hashlib.sha1(w.tobytes()).hexdigest()[:12]}"
    return str(w)


def run_plan(module, plan, ctx) -> dict:
    """Execute one plan; never raises for what the library does wrong."""
    run = Run(plan)
    out = {"index": plan.get("index"), "violation": None, "skipped": False,
           "error": None}
    try:
        module.execute(plan, run, ctx)
    except Violation as v:
        out["violation"] = {"kind": v.kind, "detail": v.detail}
    except Skip as s:
        out["skipped"] = True
        out["error"] = None
        run.log("SKIP", str(s))
    out.update(
        digest=run.digest(), events=run.events, faults=run.faults,
        probes=run.probes, sig=run.signature(), sim_time=run.sim_time,
        metrics=run.metrics, known=run.known, ops=run.ops, tail=run.tail,
    )
    return out


# ------------------------------------------------------------- minimisation
def ddmin_candidates(items):
    """Smaller versions of a list, coarse to fine."""
    n = len(items)
    size = n // 2
    while size >= 1:
        for i in range(0, n, size):
            rest = items[:i] + items[i + size:]
            if len(rest) < n:
                yield rest
        size //= 2


def shrink_plan(plan, module):
    """Yield plans simpler than `plan`, most aggressive first."""
    if isinstance(plan.get("ops"), list):
        for ops in ddmin_candidates(plan["ops"]):
            if ops or getattr(module, "ALLOW_EMPTY_OPS", False):
                q = dict(plan)
                q["ops"] = ops
                yield q
    extra = getattr(module, "shrink", None)
    if extra is not None:
        yield from extra(plan)


def minimise(plan, kind, module, ctx, budget_runs=80, deadline=None, clock=None):
    """Greedy shrink keeping the same violation kind."""
    runs = 0
    best = plan
    progress = True
    while progress and runs < budget_runs:
        progress = False
        for cand in shrink_plan(best, module):
            if runs >= budget_runs or (deadline and clock() > deadline):
                return best, runs
            runs += 1
            try:
                r = run_plan(module, cand, ctx)
            except Exception:
                continue
            if r["violation"] and r["violation"]["kind"] == kind:
                best = cand
                progress = True
                break
    return best, runs
