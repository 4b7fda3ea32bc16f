"""Per-property budgets and the fixed part of the evidence records."""

REAL = ["astrodynx (all of /repo/src, imported from the working tree)",
        "diffrax/equinox/JAX/XLA numerical stack", "CPython threads"]
COMMON = dict(level="exploration", need_fault=False)

BUDGETS = {
    "C01": dict(
        COMMON, quick=480, thorough=20000,
        rule="plan = orbit x force model x 2-7 propagation legs x crash/torn/dup/restart "
             "faults, drawn from the seed; non-trivial = at least one leg ran",
        distinct="sequence of (output mode, tolerance, direction, fault, checkpoint choice)",
        real=REAL, stub=["checkpoint store (in-memory, injected torn/lost writes)"],
        assumptions=["periapsis above 1 length unit, e<=0.9 or parabolic or e<=3",
                     "reference: SciPy DOP853 at 2e-14, independent gravity gradient"]),
    "C02": dict(
        COMMON, quick=320, thorough=24000,
        rule="plan = orbit of any conic x 2-6 analytic time jumps/batches with lost, "
             "duplicated, reordered, split requests and backward clock jumps; "
             "non-trivial = at least one answer was checked",
        distinct="sequence of (request kind, batch size, fault, conic, backward epochs, kept epoch)",
        real=REAL, stub=[],
        assumptions=["periapsis above 1 length unit, e<=0.985, near-parabolic or e<=10",
                     "jumps up to 100 (float64) / 30 (float32) periapsis time units",
                     "reference: bracketed universal-variable solver with Stumpff series"]),
    "C03": dict(
        COMMON, quick=480, thorough=20000,
        rule="plan = orbit x force model x 1-3 propagations whose force evaluations fail "
             "by script (non-finite, partly non-finite, spike, stale, zero, exception; "
             "once, for a while or forever; from any evaluation on), then the same "
             "request without faults; non-trivial = a propagation was judged",
        distinct="sequence of (mode, outcome, fault script)",
        real=REAL, stub=["user force model = the library's gravity behind a call seam "
                         "that injects the scripted faults"],
        assumptions=["finite corruption is bounded only as far as the integrator's error "
                     "estimate sees it (200 x tolerance), and not checked for fixed steps"]),
    "C05": dict(
        COMMON, quick=640, thorough=30000,
        rule="plan = orbit x force model x 1-4 propagations with a minimum radius above or "
             "below the lowest radius, with and without root finder, with injected "
             "step rejections; non-trivial = a stop or a completed span was judged",
        distinct="sequence of (mode, root finder, crosses, stopped, direction, steps)",
        real=REAL, stub=["step-size controller = library default plus scripted rejections"],
        assumptions=["start radius above the minimum",
                     "a dip shorter than two integration steps may go unnoticed"]),
    "C06": dict(
        COMMON, quick=640, thorough=30000,
        rule="plan = orbit x force model x 2-4 output modes over one span, with streams of "
             "injected step rejections; non-trivial = outputs were judged",
        distinct="sequence of (mode, outputs, accepted steps, rejected steps)",
        real=REAL, stub=["step-size controller = library default plus scripted rejections"],
        assumptions=["requested epochs are sorted along the direction of propagation"]),
    "C04": dict(
        COMMON, quick=400, thorough=16000,
        rule="plan = orbit x force model x 2-5 propagations with budgets placed around the "
             "steps needed (16, 24, 64, 4096, unlimited) under injected step rejections; "
             "non-trivial = an outcome was judged",
        distinct="sequence of (mode, save, budget, steps needed, outcome, rejections)",
        real=REAL, stub=["step-size controller = library default plus scripted rejections "
                         "and a maximum step"],
        assumptions=["steps needed are counted with a direct call of the same integrator"]),
    "C10": dict(
        COMMON, quick=800, thorough=40000,
        rule="plan = orbit of any conic x 2-6 navigation updates (forward, back, home, whole "
             "revolutions), lost, delivered twice or split; non-trivial = a matrix was judged",
        distinct="sequence of (conic, fault, direction, length class)",
        real=REAL, stub=[],
        assumptions=["reference = extrapolated differences of an independent two-body solver",
                     "a chain whose error bound exceeds 5 % is started afresh"]),
    "C11": dict(
        COMMON, quick=800, thorough=60000,
        rule="plan = orbit of any conic (often on a quadrant boundary) x 2-7 of: flight from the "
             "checkpoint with crash/torn/duplicate faults, save/restore cycles, batches; "
             "non-trivial = a restored state was judged",
        distinct="sequence of (operation, flown by, fault, cycles)",
        real=REAL, stub=["checkpoint store (in-memory)",
                         "two thirds of the flights are flown by the reference solver"],
        assumptions=["e and sin i above 0.001; tolerance grows with 1/e + 1/sin i"]),
    "C12": dict(
        COMMON, quick=480, thorough=24000,
        rule="plan = unperturbed orbit x 2-7 analytic or numerical legs x crash/torn/dup faults; "
             "non-trivial = the integrals of at least one returned state were judged",
        distinct="sequence of (output mode, tolerance, direction, fault, checkpoint choice)",
        real=REAL, stub=["checkpoint store (in-memory, injected torn/lost writes)"],
        assumptions=["orbit domain of C01; node and periapsis direction are judged where they "
                     "are defined (sin i > 0.001, e > 0.0001 or 0.01 in float32)",
                     "conservation bound = state error allowed to the leg times the "
                     "sensitivity of the integral"]),
    "C13": dict(
        COMMON, quick=1600, thorough=120000,
        rule="plan = orbit x 2-7 clock queries (alone, vectorised or compiled batches of 12, "
             "over several revolutions) with clocks set back, duplicated, reordered or split "
             "queries; non-trivial = at least one answer was judged",
        distinct="sequence of (form, query kind, tolerance, fault, epochs before periapsis, span)",
        real=REAL, stub=["nine tenths of the flights are the reference solver's"],
        assumptions=["elliptic e <= 0.95, hyperbolic 1.05 <= e <= 5 (universal form: every conic)",
                     "reference anomalies by bisection"]),
    "C14": dict(
        COMMON, quick=480, thorough=20000,
        rule="plan = orbit (also polar and equatorial) x zonal field x 2-7 legs x "
             "crash/torn/dup faults; non-trivial = energy, axial momentum and the four "
             "accelerations were judged at one returned state or more",
        distinct="sequence of (output mode, tolerance, direction, fault, checkpoint choice)",
        real=REAL, stub=["checkpoint store (in-memory, injected torn/lost writes)"],
        assumptions=["orbit domain of C01, |Jn| <= 0.03",
                     "drift bound = state error allowed to the leg times the gradient of the "
                     "integral, divided by five"]),
    "C15": dict(
        COMMON, quick=1600, thorough=120000,
        rule="plan = orbit x 2-6 transfers flown on from one another (or from a waypoint, or "
             "again after a crash) or multi-revolution flights; non-trivial = a prediction was "
             "compared with its flight",
        distinct="sequence of (flown by, fault, predictions, swept angle, conic, revolutions)",
        real=REAL, stub=["three fifths of the transfers are flown by the reference solver"],
        assumptions=["e >= 0.005; transfers within rounding of the boundary between two answers "
                     "(end points in line, at periapsis, limit equal to periapsis) are not judged"]),
    "C09": dict(
        COMMON, quick=240, thorough=24000,
        rule="plan = 6-22 calls over all public operations with repeated, nearly equal and "
             "formally equal arguments, arguments the caller changed in place or recycled, "
             "bursts, precision switches, traced calls; non-trivial = a call was compared with "
             "a first call",
        distinct="sequence of (step kind, operation)",
        real=REAL, stub=[],
        assumptions=["oracle = the same call on a pristine re-import of the library in the same "
                     "process, compared bit for bit (JAX's own compile caches are shared)"]),
    "C07": dict(
        COMMON, quick=480, thorough=80000,
        rule="plan = 2-4 threads x 1-3 calls sharing their arguments x preemption policy "
             "(uniform, around shared writes, priority change points); non-trivial = at least "
             "one preemption inside library code",
        distinct="the operations and the full list of preemptions (step, thread)",
        real=REAL, stub=["locks created by the library (cooperative, deadlock-detecting)"],
        assumptions=["preemption between bytecode instructions of the library; compiled code and "
                     "JAX internals run atomically between them",
                     "oracle = the same call alone on a pristine re-import, bit for bit"]),
    "C08": dict(
        COMMON, quick=480, thorough=60000, need_fault=True,
        rule="plan = 1-4 victims among all public operations, each broken off at a random point by "
             "an interrupt, a failed allocation, a failing callee, the user's force model or an "
             "invalid argument, then called again together with other operations; non-trivial = "
             "a call was broken off or a later call compared",
        distinct="sequence of (fault, operation, function and line where it struck)",
        real=REAL, stub=["locks created by the library (cooperative, deadlock-detecting)"],
        assumptions=["a fault strikes between bytecode instructions of the library where CPython "
                     "can break the code off, not in its except/finally blocks",
                     "oracle = the same call on a pristine re-import, bit for bit"]),
    "C16": dict(
        COMMON, quick=1280, thorough=80000,
        rule="plan = a fleet of 1-6 bodies x 2-5 requests for all of them at once (any public "
             "operation; the operation's own broadcasting, vmap or compiled vmap; vectorised "
             "numerical flights), members late, lost, repeated or with broken telemetry; "
             "non-trivial = a healthy member's answer was compared with its answer alone",
        distinct="sequence of (operation, form, batch shape, shared arguments, broken members)",
        real=REAL, stub=[],
        assumptions=["shapes as documented: orbit vectors (..., 3), numbers broadcast-compatible, "
                     "mu in a column where it meets vectors; (3,)-only operations under vmap",
                     "oracle = the same operation for that member alone; the difference allowed is "
                     "30 times what moving the inputs by 4 units in the last place does"]),
    "C17": dict(
        COMMON, quick=640, thorough=40000,
        rule="plan = orbit x force model x 2-6 of: sensitivity flights (one output mode per lane) "
             "chained over checkpoints with crash/torn/duplicate faults, derivatives of single "
             "operations (forward or reverse, eager, compiled or vectorised) at ordinary and "
             "boundary inputs; non-trivial = a derivative was compared",
        distinct="sequence of (operation, form) and (output mode, direction, fault)",
        real=REAL, stub=["checkpoint store (in-memory, injected torn/lost writes)"],
        assumptions=["double precision; flights in reverse mode (diffrax's default adjoint), "
                     "without custom_steps and kepler, which cannot be differentiated",
                     "reference: complex-step differentiation of an independent integration; "
                     "extrapolated central differences of the operation itself",
                     "points where the operation has no derivative (branch boundaries) are not "
                     "judged"]),
}
