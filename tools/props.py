"""Writes properties.jsonl and MANIFEST.json (kept in step from one source)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
COW = "src/astrodynx/prop/_cowell_method.py"
KEP = "src/astrodynx/prop/_kepler.py"
ANO = "src/astrodynx/twobody/_kep_equ.py"
UFN = "src/astrodynx/twobody/_uniformulas.py"
LAG = "src/astrodynx/twobody/_lagrange.py"
STM = "src/astrodynx/twobody/_state_trans.py"
ELE = "src/astrodynx/twobody/_orb_elements.py"
INT = "src/astrodynx/twobody/_orb_integrals.py"
PTH = "src/astrodynx/twobody/_path_check.py"
GRV = "src/astrodynx/gravity/_general.py"
EVT = "src/astrodynx/events/radius.py"
ROT = "src/astrodynx/utils/_rot_mat.py"
ALL = [COW, KEP, ANO, UFN, LAG, STM, ELE, INT, PTH, GRV, EVT, ROT]

P = []


def prop(id, title, statement, over, text, why, files, mech, observe, technique=None,
         note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                  files=files, mech=mech, observe=observe, technique=technique,
                  note=note, na=na))


prop("C01", "Numerical propagation survives checkpoint, crash and restart",
     "Propagating an orbit numerically in any sequence of legs (forward or backward in time, "
     "in any output mode, with a time-dependent force model), restarting each leg from the last "
     "state that was saved, ends on the same trajectory as one uninterrupted propagation, within "
     "the error the requested tolerances allow. A request delivered twice gives the identical "
     "answer, and every state returned on the way lies on the trajectory of its leg. This holds "
     "for elliptic (e up to 0.9), parabolic and hyperbolic (e up to 3) orbits in any consistent "
     "units, with point-mass, J2-J4 and user thrust forces.",
     ["crash_points", "schedules", "fault_sequences", "inputs"],
     "All orbits of the domain, force models, leg sequences with direction and output mode, and "
     "all placements of crashes, torn checkpoints, duplicated requests and process restarts.",
     "The tests propagate a handful of orbits once, forward, from epoch 0; none restarts from an "
     "intermediate state, goes backward, or compares the modes over random histories.",
     [COW, GRV], [("common integration entry", f"{COW}: cowell_method"),
                  ("output modes", f"{COW}: fixed_steps, adaptive_steps, custom_steps, to_final"),
                  ("forces", GRV)],
     ["returned times and states of each leg"],
     "deterministic simulation: seeded leg schedules with crash/torn/duplicate/restart faults, "
     "reference-trajectory oracle",
     "Seeded search; every leg and the whole mission are compared with an independent DOP853 "
     "integration and an independently written gravity gradient; tolerances are scaled by the "
     "measured error growth of the arc.")

prop("C02", "Analytic propagation does not depend on how time is cut up",
     "Propagating a two-body orbit analytically by any sequence of time steps, in any order, batch "
     "size and direction, gives at each epoch the state of the one orbit through the initial "
     "state, and stepping forward and back by the same time returns to the start, whether an "
     "epoch is asked for alone, in a batch, split in two or twice. This "
     "holds for all conics with periapsis radius above one length unit, eccentricity up to 0.985, "
     "parabolic and near-parabolic, and hyperbolic up to 10, for jumps of up to 100 periapsis "
     "time units.",
     ["histories", "schedules", "fault_sequences", "inputs"],
     "All orbits of the domain and all sequences of single and batched time jumps with lost, "
     "duplicated, reordered and split requests and clocks set back.",
     "The tests use three or four orbits and single short jumps; composition, batching and long "
     "or backward jumps are never exercised.",
     [KEP, ANO, UFN, LAG], [("analytic propagator", f"{KEP}: kepler"),
                            ("universal Kepler solver", f"{ANO}: solve_kepler_uni"),
                            ("universal functions", UFN)],
     ["returned position and velocity"],
     "deterministic simulation: seeded request histories with loss, duplication, reordering, "
     "splitting and clock jumps, reference-solver oracle",
     "Seeded search; oracle is a bracketed universal-variable solver with Stumpff series written "
     "independently of the repository.")

prop("C03", "A failing force model never produces a wrong trajectory",
     "When a user's force model fails during a numerical propagation (raises, returns non-finite "
     "values once, for a while or from then on, or a grossly wrong value once), the propagation "
     "either raises or returns states that lie on the true trajectory; it never returns as success "
     "a state corrupted by the failure, and it does return. A single non-finite evaluation that "
     "is not repeated is ridden out by the error-controlled modes. After the failure is over the "
     "same request succeeds with the same answer as if nothing had happened.",
     ["fault_sequences", "inputs", "configurations"],
     "All placements, lengths and kinds of force-evaluation faults, over orbits, force models and "
     "output modes.",
     "No test injects a failure into a force evaluation.",
     [COW], [("error propagation to the caller", f"{COW}: cowell_method"),
             ("step rejection", "step-size controller defaults in " + COW)],
     ["exception or returned states"],
     "deterministic simulation: force evaluations behind a seam with scripted faults at chosen "
     "evaluation counts",
     "Seeded search over fault scripts; one recorded finding: the mode with user-chosen output "
     "epochs has no step limit and never returns under a lasting non-finite force.")

prop("C04", "The step budget is honoured and never silently truncates",
     "A numerical propagation given a budget of integration steps either returns a complete "
     "solution that used no more than that many attempted steps, or raises; it never returns a "
     "truncated solution as success. It succeeds whenever the steps the problem takes fit in the "
     "budget, counting rejected attempts, and the budget alone does not change the answer.",
     ["schedules", "configurations", "inputs"],
     "All budgets, orbits, spans and streams of step rejections, in the modes that take a budget "
     "and in the ones with a built-in or no limit.",
     "The tests never get near a step limit and never inject a rejected step.",
     [COW], [("budget passed to the integrator", f"{COW}: fixed_steps, adaptive_steps, cowell_method"),
             ("unlimited requested-epoch mode", f"{COW}: custom_steps")],
     ["exception, step statistics, length and last epoch of the output"],
     "deterministic simulation: seeded budgets and injected step-rejection schedules, "
     "step-count reference model",
     "Seeded search; the number of steps a problem needs is counted by an independent driver of "
     "the same integrator under the same rejection stream.")

prop("C05", "The minimum-radius condition stops every mode at the descent",
     "A numerical propagation with the minimum-radius stopping condition, started above that "
     "radius, stops where the radius falls below the minimum and nowhere else: at the end of the "
     "step in which it happens, or on the crossing itself when a root finder is given. Every "
     "output mode stops, in both time directions, and returns only states of the trajectory up "
     "to the stop. If the radius stays above the minimum the result is the complete propagation.",
     ["schedules", "inputs", "configurations"],
     "All orbits, force models, minimum radii, output modes, directions and streams of step "
     "rejections; dips shorter than two integration steps are exempt from being noticed.",
     "The tests check one orbit and one stop, without root finder, forward in time only.",
     [EVT, COW], [("stopping condition", f"{EVT}: radius_islow"),
                  ("condition handed to the integrator", f"{COW}: OrbDynx, cowell_method")],
     ["last epoch and state, termination reason"],
     "deterministic simulation: seeded descents with injected step rejections, crossing located "
     "by a reference trajectory",
     "Seeded search; the crossing is located on an independent trajectory and the stop must fall "
     "within two integration steps of it (or on it with a root finder).")

prop("C06", "Output epochs are exactly the promised ones in every mode",
     "Whatever steps the integrator accepts and rejects, a propagation returns exactly the epochs "
     "its output mode promises: the requested epochs in order, the initial epoch and then multiples of "
     "the given step with the last one shortened, the initial epoch and every accepted step, or "
     "the final epoch alone, forward and backward in time. Unused output slots hold no finite "
     "state, and the states of all modes lie on one common trajectory.",
     ["schedules", "inputs", "configurations"],
     "All orbits, spans, directions, epoch lists (crowded, single, at both ends), step sizes "
     "(dividing the span or not) and streams of step rejections.",
     "The tests use one forward span, a step that divides it, and no rejected step; only shapes "
     "and a few values are compared.",
     [COW], [("save schedule per mode", f"{COW}: fixed_steps, adaptive_steps, custom_steps, to_final"),
             ("constant step", f"{COW}: fixed_steps")],
     ["returned times and states"],
     "deterministic simulation: seeded output requests under injected step-rejection schedules, "
     "epoch-grid model and reference trajectory",
     "Seeded search; epochs are compared exactly with the grid each mode promises.")

prop("C07", "Concurrent callers get the answers they would get alone",
     "When several threads call the library at the same time, with any interleaving of their "
     "execution, each call returns exactly what it returns when made alone, and no interleaving "
     "makes a call fail or block for ever.",
     ["schedules", "inputs"],
     "All interleavings of 2-4 callers at the level of single bytecode instructions of the "
     "library, over all public operations and random valid arguments.",
     "The tests are single-threaded.",
     ALL, [("no shared mutable state", "all modules under src/astrodynx")],
     ["return values and exceptions per caller"],
     "deterministic simulation: seeded scheduler over bytecode preemption points of real threads, "
     "results compared with an isolated execution",
     "Seeded search over interleavings of Python-level library code; compiled kernels run "
     "atomically between preemption points.")

prop("C08", "Interrupted or failed calls leave nothing behind",
     "A call that ends early at any point, by an interrupt, an out-of-memory condition, an error "
     "from the user's force model or invalid arguments, changes neither its arguments nor the "
     "state of the library or of the numerical configuration: the error reaches the caller, and "
     "every later call gives exactly the answer it would have given had the failed one never "
     "been made.",
     ["crash_points", "fault_sequences", "inputs"],
     "All points between library instructions at which a call can be broken off, all public "
     "operations, and random valid arguments.",
     "The tests never interrupt a call.",
     ALL, [("no state carried between calls", "all modules under src/astrodynx")],
     ["exception, arguments after the call, later results"],
     "deterministic simulation: exceptions injected at seeded instruction counts inside library "
     "code, later results compared with a pristine process state",
     "Seeded search over injection points in Python-level library code.")

prop("C09", "An answer depends only on the arguments, not on earlier calls",
     "Whatever was computed before, with which arguments, how often, in which precision and in "
     "whatever order, a call returns exactly what it returns as the first call of a fresh process, "
     "including after the caller reused or modified arrays and parameter dictionaries it had "
     "passed before. No call modifies its arguments, and no later call modifies a result.",
     ["histories", "inputs", "configurations"],
     "All histories of calls over the public operations with equal, nearly equal, modified and "
     "recycled arguments, precision changes and long bursts.",
     "Each test makes a few calls and never compares the same call after different histories.",
     ALL, [("pure operations", "all modules under src/astrodynx"),
           ("problem description passed per call", f"{COW}: OrbDynx")],
     ["return values"],
     "deterministic simulation: seeded call histories with recycled and mutated arguments, "
     "compared bit for bit with a pristine copy of the library",
     "Seeded search over histories; the oracle is the same code freshly imported, so it decides "
     "history independence and not numerical correctness.")

prop("C10", "State transition matrices chain across any split of an arc",
     "For two-body motion the state transition matrix over an arc equals the product of those over "
     "any split of it, in order; over an arc and back it is the identity, and it is symplectic. "
     "It predicts how a small perturbation of the starting state moves the end state. This holds "
     "for elliptic (e up to 0.985), parabolic, near-parabolic and hyperbolic (e up to 4) orbits "
     "and arcs of either direction, wherever the answers are well conditioned.",
     ["histories", "schedules", "inputs"],
     "All orbits of the domain and all splits and orders of legs, with restarts from saved "
     "states and perturbed navigation updates.",
     "The tests compare one matrix with published digits; no test composes two matrices.",
     [STM, UFN, LAG, ANO], [("state transition matrix", f"{STM}: dxdx0"),
                            ("universal anomaly from end states", f"{ANO}: generalized_anomaly")],
     ["matrix entries, propagated perturbations"],
     "deterministic simulation: covariance chain over seeded leg schedules with lost and repeated "
     "updates, composition and variational reference oracles",
     "Seeded search; reference matrix from an independent integration of the variational "
     "equations or of differences of an independent two-body solver.")

prop("C11", "Orbits saved as elements are restored as the same orbit and phase",
     "Saving a state as classical elements and restoring it gives back the same position and "
     "velocity, for every quadrant of every angle, whenever the orbit is neither circular nor "
     "equatorial (e and sin i above 0.001), elliptic, parabolic or hyperbolic. The restored orbit "
     "propagates like the original, any number of save/restore cycles do not drift, and batches "
     "are restored entry by entry.",
     ["crash_points", "histories", "inputs"],
     "All orbits of the domain and all mission histories in which checkpoints are kept as "
     "elements and missions are restarted from them.",
     "The tests convert about ten states one way or the other with loose tolerances and only in "
     "some quadrants.",
     [ELE, INT, ROT], [("state to elements", f"{ELE}: rv2coe"),
                       ("elements to state", f"{ELE}: coe2rv"),
                       ("rotations", ROT)],
     ["restored position and velocity, elements"],
     "deterministic simulation: missions whose durable checkpoints are elements, with crash and "
     "restart, compared with the uninterrupted mission",
     "Seeded search; elements are also compared with an independent computation.")

prop("C12", "Integrals of two-body motion stay constant along every flight",
     "Along any unperturbed flight, analytic or numerical and however it is cut into legs, the "
     "angular momentum, eccentricity vector, semimajor axis, semiparameter, inclination, node, "
     "periapsis direction and apsidal radii the library reports stay those of the initial state, "
     "and the reported radius satisfies the orbit equation at every point. The values agree with "
     "their definitions in any consistent units, for elliptic, parabolic and hyperbolic orbits.",
     ["histories", "schedules", "inputs"],
     "All unperturbed missions: orbits, leg schedules, output modes, faults and the epochs at "
     "which the orbit is looked at.",
     "The tests evaluate each formula on a few numbers; none follows them along a flight.",
     [INT, ELE, KEP], [("orbit integrals", INT), ("angles", ELE)],
     ["reported integrals along the flight"],
     "deterministic simulation: conservation invariants checked at every state of seeded missions "
     "with crashes, duplicates and lost legs",
     "Seeded search; conserved values are compared with an independent computation from the "
     "initial state.")

prop("C13", "The anomaly clocks agree with the flight at every instant",
     "At every instant of a flight the anomaly computed from the elapsed time since periapsis "
     "(elliptic, hyperbolic or universal form) is the one of the body's actual position, for any number of "
     "revolutions, before and after periapsis, alone or in a batch of epochs. The solved anomalies "
     "satisfy Kepler's equation to the solver's accuracy, and the universal anomaly obtained from "
     "two states of a flight matches the one solved from the elapsed time.",
     ["histories", "schedules", "inputs"],
     "All flights (e from 0 to 0.95, 1.05 to 5, universal form for every conic), epochs over "
     "several revolutions, order and batching of the queries, clocks set back.",
     "The tests solve a few dozen fixed equations; none ties the anomalies to a moving body over "
     "many epochs.",
     [ANO, UFN], [("anomaly solvers", f"{ANO}: solve_kepler_elps, solve_kepler_hypb, solve_kepler_uni"),
                  ("mean anomalies", f"{ANO}: mean_anomaly_elps, mean_anomaly_hypb"),
                  ("from two states", f"{ANO}: generalized_anomaly")],
     ["anomalies, equation residuals"],
     "deterministic simulation: a simulated clock drives seeded query histories (batched, "
     "reordered, clock set back) against a reference flight",
     "Seeded search; reference anomalies from an independent bracketed solver.")

prop("C14", "Zonal gravity conserves energy and axial angular momentum in flight",
     "Flying under any combination of the point-mass, J2, J3 and J4 accelerations keeps the total "
     "energy (with the matching zonal potential) and the angular momentum about the polar axis "
     "constant within the integration tolerance, through any sequence of legs, directions and "
     "restarts. Each acceleration alone equals the gradient of its potential at every state of "
     "the flight, and their sum does not depend on the order of addition or on units.",
     ["histories", "schedules", "inputs"],
     "All orbits (also over the poles and in the equator), coefficients, leg schedules, faults.",
     "The tests evaluate the accelerations at a few points and never in flight.",
     [GRV, COW], [("zonal accelerations", f"{GRV}: point_mass_grav, j2_acc, j3_acc, j4_acc")],
     ["energy, axial momentum and accelerations along the flight"],
     "deterministic simulation: conservation invariants over seeded missions with crashes and "
     "restarts, independent Legendre-potential oracle",
     "Seeded search; potential and gradient are computed from Legendre polynomials independently "
     "of the repository's formulas.")

prop("C15", "Path predictions come true in the simulated flight",
     "What the path checks predict for a transfer comes true when the transfer is flown: whether "
     "it takes the short way, whether it passes periapsis, whether the orbit's lowest radius is "
     "below a limit, and that no transfer respecting the minimum periapsis radius makes more "
     "complete revolutions than the given maximum, which the fastest such orbit reaches. This holds for arcs of less than one "
     "revolution (revolution bound: any number) of elliptic, parabolic and hyperbolic orbits, "
     "away from the exact boundary between the two answers.",
     ["histories", "inputs"],
     "All orbits, departure and arrival points and minimum radii, flown by the analytic and the "
     "numerical propagator in any legs.",
     "The tests evaluate the predicates at a handful of points and never fly the transfer.",
     [PTH, INT], [("path checks", PTH)],
     ["predicted booleans and counts vs. the flown path"],
     "deterministic simulation: each prediction is compared with the flown transfer of a seeded "
     "mission",
     "Seeded search; the flight is flown by the library and by an independent reference.")

prop("C16", "Members of a fleet are answered as if each were alone",
     "When one request serves many bodies (arrays given to an operation, or the operation or a "
     "numerical propagation vectorised and compiled), each member receives what the same call for "
     "that member alone returns, in the matching place and shape, whichever other members take "
     "part, in whatever order and batch shape, and whichever arguments all share. A member with "
     "non-finite or impossible data, or one that stops early, never changes the answer of the "
     "others. This holds for every public operation and every shape its documentation allows.",
     ["inputs", "fault_sequences", "configurations"],
     "All fleets, batch shapes, shared arguments, member orders and broken members, for every "
     "public operation in its own broadcasting form, under vmap and compiled.",
     "The tests use a few fixed batches of valid entries; none mixes conics, shares arguments, "
     "breaks a member or vectorises a propagation.",
     ALL, [("array semantics", "all modules under src/astrodynx"),
           ("per-entry branches", UFN), ("per-entry iteration", ANO)],
     ["returned arrays, member by member"],
     "deterministic simulation: seeded fleets whose members join, drop out, repeat and fail "
     "inside one request; each healthy member compared with its answer alone",
     "Seeded search; the oracle is the same operation called for the member alone (its absolute "
     "correctness is judged by the other properties); tolerance from the operation's own "
     "sensitivity to last-digit changes.")
prop("C17", "Derivatives through flights and operations are the true sensitivities",
     "The derivatives JAX takes through a numerical propagation (final state, fixed or adaptive "
     "steps, the general form with its end or listed epochs, a stop at the minimum radius) with "
     "respect to the initial state, the end epoch and every force parameter are finite and equal "
     "the true sensitivities of the flight within the integration tolerance, and those of "
     "successive legs chain across checkpoints, crashes and redeliveries into those of the "
     "uninterrupted mission. The derivatives of every smooth public operation, forward or "
     "reverse, compiled or vectorised, equal the limit of its difference quotients with respect "
     "to each argument, also where branches, initial guesses and special orbits meet (circular, "
     "parabolic, no time elapsed). In double precision; the Kepler solvers in forward mode; "
     "custom_steps and kepler are not differentiable and not meant.",
     ["histories", "fault_sequences", "inputs"],
     "All orbits, force models, output modes, parameters and histories; all operations, "
     "directions and transformations.",
     "The tests differentiate a few gravity functions and one short flight at fixed points.",
     [COW, GRV, ANO, UFN, INT, ELE, STM, LAG],
     [("Cowell propagation", COW), ("Kepler solvers", ANO), ("branches of the universal "
       "functions", UFN)],
     ["gradients, Jacobians and tangents returned by JAX"],
     "deterministic simulation: seeded navigation missions whose sensitivity matrices are chained "
     "across faulty checkpoints and compared with complex-step reference sensitivities; "
     "derivatives of single operations against extrapolated differences",
     "Seeded search; the sensitivities of flights come from an independent integration, those of "
     "operations from the operation itself (its values are judged by the other properties).")
prop("C18", "Elementary rotations are proper and compose by adding angles",
     "Each elementary rotation matrix is orthonormal with determinant one, rotations about one "
     "axis compose by adding their angles, and the handedness is the documented one.",
     ["inputs"], "All angles and shapes.", "The tests check a few angles.", [ROT],
     [("rotation matrices", ROT)], ["matrix entries"],
     na="A closed-form function of one angle: nothing to schedule, delay, lose or crash. (Its use "
        "in restoring elements is covered in C11.)")
prop("C19", "Universal functions satisfy their identities everywhere",
     "The universal functions of all orders satisfy their defining series, recurrences and "
     "addition identities for every argument, continuously across the parabolic boundary.",
     ["inputs"], "All arguments.", "The tests check a few points.", [UFN],
     [("universal functions", UFN)], ["function values"],
     na="Closed-form functions of two numbers: nothing to schedule or to fail. (Their use in "
        "propagation is covered in C02, C10 and C13.)")


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            n = p["statement"].replace("e.g.", "").count(". ") + 1
            assert len(p["title"]) <= 80, p["id"]
            if n > 3:
                print("statement too long:", p["id"], n)
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"],
                            "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                            "observe_at": p["observe"], "hook_needed": None}}) + "\n")
    from sim.budgets import BUDGETS
    checks, na = [], []
    for p in P:
        if p["na"]:
            na.append({"property": p["id"], "reason": p["na"]})
        elif p["id"] in BUDGETS:
            cmd = f"/opt/venv/bin/python -m sim.check {p['id']} --tier "
            checks.append({"property": p["id"], "quick_cmd": cmd + "quick",
                           "thorough_cmd": cmd + "thorough", "technique": p["technique"],
                           "level": "exploration", "level_note": p["note"]})
        else:
            na.append({"property": p["id"], "reason": "no check built yet"})
    json.dump({"version": 1,
               "setup_cmd": "/opt/venv/bin/python -c 'import jax, diffrax, scipy, sim.check'",
               "checks": checks, "not_applicable": na,
               "notes": "No hooks in /repo: every seam is the public API (force models, step-size "
                        "controllers, events) or the interpreter (sys.monitoring)."},
              open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    print(len(checks), "checks;", len(na), "not applicable")


main()
