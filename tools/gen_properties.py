#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the long texts stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=None)))

p("C01", "Registration is exact under any history of add, remove and clear",
  "After any sequence of adding and removing rigid bodies, constraints and force generators, and of clearing the system, it holds exactly the objects added and not since removed, each once: the three counts, looking a body up by position, every registered object's own slot number and the total number of constraint rows all agree with that set. A body, constraint or generator that was removed reports itself as unregistered (slot -1), can be added again, and only currently registered objects take part in the next step.",
  ["histories"], "All sequences of add / remove / clear / step over a finite pool of bodies, constraints of 1, 2 and 3 rows and force generators; every insertion order, every removal position.",
  "No existing test registers or removes anything; swap-with-last removal is only wrong for particular positions and histories (last element, only element, re-adding, removing the element that was just moved).",
  ["src/rigid_body_system.cpp", "include/rigid_body_system.h"],
  [("add*/remove* with swap-with-last and slot numbers", "src/rigid_body_system.cpp addRigidBody..removeForceGenerator"), ("getFullConstraintCount", "src/rigid_body_system.cpp")],
  ["getRigidBodyCount/getConstraintCount/getForceGeneratorCount/getFullConstraintCount", "getRigidBody", "RigidBody::index, Constraint::m_index, ForceGenerator::m_index", "which objects are called back / moved by process"])

p("C02", "A step depends only on the current scene, never on what came before",
  "The motion and the reaction forces a step produces are determined by the currently registered bodies, constraints, force generators and their settings. A system, and its linear-solver and integrator objects, that earlier simulated other scenes, grew, shrank, was emptied or cleared, or shared its solver objects with another system gives the same result as freshly constructed objects do, to within the linear solver's tolerance.",
  ["histories"], "All histories up to a depth of scene edits (add/remove/re-add bodies, constraints, generators; clear; change settings) interleaved with steps, for every system kind, integrator and linear solver.",
  "Existing tests use every solver and system object once, for a single size; stale buffers, capacities, warm starts and leftover accelerations only show after a particular grow/shrink/reuse history.",
  ["src/rigid_body_system.cpp", "src/generic_rigid_body_system.cpp", "src/optimized_nsv_rigid_body_system.cpp", "src/system_state.cpp", "src/matrix.cpp", "include/sparse_matrix.h", "src/gauss_seidel_sle_solver.cpp", "src/conjugate_gradient_sle_solver.cpp", "src/gaussian_elimination_sle_solver.cpp", "src/rk4_ode_solver.cpp"],
  [("state and matrix buffers are re-populated at the start of every step", "populateSystemState, populateMassMatrices, processForces, processConstraints"), ("warm start only seeds the iteration", "*SleSolver::solve(previous)")],
  ["body positions and velocities", "Constraint::F_x/F_y/F_t"])

p("C03", "No valid history of calls crashes, strays outside its memory or leaks",
  "Any valid history of constructing, resizing, using, destroying and re-creating matrices, sparse matrices, state buffers, solvers and both kinds of system runs to completion without aborting, without reading or writing memory outside live objects and without its results depending on uninitialised memory. This includes empty systems, systems with bodies but no constraints, removing the last constraint or body, and springs, clutches and gears with one end, or motors with their base, on an unregistered (static) body. Tearing the objects down returns all memory they took.",
  ["histories", "inputs"], "All bounded life-cycle histories of every class, all sizes in a small range including 0 and sizes that grow in one dimension while shrinking in the other, each under several contents of fresh memory.",
  "Tests build each object once with fixed sizes and never destroy a system that has run; memory errors depend on the order of sizes an object has seen.",
  ["src/matrix.cpp", "include/sparse_matrix.h", "src/system_state.cpp", "src/generic_rigid_body_system.cpp", "src/optimized_nsv_rigid_body_system.cpp", "src/spring.cpp", "src/constraint.cpp", "src/rk4_ode_solver.cpp"],
  [("capacity tracking in resize/destroy", "Matrix::resize, SparseMatrix::resize, SystemState::resize"), ("destructors release intermediate values", "~GenericRigidBodySystem, ~OptimizedNsvRigidBodySystem, ~*SleSolver"), ("index -1 marks a static body", "processConstraints, Spring::apply, ConstantSpeedMotor::apply")],
  ["process termination", "address sanitizer", "heap accounting", "results under different fresh-memory contents"])

p("C04", "Separate simulations never influence each other and runs are reproducible",
  "Two simulations that share no objects each produce exactly the results they produce when run alone, however their execution is interleaved, including on different threads. Repeating a simulation from the same inputs reproduces its results exactly, whatever freshly allocated memory happened to contain.",
  ["schedules", "inputs"], "All interleavings up to a preemption bound of two simulations at function-call granularity, for every pair of system kind / integrator / linear solver; all chosen contents of fresh memory.",
  "No test runs two simulations; a scratch buffer moved to static storage passes every sequential test.",
  ["src/generic_rigid_body_system.cpp", "src/optimized_nsv_rigid_body_system.cpp", "src/conjugate_gradient_sle_solver.cpp", "src/gauss_seidel_sle_solver.cpp", "src/gaussian_elimination_sle_solver.cpp", "src/rk4_ode_solver.cpp"],
  [("all scratch data lives in the system or solver object or on the stack", "IntermediateValues, solver members")],
  ["body positions and velocities", "Constraint::F_x/F_y/F_t", "thread sanitizer"])

p("C05", "Free motion follows the integrator's rule for every body and step",
  "Without constraints, a step changes each registered body's velocities by applied force over mass and applied torque over moment of inertia times the step: explicit Euler then moves it with its old velocities, the velocity-first integrator and the fast system with its new ones. All force generators are evaluated afresh at every substep from the state of that moment and their contributions add up, with nothing carried over, and see the substep length in the state's dt; mass and inertia are never changed and an unforced body keeps its velocities.",
  ["inputs", "configurations"], "Every body count, mass/inertia/velocity/angle in a small domain, every subset of force generators including state-dependent ones, every step size and substep count in range, both systems and both single-stage integrators, several steps.",
  "Tests integrate one body with a hand-set constant acceleration outside any system; no test ever runs a system, more than one body, or a force generator.",
  ["src/euler_ode_solver.cpp", "src/nsv_ode_solver.cpp", "src/rigid_body_system.cpp", "src/generic_rigid_body_system.cpp", "src/optimized_nsv_rigid_body_system.cpp"],
  [("integrator updates", "EulerOdeSolver::solve, NsvOdeSolver::solve"), ("force accumulation", "RigidBodySystem::processForces"), ("acceleration from force", "processConstraints"), ("write-back", "process, propagateResults")],
  ["RigidBody fields after process", "state() accelerations"])

p("C06", "The Runge-Kutta integrator is the classical fourth-order method",
  "One Runge-Kutta step evaluates the forces exactly four times, at the four standard intermediate states (start, two half steps, full step), and combines velocities and accelerations with weights 1, 2, 2, 1, for every coordinate of every body; at each evaluation the state's dt tells how far into the step it is. It is therefore exact for constant acceleration and fourth-order accurate for forces that depend on position and velocity. The solver object can be restarted at any point and reused for states of any other size.",
  ["inputs", "histories"], "Every body count and force law in a family of position/velocity-dependent laws, every initial state and step size in a small domain; every restart point in the start/stage/accumulate/end protocol and every sequence of state sizes.",
  "The tests only use a constant acceleration, for which almost any choice of intermediate states gives the right answer.",
  ["src/rk4_ode_solver.cpp", "include/rk4_ode_solver.h", "src/generic_rigid_body_system.cpp"],
  [("stage states", "Rk4OdeSolver::step"), ("weighted accumulation", "Rk4OdeSolver::solve"), ("stage sequence", "Rk4OdeSolver::getNextStage")],
  ["states passed to force generators", "RigidBody fields after process", "return value of step"])

p("C07", "The velocity-level system makes every constraint's velocity equation hold",
  "After a step or substep of length h of the velocity-level system, with independent constraints and no binding limits, the new velocities satisfy every constraint row: (row sensitivities) . velocities + speed target + (bias factor / h) x position error = 0, with sensitivities and error taken at the start of the substep; bodies then move with these velocities. The velocity change beyond that of the applied forces consists only of impulses along the constraint rows. This holds for every mix and topology of constraints, including several on one body, and with every linear solver.",
  ["inputs", "configurations"], "Every mix of up to several constraints of all kinds over up to several bodies (chains, stars, loops, shared bodies), body states, masses, bias factors, step sizes and substep counts in a small domain, all three linear solvers.",
  "No test runs a system with a constraint at all; assembly errors (wrong block, row offset, sign, step factor) appear only for particular mixes of row counts and body counts.",
  ["src/optimized_nsv_rigid_body_system.cpp", "include/optimized_nsv_rigid_body_system.h"],
  [("assembly of the velocity equation", "OptimizedNsvRigidBodySystem::processConstraints"), ("substep loop and write-back", "OptimizedNsvRigidBodySystem::process, propagateResults")],
  ["RigidBody fields after process"])

p("C08", "The acceleration-level system makes every constraint's stabilised equation hold",
  "At every force evaluation of the general system, with independent constraints, the accelerations produced satisfy for every constraint row: second time derivative of the position error = -(stiffness x error) - (damping x (rate of the error + speed target)), with the constraint's own stiffness and damping, and the acceleration beyond that of the applied forces consists only of forces along the constraint rows. The integrator then advances the state with these accelerations. This holds for every mix and topology of constraints, every linear solver and every integrator.",
  ["inputs", "configurations"], "Every mix of up to several constraints of all kinds over up to several bodies, body states with non-zero velocities, masses, stiffness/damping values, step sizes and substep counts in a small domain, all linear solvers and integrators.",
  "No test runs the general system; velocity-dependent terms vanish at rest and row bookkeeping only matters with several constraints of different row counts.",
  ["src/generic_rigid_body_system.cpp", "include/generic_rigid_body_system.h"],
  [("assembly of the acceleration equation", "GenericRigidBodySystem::processConstraints"), ("stage loop and write-back", "GenericRigidBodySystem::process")],
  ["RigidBody fields after process", "state() accelerations"])

p("C09", "Force and torque limits are respected and bind only when they must",
  "With a limit-capable linear solver, the force or torque of every constraint row stays within that constraint's configured minimum and maximum during every substep. A row whose force is strictly inside its limits satisfies its velocity equation; a row held at its maximum (minimum) misses it only in the direction that more (less) force would correct. A gear in neutral transmits nothing, and rows without limits are never restricted.",
  ["inputs", "configurations"], "Every mix of limited and unlimited constraints over shared bodies, limit pairs including equal, asymmetric, one-sided, zero and infinite ones, body states, step sizes and substep counts in a small domain.",
  "No test uses limits; whether they bind depends on the combination of state, mass, step size and the other constraints.",
  ["src/gauss_seidel_sle_solver.cpp", "src/optimized_nsv_rigid_body_system.cpp", "src/clutch_constraint.cpp", "src/simple_gear_constraint.cpp", "src/rotation_friction_constraint.cpp", "src/constant_rotation_constraint.cpp", "src/link_constraint.cpp"],
  [("projection onto limits inside the sweep", "GaussSeidelSleSolver::solveIteration"), ("limits scaled to impulses", "OptimizedNsvRigidBodySystem::processConstraints")],
  ["Constraint::F_x/F_y/F_t", "RigidBody velocities"])

p("C10", "Reported reaction forces are the ones that actually acted",
  "After a step, each body's mass (inertia) times its velocity change over the last substep, divided by the substep's length, equals the applied force (torque) plus the sum of the reaction forces (torques) reported by the constraints attached to it. Each constraint reports its own rows for its own bodies, in the order the bodies were attached, and the two bodies of a joint are reported equal and opposite forces. This holds for both systems, every integrator, every linear solver and every mix of constraints.",
  ["inputs", "configurations", "histories"], "Every mix of constraints over up to several bodies, all system kinds, integrators and linear solvers, substep counts, and repeated steps.",
  "No test reads a reaction force; row/slot indexing is only wrong for rows after the first and bodies after the first, and for multi-stage integrators.",
  ["src/generic_rigid_body_system.cpp", "src/optimized_nsv_rigid_body_system.cpp", "src/rk4_ode_solver.cpp"],
  [("reaction extraction and write-back", "processConstraints, process, propagateResults"), ("stage averaging", "Rk4OdeSolver::solve")],
  ["Constraint::F_x/F_y/F_t", "RigidBody velocity change"])

p("C11", "The direct solver solves every non-singular constraint system",
  "For every constraint matrix J (rows with up to two body blocks), inverse masses W and right side b with J W J' non-singular, the direct solver reports success and its result satisfies (J W J') x = b to rounding accuracy, whatever the row order, the number of rows, the result's previous content or size, and the solver's earlier use. An empty system succeeds with an empty result; a result reported as solved is finite in every row, whatever the magnitudes. A system that is singular because a row vanishes or repeats another is reported as a failure, without aborting.",
  ["inputs", "histories"], "Every block pattern up to several rows and blocks with entries from a small domain, every row permutation, indefinite W, aliasing of start vector and result, every sequence of sizes through one solver object.",
  "Tests solve one 2x2 and one 4x4 system with a fresh solver; pivoting, zero pivots and buffer reuse need particular patterns and histories.",
  ["src/gaussian_elimination_sle_solver.cpp", "include/sparse_matrix.h", "src/matrix.cpp"],
  [("pivoted elimination and back substitution", "GaussianEliminationSleSolver::solve")],
  ["return value and result of solve"])

p("C12", "The conjugate-gradient solver never claims a solution it does not have",
  "Whenever the conjugate-gradient solver reports success, the result is finite and every row's residual of (J W J') x = b is within max(relative tolerance x |b|, absolute tolerance) of that row. For well-conditioned positive-definite systems it does succeed, in at most about as many iterations as there are rows, from any finite starting vector or none, in place or not, and with any earlier use of the solver object; it never exceeds its iteration budget.",
  ["inputs", "histories"], "Every block pattern up to several rows with entries from a small domain, starting vectors (absent, wrong size, exact, far off), tolerances and iteration budgets including 0, every sequence of sizes through one solver.",
  "Tests solve a single system with default tolerances and no starting vector; singular systems, budgets and warm starts are never exercised.",
  ["src/conjugate_gradient_sle_solver.cpp", "include/conjugate_gradient_sle_solver.h"],
  [("iteration and stopping test", "ConjugateGradientSleSolver::solve, sufficientlySmall")],
  ["return value and result of solve"])

p("C13", "The Gauss-Seidel solver stops only when converged and honours limits",
  "Whenever Gauss-Seidel reports success, with or without limits, the result is finite and each row is solved to the accuracy its relative-change tolerance implies: an unlimited row's residual is no larger than what a last sweep changing no component by more than the tolerance can leave. With limits every component lies within its own limits, and a component away from its limits solves its row to that accuracy while one at a limit errs only towards the limit. For positive-definite systems and a sufficient budget it succeeds from any finite starting vector or none, in place or not, with any earlier use of the object; an empty system succeeds with any budget of at least one sweep.",
  ["inputs", "histories"], "Every block pattern up to several rows with entries from a small domain, limit pairs, starting vectors of either sign, tolerances and budgets, every sequence of sizes through one solver.",
  "The only active test constructs the solver; its two solving tests are commented out.",
  ["src/gauss_seidel_sle_solver.cpp", "include/gauss_seidel_sle_solver.h"],
  [("sweep, projection and stopping test", "GaussSeidelSleSolver::solve, solveWithLimits, solveIteration")],
  ["return value and result of solve/solveWithLimits"])

p("C14", "Constraint sensitivities are the true derivatives of the constraint",
  "For every constraint kind, parameter values and body states, the sensitivities a constraint reports are the partial derivatives of its reported position error with respect to each attached body's x, y and angle (for speed constraints, the coefficients of the constrained speed), and the reported rate of change of the sensitivities is their exact time derivative under the bodies' current velocities. Every reported row and body slot is written on every evaluation, from the current state only and with the constraint's own stiffness, damping and speed target.",
  ["inputs"], "All nine constraint kinds, parameters and body positions/angles/velocities from a domain that keeps every term non-zero and distinct as well as the special values (zero, quarter turns, large angles), every assignment of bodies to slots.",
  "Only the rolling constraint is tested, with radius 1 and velocities zero except one coordinate at a time, and only to finite-difference accuracy.",
  ["src/fixed_position_constraint.cpp", "src/fixed_rotation_constraint.cpp", "src/line_constraint.cpp", "src/link_constraint.cpp", "src/rolling_constraint.cpp", "src/clutch_constraint.cpp", "src/simple_gear_constraint.cpp", "src/constant_rotation_constraint.cpp", "src/rotation_friction_constraint.cpp"],
  [("closed-form derivatives", "*Constraint::calculate")],
  ["Constraint::Output after calculate"])

p("C15", "Each constraint's position error measures the geometry it is named for",
  "The position error is: for a fixed position, world position of the attached local point minus the target; for a fixed rotation, angle minus target; for a line, the signed offset of the attached point from the line (times the direction vector's length); for a link, world separation of the two attached points; for rolling, the normal gap between the rolling body and the base line plus the slip between rolled arc and travel relative to the base, so that it stays zero exactly when the body rolls without slipping. Clutch, gear (speed 1 = ratio x speed 2), rotation friction and constant rotation (clockwise-positive speed) have no position error and constrain exactly the corresponding relative speed.",
  ["inputs"], "All constraint kinds, parameters (including default, zero, negative and non-unit ones), body states in a small domain, configurations constructed to satisfy the geometry exactly and ones displaced from it by a known amount.",
  "No test looks at a position error's value; the rolling test only checks that derivatives match it, with radius 1.",
  ["src/fixed_position_constraint.cpp", "src/fixed_rotation_constraint.cpp", "src/line_constraint.cpp", "src/link_constraint.cpp", "src/rolling_constraint.cpp", "src/clutch_constraint.cpp", "src/simple_gear_constraint.cpp", "src/constant_rotation_constraint.cpp", "src/rotation_friction_constraint.cpp"],
  [("error terms", "*Constraint::calculate")],
  ["Constraint::Output after calculate"])

p("C16", "Force generators apply their physical law, add up, and act on both ends",
  "Gravity adds (0, -mass x g) to every body; a static force adds the given world force at the given body point with its torque; a spring applies (stiffness x extension along the axis + damping x relative velocity of its ends) at its two ends, equal and opposite, with no elastic force when the ends coincide; a speed motor applies opposite torques proportional to the speed error less damping x relative acceleration, clamped to its maximum. Each generator adds to what is already there, touches no other body, and treats an unregistered spring end or motor base (first body) as fixed in place. A spring's stored energy and reported end points agree with the force it applies.",
  ["inputs", "configurations"], "All generators and parameters, attachment points and body states from a small domain including coincident ends, unregistered ends in either position, both ends on one body, pre-loaded accumulators, and every pair of generators.",
  "No test applies a force generator.",
  ["src/gravity_force_generator.cpp", "src/static_force_generator.cpp", "src/spring.cpp", "src/constant_speed_motor.cpp"],
  [("force laws", "*::apply, Spring::energy, Spring::getEnds")],
  ["SystemState f_x, f_y, t after apply", "energy(), getEnds()"])

p("C17", "Body frames, point velocities and applied forces obey rigid-body kinematics",
  "Local-to-world and world-to-local are mutually inverse rigid motions (rotation by the body's angle, then translation), and the simulation state's version agrees with the body's. The velocity reported for a body point is the time derivative of its world position. A force applied at a body point adds that force and its moment about the body's centre to that body only, and a body's energy is its translational plus rotational kinetic energy.",
  ["inputs"], "All bodies of a multi-body state, local points, angles (including zero, quarter turns, negative and many turns), velocities and forces in a small domain, and accumulators that already hold values.",
  "No test calls any of these functions.",
  ["src/rigid_body.cpp", "src/system_state.cpp"],
  [("frame transforms", "RigidBody::localToWorld/worldToLocal, SystemState::localToWorld"), ("kinematics", "SystemState::velocityAtPoint, applyForce, RigidBody::energy")],
  ["return values and accumulators"])

p("C18", "Dense matrix operations compute the algebra they name for all shapes",
  "Every dense-matrix operation computes its defining formula for all compatible shapes including empty ones, gives its target the right shape, and changes nothing but the target. This holds whatever sizes the matrices had before (growing, shrinking, one dimension each way, destroy and re-create, row swaps), and element-wise operations may write onto an operand.",
  ["histories", "inputs"], "All operation sequences up to a depth over a pool of matrices with dimensions in a small range, entries from a small domain, all target/operand aliasing that is element-wise.",
  "Tests cover four operations on a handful of fixed shapes with fresh targets; most operations (add, subtract, madd, dot, resize, row swap, ...) are never called.",
  ["src/matrix.cpp", "include/matrix.h"],
  [("operations", "Matrix::*"), ("storage reuse", "Matrix::resize")],
  ["get, getWidth, getHeight, equals"])

p("C19", "Sparse block matrices act exactly like the dense matrices they represent",
  "For every block pattern, stride, number of blocks per row and shape, each sparse operation (expand, transposed expand, product with a dense matrix, transposed product with a vector, product with another sparse matrix's transpose, left and right scaling) gives what the dense operation gives on the expanded matrix. Empty slots count as zero whatever their storage holds, any number of block columns is supported, and the result does not depend on sizes the objects had before or on destroying and re-creating them.",
  ["histories", "inputs"], "All block patterns up to several rows over up to several block columns with entries from a small domain, strides 1 to 4, 1 to 4 blocks per row, block indices up to several hundred, and all bounded resize/destroy/initialise histories.",
  "Tests cover three fixed 3-row matrices; block indices above 2, partially empty rows, differing sparsity in a product and object reuse are not covered.",
  ["include/sparse_matrix.h"],
  [("block index storage", "SparseMatrix::setBlock/initialize"), ("operations", "SparseMatrix::*")],
  ["expand, multiply, get"])

p("C20", "State buffers copy faithfully and take any sequence of sizes",
  "Copying a simulation state reproduces it exactly: body count, constraint-row count, and every per-body and per-row value; later changes to either side do not affect the other. This holds whatever sizes the destination had before (larger, smaller, mixed, empty), copying never reads outside the source, and the state a system publishes always has exactly its current number of bodies and constraint rows.",
  ["histories"], "All sequences of resize / copy / destroy / fill over several states with body and row counts in a small range including 0.",
  "No test resizes a state twice or copies one; the integrator copies into reused buffers only across different scenes.",
  ["src/system_state.cpp", "include/system_state.h", "src/rk4_ode_solver.cpp", "src/rigid_body_system.cpp"],
  [("buffer sizing", "SystemState::resize/destroy"), ("copy", "SystemState::copy")],
  ["SystemState fields", "state()"])

p("C21", "Results do not depend on registration order or on unrelated bodies",
  "The trajectory of a scene does not depend on the order in which its bodies, constraints and force generators were registered, beyond rounding and linear-solver tolerance. Nor does it depend on unrelated bodies and constraints present in the same system, whatever their number (several hundred included) and wherever they sit in the registration order.",
  ["inputs", "configurations"], "All permutations of bodies, constraints and generators of several scenes; every number and placement of unrelated bodies up to several hundred; both systems and all linear solvers.",
  "No test has two bodies; a body index that is truncated, or mistaken for the empty marker, shows only at particular indices.",
  ["src/generic_rigid_body_system.cpp", "src/optimized_nsv_rigid_body_system.cpp", "include/sparse_matrix.h", "src/rigid_body_system.cpp"],
  [("index-based assembly", "processConstraints"), ("block indices", "SparseMatrix")],
  ["RigidBody fields after process", "Constraint::F_*"])

p("C22", "A step of k substeps equals k separate steps of one k-th the length",
  "For every scene whose forces depend on positions and velocities, advancing by dt in k substeps leaves the bodies in the same state, and reports the same reaction forces, as k separate single steps of dt/k, up to rounding and linear-solver tolerance; elapsed time adds up identically. This holds for both systems, every integrator and every linear solver.",
  ["inputs", "configurations"], "Scenes of every constraint and generator kind, k from 1 to several, step sizes in a small domain, every split of k substeps over several step calls, all system kinds, integrators and linear solvers.",
  "No test runs a system; carry-over between substeps (forces, limits, step length, reaction scaling) is invisible with one substep.",
  ["src/generic_rigid_body_system.cpp", "src/optimized_nsv_rigid_body_system.cpp", "src/rigid_body_system.cpp", "src/rk4_ode_solver.cpp"],
  [("substep loops", "process")],
  ["RigidBody fields after process", "Constraint::F_*", "timeElapsed"])

p("C23", "Internal forces conserve momentum, angular momentum and do no spurious work",
  "In a scene whose only forces are internal (links, clutches, rolling contacts, springs and motors between registered bodies), a step leaves total linear momentum unchanged. Starting from a configuration that satisfies the joints, the velocity change of the step also leaves total angular momentum unchanged for links, clutches, rolling contacts, motors and undamped springs. Reaction forces of satisfied fixed constraints do no work at the constrained velocities, and a moved or turned copy of a scene without outside anchors moves identically in its own frame.",
  ["inputs", "configurations"], "All topologies of internal connections over up to four bodies, masses, inertias, attachment points, velocities, step sizes in a small domain, both systems, all linear solvers; all rigid motions from a small set.",
  "No test involves two interacting bodies; a wrong lever arm or sign cancels in symmetric hand-made cases.",
  ["src/link_constraint.cpp", "src/rolling_constraint.cpp", "src/clutch_constraint.cpp", "src/spring.cpp", "src/constant_speed_motor.cpp", "src/optimized_nsv_rigid_body_system.cpp", "src/generic_rigid_body_system.cpp", "src/system_state.cpp"],
  [("opposite sensitivities / opposite forces", "calculate, apply"), ("impulse application", "processConstraints")],
  ["RigidBody fields after process", "Constraint::F_*"])

p("C24", "Timing statistics average the last 600 steps; elapsed time adds up",
  "Each of the four timing figures of a system is 0 before the first step and afterwards the average, over the last 600 steps (or all, if fewer), of the time that phase (force evaluation, constraint evaluation, constraint solving, integration) took in a step, summed over its substeps; no other phase's time is counted in it. The velocity-level system's elapsed time is the sum of the step lengths given. Querying changes nothing, and timing never affects the motion.",
  ["histories", "inputs"], "Every position of a slow step in a history of more than two full windows, every phase, several substep counts, every query point; step lengths from a small domain.",
  "No test runs a system; window wrap-around needs more than 600 steps and a controlled clock.",
  ["src/rigid_body_system.cpp", "src/generic_rigid_body_system.cpp", "src/optimized_nsv_rigid_body_system.cpp"],
  [("ring of samples", "m_frameIndex, findAverage"), ("phase timing", "process, processConstraints")],
  ["getOdeSolveMicroseconds and the three others", "timeElapsed"])

p("C25", "Simulations stay bounded over unlimited time for all real parameters",
  "For any consistent scene and any sufficiently small step, positions and velocities stay bounded and constraint drift stays below a fixed tolerance however long the simulation runs.",
  ["inputs", "histories"], "All real-valued parameters and unbounded running time.",
  "Tests integrate at most 100 steps.",
  ["src/optimized_nsv_rigid_body_system.cpp", "src/generic_rigid_body_system.cpp", "src/rk4_ode_solver.cpp"],
  [("bias / stabilisation terms", "processConstraints")],
  ["RigidBody fields over time"])

p("C26", "Settings have neutral defaults, and setting one changes exactly that one",
  "A newly made body, constraint, force generator, solver or system has, whatever memory it was given, the documented neutral settings (no bodies, no slot, zero reactions, zero offsets, unlimited torque and force, unit gear ratio, default stiffness, gravity, budgets and tolerances), and is usable with them. Assigning a setting, or calling a setter, changes what it names and nothing else, in any order, and what the object then does follows the new value. A generator without all of its bodies applies nothing; resetting a body makes it like a new one.",
  ["inputs", "histories", "configurations"], "Every public class, contents of fresh memory, every subset and both orders of its settings and setters, every combination of missing and present ends.",
  "Tests set most members themselves and heap memory is usually zero; a default left out or a setter writing its neighbour shows only for users who rely on it.",
  ["src/rigid_body.cpp", "src/constraint.cpp", "src/link_constraint.cpp", "src/clutch_constraint.cpp", "src/line_constraint.cpp", "src/fixed_position_constraint.cpp", "src/spring.cpp", "src/constant_speed_motor.cpp", "src/static_force_generator.cpp", "src/gauss_seidel_sle_solver.cpp", "src/conjugate_gradient_sle_solver.cpp", "include/link_constraint.h", "include/fixed_position_constraint.h"],
  [("constructors", "member initialisation"), ("setters", "set*")],
  ["public members of every class", "Constraint::calculate output", "SystemState force fields"])

p("C27", "Units, mirror images, uniform motion and which end is first make no difference",
  "Expressing a scene in other units of mass, length and time, mirroring it, exchanging the two bodies of a link, clutch, gear (with inverted ratio), spring or motor (with reversed speed), or adding one uniform velocity to all bodies of a scene that is not tied to the world, changes the resulting motion and the reported reactions only correspondingly: no absolute size, sign, axis or slot is special, whatever the system, integrator, solver, constraints and generators.",
  ["inputs", "configurations"], "Pairs of constraints and a generator with every attachment, each transformation, every system and integrator, bounded deviations of all parameters; mass units over eighteen orders of magnitude, length and time over several.",
  "Tests use round numbers of order one in one arrangement; an absolute threshold, a clamp or a mistreated end is invisible there.",
  ["src/optimized_nsv_rigid_body_system.cpp", "src/generic_rigid_body_system.cpp", "src/link_constraint.cpp", "src/clutch_constraint.cpp", "src/rolling_constraint.cpp", "src/spring.cpp", "src/constant_speed_motor.cpp", "src/gaussian_elimination_sle_solver.cpp"],
  [("constraint rows", "*::calculate"), ("force laws", "*::apply"), ("right side, limits and reactions", "processConstraints")],
  ["RigidBody fields after process", "Constraint::F_x, F_y, F_t"])

p("C28", "User-supplied parts are driven by the documented protocol, answers are obeyed",
  "Whatever SleSolver, OdeSolver, Constraint and ForceGenerator a user derives: in every substep the integrator is started with the substep, asked for stages until it says it is done, told to solve after each and ended once; in every evaluation each registered generator is applied exactly once and each constraint evaluated on the state of the moment; the linear solver is given the rows, the inverse masses, the right side, the row limits (in units of what is being solved for) and the previous answer; whatever it answers, the bodies receive exactly the forces of that answer and the constraints report exactly those reactions. Solvers and integrators may be exchanged between calls.",
  ["inputs", "configurations", "operation sequences"], "Both systems, 0-3 user constraints of 1-3 rows and 1-2 bodies, every attachment incl. the world, 0-2 generators, integrators of 1-3 stages that move the state between them, recording solvers that answer arbitrary values, capable of limits or not, exchanged between calls.",
  "Tests use the library's own solvers and integrators, whose answers hide a wrong or stale input; the extension points have no tests at all.",
  ["src/generic_rigid_body_system.cpp", "src/optimized_nsv_rigid_body_system.cpp", "src/rigid_body_system.cpp", "include/sle_solver.h", "include/ode_solver.h", "include/constraint.h", "include/force_generator.h"],
  [("integration loop", "GenericRigidBodySystem::process, OptimizedNsvRigidBodySystem::process"), ("system assembly", "processConstraints"), ("force pass", "processForces")],
  ["arguments of the virtual functions", "SystemState", "RigidBody fields", "Constraint::F_x, F_y, F_t"])

p("C29", "Place, orientation and whole turns of a scene make no difference",
  "Moving a whole scene elsewhere, turning it (without gravity, which has a direction) or adding whole turns to the angles of its bodies changes the resulting motion and the reported reactions only by that movement, whatever the system, integrator, solver, constraints and generators, to the precision that coordinates of that size allow: no point, axis or angle of the plane is special.",
  ["inputs", "configurations"], "Pairs of constraints and generators with every attachment including anchors that are not registered, moved up to millions of units, turned by right and odd angles, up to hundreds of whole turns on any body; every system, integrator and solver; bounded deviations of all parameters.",
  "Tests place everything near the origin at small angles; loss of precision away from it, wrapped angles and favoured axes stay unseen.",
  ["src/link_constraint.cpp", "src/fixed_position_constraint.cpp", "src/line_constraint.cpp", "src/rolling_constraint.cpp", "src/fixed_rotation_constraint.cpp", "src/spring.cpp", "src/system_state.cpp", "src/rigid_body.cpp"],
  [("position errors and sensitivities", "*::calculate"), ("force laws", "*::apply"), ("frames", "SystemState::localToWorld, velocityAtPoint, applyForce")],
  ["RigidBody fields after process", "Constraint::F_x, F_y, F_t"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
