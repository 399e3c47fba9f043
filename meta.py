#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
RB = "rainbow/simulators/prox_rigid_bodies/"
SB = "rainbow/simulators/prox_soft_bodies/"
PC = "rainbow/simulators/proximal_contact/"

P = []       # (id, title, statement, over, text, why, files, mechanisms, note)
NA = []      # (id, title, statement, over, text, why, files, mechanisms, reason)


def prop(*a):
    P.append(a)


def na(*a):
    NA.append(a)


prop("C01", "A failing rigid body step is atomic and can be retried",
     "If a time step of the rigid body simulator fails part-way (an exception from numerics, a force type, memory or an interrupt), every body is exactly where it was before the step or exactly where the completed step puts it. "
     "Retrying continues bit for bit on the trajectory of a world that never saw a failure.",
     ["crash_points", "fault_sequences", "histories", "configurations"],
     "For every world, every point of a step at which a computation or allocation can fail, and every sequence of failing, retried and ordinary steps.",
     "Unit tests never make a step fail; the guarantee quantifies over every point inside a step.",
     [RB + "steppers.py", RB + "state_storage.py", RB + "api.py"],
     [("state is gathered, solved for and written back once", RB + "steppers.py SemiImplicitStepper.step"), ("write back", RB + "state_storage.py copy_to_engine")],
     "Seeded fault points (by call site and by position) x fault kinds in real steps; a never-failing twin is the oracle.")
prop("C02", "Engines are isolated from each other, from their past and across threads",
     "What one step does to a world depends on that world's current state only: not on other engines in the process, not on how the state was reached, not on failures before it, and not on how steps of different engines are interleaved by threads. "
     "Arrays a client passed in or got back can be overwritten without any effect.",
     ["schedules", "histories", "fault_sequences"],
     "For every set of worlds, every order of operations on them and every interleaving of their steps on several threads.",
     "Tests build one engine at a time and run it on one thread; hidden shared or stale state needs several engines, histories and preemption.",
     [RB + "api.py", RB + "steppers.py", RB + "collision_detection.py", "rainbow/geometry/kdop_bvh.py"],
     [("per engine state", RB + "types.py Engine"), ("bounding volumes are refitted each step", RB + "collision_detection.py")],
     "Seeded thread scheduler (hand-over at calls) and seeded operation orders; the oracle is a fresh engine loaded with the same state, compared bit for bit.")
prop("C03", "A simulation is a function of its setup only",
     "The same setup gives bit for bit the same trajectory and contacts whether profiling is on or off, whatever the clocks read (standing still, coarse, jumping, going backwards), whatever the global random generators, hash seed, garbage collector or print options do.",
     ["schedules", "histories", "configurations"],
     "For every world and every behaviour of clocks, random generators and interpreter settings.",
     "Tests run under one clock, one hash seed and one random state.",
     [RB + "steppers.py", RB + "gauss_seidel_solver.py", RB + "collision_detection.py", "rainbow/util/timer.py"],
     [("profiling branches", RB + "steppers.py"), ("timer", "rainbow/util/timer.py")],
     "Every source of nondeterminism is replaced by a simulated one; trajectories are compared bit for bit with the plain run.")
prop("C04", "Simulated time is accounted for exactly",
     "A request to simulate T seconds advances the world by T (up to round-off), by at least one step and by no more steps than needed, each at most the configured time step long and only the last one shorter. "
     "Non-positive durations are rejected without any effect, and no step follows a failing one.",
     ["inputs", "histories", "fault_sequences"],
     "For every duration, time step, sequence of requests and position of a failing step, in both the rigid and the soft body simulator.",
     "Tests use one or two round durations; round-off in the loop depends on the pair of numbers and on the history.",
     [RB + "api.py", SB + "api.py"], [("the stepping loop", RB + "api.py simulate"), ("the stepping loop", SB + "api.py simulate")],
     "Generated request histories against a recording, failing stepper (existing seam) and against freely moving real bodies.")
prop("C05", "Untouched bodies follow their forces exactly",
     "A body that takes part in no contact or joint moves exactly as its mass, inertia, gravity and damping forces and gyroscopic term prescribe for the semi-implicit scheme, with a unit orientation. "
     "Editing, connecting or hitting other bodies never changes it.",
     ["histories", "inputs", "configurations"],
     "For every body, force set and history of edits (velocity, mass, type, forces) and steps of any length, failing steps included.",
     "Tests check a handful of single steps; leaks between bodies and accumulating errors need histories with several bodies.",
     [RB + "state_storage.py", RB + "types.py", RB + "mass.py", RB + "steppers.py"],
     [("external forces", RB + "state_storage.py"), ("position update", RB + "state_storage.py position_update")],
     "Independent dense reference re-synchronised before every step of a generated history.")
prop("C06", "Fixed bodies never move, free bodies are never frozen",
     "A body declared fixed keeps its position, orientation and velocities bit for bit through collisions, joints, stabilisation, restitution and failing steps, for as long as it stays fixed; switching the type back and forth moves nothing. "
     "A free body with a velocity moves.",
     ["histories", "configurations", "fault_sequences"],
     "For every world, stabilisation and bounce setting and history of steps, type changes and failures.",
     "Tests check single steps of a fixed ground; the combination with joints, stabilisation and type changes is a history.",
     [RB + "state_storage.py", RB + "steppers.py", RB + "api.py"], [("fixed bodies have no inverse mass", RB + "state_storage.py"), ("type", RB + "api.py set_body_type")],
     "Bitwise invariant after every step of generated histories.")
prop("C07", "Contacts, joints and stabilisation conserve momentum",
     "For every group of free bodies linked by contacts and joints, a step changes linear and angular momentum only by the external forces; positional corrections do not displace the group's centre of mass.",
     ["histories", "configurations", "inputs"],
     "For every world, solver truncation (any iteration limit), stabilisation and bounce setting and history.",
     "Tests have no conservation check; a wrong sign, index or arm cancels in symmetric samples.",
     [RB + "constraints/contacts.py", RB + "constraints/hinges.py", RB + "constraints/post_stabilization.py", RB + "gauss_seidel_solver.py"],
     [("contact Jacobian", RB + "constraints/contacts.py"), ("hinge Jacobian", RB + "constraints/hinges.py")],
     "Invariant checked per connected group after every step of generated histories.")
prop("C08", "Contacts only push, friction stays in its cone, and the contact law holds",
     "Whatever the solver's accuracy, the velocity change of a step can be explained by contact impulses that only push and whose friction lies within the cone given by the materials in contact. "
     "When the contact problem is one the sweep converges on, no contact approaches any more (with restitution and stabilisation bias as configured), separating contacts carry no impulse, and sliding contacts feel full friction that opposes the sliding.",
     ["histories", "inputs", "configurations"],
     "For every world, material table, restitution and stabilisation setting and history of steps.",
     "Tests compare a few scenes with stored numbers; the law must hold for every contact configuration.",
     [RB + "constraints/contacts.py", RB + "gauss_seidel_solver.py", RB + "prox_operators.py", RB + "types.py"],
     [("prox sweep", RB + "constraints/contacts.py sweep"), ("accept/rollback", RB + "gauss_seidel_solver.py"), ("materials", RB + "types.py get_interaction")],
     "Convex feasibility oracle over observed velocities and contact points (independent of the solver's impulses); an independent sweep decides on which problems convergence is required.")
prop("C09", "Contacts and joints never create energy",
     "Without bounce and stabilisation (and for frictionless bounces with restitution at most one) a converged step never leaves more kinetic energy in the bodies than the external forces alone would have.",
     ["histories", "inputs", "configurations"],
     "For every world with contacts or with joints and every history of steps.",
     "No test checks energy; energy creation shows in particular configurations only.",
     [RB + "constraints/contacts.py", RB + "constraints/hinges.py", RB + "gauss_seidel_solver.py"],
     [("prox sweep", RB + "constraints/contacts.py"), ("accept/rollback", RB + "gauss_seidel_solver.py")],
     "Invariant checked after every converged step of generated histories.")

prop("C10", "Contacts are where the surfaces overlap, complete, and correctly measured",
     "Every reported rigid contact lies on the surface of the one body, within the envelope of the other body's surface, with the distance and unit normal of the other body's distance field there; each surface triangle contributes its contact at most once per pair and in any order of tree traversal; "
     "every surface triangle that lies within the envelope is reported; contacts do not depend on how the search trees are chunked. The distance field a body carries holds the signed distances to its own surface.",
     ["histories", "configurations", "fault_sequences"],
     "For every world and history of steps, moves, changes of shape, type and envelope, additions of bodies and failing calls.",
     "Tests check counts and a few coordinates for two boxes; stale trees or fields, missed pairs and wrong frames show only after particular histories.",
     [RB + "collision_detection.py", "rainbow/geometry/kdop_bvh.py", "rainbow/geometry/grid3.py", RB + "api.py", RB + "types.py"],
     [("BVH traversal", "rainbow/geometry/kdop_bvh.py traversal"), ("narrow phase", RB + "collision_detection.py _narrow_phase"), ("distance field", "rainbow/geometry/grid3.py")],
     "Brute-force oracle over all triangle/body pairs with an independent trilinear field and independent signed distances, after every step of generated histories with failing calls.")
prop("C11", "Stabilisation only corrects positions, along contacts, and removes overlap",
     "Post-stabilisation never changes velocities, never moves a fixed body or a world without deep contacts; what it moves is explained by pushes along the contact normals; where its correction problem is one the plain sweep converges on, every deep contact is resolved and nothing is pushed beyond; repeated steps remove shallow interpenetration.",
     ["histories", "inputs", "configurations"],
     "For every world, solver configuration and history of steps and failures.",
     "Tests exercise stabilisation in one scene; sign and index errors or bodies left out show only in some contact configurations.",
     [RB + "constraints/post_stabilization.py", RB + "steppers.py", RB + "constraints/contacts.py"],
     [("stabilisation solve", RB + "constraints/post_stabilization.py"), ("stabilisation step", RB + "steppers.py")],
     "Twin runs with and without stabilisation from identical states; convex feasibility oracle and reference LCP sweep over the correction.")

prop("C12", "Hinges hold: anchors stay together, axes stay aligned, spin is free",
     "Whenever the joint equations can be solved, after a step the two anchor points of a hinge do not drift apart and its axes do not tilt (existing errors shrink at the configured rate), the bodies spin freely about the axis, and hinges act on the bodies through joint forces only. "
     "The anchors and axes are those the client declared, whatever happened to the bodies since.",
     ["histories", "inputs", "configurations", "fault_sequences"],
     "For every assembly of hinges, declaration mode, stabilisation setting, error reduction rate and history of steps, re-declarations and failing calls.",
     "Tests check single hinges at rest; errors in frames, indices or bias show for particular assemblies and after several steps.",
     [RB + "constraints/hinges.py", RB + "api.py", RB + "steppers.py", RB + "types.py"],
     [("joint Jacobian and bias", RB + "constraints/hinges.py"), ("anchors and axes", RB + "api.py set_hinge")],
     "Independent joint model (declared frames, rows, velocity equation) evaluated over generated histories; an independent sweep decides where a solution is required.")
prop("C13", "The rigid body API does what it says, rejects cleanly and never half-applies",
     "Each setter changes exactly what it names and a getter returns what was set; a call with a name that is unknown or already taken, or with an invalid value, is rejected and changes nothing; "
     "a call that fails part-way leaves the engine as before or as after, and can be repeated; arrays are never shared with the client.",
     ["histories", "inputs", "fault_sequences"],
     "For every sequence of API calls, valid, invalid, failing and repeated.",
     "Tests call each function once on a fresh engine; aliasing, partial application and interaction between calls need histories and failures.",
     [RB + "api.py", RB + "types.py", RB + "mass.py"],
     [("setters", RB + "api.py"), ("materials", RB + "types.py SurfacesInteractions")],
     "Executable reference model of the declared scene compared after every call of seeded histories with injected failures.")
prop("C14", "The profiling log tells the truth",
     "With profiling on every completed step adds exactly one entry, with profiling off none; an entry describes its own step (contacts, bodies, solver state, non-negative durations that fit in the step), belongs to its own engine, and is never altered later; failing steps add none.",
     ["histories", "fault_sequences", "schedules"],
     "For every history of profiled and plain steps, in several engines, under any clock and any failure.",
     "Tests check that some keys exist after one step under the real clock.",
     [RB + "steppers.py", RB + "gauss_seidel_solver.py", RB + "api.py", "rainbow/util/timer.py"],
     [("one entry per step", RB + "steppers.py"), ("durations", "rainbow/util/timer.py")],
     "Simulated clocks and injected failures; each entry is checked against an independent account of its step.")
prop("C15", "An exported scene is complete and exact, and failure to write is reported",
     "Exporting a scene writes every body, force, shape, material pairing, hinge and parameter with the values it has, independent of display settings, in well-formed XML; it changes nothing in the world; if the file cannot be written the caller is told.",
     ["inputs", "fault_sequences", "histories"],
     "For every world reached by API calls and steps, every name and value, every display setting and every disk or call failure.",
     "Tests do not read an exported file back; a full disk or an odd name is not sampled.",
     [RB + "scenes/write_xml.py"], [("export", RB + "scenes/write_xml.py write_xml")],
     "The file is read back independently after every export of generated histories, with disks that fill up at a seeded byte.")

prop("C20", "A failing soft body step is atomic and can be retried",
     "If a soft body time step fails part-way (numerics, memory, an interrupt, a client's constitutive model, an unavailable option, a degenerate element), every body is exactly where it was before the step or exactly where the completed step puts it. "
     "Retrying continues bit for bit on the trajectory of a world that never saw a failure.",
     ["crash_points", "fault_sequences", "histories", "configurations"],
     "For every soft world, broad phase, solver scheme, every point of a step that can fail and every sequence of failing, retried and ordinary steps.",
     "Unit tests never make a step fail; the guarantee quantifies over every point inside a step.",
     [SB + "solver.py", SB + "api.py", SB + "collision_detection.py", PC + "solver_interface.py"],
     [("state is gathered, solved for and written back once", SB + "solver.py SemiImplicitStepper.step"), ("time stamps of the hash grid", SB + "solver.py, rainbow/geometry/spatial_hashing.py")],
     "Seeded fault points (by call site and by position) x fault kinds in real steps; a never-failing twin is the oracle.")
prop("C21", "A soft body step depends on the state of its world only",
     "What one soft body step does depends on the world's setup and current state only: not on profiling, clocks, random hash offsets, the size or the past of the hash table, earlier steps or failures, other engines, threads, or arrays a client overwrites.",
     ["schedules", "histories", "fault_sequences", "configurations"],
     "For every soft world, history of steps, moves and failures, table size, random seed and interleaving of steps of several engines.",
     "Tests run one engine with one random state from its start.",
     [SB + "solver.py", SB + "collision_detection.py", "rainbow/geometry/spatial_hashing.py", PC + "solver_interface.py"],
     [("hash grid with lazy clearing", "rainbow/geometry/spatial_hashing.py HashCell.add"), ("stepper", SB + "solver.py SemiImplicitStepper")],
     "Seeded thread scheduler, random offsets, clocks and operation orders; the oracle is a fresh engine loaded with the same state, compared bit for bit including contacts and their order.")

prop("C22", "A soft body without contacts moves as its mechanics prescribe",
     "A soft body that touches nothing moves exactly as elasticity, damping, tractions and gravity prescribe for its material and time step; nodes with a Dirichlet condition stay at the given position with zero velocity, nodes of fixed bodies stay in place; "
     "whatever was declared, changed or failed before, and whatever other bodies do.",
     ["histories", "fault_sequences", "inputs", "configurations"],
     "For every soft body, material, constitutive model, deformation, set of conditions, order of edits and steps, and failures in between.",
     "Tests check single forces on one mesh in one state; the guarantee is about every state and every history of edits, steps and failures.",
     [SB + "solver.py", SB + "mechanics.py", SB + "api.py"],
     [("forces", SB + "solver.py compute_*_forces"), ("constitutive models", SB + "mechanics.py"), ("semi-implicit update", SB + "solver.py SemiImplicitStepper.step")],
     "Generated histories of edits, steps and injected failures; an independent reference (complex-step derivative of the published energies) predicts each step.")
prop("C23", "Soft body contacts push, never pull, with friction in the cone",
     "Contact impulses of a soft body step only push and act only where contacts are; friction stays in the cone of the two materials and opposes sliding; after a solve that converges no contact approaches and separating contacts do nothing; nodes that are held are never moved. The same for every solver scheme.",
     ["histories", "configurations", "inputs", "fault_sequences"],
     "For every soft world, contact configuration, solver scheme, parameters and history of steps and failures.",
     "Tests check solver pieces on fixed numbers; no test states the law for the outcome of steps.",
     [SB + "solver.py", PC + "solver_interface.py", PC + "gauss_seidel_solver.py", PC + "jacobi_solver.py", PC + "proximal_operators.py", PC + "blocking.py"],
     [("contact problem", SB + "solver.py"), ("four schemes", PC + "solver_interface.py"), ("projection to the friction cone", PC + "proximal_operators.py")],
     "Histories of collisions with injected failures under all schemes; the law is checked on an independently rebuilt contact problem after every step.")

prop("C24", "Contact detection of soft bodies is true, complete and finds self collisions",
     "Every contact of a soft body step lies on the surface of one body, is described by the right elements and weights, has the gap and normal of the other body's distance field carried by its deformation, and is within the envelope; no contact is listed twice; "
     "surfaces that reach well into the envelope, or into the body itself, are never missed; both broad phases find the same contacts, wherever the bodies are.",
     ["histories", "inputs", "configurations", "fault_sequences"],
     "For every soft world, deformation, broad phase, table size and cell size, and every history of moves, steps, additions and failures.",
     "Tests look at single triangles and boxes; which pairs a history of moves and a hash table produce is not sampled.",
     [SB + "collision_detection.py", "rainbow/geometry/spatial_hashing.py", "rainbow/geometry/aabb.py", "rainbow/geometry/kdop_bvh.py", SB + "api.py"],
     [("contact generation", SB + "collision_detection.py _compute_contacts"), ("spatial hashing", SB + "collision_detection.py _spatial_hashing_narrow_phase"), ("bounding volumes", SB + "collision_detection.py _update_bvh"), ("distance field", SB + "api.py create_soft_body")],
     "Generated histories with injected failures; each contact is judged by independent geometry, completeness by brute force over triangle pairs, broad phases by comparison of twins.")

prop("C25", "The soft body API does what it says, entirely or not at all",
     "After any history of calls a soft body engine is exactly what the accepted calls declared (meshes, materials, interactions, conditions, coordinates, velocities), regardless of their order; invalid calls are rejected without effect, calls that fail part-way are undone or done, "
     "and arrays are never shared with the client.",
     ["histories", "fault_sequences", "inputs"],
     "For every sequence of valid, invalid and failing API calls and steps, and every later use of the client's arrays.",
     "Tests make one call on a fresh engine; the effect of order, of failures in the middle and of reused arrays needs histories.",
     [SB + "api.py", SB + "types.py", "rainbow/geometry/volume_mesh.py"],
     [("API", SB + "api.py"), ("material and interaction libraries", SB + "types.py")],
     "Generated call histories with failing library calls and failing client functions; a model of the declarations and a canonical fresh engine are the oracles.")

prop("C26", "Soft bodies neither gain nor lose momentum among themselves",
     "What contacts give to one soft body they take from another; elastic and stabilising forces neither push nor spin a body as a whole; a group's momentum changes only by gravity, tractions and damping, and its centre of mass moves with its velocity. "
     "Fixed bodies and prescribed nodes never leave their place and have no velocity.",
     ["histories", "configurations", "inputs", "fault_sequences"],
     "For every world, contact set (including a body touching itself), solver scheme, convergence or truncation of the solver, and history of edits and failing steps.",
     "Unit tests check single matrices; momentum is a law about whole steps of whole groups, whatever the contacts and however well the solver converged.",
     [SB + "solver.py", SB + "collision_detection.py", PC + "solver_interface.py"],
     [("contact Jacobian and weights", SB + "solver.py compute_jacobian_matrix"), ("boundary conditions", SB + "solver.py apply_boundary_conditions_on_velocities")],
     "Conservation laws over connected groups of bodies, computed from observed states and declared loads, in generated histories with failing steps.")
prop("C27", "Soft body stabilisation only corrects penetration",
     "Post-stabilisation moves nodes only; velocities stay exactly as they would be without it, held nodes stay, nothing moves unless a contact overlaps by more than the tolerated gap, "
     "the correction only pushes apart along contact normals, and a solver that converges removes the penetration without pushing open contacts.",
     ["histories", "configurations", "inputs"],
     "For every world, contact set, solver scheme, tolerated gap and history of steps and edits.",
     "Tests never compare a step with and without stabilisation; the guarantee is relative to a twin execution.",
     [SB + "solver.py", PC + "solver_interface.py"],
     [("apply_post_stabilization", SB + "solver.py"), ("contact solve with vanishing friction", PC + "proximal_operators.py prox_origin")],
     "Twin execution without stabilisation from the same state; non-negative least squares over contact normals and complementarity as oracle.")
prop("C28", "The soft body profiling log is truthful",
     "Every profiled completed step adds exactly one entry to the log of its engine, no other step does, and entries never change later. Energies, penetration, contacts and step size in it are those of the step, times are consistent, "
     "and the recorded solver iterations (residuals, rejections, impulses, exit code) are those that produced the velocities.",
     ["histories", "fault_sequences", "schedules", "configurations"],
     "For every history of profiled, unprofiled and failing steps of several engines, and every behaviour of the clock.",
     "Tests never read the log; its truth depends on the history, on failures and on the clock.",
     [SB + "solver.py", PC + "solver_interface.py", "rainbow/util/timer.py"],
     [("profiling entries", SB + "solver.py SemiImplicitStepper.step"), ("solver statistics", PC + "solver_interface.py")],
     "Simulated clocks and failing calls; energies and the solver record are recomputed from the observed states and contact points.")

prop("C30", "Parallel contact solves do not depend on the schedule of workers",
     "Under the parallel Gauss-Seidel, Jacobi and hybrid schemes a step gives bitwise the same state whatever the number of workers and the interleaving of their loop iterations. The contacts of one colour of the contact graph have no body "
     "(rigid) or node (soft) in common, under the greedy and the random colouring, and every contact is in exactly one block.",
     ["schedules", "fault_sequences", "configurations", "inputs"],
     "For every interleaving of the workers' iterations, every number of workers, every set of contacts and every random choice of colours.",
     "Tests run the parallel kernels under whatever schedule the machine picks and compare a handful of results; a race needs a particular interleaving, a wrong colour needs a particular set of contacts.",
     [PC + "gauss_seidel_solver.py", PC + "jacobi_solver.py", PC + "blocking.py"],
     [("sweep_worker", PC + "gauss_seidel_solver.py"), ("sweep_worker", PC + "jacobi_solver.py"), ("graph colouring", PC + "blocking.py greedy_graph_coloring, random_graph_coloring")],
     "A seeded scheduler interleaves the iterations of numba's parallel loops statement by statement; the unscheduled run from the same state is the reference.")

prop("C16", "An imported URDF robot is the robot of the file",
     "Reading a URDF file gives one body per link with a collision mesh and inertial data, at the place the chain of joint origins puts it, with the declared mass and inertia and its (scaled) mesh where the file has it, and one hinge per revolute joint "
     "between the declared links with the declared origin and axis. The order of elements, other links and joints, and robots imported before do not matter; a missing or broken file is reported and changes nothing; other bodies never change.",
     ["inputs", "histories", "fault_sequences"],
     "For every tree of links, every origin, axis, scale and element order, after any sequence of imports and failed imports.",
     "No test reads a URDF file at all.",
     ["rainbow/simulators/prox_rigid_bodies/scenes/read_urdf.py", "rainbow/math/coordsys.py"],
     [("read_urdf", "rainbow/simulators/prox_rigid_bodies/scenes/read_urdf.py"), ("parse_urdf_file", "rainbow/simulators/prox_rigid_bodies/scenes/read_urdf.py")],
     "Files are written by the check from a model of the robot (4x4 matrices, written independently), which is also the oracle; failing files and library calls are injected.")

prop("C44", "A USD recording holds exactly what was recorded",
     "After save() the file has every mesh and rigid body added, with its geometry, and for every recorded time the recorded vertex positions or pose (quaternion and translation as the simulator means them), the last value winning. "
     "Calls that are rejected (unknown names, duplicates, wrong kind or size) record nothing, failing disks raise, a later save is complete, and recorders do not affect each other.",
     ["inputs", "histories", "fault_sequences"],
     "For every sequence of additions, updates at any times, saves, rejected calls, interrupted calls and full disks, on one or several recorders.",
     "Tests add one object and look at one frame; they never fail a write, repeat a time or keep two recorders.",
     ["rainbow/util/USD.py"],
     [("USD", "rainbow/util/USD.py"), ("_XFormableWrapper", "rainbow/util/USD.py")],
     "The model is a dictionary of samples; the file is read back with the USD library by a separate stage and, for disk faults, a kernel limit on the file size is used.")

prop("C45", "The application shows and records exactly the simulation it runs",
     "For every sequence of the user's actions (choosing and creating scenes, starting, pausing, asking for profiling or an XML file) each frame advances the chosen scene by exactly one step while it runs and by none while it does not, and the window shows "
     "exactly the bodies of the scene at the poses they were simulated to have. A run that reaches its end is saved, once, with every step it made and no other; XML files and plots are those of the scene and the steps shown. "
     "Run from the command line, it advances its scene by half a second in steps of the chosen size and plots the convergence of each step that had contacts.",
     ["inputs", "histories", "fault_sequences", "crash_points"],
     "For every script of widget events in every frame, every scene, pauses, new scenes in the middle of a run, crashes followed by a fresh start and full disks.",
     "There is no test of the application at all: it needs a window.",
     ["rigid_bodies_app_gui.py", "rigid_bodies_app_cmd.py"],
     [("simulate, plot", "rigid_bodies_app_cmd.py"), ("simulate", "rigid_bodies_app_gui.py"), ("create_gui", "rigid_bodies_app_gui.py"), ("create_visual_geometry", "rigid_bodies_app_gui.py"), ("plotting", "rigid_bodies_app_gui.py")],
     "The window system is a simulated one that plays a seeded script; a second engine that only sees API calls is the reference, recordings are read back with the USD library.")

prop("C50", "Inverse kinematics skeletons are what was declared and queries change nothing",
     "After update_skeleton every bone is where its own and its ancestors' joint angles put it, chains run from the root to the declared end effectors, set angles are the angles got. Queries (Jacobian, gradient, Hessian, finite differences, printing), also when "
     "they fail or are interrupted, leave angles, poses and the results of earlier queries as they were; rejected calls change nothing; skeletons and chains do not share state.",
     ["inputs", "histories", "fault_sequences"],
     "For every tree of bones, every Euler convention and every history of edits, queries and failures.",
     "Tests use one arm and check values right after construction.",
     ["rainbow/simulators/inverse_kinematics/api.py", "rainbow/simulators/inverse_kinematics/types.py"],
     [("update_skeleton", "rainbow/simulators/inverse_kinematics/api.py"), ("create_chains", "rainbow/simulators/inverse_kinematics/api.py"), ("compute_finite_difference_gradient", "rainbow/simulators/inverse_kinematics/api.py")],
     "Forward kinematics is modelled independently with matrices; calls fail at seeded points.")

prop("C51", "Inverse kinematics derivatives are those of its objective",
     "For every skeleton, chain set, goal and tool the objective is half the sum of squared distances between end effectors and goals, the Jacobian and gradient are its derivatives, the Hessian is its symmetric second derivative, and the finite difference "
     "versions agree with them, for bones with any Euler convention, shared ancestors and several chains, at every point of a history of edits.",
     ["inputs", "histories", "fault_sequences"],
     "For every tree of bones, every Euler convention, every configuration of angles (also singular ones) and every history of edits.",
     "Tests compare the analytical and finite difference gradients of one straight arm in one pose; the Hessian is not compared at all.",
     ["rainbow/simulators/inverse_kinematics/api.py"],
     [("compute_jacobian", "rainbow/simulators/inverse_kinematics/api.py"), ("compute_gradient", "rainbow/simulators/inverse_kinematics/api.py"), ("compute_hessian", "rainbow/simulators/inverse_kinematics/api.py")],
     "The oracle is a complex-step model of forward kinematics written independently.")

prop("C17", "Scene generators build the scene they declare",
     "Each scene generator adds exactly the bodies it returns the names of: as many stones, rings, gears or grains as asked for, within the declared size and place, with the declared material and density, fixed only where documented, connected by hinges about "
     "the axes they turn about, stones and rings not overlapping. A building in another frame is the same building moved; the same random numbers give the same scene; bodies already there are untouched, also when generating fails or data is missing. "
     "A scene built by its name stands on its ground, above it, with all of its bodies pulled down by the same gravity.",
     ["inputs", "histories", "fault_sequences"],
     "For every generator, all sizes, counts, frames and random numbers, after any sequence of other (also failed) generators in the same engine.",
     "Tests never build a scene.",
     ["rainbow/simulators/prox_rigid_bodies/scenes/"],
     [("create_* scene generators", "rainbow/simulators/prox_rigid_bodies/scenes/"), ("set_position, set_orientation, set_mass_properties", RB + "api.py"), ("mesh generators", "rainbow/geometry/surface_mesh.py")],
     "The oracle is written from the documentation of the generators: counts, extents, places, overlap of convex stones; twin engines built from the same random numbers give frame and reproducibility.")

prop("C18", "Generated names are never repeated and can be used",
     "The generator of unique names never gives the same name twice in a process, whatever the clock does (standing still, jumping, set back), however the random generator is seeded, re-seeded or restored, however "
     "calls fail and threads interleave. Every name contains the name asked for and is a valid identifier of bodies, shapes and USD primitives.",
     ["inputs", "histories", "schedules", "fault_sequences"],
     "For every history of calls, clock behaviour, seeding of random generators and interleaving of threads.",
     "Tests do not call it at all; repetition needs a stalled clock and a re-seeded generator, or threads.",
     [RB + "api.py"],
     [("generate_unique_name", RB + "api.py")],
     "Clock, random generator and thread schedule are simulated; the history of names given is searched for repetitions.")

prop("C40", "A hash grid reports exactly what was inserted at this time stamp",
     "An insertion into the spatial hash grid reports every object inserted before it into the same cell at the same time stamp, in order; it never reports objects of another time stamp or "
     "objects that were never inserted, and nothing the caller does to the list it got, and no failed insertion, changes what later insertions report.",
     ["inputs", "histories", "fault_sequences"],
     "For every sequence of insertions, time stamps, table sizes and offset tables, with insertions failing at any point.",
     "Tests insert two triangles at one time stamp; lazily cleared cells need histories.",
     ["rainbow/geometry/spatial_hashing.py"],
     [("HashGird.insert, HashCell.add (lazy clear)", "rainbow/geometry/spatial_hashing.py")],
     "Histories against a dictionary of cells; offset tables drawn from the seed, failing calls at seeded points.")

prop("C41", "Refitted bounding volume trees report exactly the overlapping pairs",
     "After every refit, the traversal of two k-DOP bounding volume trees reports exactly the pairs of elements whose own bounding volumes (with their envelopes) overlap, each once, whatever the sizes of the meshes and "
     "of the sub-trees, the deformation since the last refit, the refits that failed part-way before, and whichever tree comes first.",
     ["inputs", "histories", "fault_sequences"],
     "For every pair of meshes, number of directions, chunk size, envelope and history of deformations and failed refits.",
     "No unit test touches the trees.",
     ["rainbow/geometry/kdop_bvh.py", "rainbow/geometry/kdop.py"],
     [("make_bvh, refit_bvh, traversal", "rainbow/geometry/kdop_bvh.py"), ("make, union, overlap", "rainbow/geometry/kdop.py")],
     "Histories of deformations, refits and failing refits; the oracle compares all pairs by brute force.")

prop("C42", "The priority queue gives every index back once, smallest priority first",
     "The queue gives back exactly the indices put in and not yet given back, each once, always one of smallest current priority (ties by index), also when priorities were raised, lowered, set to equal values or to the same "
     "value object, and when indices come back after they were given out; it is empty exactly when nothing is left.",
     ["inputs", "histories", "fault_sequences"],
     "For every history of push, update and pop over every kind of priority.",
     "There is no assertion on it; entries left over from updates need histories to matter.",
     ["rainbow/util/heap.py"],
     [("Heap.push, pop, update", "rainbow/util/heap.py")],
     "Histories against a dictionary of priorities; comparisons fail at seeded moments.")

na("C60", "Quaternions, matrices, vectors and angles satisfy their algebra",
   "The routines for quaternions, rotation matrices, vectors, Euler angles, coordinate systems, exponential maps and polynomials satisfy the algebraic identities they stand for, for all arguments.",
   ["inputs"], "For all arguments.", "Tests sample a handful of arguments.",
   ["rainbow/math/"], [("pure functions", "rainbow/math/")],
   "Pure functions: a call has no schedule, clock, I/O, history or fault that a simulator could control. They are exercised only as part of the simulated worlds (C05, C12, C13, C16, C50, C51 depend on them).")
na("C61", "Barycentric coordinates, curvature and mesh measures are exact",
   "Barycentric coordinates reproduce points, mesh volumes, normals, curvatures and edge lengths equal their definitions for all non-degenerate meshes.",
   ["inputs"], "For all meshes and points.", "Tests sample a handful of meshes.",
   ["rainbow/geometry/barycentric.py", "rainbow/geometry/mean_curvature.py", "rainbow/geometry/tetrahedron.py", "rainbow/geometry/surface_mesh.py", "rainbow/geometry/volume_mesh.py"],
   [("pure functions", "rainbow/geometry/")],
   "Pure functions of their arguments without concurrency, time, I/O or faults. Those the simulators use are exercised inside C10, C13, C17, C22 and C24.")
na("C62", "Numbers, vectors and quaternions are parsed from text as written",
   "The string parsers return exactly the numbers that the text spells and reject everything else.",
   ["inputs"], "For all strings.", "Tests sample a handful of strings.",
   ["rainbow/util/parse_string.py"], [("string_to_*", "rainbow/util/parse_string.py")],
   "Pure functions of a string, not used by any simulator here: nothing nondeterministic or faulty to simulate.")

TECH = "deterministic simulation with fault injection: seeded search over schedules, histories and faults (%s)"


def dump():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for t in P + NA:
            (i, title, st, over, text, why, files, mech) = t[:8]
            assert len(title) <= 80, (i, len(title))
            f.write(json.dumps({"id": i, "title": title, "statement": st, "quantifier": {"over": over, "text": text},
                                "why_tests_cant": why,
                                "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech]}}) + "\n")
    checks = []
    for t in P:
        i, note = t[0], t[8]
        checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i,
                       "thorough_cmd": "python3 check.py %s thorough" % i, "technique": TECH % note, "level": "exploration",
                       "level_note": "Every run is one seeded, exactly repeatable execution of the real code; the set of runs is sampled, not exhaustive."})
    m = {"version": 1, "setup_cmd": "python3 check.py --selftest", "checks": checks,
         "not_applicable": [{"property": t[0], "reason": t[8]} for t in NA],
         "notes": "No hooks in /repo: existing seams (engine.stepper, force types, clocks, numpy.random, igl, the file system) and sys.monitoring are used."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    dump()
