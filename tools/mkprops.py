#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, hook=None, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

W = "include/Simu/physics/World.hpp"; WC = "src/Simu/physics/World.cpp"
B = "include/Simu/physics/Body.hpp"; BC = "src/Simu/physics/Body.cpp"

prop("C01", "Killed objects leave exactly once, at the next step, through their hooks",
 "Every body, constraint, force field and contact that was killed, or whose own death condition holds (for a constraint or contact: one of its bodies is dead), is gone after the next step, and no object that is alive ever disappears by stepping. Each object removed by a step gets exactly one destruction notification, delivered before any object removed by that step is released, each object gets exactly one construction notification, and every kill request gets one kill notification. While it lives, each object receives exactly one pre-step and one post-step notification per step, whatever the callbacks of that step create or kill.",
 ["histories", "schedules", "programs"],
 "All interleavings of creations, kills (by the user, from another object's callback, by a death condition), collider edits and steps with positive, zero or negative duration.",
 "The existing tests kill one object of each kind between steps; none kills or creates from callbacks, chains deaths across objects, or counts notifications over a history.",
 ["include/Simu/physics/PhysicsObject.hpp", W, WC],
 [("dead objects are collected, notified, then erased", "src/Simu/physics/World.cpp: World::cleanup / World::Cleaner"), ("hooks around the step", "src/Simu/physics/World.cpp: World::step")],
 ["virtual hooks of user-defined bodies, constraints, force fields and contacts", "World::bodies/constraints/contacts/forceFields"])

prop("C02", "Bodies, constraints and contacts always agree on who references whom",
 "After any operation or step, the constraints and contacts listed by a body are exactly the world's constraints and contacts acting on that body, and every listed constraint, contact and collider refers only to bodies and colliders that are still in the world (objects that are dead and wait for their removal may still refer to colliders removed meanwhile, but are not used through them). No history of creations, kills, collider edits, contact-factory replacements and world clears makes the engine read or write an object that was already destroyed.",
 ["histories", "schedules", "programs"],
 "All interleavings of object creation, kill, collider addition and removal, contact factory replacement, world clear and destruction, from user code and from callbacks during a step.",
 "Use-after-free and dangling back-references need specific orders (edit while in contact, replace the factory while touching, destroy a body with several colliders); the suite builds small fixed scenes and runs without a memory checker.",
 [W, WC, B, BC, "include/Simu/physics/Collider.hpp"],
 [("back-references kept per body and erased with their owner", "src/Simu/physics/World.cpp: World::cleanup, World::makeContactConstraint, World::removeCollider"), ("collider destruction", "include/Simu/physics/Body.hpp: Body::~Body; src/Simu/physics/Body.cpp: Body::removeCollider")],
 ["Body::constraints/contacts", "World::constraints/contacts", "AddressSanitizer over one-allocation-per-block object pools"],
 "pool block size must be settable (SIMU_DST_BLOCK_SIZE) so that the sanitizer sees individual objects")

prop("C03", "Live contacts are exactly the overlapping collider pairs, once each",
 "After every step that advances time, there is exactly one live contact for each pair of colliders of different bodies whose bounding boxes overlap, and no other live contact. The only overlapping pairs without a contact are those whose two bodies are joined by a constraint that disables contacts between them and those whose two bodies are both structural.",
 ["histories", "inputs", "schedules"],
 "All histories of body motion, creation, kill, collider edits, and joints that disable contacts being added and removed, with any number of bodies per step.",
 "The broad phase is a spatial tree rebuilt in place at each step and contacts persist across steps; tests look at two or three bodies for a few steps and never compare with all pairs.",
 [W, WC, "include/Simu/physics/RTree.hpp", "include/Simu/physics/BodyTree.hpp"],
 [("broad phase rebuild and pair enumeration", "include/Simu/physics/RTree.hpp: RTree::updateAndCollide"), ("contact registration and expiry", "src/Simu/physics/World.cpp: World::updateBodies")],
 ["World::contacts after step", "Collider::boundingBox"])

prop("C04", "Region and point queries report exactly the colliders that are there",
 "At any moment between or within steps, a region or point query over the world calls its visitor exactly once for each collider whose current bounding box overlaps the queried region (touching borders count), with that collider's body, and for no other collider. This holds whatever bodies and colliders were created, moved, edited or removed before.",
 ["histories", "inputs"],
 "All histories of creation, motion, collider edits (including on rotated bodies), removal and clear, with queries between operations and inside callbacks.",
 "The index is updated by different paths (insertion, removal, per-step rebuild) whose combinations the tests do not reach; one test queries a fixed scene.",
 [W, WC, BC, "include/Simu/physics/RTree.hpp", "include/Simu/physics/BoundingBox.hpp"],
 [("tree query", "include/Simu/physics/RTree.hpp: RTree::forEachIn/forEachAt"), ("tree maintenance", "src/Simu/physics/World.cpp: World::updateBodies, World::removeCollider; src/Simu/physics/Body.cpp")],
 ["World::forEachIn", "World::forEachAt", "Collider::boundingBox"])

prop("C05", "Each force field acts exactly once per step on exactly its colliders",
 "In every step that advances time, each force field is applied exactly once, with the step's duration, to every collider in its domain (every collider for a global field, every collider whose bounding box overlaps the region for a regional one) whose body is neither structural nor asleep, and to no other collider. A body that touches nothing and is held by nothing changes velocity by exactly the acceleration gravity and linear fields prescribe times the duration, however its mass is split into colliders, and then moves by its new velocity times the duration.",
 ["histories", "inputs", "schedules"],
 "All populations of fields and bodies with fields and bodies added and killed at any point, regional fields crossed by moving bodies, and arbitrary sequences of frame durations.",
 "Tests apply one field to one or two bodies with a constant dt; domain entry and exit, multi-collider bodies and field death between steps are not reached.",
 ["include/Simu/physics/ForceField.hpp", WC, B],
 [("field application per collider", "src/Simu/physics/World.cpp: World::applyForces"), ("force law", "include/Simu/physics/ForceField.hpp: LinearField::apply, Gravity::apply"), ("symplectic integration", "include/Simu/physics/Island.hpp: Island::integrateBodies")],
 ["user force field apply() calls", "Body::velocity/position"])

prop("C06", "Closed systems keep their linear momentum and centre-of-mass motion",
 "In a world without force fields and motors where every interaction is between bodies of equal dominance, no step changes the total linear momentum, and the centre of mass moves by its velocity times the step duration, whatever collisions, joints and frame durations occur. This still holds for the current masses after colliders are added to or removed from bodies that are already in contact or jointed, and after bodies or joints are removed.",
 ["histories", "inputs", "schedules"],
 "All closed populations of bodies with collisions and joints, frame durations, solver settings, and mass edits between steps.",
 "Conservation must survive every accumulation path (warm starting, position correction, contact persistence, mass edits); tests check one two-body collision.",
 ["include/Simu/physics/Bodies.hpp", "include/Simu/physics/Bodies.inl.hpp", "include/Simu/physics/Constraint.hpp", "include/Simu/physics/ConstraintSolver.hpp"],
 [("equal and opposite impulses through the Jacobian", "include/Simu/physics/Bodies.inl.hpp: Proxies::applyImpulse/applyPositionCorrection; Constraint.hpp: ContactConstraint::solveVelocities"), ("inverse masses used by the solver", "include/Simu/physics/Bodies.hpp: Bodies::startSolve")],
 ["Body::mass/velocity/centroid"])

prop("C07", "Structural bodies are never moved by anything but the user",
 "Whatever collides with it, is jointed to it or pulls on it, a structural body keeps exactly the velocity its user gave it, and in each step it moves by exactly that velocity times the duration (not at all when it has none). It still blocks and holds the other bodies.",
 ["histories", "inputs", "schedules"],
 "All scenes where structural bodies, at rest or given a velocity, are hit, stacked upon, jointed, or shared by several groups of bodies, under force fields.",
 "A structural body is shared between solver groups and its state is copied in and out of each; tests have a static floor only and check the falling body.",
 ["include/Simu/physics/Bodies.inl.hpp", "include/Simu/physics/Island.hpp", BC, WC],
 [("zero inverse mass from dominance", "include/Simu/physics/Bodies.inl.hpp: Bodies::Bodies"), ("sharing across islands", "include/Simu/physics/Island.hpp: solveIslands; src/Simu/physics/Body.cpp: Body::interactsAsStructural")],
 ["Body::position/orientation/velocity of structural bodies"])

prop("C08", "Joints recover from any disturbance within a bounded number of steps",
 "After any sequence of impulses, frame-time stalls, joint creations and removals, once disturbances stop every hinge, weld, rotation and distance joint of a small open chain of bodies of comparable mass satisfies its own condition again (shared points coincide, relative angle is the initial one, distance is within its limits) within a bounded number of regular steps and keeps satisfying it. A one-sided distance limit never pulls or pushes while the distance is strictly inside its limits.",
 ["histories", "inputs", "schedules", "configurations"],
 "All open chains of joints of the four kinds over bodies of comparable mass and inertia (ratios up to 4 and 12), disturbed by moderate impulses, stalls and kills, with warm starting on or off (off: without gravity) and at least the default iteration counts.",
 "Tests check one joint from rest with constant frame time; recovery from arbitrary disturbance histories is a convergence property of the iteration.",
 ["include/Simu/physics/Constraint.hpp", "include/Simu/physics/ConstraintFunction.hpp", "include/Simu/physics/ConstraintSolver.hpp", "include/Simu/physics/DistanceConstraint.hpp"],
 [("velocity and position solving of joints", "include/Simu/physics/ConstraintSolver.hpp: EqualitySolver, LimitsSolver"), ("joint definitions", "include/Simu/physics/ConstraintFunction.hpp; include/Simu/physics/DistanceConstraint.hpp")],
 ["world-space joint points computed from Body::toWorldSpace", "Body::orientation"])

prop("C09", "Supported bodies come to rest without sinking or jittering away",
 "Boxes and convex bodies of comparable mass dropped under gravity on fixed ground, alone or in small stacks, with any start pose, material and frame-time history, end up (once impulses stop and frame time is regular) within a bounded number of steps resting on what supports them. From then on they stay where they are, do not sink into each other or the ground beyond a small tolerance, do not hover, and no body ever falls through the ground.",
 ["histories", "inputs", "schedules"],
 "All drop poses, shapes, small stacks, materials with friction, gravities and frame-time histories with stalls capped to twice the regular duration.",
 "The stack test uses one shape, one pose and constant frame time; contact persistence and warm starting depend on the whole history.",
 ["include/Simu/physics/Constraint.hpp", "include/Simu/physics/ContactManifold.hpp", WC],
 [("contact solving and position correction", "include/Simu/physics/Constraint.hpp: ContactConstraint"), ("contact manifold persistence", "include/Simu/physics/Constraint.hpp: ContactConstraint::updateContacts; ContactManifold.hpp")],
 ["Body poses, independent separating-axis penetration measure"])

prop("C10", "Contacts only push, rub within friction and never create energy",
 "Bodies that overlap by more than the contact tolerance touch, bodies further apart than it do not act on each other, and a contact acts where their outlines meet. Between two bodies that touch, a contact only ever pushes them apart along its normal, its tangential impulse stays within the combined friction coefficient times the normal impulse and opposes sliding, and (without bounciness, or without friction at a single point) it never increases kinetic energy. For a single contact point hit faster than the restitution threshold, the separating speed is the combined bounciness times the approach speed.",
 ["histories", "inputs", "schedules", "configurations"],
 "All two-body collision and sliding histories over shapes, poses, speeds, masses, dominances, materials (friction up to 0.6, where the iteration is known to settle) and combination modes, frame durations and warm starting on or off, with at least 30 velocity iterations.",
 "Tests check one bounce and no friction bound; the accumulated impulses carry over from step to step so the bound is a property of the history.",
 ["include/Simu/physics/Constraint.hpp", "include/Simu/physics/CombinableProperty.hpp", "include/Simu/physics/ContactManifold.hpp"],
 [("normal and friction impulses", "include/Simu/physics/Constraint.hpp: ContactConstraint::solveVelocities/computeBounce/warmstart"), ("material combination", "include/Simu/physics/CombinableProperty.hpp")],
 ["Body velocity change per step", "ContactConstraint::contactInfo"])

prop("C11", "Motors respect their force and speed limits at any frame rate",
 "In one step a motor changes its body's momentum (or angular momentum) by at most throttle times its maximal force (or torque) times the step duration, only in its set direction, and never accelerates the body beyond its maximal speed. When unopposed, a motor with throttle and direction set reaches its maximal speed within the number of steps its force implies, for any sequence of frame durations.",
 ["histories", "schedules", "inputs"],
 "All sequences of frame durations, throttle and direction changes, impulses and warm starting switches, for rotation and translation motors built from force, acceleration or target force.",
 "Tests drive each motor with a constant frame time and fixed throttle; the carried-over impulse must be re-clamped when the frame time or throttle changes.",
 ["include/Simu/physics/Motors.hpp", "include/Simu/physics/ConstraintSolver.hpp"],
 [("impulse clamp proportional to the step", "include/Simu/physics/Motors.hpp: MotorFunctionBase::clampLambda"), ("accumulated impulse", "include/Simu/physics/ConstraintSolver.hpp: ConstraintSolverBase::updateLambda/warmstartDefault")],
 ["Body::velocity/angularVelocity around each step"])

prop("C12", "The same history always produces bit-identical motion",
 "Two runs of the same history of operations and steps produce bit-identical positions, orientations, velocities, contact points and contact counts after every step. This does not depend on where objects are placed in memory, on what that memory held before, on other worlds in the process, or on the wall clock.",
 ["histories", "schedules", "configurations"],
 "All histories, each run under different simulated heap layouts, stale memory contents, clock behaviours and neighbouring worlds.",
 "A test process has one heap layout and one clock; dependence on addresses or uninitialised memory shows only under another layout.",
 [WC, "include/Simu/physics/Island.hpp", "include/Simu/utility/Memory.hpp", "include/Simu/physics/RTree.hpp", "include/Simu/physics/Constraint.hpp"],
 [("deterministic processing order", "include/Simu/physics/Island.hpp: solveIslands; include/Simu/physics/RTree.hpp: updateAndCollide"), ("state initialisation", "include/Simu/physics/Constraint.hpp, ConstraintSolver.hpp, Body.hpp members")],
 ["bitwise comparison of all body states after each step"])

prop("C13", "A step of zero or negative duration changes no motion",
 "Stepping with zero or negative duration leaves every surviving body's position, orientation and velocity and every surviving contact's bodies unchanged, applies no force field and solves no constraint, while still removing dead objects and delivering step notifications. A run with any number of such pauses inserted right before or right after its steps ends where the run without them ends, up to rounding.",
 ["histories", "schedules"],
 "All histories with zero or negative duration steps inserted at arbitrary points.",
 "Tests only step with positive duration except one trivial pause; equivalence over histories with carried-over impulses is never compared.",
 [WC, "include/Simu/physics/Constraint.hpp"],
 [("guard on the duration", "src/Simu/physics/World.cpp: World::step")],
 ["Body states, comparison with the unpaused twin run"])

prop("C14", "Mass, inertia and centroid always equal the sum of the current colliders",
 "After any sequence of collider additions and removals, a body's mass, inertia and centroid are those of the union of its current colliders with their densities. Editing colliders leaves the velocity of every material point of the remaining body, its orientation, and its remaining geometry where they were.",
 ["histories", "inputs"],
 "All sequences of collider additions and removals on moving, rotating, rotated, structural or constrained bodies, between steps and from callbacks.",
 "Tests add colliders to fresh bodies at rest; removals in arbitrary order on rotated moving bodies are not reached.",
 [BC, "include/Simu/physics/Collider.hpp", B],
 [("mass combination", "include/Simu/physics/Collider.hpp: MassProperties, Colliders::add/remove"), ("velocity transfer to the new centroid", "src/Simu/physics/Body.cpp: Body::addCollider/removeCollider")],
 ["Body::mass/inertia/centroid/velocity", "vertices of remaining colliders"])

prop("C15", "Every active constraint is solved on the documented schedule",
 "In every step that advances time, each constraint whose bodies are not all at rest as structural is asked whether it is active; when active it is prepared once, warm-started once exactly when warm starting is enabled, velocity-solved and position-solved exactly the configured numbers of times, in that order with the step's duration and its own bodies' state, and when inactive none of these happens. Every body's position advances exactly once per step by its solved velocity times the duration, and groups of bodies that do not interact do not influence each other's motion.",
 ["histories", "schedules", "configurations"],
 "All graphs of constraints and contacts over dynamic, structural and moving structural bodies, with constraints activating and deactivating, settings changing between steps and frame durations varying.",
 "The island tests check membership for three fixed graphs; call counts per constraint and integration counts per body over changing graphs are not checked.",
 ["include/Simu/physics/Island.hpp", "include/Simu/physics/ConstraintInterfaces.hpp", WC, W],
 [("island construction and solve loop", "include/Simu/physics/Island.hpp: Island, solveIslands"), ("documented call sequence", "include/Simu/physics/ConstraintInterfaces.hpp: Constraint")],
 ["user-defined constraint callbacks", "Body position difference per step"])

prop("C16", "A failed creation or edit leaves the world unchanged and usable",
 "When creating a body, constraint, force field or collider fails (invalid arguments, an exception thrown by a user constructor or construction hook, or memory exhaustion at any allocation), the error reaches the caller, the world's objects, references and query results are what they were before the call, and nothing leaks. The world can then be stepped, queried, cleared and destroyed as if the call had not been made.",
 ["fault_sequences", "histories", "inputs"],
 "Every creation and edit operation in any reachable world state, failing at any allocation or callback.",
 "The tests never fail an allocation and check only that some invalid constructor arguments throw, not the state of the world after it.",
 [W, BC, "include/Simu/physics/Collider.hpp", "include/Simu/utility/Memory.hpp", "include/Simu/physics/RTree.hpp"],
 [("object creation", "include/Simu/physics/World.hpp: makeBody/makeConstraint/makeForceField; include/Simu/utility/Memory.hpp: makeUnique"), ("collider creation", "src/Simu/physics/Body.cpp: Body::addCollider; include/Simu/physics/RTree.hpp: emplace")],
 ["World views and queries before and after", "allocation ledger"],
 "none beyond operator new interposition and the pool block size")

prop("C17", "An exception from a user callback during a step leaves a usable world",
 "When a user callback invoked by a step (a step or destruction hook, a force field, a constraint callback, or the contact factory) throws, the exception reaches the caller of the step unchanged, and afterwards the world can be stepped, edited, queried, cleared and destroyed without memory errors. Once callbacks stop throwing, after at most two further steps contacts, queries and references are again as every other guarantee requires and no surviving body was lost.",
 ["fault_sequences", "histories", "schedules"],
 "An exception at any invocation of any user callback of a step, repeated over histories.",
 "No test throws from a callback; the failure point inside the step decides which internal structure is left half-built.",
 [WC, "include/Simu/physics/Island.hpp", "include/Simu/physics/RTree.hpp"],
 [("solver group state kept in bodies", "include/Simu/physics/Island.hpp: Island::init/endSolve, solveIslands"), ("tree rebuild with collision callbacks", "include/Simu/physics/RTree.hpp: RTree::updateAndCollide")],
 ["step() outcome and all later invariants under AddressSanitizer"])

prop("C18", "Memory held by a world is bounded by its content and fully returned",
 "Destroying a world or any container of the library returns every byte it obtained, and repeating the same create, step and kill cycle does not make the memory held at the end of each cycle grow. This holds for every history, including ones with failed creations and exceptions.",
 ["histories", "fault_sequences"],
 "All histories of creation, stepping, killing, clearing and destruction, repeated cyclically.",
 "The suite runs without leak accounting and never repeats a scene in the same world.",
 ["include/Simu/utility/Memory.hpp", "include/Simu/physics/RTree.hpp", W, WC],
 [("pool blocks shared by the world's objects", "include/Simu/utility/Memory.hpp: FreeListAllocator, Block"), ("node ownership", "include/Simu/physics/RTree.hpp: deleteNode, RecycleBin")],
 ["operator new/delete ledger"])

prop("C19", "The spatial tree behaves as a plain multiset of boxes",
 "After any sequence of insertions, erasures, updates, rebuilds with collision reporting, moves and clears, the spatial tree contains exactly the inserted and not erased values, each with its latest box, visits each once when iterated, and reports exactly the overlapping values for region and point queries. Collision reporting visits each overlapping unordered pair exactly once and iterators to surviving values stay valid.",
 ["histories", "inputs", "fault_sequences"],
 "All operation histories over boxes including touching, identical, degenerate and invalid ones, with allocation failures injected in the operations.",
 "Unit tests use hand-picked sequences of a few boxes; rotations and rebuild splits depend on the whole insertion history.",
 ["include/Simu/physics/RTree.hpp", "include/Simu/physics/RTree.inl.hpp", "include/Simu/utility/Algo.hpp"],
 [("insertion, rotation and refit", "include/Simu/physics/RTree.hpp: insert, refit, checkRotations"), ("rebuild", "include/Simu/physics/RTree.hpp: updateAndCollide")],
 ["RTree public interface"])

prop("C20", "The pooled allocator never hands out overlapping or misaligned memory",
 "Every block of memory handed out by the pooled allocator is aligned for its type, lies apart from every other live block, and keeps its content until it is returned, for any interleaving of allocations and deallocations through any rebound or copied allocator sharing the pool. Returned memory is reusable, the pool gives its storage back once everything is returned, and a failed allocation throws and leaves the pool unchanged.",
 ["histories", "fault_sequences", "configurations"],
 "All allocation and deallocation orders over sizes, alignments, pool block sizes, rebound copies and injected memory exhaustion.",
 "There is no allocator test; fragmentation and coalescing depend on the history of sizes and orders.",
 ["include/Simu/utility/Memory.hpp"],
 [("first fit with alignment split and coalescing", "include/Simu/utility/Memory.hpp: Block::allocate/deallocate"), ("pool growth and release", "include/Simu/utility/Memory.hpp: FreeListAllocator::allocate/deallocate")],
 ["returned pointers and contents"])

prop("C21", "Profiler measurements equal the time spent and do not disturb the run",
 "After each step, every profiler entry's last value equals the clock time spent in the phase it names during that step, its maximum and average are those of all its measurements since the last reset, and its count grew by one for each phase that ran. Clock stalls and jumps influence nothing but these values.",
 ["schedules", "histories"],
 "All histories of steps (positive or zero duration) with arbitrary clock advances inside each phase and profiler resets.",
 "No test reads the profiler, and a real clock cannot be predicted; only a simulated clock makes the expected values exact.",
 ["include/Simu/physics/Profiler.hpp", "include/Simu/physics/Island.hpp", WC],
 [("scoped and partial timers", "include/Simu/physics/Profiler.hpp: TimeEntry"), ("phases instrumented", "src/Simu/physics/World.cpp: World::step/updateBodies; include/Simu/physics/Island.hpp: solveIslands")],
 ["World::profiler under an interposed steady_clock"])

prop("C22", "Stepping any valid world completes and keeps its state finite",
 "For every world built from valid objects and well-posed joints and every history of impulses and frame durations, a step completes in bounded work without throwing, and every position, orientation and velocity stays finite.",
 ["histories", "inputs", "schedules"],
 "All histories mixing shapes, touching, nested and coincident placements, joints, fields, motors, impulses, solver settings and frame durations including stalls and very short ones.",
 "Degenerate geometry (coincident centres, nested or barely touching shapes) and long histories are rare by hand; the tests use a few generic poses.",
 ["include/Simu/math/Gjk.hpp", "include/Simu/math/Gjk.inl.hpp", "include/Simu/physics/ContactManifold.hpp", "include/Simu/physics/Constraint.hpp", "include/Simu/math/Matrix.inl.hpp", WC],
 [("narrow phase", "include/Simu/math/Gjk.inl.hpp; include/Simu/physics/ContactManifold.hpp"), ("block and LCP solvers", "include/Simu/math/Matrix.inl.hpp"), ("finiteness assertions", "include/Simu/physics/Bodies.hpp: SolverProxy")],
 ["World::step outcome", "Body states"])

prop("C23", "Frame time reaches the world capped, scaled and paused as specified",
 "On every frame, whatever the wall clock did since the previous frame, the world advances by the elapsed time capped to one sixtieth of a second and multiplied by the play speed, or not at all while paused. A single-step request advances it once by one sixtieth of a second times the play speed and leaves the pause state as it was. Pause and resume requests take effect whether they come from the key, the menu or the scene and whichever was used before, and no sequence of requests makes the play speed or the duration infinite or undefined.",
 ["schedules", "histories"],
 "All sequences of frame times (stalls and frames that take no time), pause, resume, single-step, speed and restart requests by key and by menu.",
 "The application layer is not built by the test suite at all.",
 ["src/Simu/app/Application.cpp", "include/Simu/app/Scene.hpp", "src/Simu/app/Scene.cpp"],
 [("main loop clock", "src/Simu/app/Application.cpp: Application::run"), ("capping, scaling, pause", "include/Simu/app/Scene.hpp: Scene::step; src/Simu/app/Scene.cpp: Scene::onKeypress")],
 ["durations received by scene and world callbacks under a simulated window system"])

prop("C24", "The mouse grab follows the mouse, ends on release, never dangles",
 "Pressing the left button over a movable body with the grab tool attaches exactly one grab, on one body whose bounding box is under the pointer (the one last found if there are several), moving the mouse moves its target, and releasing the button, using another tool or losing the body ends it, leaving no grab in the world after the next step. No order of presses, lost releases, tool switches, scene resets, scene changes and body deaths makes the tool touch a destroyed object.",
 ["schedules", "histories", "fault_sequences"],
 "All orders of window events, including lost and duplicated button events, with kills, resets and scene changes in between.",
 "The application layer is not built by the test suite at all.",
 ["src/Simu/app/Tool.cpp", "include/Simu/app/Tool.hpp", "include/Simu/app/MouseConstraint.hpp", "include/Simu/app/Scene.hpp"],
 [("grab lifetime", "src/Simu/app/Tool.cpp: Grabber::onMousePress/onMouseMove"), ("grab constraint", "include/Simu/app/MouseConstraint.hpp")],
 ["World::constraints of the scene under a simulated window system"])

prop("C25", "Resetting or re-entering a scene always restarts it from scratch",
 "After a scene reset, or when a scene is shown for the first time, the world contains exactly what the scene's initialisation creates, and evolves exactly as in a fresh application receiving the same frames and inputs. A scene that was left restarts when it is shown again, and at most one scene, the shown one, is stepped per frame.",
 ["histories", "schedules"],
 "All sequences of frames, inputs, resets and scene switches.",
 "The application layer is not built by the test suite at all.",
 ["src/Simu/app/Application.cpp", "include/Simu/app/Scene.hpp", "src/Simu/app/Scene.cpp", W],
 [("reset", "include/Simu/app/Scene.hpp: Scene::reset; World::clear"), ("scene change", "src/Simu/app/Application.cpp: Application::changeScene")],
 ["body states of the shown scene compared with a fresh twin"])

prop("C26", "Every frame draws each visible object exactly once, batches lose nothing",
 "Every polygon, line and point requested during a frame reaches the graphics library exactly once during that frame, as triangles covering it with its colour under the current camera transform, for any number of objects per frame. A visible body is drawn as its colliders and their bounding boxes, a contact as markers on the bodies that touch, an outside contour surrounds its polygon. Index buffers only refer to vertices uploaded with them.",
 ["histories", "inputs", "schedules"],
 "All numbers and sizes of drawn objects per frame, including batches crossing the internal batch limit at any vertex.",
 "The application layer is not built by the test suite at all.",
 ["src/Simu/app/Renderer.cpp", "include/Simu/app/Renderer.hpp", "include/Simu/app/VisiblePhysics.hpp"],
 [("batching", "src/Simu/app/Renderer.cpp: OpenGlRenderer::drawPolygon/flush"), ("drawing of physics objects", "include/Simu/app/VisiblePhysics.hpp")],
 ["calls recorded by a stub graphics library"])

prop("C27", "The point under the cursor is the scene point drawn there",
 "After any sequence of window resizes, zooms, pans and scene switches, the scene position delivered for a mouse event is the one that the camera transform in use draws at that pixel, the whole framebuffer is drawn to, and a pixel of the window spans the camera's pixel size divided by its zoom. Zooming in and out by scrolling and panning by keys move the view in the requested direction, and no input makes the camera degenerate.",
 ["histories", "schedules"],
 "All sequences of resizes (including to zero size), scrolls, key pans and mouse events.",
 "The application layer is not built by the test suite at all.",
 ["src/Simu/app/Camera.cpp", "src/Simu/app/Application.cpp", "src/Simu/app/Scene.cpp"],
 [("camera transform and inverse", "src/Simu/app/Camera.cpp"), ("window to scene mapping", "src/Simu/app/Application.cpp: windowToScene")],
 ["mouse positions received by the scene", "camera transform uploaded to the graphics stub"])

prop("C28", "Only idle bodies sleep, and anything that concerns a sleeping body wakes it",
 "With sleeping enabled, a body falls asleep only after its linear and angular speed stayed below the thresholds for the configured delay (time during which sleeping is disabled does not count), and a body on its own (no joint, and in touch with nothing, however close other bodies pass) that stays so for longer does sleep. A sleeping body receives no force, and one that nothing concerns stays asleep. Changing its velocity, a new constraint, a new contact, the end of a contact or constraint, a new force field in whose domain it lies, or disabling sleeping wakes it.",
 ["histories", "schedules", "configurations"],
 "All histories of impulses, contacts beginning and ending, joints and fields added and removed, thresholds and frame durations with sleeping switched on and off.",
 "No test enables sleeping.",
 [B, WC, W, "include/Simu/physics/Island.hpp"],
 [("sleep accounting", "include/Simu/physics/Body.hpp: isImmobile/updateTimeImmobile/canSleep; src/Simu/physics/World.cpp: World::updateBodies"), ("waking", "Body::wake callers in World.hpp, World.cpp, Island.hpp")],
 ["Body::isAsleep after each operation and step"])

prop("C29", "Each press of the box spawner makes exactly one box, as its options say",
 "With the box spawner selected, every press of the left button that reaches the scene makes at once exactly one visible movable body at rest: a single box centred on the point under the cursor, with the size, orientation (up to half a turn), density, friction and bounciness that its options window shows. No other event makes one. Showing the options changes none of them; editing one sets it to the chosen value and leaves the others, through tool changes, restarts, kills and resizes.",
 ["histories", "schedules"],
 "All sequences of presses, moves, option edits, tool and scene changes, restarts, captures, kills, resizes and zooms.",
 "The application layer is not built by the test suite at all.",
 ["src/Simu/app/Tool.cpp", "include/Simu/app/Tool.hpp", "src/Simu/app/Scene.cpp", "src/Simu/app/Application.cpp"],
 [("making boxes", "src/Simu/app/Tool.cpp: BoxSpawner::onMousePress/makeBox"), ("options", "src/Simu/app/Tool.cpp: BoxSpawner::doGui"), ("dispatching presses to the tool", "src/Simu/app/Scene.cpp: Scene::mousePress; src/Simu/app/Application.cpp")],
 ["bodies of the world before and after each event", "values the options window shows"])

prop("C32", "The bundled demos run as written under anything the user does",
 "Under any keys, clicks, tool use, resizes and option edits, the demo program runs each of its five scenes without an error, a non-finite body or an undrawable frame until its window is closed or Escape is pressed, and ends then. After each start or restart a scene holds exactly the bodies its options ask for, the tumbler gaining one box per unpaused step up to its maximum, the box spawner one per press. Left alone at normal speed, stacks, towers and moderate pyramids stay standing, the pendulum's balls stay on their strings, the tumbler turns at its motor's speed and no box gets out of it.",
 ["histories", "schedules"],
 "All sequences of user events and frame durations; all values the options' sliders allow.",
 "The demos are not built by the test suite at all.",
 ["demos/Demos.cpp", "demos/BoxStacks.cpp", "demos/NewtonPendulum.cpp", "demos/Pyramid.cpp", "demos/Tower.cpp", "demos/Tumbler.cpp", "src/Simu/app", "src/Simu/physics"],
 [("demo scenes", "demos/*.cpp: init, doGui, Tumbler::postStep"), ("main loop", "demos/Demos.cpp: main; src/Simu/app/Application.cpp: Application::run"), ("visible bodies and constraints", "include/Simu/app/VisiblePhysics.hpp"), ("whole simulation", "src/Simu/physics/World.cpp: World::step")],
 ["bodies of the shown scene after every event and frame", "values the options show"])

prop("C30", "Collision geometry: penetration vectors and contact points are correct",
 "For any two convex polygons, the reported minimal translation separates them when they overlap and vanishes when they do not, and reported nearest points are mutually nearest.",
 ["inputs"], "All pairs of convex polygons.",
 "Tests cover a handful of polygons.",
 ["include/Simu/math/Gjk.hpp", "include/Simu/math/Gjk.inl.hpp"],
 [("GJK/EPA", "include/Simu/math/Gjk.inl.hpp")])

prop("C31", "Geometric properties of polygons and matrices algebra are correct",
 "Area, centroid, moment of area, orientation, interval and box operations, matrix products, linear solvers and barycentric coordinates equal their mathematical definitions up to rounding.",
 ["inputs"], "All finite inputs.",
 "Tests cover a handful of values.",
 ["include/Simu/math/Matrix.hpp", "include/Simu/math/Geometry.hpp", "include/Simu/math/Polygon.hpp", "include/Simu/math/BarycentricCoordinates.hpp", "include/Simu/math/Interval.hpp"],
 [("pure functions", "include/Simu/math/*")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
