NA = {}
prop("C01", "Body ids are unique, stable, and the container shows exactly the bodies present",
     "A body keeps the id it was given when appended for as long as it is in the simulation, an id never denotes two bodies at once, and a body can be in the container only once. "
     "Erasing frees only the erased id, a new body may be put at a free id but never at one in use or out of range, and look-up, length and iteration (which skips free ids) always agree, also across saving and loading. "
     "Requests with an id that is out of range are refused without any change.",
     ["histories", "inputs"], "all sequences of appending, erasing, re-inserting, looking up, saving and loading",
     "tests append a handful of bodies and erase one or two; the agreement of iteration, look-up and ids must hold after every order of operations, including erasing the first, the last or all bodies and re-using ids",
     ["core/BodyContainer.cpp", "core/BodyContainer.hpp", "py/wrapper/yadeWrapper.cpp"],
     "vector of body pointers indexed by id; erased slots stay as null pointers skipped by the iterator",
     A, "Exhaustive for 3 bodies in up to 4 slots: the complete transition graph is replayed on the real container and every observable is compared after every operation." + TRUST)
prop("C02", "Clump membership stays consistent on both sides through every operation",
     "At all times every body is exactly one of standalone, clump or member; a body is a member of a clump exactly if that clump exists and lists it, and clumps are never nested. "
     "Creating, merging, extending, releasing from and erasing clumps (with or without their members) change exactly the memberships asked for, delete clumps that were merged away or lost their last member by erasing, and never move members. "
     "The mass and centre of a clump are those of its members at the time its properties were last computed.",
     ["histories", "inputs"], "all sequences of creating, extending, merging, releasing, erasing, updating, saving and loading clumps and their members",
     "the tests build one or two clumps; membership is kept in two places and must agree after any sequence (two merging paths were broken on the original tree)",
     ["core/Clump.cpp", "core/BodyContainer.cpp", "py/wrapper/yadeWrapper.cpp"],
     "each member stores the id of its clump and the clump stores a map of members; both are edited by the operations above",
     A, "All behaviours of up to 4 operations over 4 bodies and 6 slots are model checked and replayed (quick: a random tour of the transition graph of 60 000 steps; thorough: every transition)." + TRUST)
prop("C03", "The interaction list, pair look-up and per-body lists always agree",
     "At most one interaction exists per pair of bodies; whether it is found by iterating, by counting, by looking up the pair in either order, or in the list of either body, the answer is the same, and an interaction is real exactly while it has both geometry and physics. "
     "Erasing a body leaves no real interaction with it, a body put at a re-used id never inherits interactions of its predecessor and gets its contacts in the next step, and erasing an interaction by hand makes it non-real until it is re-established. "
     "Saving and loading preserve exactly the real interactions.",
     ["histories", "schedules"], "all sequences of steps, body insertions and erasures, explicit interaction creation and erasure, clearing, saving and loading; serial and multi-threaded",
     "tests create one interaction and look it up; three copies of the information are kept in sync by hand-written code, and the failures need an erase, a re-insertion and a step in a certain order",
     ["core/InteractionContainer.cpp", "core/InteractionContainer.hpp", "core/BodyContainer.cpp", "pkg/common/InteractionLoop.cpp", "py/wrapper/yadeWrapper.cpp"],
     "linear vector with back-references plus a map in each of the two bodies, modified by insert/erase/requestErase",
     A, "All behaviours of up to 8 operations over 4 bodies (91 000 transitions) are model checked; quick replays a random tour of 60 000 steps, thorough all transitions, and random walks with 3 threads." + TRUST)
prop("C08", "Forces add up exactly, permanent ones persist, and no body sees another's",
     "The force and torque reported for a body are the sum of everything added to it since the last reset plus its permanent value, whether read with or without synchronisation and whichever threads added it. "
     "Permanent values stay until replaced or until everything is reset, whatever is set for other bodies; an ordinary reset clears exactly the added part and imposed displacements, and bodies created later start from zero. "
     "Access with an id that is not a body is refused.",
     ["histories", "inputs", "schedules"], "all sequences of adding, setting permanent values, reading, resetting, stepping and creating bodies, for any ids and any number of threads",
     "tests set one permanent force on one of two bodies; storage grows lazily and per thread, so errors need particular ids, orders and growth (a permanent force set on a low id erased those of high ids on the original tree)",
     ["core/ForceContainerParallel.cpp", "core/ForceContainer.hpp", "py/wrapper/yadeWrapper.cpp"],
     "per-thread vectors summed on demand, with lazily grown storage",
     B, "Random histories over up to 4000 bodies with integer-valued vectors, so that sums are exact, with 1 and 4 threads; each history is accepted or rejected by TLC." + TRUST)
prop("C04", "Collision detection lists exactly the pairs whose boxes overlap",
     "Whenever collision detection has run, every pair of bodies that may touch (both bounded, sharing a mask bit, not excluded by the self-interaction mask, not in the same clump, not clumps themselves, at least one of this subdomain) and whose bounding boxes overlap is in the interaction list exactly once. "
     "No pair that is excluded or whose boxes are apart (beyond the Verlet margin) is created or kept as a potential interaction. "
     "This holds for spheres, boxes, facets and walls, after any displacement, insertion, removal or re-use of ids, for every sort axis, for sort-then-collide and for any number of threads.",
     ["inputs", "histories", "schedules"], "all configurations of bodies and masks and all sequences of displacements, insertions, removals and sorting options; serial and parallel sort",
     "the tests place a few spheres; a missed inversion shows only for certain orders of interval ends on three axes after a history of moves",
     ["pkg/common/InsertionSortCollider.cpp", "pkg/common/InsertionSortCollider.hpp", "pkg/common/Collider.cpp", "pkg/common/Bo1_Aabb.cpp", "pkg/common/Wall.cpp", "core/InteractionContainer.cpp"],
     "insertion sort of box ends on three axes; inversions create pairs; conditionalyEraseNonReal drops pairs that came apart",
     B, "The sweep-and-prune algorithm is model checked on its own (spec/SweepPrune.tla, 60 000 states); recorded random histories (264 quick, 2 640 thorough) with up to 1 100 bodies are compared by TLC with the exact set of overlapping eligible pairs. Boxes that only touch are left open." + TRUST)
prop("C05", "In periodic space contacts are found through the right image",
     "With periodic boundaries every pair of bodies that may touch and whose boxes overlap through some whole-cell shift is listed once, with exactly that shift, wherever the bodies lie (also many cells away) and however they crossed the boundaries. "
     "Spheres that touch through an image are in contact through that image in the same step, also in sheared cells; bodies that do not touch through the recorded shift are not in contact.",
     ["inputs", "histories"], "all cell shapes, positions, sizes below half a cell, and all sequences of moves shorter than a cell, insertions and removals",
     "the tests use a fixed cell and a few steps; the sort treats the boundary specially and errors need an interval end to cross it in a certain order",
     ["pkg/common/InsertionSortCollider.cpp", "core/Cell.hpp", "core/Cell.cpp", "pkg/common/Bo1_Aabb.cpp", "pkg/common/InteractionLoop.cpp", "pkg/dem/Ig2_Sphere_Sphere_ScGeom.cpp"],
     "cyclic insertion sort with period counters; the shift is found by spatialOverlapPeri and kept in Interaction.cellDist",
     B, "Random histories of up to 16 bodies in orthogonal and sheared integer cells; TLC computes all images exactly. A pair that stays listed while a body is teleported onto another image of its partner is outside the claim." + TRUST)
prop("C06", "No contact is missed while bodies move, however collision detection is delayed",
     "In every step, every eligible pair of bodies that touches at the positions the step starts from is in contact, although collision detection runs only when some body may have left the margin around its box. "
     "This holds for any Verlet distance (absolute or relative), any velocities that change at any time, rotating and translating clumps, kinematic and free bodies, bodies added or erased on the way, changes of the time step, and saving and loading.",
     ["histories", "schedules"], "all trajectories, margins, time steps, insertions and removals; serial and parallel",
     "tests run dense packings, where something always triggers the collider; a body that creeps out of its margin along one direction needs many quiet steps before the contact is missed",
     ["pkg/common/InsertionSortCollider.cpp", "pkg/dem/NewtonIntegrator.cpp", "pkg/common/Collider.cpp", "core/Clump.hpp", "pkg/common/Bo1_Aabb.cpp"],
     "boxes enlarged by verletDist; NewtonIntegrator records the largest displacement since the last run; isActivated compares it with the margin",
     B, "The margin rule is model checked (spec/Verlet.tla: no pair within reach is unlisted); 224 quick, 2 700 thorough recorded runs of creeping, turning, bouncing and random bodies are compared step by step with the exact set of touching pairs. Displacements made by hand (state.pos) are outside the claim." + TRUST)
prop("C07", "Contact forces obey the law and act equally and oppositely",
     "In every step the force and torque on each body are exactly those of its contacts: the two bodies of a contact get opposite forces, applied at the contact point, also through periodic images, so that the total force vanishes. "
     "The stiffnesses of a contact are the harmonic combination of those of the two bodies and the friction coefficient is the smaller one; the normal force is the normal stiffness times the overlap along the normal, and the shear force never exceeds the Coulomb limit.",
     ["inputs", "histories", "schedules"], "all scenes of spheres, walls, boxes and facets with any stiffnesses, sizes and friction, at rest or moving, periodic or not, serial and parallel",
     "tests look at two equal spheres; unequal radii, stiffnesses and friction, order of the bodies in the pair, images and energy tracking each take different paths in the code",
     ["pkg/dem/ElasticContactLaw.cpp", "pkg/dem/FrictPhys.cpp", "pkg/common/InteractionLoop.cpp", "core/ForceContainer.hpp", "pkg/common/Dispatching.hpp"],
     "Ip2_FrictMat_FrictMat_FrictPhys computes stiffnesses; Law2_ScGeom_FrictPhys_CundallStrack applies forces and torques",
     B, "900 random scenes quick, 10 800 thorough, with 1 and 4 threads; forces are compared with the sums over the recorded contacts within rounding of the logged integers (spec/TContact.tla)." + TRUST)
prop("C20", "The shear force is history-exact: elastic, carried along, capped at friction",
     "The shear force of a contact starts from zero when the contact begins, is carried along when the contact turns or twists, changes in each step by shear stiffness times the relative tangential motion of the two surfaces (translation, spin, and motion of the periodic cell), and is scaled back to the Coulomb limit exactly when it exceeds it. "
     "Elastic energy and frictional dissipation reported by energy tracking are those of these forces, dissipation is never negative, and tracking does not change the forces.",
     ["histories", "inputs"], "all histories of sliding, pressing, spinning, rolling, twisting, separating and returning, for spheres against spheres, walls, boxes and facets, with and without the correction against granular ratcheting",
     "tests do not look at the shear force of a moving contact; each term matters only for its own kind of motion",
     ["pkg/dem/ScGeom.cpp", "pkg/dem/ElasticContactLaw.cpp", "pkg/dem/Ig2_Sphere_Sphere_ScGeom.cpp", "pkg/dem/Ig2_Facet_Sphere_ScGeom.cpp", "pkg/dem/Ig2_Box_Sphere_ScGeom.cpp", "core/Cell.cpp"],
     "ScGeom::precompute and rotate; Law2_ScGeom_FrictPhys_CundallStrack::go",
     B, "The law in one dimension is model checked (spec/Friction.tla: Coulomb limit, path independence while sticking, dissipation); 320 random histories of 24 or more steps quick, 3 840 thorough, each step recomputed in fixed point by TLC (tolerance about 0.1 % of the force)." + TRUST)
prop("C24", "The geometry of a contact is that of the nearest points of the two shapes",
     "A sphere and another shape are in contact exactly when the nearest point of that shape (sphere, wall, box turned by quarters, facet with its edges and corners) is closer than the radius; the sphere comes second in the pair. "
     "The normal then points from that nearest point to the centre, the penetration is radius minus distance, and the contact point lies in the middle of the overlap; a sphere centred inside a box is pushed to the nearest face. "
     "The same holds through periodic images.",
     ["inputs"], "all positions, sizes and orientations of spheres, walls, boxes and facets, where the contact has a direction",
     "tests touch a facet or box in one place; interior, edge and corner of each side are separate cases",
     ["pkg/dem/Ig2_Sphere_Sphere_ScGeom.cpp", "pkg/dem/Ig2_Facet_Sphere_ScGeom.cpp", "pkg/dem/Ig2_Box_Sphere_ScGeom.cpp", "pkg/common/Facet.cpp", "pkg/common/InteractionLoop.cpp"],
     "one Ig2 functor per pair of shapes",
     B, "1 900 random integer scenes (8 600 contacts) quick, 22 800 thorough; TLC computes nearest points exactly (spec/TContact.tla). Facets are right-angled and axis-aligned; the hypotenuse is checked where both legs are equal. The centre exactly on a surface is left open." + TRUST)
prop("C09", "Each body moves exactly as force, mass, damping and constraints require",
     "In one step the velocity of every free axis changes by (force/mass + gravity) dt, with numerical damping reducing it when it speeds the body up and increasing it when it slows it down, and the body then moves by velocity times dt plus any imposed displacement; rotation likewise with torque and inertia. "
     "Blocked axes keep their velocity, fully blocked bodies keep moving as prescribed, bodies excluded by the mask do not move or rotate, and bodies of other subdomains are left alone. "
     "A clump moves as one rigid body under all forces acting on its members, members keep their place in it, and aspherical bodies change angular momentum by torque times dt.",
     ["inputs", "histories", "schedules"], "all bodies, forces, torques, blocked axes, damping, gravity, masks and density scaling, over any number of steps and threads",
     "regression tests compare one trajectory with tolerance; a wrong sign or a skipped case shows only for certain combinations of constraints and signs",
     ["pkg/dem/NewtonIntegrator.cpp", "core/Clump.cpp", "core/Clump.hpp", "core/State.hpp"],
     "leap-frog integration in NewtonIntegrator::action, Clump::addForceTorqueFromMembers and Clump::moveMembers",
     B, "Values are chosen so that translation and rotation rates are exact in integers and compared exactly by TLC; orientations, clump rotation and aspherical bodies within rounding tolerances. 240 histories quick, 2 880 thorough, 1 and 4 threads." + TRUST)
prop("C10", "Every live engine runs once per step, in order; changes wait for the next step",
     "In each step every engine that is not dead and is activated runs exactly once, in the order of O.engines, after which the iteration number grows by one and the time by dt. "
     "Done piece by piece (sub-stepping), interrupted by switching sub-stepping off or by saving and loading, a step still runs exactly the same engines. "
     "Engines assigned or killed during a step do not disturb the step: a new list takes effect at the next step, and the last assignment wins.",
     ["histories"], "all sequences of steps, sub-steps, engine assignments (between and within steps), killing and reviving, time step changes, time resets, saving and loading",
     "tests run one step with sub-stepping on; the two copies of the loop (whole and piecewise) must agree after every interleaving of assignments and sub-steps",
     ["core/Scene.cpp", "core/Scene.hpp", "core/Engine.hpp", "py/wrapper/yadeWrapper.cpp", "core/SimulationFlow.cpp"],
     "Scene::moveToNextTimeStep with subStep as program counter and _nextEngines as pending list",
     A, "All behaviours of up to 7 operations over three engine lists (59 000 transitions), all replayed in quick already. Assigning an empty list from within a step is outside the claim." + TRUST)
prop("C11", "A run takes whole steps and stops exactly where it was told to",
     "O.run(n) takes exactly n steps unless something else stops it earlier; a run stops after the step that reaches stopAtIter, after the step in which the time reaches or passes stopAtTime, and after the current step when paused from an engine or from outside. "
     "It never takes a partial step, never runs past a limit, and an interrupted step is completed, not repeated. "
     "Limits already passed or set to zero do not stop it, and pausing or waiting when nothing runs does nothing.",
     ["histories", "schedules"], "all sequences of run, step, pause, limits set between or during steps, time step changes and interrupted steps; pause at any moment of the run",
     "tests run a fixed number of steps; stopping times that fall between two steps, limits changed from within, and pauses at arbitrary moments are not sampled (on the original tree stopAtTime was ignored unless hit exactly)",
     ["core/SimulationFlow.cpp", "core/ThreadRunner.cpp", "core/ThreadWorker.cpp", "core/Omega.cpp", "py/wrapper/yadeWrapper.cpp"],
     "worker thread looping over SimulationFlow::singleAction, with flags for looping and termination",
     B, "The thread protocol is model checked (spec/RunThreads.tla); 424 random histories (5 000 thorough) are recorded and validated, 24 of them paused from outside at random moments. A run() issued while another run is in its very last step may be lost (outside the claim)." + TRUST)
prop("C12", "Periodic engines run when and only when their period has elapsed",
     "A periodic engine runs when its iteration, virtual-time or real-time period has elapsed since its last activation, whichever comes first, and at no other time. "
     "The first call only starts the period unless initRun is set; firstIterRun delays the first run to exactly that iteration; nDo limits the number of activations (the first call counts as one); setting the time back starts the period again. "
     "Changing parameters, killing and reviving, saving and loading keep the count.",
     ["inputs", "histories"], "all combinations of periods, limits and first runs, and all sequences of steps, parameter changes, dead periods, engine additions, time resets and save/load",
     "tests look at one engine for a few steps; the conditions interact (limit with first call, first run with periods, time reset) and combinations are many",
     ["pkg/common/PeriodicEngines.hpp", "pkg/common/PyRunner.hpp", "core/Scene.cpp"],
     "PeriodicEngine::isActivated with virtLast, realLast, iterLast, nDone",
     B, "The rule is model checked for limit, spacing and completeness over all parameters (spec/MCPeriodicRun.tla); 400 random histories of up to 9 engines quick, 4 800 thorough. Real-time periods are only tested as always or never elapsed; firstIterRun is not combined with time resets." + TRUST)
prop("C18", "A distributed run gives the same result as a serial one",
     "A simulation split over several processes (yade.mpy) advances every body exactly as the same simulation run in one process: after any number of steps, with or without merging and re-splitting on the way, positions, velocities and spins agree up to rounding, the forces on the master's bodies are those of the serial run, and exactly the requested number of steps has been made. "
     "This holds for any assignment of bodies to processes, any number of processes, bodies owned by the master (fixed, moving or free), and any motion between the processes' regions.",
     ["inputs", "schedules"], "all scenes, assignments of bodies to processes, numbers of processes, numbers of steps and message timings, with friction only as long as the scene is not re-split (contact history is not kept by a merge)",
     "no test of the suite runs more than one process; a missing or outdated copy shows only for bodies near a border after re-splitting (on the original tree outdated forces were applied to the master's bodies)",
     ["py/mpy.py", "core/Subdomain.cpp", "core/Subdomain.hpp", "pkg/common/InsertionSortCollider.cpp", "pkg/common/Collider.cpp", "pkg/dem/NewtonIntegrator.cpp"],
     "scene split by Body.subdomain; overlapping bodies mirrored; states and forces exchanged every step; merge and split when any collider asks for it",
     B, "The message protocol is model checked (spec/Decomp.tla: current copies, current forces, no deadlock, empty queues, 2 and 3 workers); 36 random scenes quick, 360 thorough, with 2, 3 and 4 real MPI processes are compared with the serial run by TLC." + TRUST)
prop("C19", "Processes hold current copies of everything near them, and agree on it",
     "After a scene has been split, every process has its own bodies and a copy of every body of another process whose bounding box overlaps one of its own; sender and receiver have the same list of bodies to exchange, only own bodies are sent, and two processes either both expect messages from each other or neither does. "
     "After every step all processes are at the same iteration, every copy equals the original exactly, and the force on each of the master's bodies is the sum of the contact forces computed in that step by all processes.",
     ["inputs", "schedules", "histories"], "all scenes, assignments of bodies to processes, numbers of processes and sequences of splitting, stepping and merging",
     "no test of the suite runs more than one process; mismatched lists appear only for certain overlaps of subdomain boxes and end in wrong states or a deadlock",
     ["py/mpy.py", "core/Subdomain.cpp", "core/Subdomain.hpp", "pkg/common/Collider.cpp"],
     "genLocalIntersections, mirrorIntersections, sendRecvStates and isendRecvForces; Subdomain::mpiSendStates and setStateValuesFromBuffer",
     B, "The message protocol is model checked (spec/Decomp.tla, 190 000 states); 30 random scenes quick, 300 thorough, with 2, 3 and 4 real MPI processes, recorded at every split and step on every process." + TRUST)
prop("C13", "Loading gives back exactly what was saved, and the run goes on the same",
     "Saving changes nothing; loading gives back every saved attribute of bodies, contacts, materials, engines, cell, clock and tags exactly, in every format (XML, binary, compressed, memory slot, memory slot exported to a file, reload), in the same or another process, whatever happened in between. "
     "Continuing after a load gives the same states as continuing without it: every operation and every number of steps is a function of the saved state. "
     "Loading something that does not exist raises an error and changes nothing.",
     ["inputs", "histories"], "all scenes and classes reachable from Python, formats, points of a run between two steps, and sequences of changes, saves and loads; permanent or hand-set forces and the order of the two bodies in later contacts are not part of the claim",
     "the test suite saves one small simulation and compares four numbers; a forgotten attribute or a lost internal flag shows only for the class, contact state or moment that uses it (the original tree lost five of them)",
     ["core/Omega.cpp", "core/Scene.cpp", "core/Interaction.hpp", "core/State.hpp", "core/Cell.hpp", "core/BodyContainer.hpp", "core/InteractionContainer.cpp", "lib/serialization/ObjectIO.hpp", "lib/serialization/Serializable.hpp", "py/wrapper/yadeWrapper.cpp"],
     "boost::serialization of every registered attribute, with preLoad/postLoad hooks that rebuild derived state",
     B, "The abstract claim (the future is a function of what is saved, caches notwithstanding) is model checked (spec/SaveLoad.tla); 220 random sessions, about 164 classes twice and 16 restarts in another process quick (12 times as many thorough) are recorded as digests and validated." + TRUST)
prop("C17", "The periodic cell and the bodies in it follow the velocity gradient exactly",
     "Each step changes the cell's vectors and transformation by velGrad*dt times their value; an assigned gradient takes effect at the end of the current step, and size, volume, strain measures, wrapping and shear/unshear agree with the cell's vectors. "
     "With homoDeform every body, blocked or not, gets exactly the velocity change of the mean field (and the convective term, and the spin, as documented for the mode), so a body at rest in the cell stays at the same reduced coordinates, and damping acts on the motion relative to the cell. "
     "Setting the reference size, saving and loading keep this.",
     ["inputs", "histories"], "all cells with independent vectors, velocity gradients (any 3x3), modes, time steps, body states, and sequences of gradient changes, steps and loads",
     "tests use one cell with a diagonal gradient; off-diagonal terms, changes of gradient in mid-run and blocked bodies are not sampled",
     ["core/Cell.cpp", "core/Cell.hpp", "pkg/dem/NewtonIntegrator.cpp", "pkg/dem/NewtonIntegrator.hpp"],
     "Cell::integrateAndUpdate, nextVelGrad and prevVelGrad; NewtonIntegrator::leapfrogTranslate with cell convection and homogeneous deformation",
     B, "The rule is model checked in one dimension (spec/Cell.tla: a body at rest in the cell stays affine for all gradient sequences); 400 random histories quick, 4 800 thorough, compared in fixed point (1e-3) by TLC." + TRUST)
prop("C14", "Scenes, memory slots and reload keep apart what is apart",
     "Of the scenes kept by O exactly one is current, and every operation on the current scene leaves the others, the scene to swap with and all memory slots as they were; saving changes only its own slot, and loading, reloading or a round trip through a string gives back exactly the content of that slot. "
     "Resets drop exactly what they say (this scene, all scenes, everything but the slots), and a load that fails or a switch to a scene that does not exist changes nothing. "
     "The name used by reload and the Python variable of a labelled engine follow the last successful load or assignment.",
     ["histories"], "all sequences of changing, saving, loading, reloading, adding, switching, swapping, assigning and resetting scenes",
     "tests save and load one scene; aliasing between scenes shows only after particular sequences of switching, swapping and resetting (on the original tree a scene could not be passed through a string at all)",
     ["core/Omega.cpp", "core/Omega.hpp", "py/wrapper/yadeWrapper.cpp", "core/Scene.cpp"],
     "Omega::scenes with currentSceneNb, sceneAnother and memSavedSimulations",
     A, "All behaviours over 2 scenes, 2 slots and up to 2 changes and over 3 scenes and 1 slot (38 000 transitions) are replayed in quick; deeper bounds thorough." + TRUST)
prop("C15", "The functor used for a pair of classes depends on nothing but what is declared",
     "For objects of any classes the functor used is the one declared for the nearest base classes (distances in both arguments added), the last declared if there are several for the same pair; two different ones equally near are an error, reported every time, and none declared means none used. "
     "The answer does not depend on earlier look-ups, on the order in which contacts appear, or on saving and loading. "
     "A symmetric functor serves both orders of the pair, with the two bodies in the order it expects.",
     ["inputs", "histories"], "all sets of functors of the geometry, physics, law and bound dispatchers, all pairs of classes, all sequences of look-ups, re-declarations, loads and contacts",
     "tests use one functor per pair; inheritance, ambiguity and the memory of earlier look-ups interact (on the original tree an earlier look-up could make a later one ambiguous, and an ambiguity was reported once and then ignored)",
     ["lib/multimethods/DynLibDispatcher.hpp", "core/Dispatcher.hpp", "pkg/common/Dispatching.cpp", "pkg/common/InteractionLoop.cpp", "lib/multimethods/Indexable.hpp"],
     "DynLibDispatcher::locateMultivirtualFunctor with its matrix of callbacks, which also remembers answers",
     B, "The remembering look-up is model checked against the rule for all histories on a small class tree (spec/MCDispatch.tla; MCDispatchOrig.cfg shows the original error); real dispatchers are asked in random histories over all classes built here and every pair is asked once more." + TRUST)
prop("C21", "Cohesive contacts hold up to their strength and break as specified",
     "A cohesive contact carries tension up to its normal adhesion and shear up to shear adhesion plus friction (or adhesion alone if asked), strengths being the smaller cohesion of the two materials times the smaller radius squared. "
     "Beyond that a fragile contact breaks: in tension it is lost, in shear it keeps only friction and never regains cohesion by itself; a plastic one yields at constant force, with a plastic displacement, until the largest displacement allowed. "
     "Moments are proportional to the relative rotation, carried along, capped by the rolling and twisting strengths, act only on bonded contacts unless asked for, and contacts become cohesive only when created so, at setCohesionNow or by initCohesion.",
     ["inputs", "histories"], "all materials with cohesions not negative, radii, motions of the bodies, and sequences of gluing and attribute changes; setCohesionNow is not asked for again in the very next step",
     "tests check one pull and one shear path; breaking, yielding, re-gluing and unloading interact over histories",
     ["pkg/dem/CohesiveFrictionalContactLaw.cpp", "pkg/dem/CohesiveFrictionalContactLaw.hpp", "pkg/dem/ScGeom.cpp"],
     "Law2_ScGeom6D_CohFrictPhys_CohesionMoment and Ip2_CohFrictMat_CohFrictMat_CohFrictPhys",
     B, "The bond is model checked (spec/Cohesion.tla: no contact beyond its strength, broken stays broken, plastic displacement monotone under tension); 330 random histories quick, 4 000 thorough, recomputed step by step in fixed point by TLC (about 1 %). Twist creep and matchmakers are outside." + TRUST)
prop("C25", "Engines that prescribe motion or loads do exactly what they state",
     "In each step the bodies named by a kinematic engine (translation, rotation, helix, interpolated helix, harmonic motion or rotation, pedal, force controller) get exactly the prescribed velocity and spin for the current time and position, combined engines the sum of their live members' motions, the last engine deciding for a body named twice. "
     "Force engines (constant, interpolated, radial, drag, torque, uniform, axial and central gravity) add exactly their load to the bodies they name or whose mask matches, and to no other. "
     "Tables give the first value before, the last value after, linear between and repeat if asked, whatever moment was asked for before; erased bodies, dead engines, changed parameters, time steps and loading change nothing else.",
     ["inputs", "histories"], "all parameters, axes, bodies, masks, time steps, and sequences of steps, parameter changes, erasures, time resets and loads; rotations act as chords of one step",
     "no test of the suite looks at these engines; errors show only for oblique axes, times outside the table, combined motions or masked bodies",
     ["pkg/common/KinematicEngines.cpp", "pkg/common/KinematicEngines.hpp", "pkg/common/ForceEngine.cpp", "pkg/common/GravityEngines.cpp", "pkg/common/TorqueEngine.hpp", "pkg/common/StepDisplacer.hpp", "lib/smoothing/LinearInterpolate.hpp"],
     "KinematicEngine::action resets velocities and calls apply; linearInterpolate with a remembered position",
     B, "The table look-up with its memory is model checked against the rule for all tables and sequences of questions (spec/MCInterp.tla); 300 random histories of up to 6 engines quick, 3 600 thorough, recomputed in fixed point by TLC (1e-3)." + TRUST)

prop("C27", "Packings fill the region asked for, without overlaps, and keep what they hold",
     "A region made of primitive solids and their unions, intersections and differences accepts exactly the points at least the given margin inside it, and its box encloses it; regular grids, filters and random clouds (boxes, flat boxes, periodic and sheared cells, size distributions, clumps) give only spheres inside the region that do not overlap each other, their periodic images or spheres already there, of the sizes and in the number asked for, and the same packing for the same seed. "
     "A packing under adding, moving, scaling, turning, repeating its cell, saving, loading, and conversion to and from a simulation keeps every sphere, size, clump and cell, replaces all of them when it is refilled, and reports its box, density, size distribution and clumps accordingly.",
     ["inputs", "histories"], "all regions, margins, points, box and cell shapes, distributions, seeds, templates, and sequences of operations on a packing; margins of hyperboloids and of ellipsoids follow the axes, as documented",
     "the suite has no test of packings; wrong answers need particular margins, sheared cells, pre-filled packings, repeated calls, or clumps in periodic packings",
     ["py/pack/_packPredicates.cpp", "py/pack/_packSpheres.cpp", "py/pack/pack.py", "pkg/dem/SpherePack.cpp", "pkg/dem/SpherePack.hpp", "pkg/dem/Shop_01.cpp"],
     "predicate classes with a padding argument; SpherePack::makeCloud and makeClumpCloud by rejection; SpherePack as a list of spheres with clump numbers and a cell",
     B, "Regions and the packing object are model checked for their laws (spec/MCRegion.tla, MCPacking.tla); 540 recorded scenarios quick, 5 400 thorough: 24 000 points in 600 random regions, 120 grids, 200 filters, 210 random packings, 150 histories of packings, all recomputed by TLC in integers." + TRUST)

prop("C28", "The automatic time step never exceeds the stability limit it is set by",
     "GlobalStiffnessTimeStepper sets the time step to the safety factor times the smallest critical step over the dynamic bodies, translations and rotations in every direction, from the stiffnesses (and viscosities, if asked) of all current contacts, members counting for their clump; it never exceeds the given maximum or grows faster than 5 percent per update. "
     "It is recomputed in the first steps and then at its interval whenever it is active, keeps the given default or present value while there is nothing to compute from, and saving, loading, added bodies and changed parameters do not disturb it.",
     ["inputs", "histories"], "all contact laws with stiffness, sizes, masses, clumps, blocked bodies, parameters, and sequences of steps, changes and loads",
     "a wrong direction, clump, or growth limit only makes some simulations unstable; the suite never compares the time step",
     ["pkg/dem/GlobalStiffnessTimeStepper.cpp", "pkg/dem/GlobalStiffnessTimeStepper.hpp", "core/TimeStepper.hpp", "core/Scene.cpp"],
     "computeStiffnesses sums directional stiffness per body, findTimeStepFromBody, TimeStepper::isActivated by virtual period",
     B, "The update rule is model checked for every history of limits (spec/MCTimeStep.tla); 350 recorded histories quick (6 000 steps), 4 200 thorough, in which TLC recomputes every critical step from the recorded contacts." + TRUST)

prop("C29", "Totals reported about a simulation are the sums over what is in it",
     "Energy, momenta, force and torque sums, volumes and masses, bounding boxes, porosity, stress, dynamic stress and fabric, forces on a plane, unbalanced force, overlaps, contact lists and counts, and profiles over depth are the sums over the current bodies and real contacts: every clump once, erased bodies and masked-out bodies not at all, periodic shifts and mean-field velocity taken into account. "
     "Actions on many bodies (calm, shift, position, velocity, growth, friction) change exactly the bodies they name and exactly what they say.",
     ["inputs", "histories"], "all scenes of spheres, clumps and facets, periodic (sheared, deforming) or not, with masks, origins, directions and boxes as arguments, after erasures and actions",
     "the suite checks two of these functions on one scene; clumps, erased bodies, periodic shifts and masks each break a different sum",
     ["pkg/dem/Shop_01.cpp", "pkg/dem/Shop_02.cpp", "py/_utils.cpp", "py/utils.py"],
     "Shop:: functions looping over scene->bodies and scene->interactions",
     B, "Conservation between the sums is model checked (spec/MCObserve.tla); 400 recorded scenes quick (1 800 observations of 25 totals), 4 800 thorough, recomputed by TLC from the recorded bodies and contacts." + TRUST)
