D = {}
D["C01"] = """Spec `BodyStore.tla` (with clumps, shared with C02), binding A.  State: slots, what is in them.  Enumerated: every sequence of append, erase,
insert at id, look-up with valid, free and out-of-range ids, save/load in memory, over 3 bodies and 4 slots.
Observed after each operation: result or exception, length, ids seen by iteration, look-up of every id, identity of the body objects.  Cost: 20 s."""
D["C02"] = """Same spec with clump operations (clump, appendClumped, addToClump, releaseFromClump, erase with and without members, updateClumpProperties);
invariants: exactly one role, both sides agree, no nesting.  All behaviours of up to 4 operations over 4 bodies; observed: role, clump id, members on both sides,
mass and centre of every clump, positions.  Quick: random tour of 60 000 steps of the graph, thorough: all transitions.  Cost: 60 s."""
D["C03"] = """Spec `IntrStore.tla`, binding A.  State: bodies with positions on a line of sites (contact between neighbours), the interaction list with kind (potential, real, requested to be erased).
Invariants: one per pair, no real interaction of an absent body.  91 000 transitions; observed: list by iteration, counts, look-up in both orders, per-body lists, real or not.  Replayed with 1 thread, random walks with 3."""
D["C04"] = """`SweepPrune.tla` (the incremental sweep with insertion sort, model checked: pairs found = overlapping pairs after every update, 60 000 states) and `Boxes.tla`/`TBoxes.tla`, binding B:
recorded boxes, masks, clump roles, subdomains and pair list; TLC recomputes the set of eligible overlapping pairs.  Serial and parallel sort (> 1000 bodies, 4 threads), all sort axes, all shapes."""
D["C05"] = """`Periodic.tla` (one-dimensional images, model checked in `MCPeriodic.tla`) and `TPeriodic.tla`, binding B: integer cells (orthogonal and sheared), integer positions up to many cells away; TLC enumerates the images of each pair."""
D["C06"] = """`Verlet.tla`: bodies on a line with stale boxes, margins, displacement trackers and the rule when the collider runs; model checked: a touching pair is always listed (2 and 3 bodies).  Binding B (`TMotion.tla`):
recorded runs with targeted motion (few movers, creeping along one axis, turning clumps, free bouncing); exact where coordinates are integers, tolerance 0.03 otherwise.  Cost 60 s."""
D["C07"] = """`TContact.tla`, binding B, events "law": contacts and bodies of every step logged as scaled integers; stiffness, friction coefficient, normal force, Coulomb limit, and force and torque balance of each body recomputed.  Cost 20 s."""
D["C20"] = """`Friction.tla` (one contact, one direction: invariants Coulomb, NoContactNoForce, Elastic; action property Dissipates) and `TFriction.tla`, binding B: state = normal and shear force of each contact;
each step recomputes the carried force and the increment in fixed point (normals ×20000, velocities ×10000), then sticking or sliding.  Bodies move kinematically, so motion is arbitrary and exactly known.  Energies likewise.  Cost 80 s."""
D["C24"] = """`TContact.tla`, binding B, events "geom": nearest point of each shape in (half-)integers, squared comparisons only; existence of contacts for every pair.  Cost 15 s."""
D["C08"] = """`ForceStore.tla` (model checked in `MCForceStore.tla`), binding B (`TForceStore.tla`) with ids up to 4000, permanent values, resets, growth, threads."""
D["C09"] = """`Newton.tla` is the exact integer integration rule (model checked in `MCNewton.tla` for symmetry, blocked axes, damping), binding B (`TNewton.tla`): each step of each body compared exactly; rotation of orientations and rigid clump motion within tolerances stated in the module."""
D["C10"] = """`EngineLoop.tla`, binding A, complete graph (59 000 transitions): program counter of the step, list in use, pending list, dead flags, sub-stepping; observed: which engines ran in which order, iteration, time, sub-step."""
D["C11"] = """`RunThreads.tla` (controller, worker and pause from outside; all interleavings; termination under fairness) and `RunControl.tla`/`TRunControl.tla`, binding B: number of steps and where the run stopped, including asynchronous pauses."""
D["C12"] = """`PeriodicRun.tla` (the activation rule; `MCPeriodicRun.tla` checks limit, spacing, completeness for all parameters), binding B (`TPeriodicRun.tla`)."""
D["C18"] = """`Decomp.tla`: the message protocol (post receives, send, wait; forces to the master; merge and split with arbitrary new neighbourhoods), all interleavings, 2 workers × 3 iterations and 3 workers × 2; invariants Fresh, FreshForces, Drained, InStep and absence of deadlock.
Binding B (`TDecomp.tla`) with 2–4 real processes: final state against the serial run of the same scene, tolerance 3e-6.  Oracle: the serial run (itself covered by the other properties)."""
D["C19"] = """Same specification; recorded on every rank at every split (lists, presence, boxes) and after every step (digests of all own and mirrored states, contact forces on the master's bodies)."""
D["C13"] = """`SaveLoad.tla` (state, unsaved cache, slots; invariant Determined: the future is a function of the saved state), binding B (`TSaveLoad.tla`): the observed state is one digest per section (bodies, contacts, engines, materials, cell, clock, tags …)
of every attribute readable from Python.  TLC keeps slots and a successor table: load must give the slot, the same operation from the same state must give the same state.  Sessions: five contact laws, periodic cell, clumps, all formats, other processes.  Cost 30 s."""
D["C17"] = """`Cell.tla` (one dimension, exact; invariants Affine, MeanField over all gradient sequences) and `TCell.tla`, binding B: cell and body states after each step in fixed point, recomputed from the previous state.  Cost 20 s."""
D["C14"] = """`Omega.tla`: list of scenes, current index, other scene, slots, reload name, label; binding A: TLC's whole state graph is exported and every transition replayed on the real `O`, where a scene's content is recognised by its number of
bodies, materials, steps and tags.  Cost 25 s."""
D["C15"] = """`Dispatch.tla` (the rule), `MCDispatch.tla` (rule against the remembering matrix, all histories), `TDispatch.tla`, binding B: answers of `dispFunctor` and contacts actually made.  The class tree is read from Python.  Cost 25 s."""
D["C21"] = """`CohesionLaw.tla` (strength, breaking), `Cohesion.tla` (scalar bond over all histories), `TCohesion.tla` with `Vec3.tla` (full vector law), binding B: driven pairs and triples; every step recomputed from the previous logged one.  Cost 25 s."""
D["C25"] = """`Interp.tla` (tables), `MCInterp.tla` (remembering look-up against the table, all histories), `TDrive.tla`, binding B: engines as records with inner state (angle turned, phase, controller); every step folds the engine list over the
bodies' states in integer vector arithmetic (rotations by Rodrigues' formula, sine by series).  Cost 25 s."""

D["C27"] = """`Region.tla` (solids in integers, answers in / out / on the surface), `Packing.tla` (the packing object, random packings), `MCRegion.tla` (a point inside by a margin has only points of the region around it; algebra of regions), `MCPacking.tla`
(all sequences of three operations: grouping, counts and proportions kept), `TPack.tla`, binding B: points, grids, filters, clouds and histories recorded from `yade.pack`.  On a surface itself both answers are accepted.  Cost 30 s."""
D["C28"] = """`TimeStep.tla` (update rule), `MCTimeStep.tla` (never above the limit, the maximum, or 5 % growth, for every history of limits), `TTimeStep.tla`, binding B: every step's contacts (normals, stiffnesses, viscosities, branch vectors) and bodies are recorded,
TLC sums the directional stiffnesses of each body and clump and recomputes the step in fixed point.  Cost 25 s."""
D["C29"] = """`Observe.tla` (sums over bodies and contacts, tensors), `MCObserve.tla` (what a clump, an erasure or a mask may change in the sums), `TObserve.tla`, binding B: all bodies and contacts of a scene are recorded with integer coordinates, next to what the
functions report.  Cost 30 s."""
