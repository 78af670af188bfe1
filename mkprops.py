#!/usr/bin/env python3
"""Regenerates properties.jsonl (single source of the property texts)."""
import json, os
P = []
OV = {"input": "inputs", "history": "histories", "schedule": "schedules", "crash point": "crash_points"}
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = [observe]
    if state: a["state"] = state
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": [OV[o] for o in over], "text": text}, "why_tests_cant": why, "anchors": a})

U, C, E = "CPPQEDutils/", "CPPQEDcore/", "CPPQEDelements/"

prop("C01", "A resumed trajectory carries on exactly as the uninterrupted one would",
 "For every kind of trajectory (plain ODE simulation, master equation, Monte Carlo wave function, ensemble), what is written into a state archive and what is read back are the same quantities in the same order, and together they cover everything that evolution changes and later steps or the closing log depend on: state, time, step-size history, all statistics counters and the random-engine state. Whatever is not stored is re-derived from what was loaded, in particular the origin of the interaction picture is reset to the loaded time. The same holds for the auxiliary records (integrator counters, jump log, random engines) that are stored inside an archive.",
 ["history", "crash point"], "every trajectory type, every integrator, every instant at which a run is interrupted and resumed",
 "a test would have to interrupt at every step of every trajectory type with every system; the build here does not even compile the continue-tests", 
 [U+"ODE.h", U+"ODE_GSL.h", U+"Simulated_.h", U+"StochasticTrajectory.h", U+"Random.h", U+"Random.cc", C+"quantumtrajectory/MCWF_Trajectory.h", C+"quantumtrajectory/Master.h", C+"quantumtrajectory/MCWF_TrajectoryLogger.h"],
 [("stateIO of every trajectory and of the integrator", U+"ODE.h"), ("serialize of loggers and engines", C+"quantumtrajectory/MCWF_TrajectoryLogger.h")],
 "archives written and read by a trajectory")

prop("C02", "Incompatible state files are refused before anything is overwritten",
 "Reading a saved state compares the kind of trajectory, the element type and the rank recorded in the archive with those of the running trajectory, and a mismatch in any one of them raises an error before any part of the trajectory has been changed; only archives marked as containing a bare array take the separate array-only route. The recorded metadata contains each of these items, and each trajectory type describes itself by a description no other type uses. A state file that cannot be opened raises an error in both directions.",
 ["input"], "every combination of archive content and running trajectory",
 "tests resume only from matching files", [U+"Trajectory.h", U+"Trajectory.cc", C+"quantumtrajectory/MCWF_Trajectory.h", C+"quantumtrajectory/Master.h", U+"StochasticTrajectory.h", U+"Simulated_.h"],
 [("metadata comparison when reading a state", U+"Trajectory.h"), ("opening of state files", U+"Trajectory.cc")], "reading a state file")

prop("C03", "A run saves and streams its last point exactly once, however it ends",
 "Whenever a run with a trajectory file ends normally, whether by reaching its end or by the automatic-stop criterion, the last state reached is written to the state file, and not twice; the last point is streamed exactly once as well. State files are only ever appended to, in binary mode, and a resumed run continues from the last state found in the file. Each written state is framed by its length so that it can be read back or skipped as a whole.",
 ["history", "schedule"], "every combination of streaming and saving frequency, end time, resume and automatic stop",
 "combinations of frequencies, resume and stop conditions are sampled at a handful of points", [U+"Trajectory.h", U+"Trajectory.cc"],
 [("the run loop", U+"Trajectory.h"), ("state framing", U+"Trajectory.h"), ("file open modes", U+"Trajectory.cc")], "state file and output stream after a run")

prop("C04", "Time stepping never oversteps, and reports the step it really made",
 "An adaptive step never attempts more than the interval it was given, in either time direction; failed attempts are retried until one succeeds, and the step size reported afterwards is the time really advanced. Advancing a trajectory to a time stops at that time exactly and not beyond, and the step-size suggestion from before a much shorter step is not lost. The statistics count every completed step once, every failed attempt once and every derivative evaluation once.",
 ["input", "history"], "every interval, step-size history and sequence of accepted and rejected attempts",
 "a test sees a few smooth problems, where clamping, retrying and direction changes hardly occur", [U+"ODE.h", U+"ODE_GSL.h", U+"Trajectory.h"],
 [("adaptive step", U+"ODE.h"), ("advance", U+"Trajectory.h"), ("counters", U+"ODE.h")], "integrator step and advance calls")

prop("C05", "Error tolerances reach the integrator in their own roles, with every engine",
 "The relative tolerance a user sets bounds the relative error and the absolute tolerance the absolute error, whichever stepping engine is used, and the parameters reported for a run and stored with the stepper are the ones in effect. The parameters the user gives for the integrator (tolerances, log level) are the ones handed on, none replaced by another. A rejected trial step of either engine is reported as failed and leaves state and time as they were.",
 ["input"], "every pair of tolerances and every engine", "the two tolerances have values under which tests pass with their roles exchanged", [U+"ODE.h", U+"ODE_GSL.h"],
 [("construction of steppers", U+"ODE.h"), ("GSL stepper", U+"ODE_GSL.h")], "construction of the integrator from parameters")

prop("C06", "A quantum-jump step is transactional and keeps the state normalised",
 "Before a step of the Monte Carlo wave-function method counts, the total jump probability of that step is checked against its limit; when it is overshot, everything the coherent part changed (state vector, time, interaction-picture origin, last step size) is put back before the shorter retry. The state is renormalised after every coherent part and is normalised after every jump. At most one jump happens per step, it is the channel the drawn number falls on, evaluated with rates of the current state and time, and exactly that channel is logged.",
 ["history", "schedule"], "every sequence of overshoots, retries and jumps, every system with or without Hamiltonian, exact or dissipative part",
 "the code is not even compiled by the tests here, and overshoots and negative (alternative) rates are rare events", [C+"quantumtrajectory/MCWF_Trajectory.h", C+"quantumtrajectory/MCWF_TrajectoryLogger.h", C+"quantumtrajectory/MCWF_TrajectoryLogger.cc"],
 [("step, step-back, jump", C+"quantumtrajectory/MCWF_Trajectory.h")], "one step of a Monte Carlo trajectory")

prop("C07", "A master-equation step stays physical and uses every channel",
 "Each step leaves the density operator Hermitian and of unit trace. Its time derivative starts from zero, and consists of the (non-Hermitian) Hamiltonian part applied from one side plus its Hermitian conjugate, and the contribution of every decay channel exactly once. When there is an exact part it is applied from both sides and the interaction-picture origin then moves to the current time.",
 ["input", "history"], "every system, every state, every step", "tests in this tree do not run the master equation at all", [C+"quantumtrajectory/Master.h", C+"quantumdata/DensityOperator.h"],
 [("derivative and step", C+"quantumtrajectory/Master.h")], "one master-equation step")

prop("C08", "An ensemble treats all its trajectories alike",
 "Advancing, saving, loading and averaging an ensemble each cover every member exactly once, all members are advanced by the same interval, and the ensemble average divides by the number of members. The members of an ensemble made from one set of parameters use pairwise different random streams and otherwise identical parameters. Columns of the streamed output and of its key come from the same source.",
 ["input", "history"], "every ensemble size and every history", "no ensemble is run by the tests", [U+"StochasticTrajectory.h", C+"quantumtrajectory/MCWF_Trajectory.h", C+"quantumtrajectory/MCWF_TrajectoryLogger.h"],
 [("ensemble loops", U+"StochasticTrajectory.h"), ("ensemble creation", C+"quantumtrajectory/MCWF_Trajectory.h")], "ensemble step, averaging, archive")

prop("C09", "Random engines are reproducible and restored or refused",
 "A random engine is seeded by exactly the seed and stream number reported for it, and its complete state is what is saved and loaded; text that is not a valid state of that very engine raises an error instead of leaving the engine in an undefined state. Loading and saving are inverse for every engine offered.",
 ["input"], "every engine, every seed, every stored text", "only valid round trips of one engine could be sampled", [U+"Random.h", U+"Random.cc"],
 [("engine load/save", U+"Random.h"), ("GSL engine text format", U+"Random.cc")], "engine serialization")

prop("C10", "State vectors and density operators have value semantics unless asked otherwise",
 "Copying a state vector or density operator, or constructing one without the by-reference marker, gives independent storage, so that changing one never changes the other; assignment takes over the elements and leaves the right-hand side alone; objects constructed by reference share storage and stay in step, whichever of them is written. Sums, differences, multiples, negatives and direct products are new objects with the elements to be expected, and leave their operands alone. The dimensions an object reports always are those of its array, also after referring to another array or permuting the axes.",
 ["input", "history"], "every sequence of constructions, copies, assignments and moves", "aliasing shows only when the other object is used later", [C+"quantumdata/StateVector.h", C+"quantumdata/DensityOperator.h", C+"quantumdata/ArrayBase.h", C+"quantumdata/DimensionsBookkeeper.h"],
 [("constructors and assignments", C+"quantumdata/StateVector.h"), ("array ownership", C+"quantumdata/ArrayBase.h")], "object construction and assignment")

prop("C11", "Slices address every subsystem correctly, and ill-formed slicings do not compile",
 "For every rank and every choice of retained subsystems, each slice has exactly the retained axes, in the given order, with every other axis fixed to one index. Iterating over slices visits every combination of the indices of the other axes exactly once, whatever the bounds of the array. This holds alike for bare arrays, for state vectors and, diagonally in the other axes, for density operators. A slicing with a repeated, negative or too large index is rejected at compile time, and no other one is.",
 ["input"], "every rank and index vector", "tests instantiate a few index vectors", [U+"SliceIterator.h", U+"SliceIterator.tcc", U+"TMP_Tools.h", U+"MultiIndexIterator.h"],
 [("axis permutation metafunctions", U+"SliceIterator.h"), ("multi-index iteration", U+"MultiIndexIterator.h")], "slice ranges")

prop("C12", "Pure states and density operators agree through the common view",
 "Read through the common density-operator view, a pure state behaves exactly as its dyad: element (i,j) is the amplitude at i times the conjugate amplitude at j, and the trace is its squared norm. Storing a density operator as a list of reals and restoring it are inverse to each other, element by element, and partial traces sum over all dummy indices with equal weight. Turning a pure state into a density operator gives this same dyad.",
 ["input"], "every state and every pair of indices", "tests compare a few derived numbers of random states", [C+"quantumdata/LazyDensityOperator.h", C+"quantumdata/StateVector.h", C+"quantumdata/DensityOperator.h"],
 [("index and trace of the two implementations", C+"quantumdata/StateVector.h"), ("deflate / inflate", C+"quantumdata/LazyDensityOperator.h")], "indexing and partial traces")

prop("C13", "Every output column has exactly one key entry, in the same order",
 "For every element and interaction the number of expectation values it computes, post-processes and streams equals the number of labels in its key, every computed quantity lands in the column of its label, and no post-processing touches a column outside that range. Composite systems list the keys of their parts in the same order in which they compute, post-process and stream the values. An averaging routine returning the wrong number of values or a non-finite one raises an error.",
 ["input"], "every element, every composite, every state", "a shifted or missing column is a legal number in the output", [C+"structure/LiouvilleanAveragedCommon.h", C+"structure/ElementAveraged.h", C+"composites/BinarySystem.cc", C+"composites/Composite.tcc", E+"frees/Mode.cc", E+"frees/Qbit.cc", E+"frees/Spin.cc", E+"frees/Particle.cc", E+"interactions/ModeCorrelations.cc", E+"interactions/QbitModeCorrelations.cc", E+"utils/AveragingUtils.h"],
 [("labels vs computed values", E+"frees/Mode.cc"), ("ranges in composites", C+"composites/Composite.tcc")], "averages and keys")

prop("C14", "Jumps, rates, superoperators and decay terms of an element describe one process",
 "For every decay channel of the modes, qbits, spins, multilevel systems and the pumped two-level atom, the rate is the squared norm of the jumped state (or is marked as to be computed from the jump), and the superoperator, where one is offered, is the jump applied from both sides, up to a common multiple of the state for channels that leave populations alone. The Hamiltonian together with the exact propagation removes norm at exactly the summed rates, up to a constant and away from the highest Fock state. All of them are driven by the same user parameter with the same temperature factor, and the number and order of channels agree everywhere, including in the key.",
 ["input"], "every state, every parameter value, every channel", "Monte Carlo and master results would have to be compared statistically for every element", [E+"frees/Mode.cc", E+"frees/Mode_.h", E+"frees/Mode.tcc", E+"frees/Qbit.cc", E+"frees/Qbit_.h", E+"frees/Spin.cc", E+"frees/Spin.h", E+"frees/MultiLevel.h", E+"frees/HomodynedMode.cc", E+"frees/HomodynedMode.h", E+"frees/PumpedTwoLevelAtom.cc", C+"structure/ElementLiouvillean.h"],
 [("jump / rate / superoperator triples", E+"frees/Mode.cc"), ("decay part of Hamiltonians", E+"frees/Mode_.h")], "element interfaces")

prop("C15", "A composite system evolves with all of its parts, each on its own subspace",
 "The Hamiltonian, exact propagation, jump rates, averages, key and highest frequency of a composite system collect the contribution of every free subsystem and every interaction exactly once, each acting on the slice belonging to it and with the unchanged time arguments. Which capabilities a composite offers is exactly the union of its parts' capabilities.",
 ["input"], "every network of subsystems and interactions", "only a handful of networks are ever built", [C+"composites/BinarySystem.cc", C+"composites/BinarySystem.h", C+"composites/Composite.tcc", C+"composites/Composite.h", C+"composites/SubSystem.h"],
 [("contribution loops", C+"composites/Composite.tcc"), ("binary system", C+"composites/BinarySystem.cc")], "composite interfaces")

prop("C16", "Composite systems map every jump and average index to the right part",
 "The decay channels and expectation values of a composite are numbered consecutively over its parts, in one order that is the same for keys, rates, jumps and superoperators. A jump or superoperator index therefore reaches exactly one part, with the index local to that part, also when some parts have no channels.",
 ["input"], "every composite, every index, every pattern of parts with and without channels", "index arithmetic goes wrong only for particular patterns of missing parts", [C+"composites/BinarySystem.cc", C+"composites/Composite.tcc"],
 [("index walking", C+"composites/BinarySystem.cc")], "jump dispatch")

prop("C17", "Every frequency of a system is known to the step-size heuristics",
 "Every frequency-like parameter entering the Hamiltonian or decay of an element obtained from the makers (detunings, pump strengths, decay rates with their temperature factor, recoil frequency, couplings) is registered among the frequencies of that element, with the multiplier its term has: the largest matrix element of the operator next to it when the term is in the Hamiltonian (the cutoff for a number operator, its square root for a ladder operator), one when it is propagated exactly. The highest frequency of a system is the largest magnitude of value times multiplier over all its parts, interactions included. The initial time step of every trajectory is a tenth of the inverse of that highest frequency.",
 ["input"], "every element and parameter set", "a missing frequency only makes the first steps too long for particular parameter values", [C+"structure/DynamicsBase.cc", C+"structure/DynamicsBase.h", E+"frees/Mode.cc", E+"frees/Qbit.cc", C+"composites/Composite.tcc", C+"composites/BinarySystem.cc", C+"quantumtrajectory/QuantumTrajectory.h"],
 [("frequency registration", E+"frees/Qbit.cc"), ("maximum", C+"structure/DynamicsBase.cc")], "highest frequency")

prop("C18", "Time arguments mean the same for every kind of system",
 "A system that depends on both times gets both, one depending on the time elapsed since the interaction-picture origin gets exactly current time minus origin, and a time-independent one gets none; this holds alike for Hamiltonian, exact, dissipative and averaging parts. Exact propagation by a diagonal uses the diagonal for the very times asked for, and the interaction-picture frequencies of a Hamiltonian are those of its exact part.",
 ["input", "history"], "every time pair and every time-dependence class", "a wrong origin is invisible as long as it is zero", [C+"structure/Hamiltonian.h", C+"structure/Exact.h", C+"structure/Liouvillean.h", C+"structure/Averaged.h", C+"structure/TimeDependence.h", C+"structure/FreeExact.h", C+"quantumoperator/TridiagonalHamiltonian.h"],
 [("time dispatching", C+"structure/TimeDependence.h"), ("diagonal cache", C+"structure/FreeExact.h")], "calls into systems")

prop("C19", "Tridiagonal operator algebra is consistent",
 "Applying a tridiagonal operator to a state adds exactly its matrix times the state; Hermitian conjugation, sums, scalar multiples and direct products commute with that. Adding operators of different structure or frequencies, and multiplying ones that are at different times, raises an error instead of giving a wrong operator. Propagating to a time multiplies each off-diagonal element by its own phase and leaves the main diagonal alone, and whether operators are propagated before or after they are combined makes no difference.",
 ["input"], "every operator, dimension and time", "tests use a few operators on a few states", [C+"quantumoperator/Tridiagonal.cc", C+"quantumoperator/Tridiagonal.tcc", C+"quantumoperator/Tridiagonal.h"],
 [("algebra", C+"quantumoperator/Tridiagonal.tcc")], "operator arithmetic")

prop("C20", "Command-line parameters are taken exactly or the program stops",
 "Registering a second parameter under an existing name and asking for an unregistered one both raise errors. An unknown option, a value that does not parse, or one missing its value, stops the program; a boolean option is true when given, false when given in its negated form, and nothing else in the table changes. The original command line is kept for the output.",
 ["input"], "every command line", "the space of command lines cannot be sampled", [U+"Pars.h", U+"Pars.cc", U+"BooleanNegatedProxy.h", U+"BooleanNegatedProxy.cc"],
 [("table and parser", U+"Pars.cc")], "parameter table")

prop("C21", "Textual names of choices are read back as what they were written",
 "For every enumerated user choice (evolution method, quantum-mechanical picture, mode-function type) the name written for a value is accepted when read and yields that same value, every value has its own name, and any other text is flagged as an input error. Picking the interaction picture together with the master equation is turned into the unitary one, and nothing else is; the method chosen decides the kind of trajectory that is run.",
 ["input"], "every value and every text", "tables drift apart one entry at a time", [C+"quantumtrajectory/EvolutionMethod.cc", C+"high/QM_Picture.cc", C+"high/QM_Picture.h", E+"utils/ModeFunction.cc"],
 [("name tables", C+"quantumtrajectory/EvolutionMethod.cc")], "parsing and printing of choices")

prop("C22", "Mismatched building blocks are refused at construction",
 "A trajectory over a state whose dimensions differ from the system's, a composite in which two interactions disagree about a shared subsystem or leave one out, a master equation for a system it cannot treat, and an interaction or matrix of the wrong shape are refused with an error (or do not compile) before anything is evolved. A correctly matched construction is never refused.",
 ["input"], "every combination of parts", "tests build well-formed systems", [C+"quantumtrajectory/Master.h", C+"quantumtrajectory/MCWF_Trajectory.h", C+"composites/Composite.h", C+"composites/Composite.tcc", C+"composites/BinarySystem.cc", E+"frees/TimeIndependentMatrixHamiltonian.cc", C+"quantumdata/DimensionsBookkeeper.h"],
 [("construction checks", C+"quantumtrajectory/Master.h")], "constructors")

prop("C23", "Makers build the element the parameters ask for",
 "The maker functions choose the class with a pump exactly when the pump strength is non-zero, with decay exactly when a decay rate is non-zero, with finite temperature exactly when the thermal photon number is non-zero, and in the picture requested, and hand every parameter on in its own role. Every combination is covered, none falls through to another one. (A doubly pumped mode exists in the interaction picture only.)",
 ["input"], "every combination of parameters", "a dozen classes per element times every parameter pattern", [E+"frees/Mode.cc", E+"frees/Mode.tcc", E+"frees/Qbit.cc", E+"frees/Particle.cc", E+"frees/Spin.cc", E+"frees/ParsMode.cc"],
 [("maker dispatch", E+"frees/Mode.tcc")], "element creation")

prop("N01", "Numerical solutions converge to the exact dynamics as tolerances shrink",
 "As the tolerances and the jump-probability limit go to zero, trajectories converge to the exact solution of the equation of motion at the order of the method.",
 ["input"], "every system and initial condition", "a limit statement", [U+"ODE.h"], [("steppers", U+"ODE.h")])
prop("N02", "Ensembles of quantum jumps reproduce the master equation statistically",
 "The average over many Monte Carlo trajectories agrees with the master-equation solution within statistical error.",
 ["input", "schedule"], "every system", "a statistical statement", [C+"quantumtrajectory/MCWF_Trajectory.h"], [("unravelling", C+"quantumtrajectory/MCWF_Trajectory.h")])
prop("N03", "Density operators stay positive during evolution",
 "All eigenvalues of an evolved density operator stay non-negative up to the tolerance.",
 ["input", "history"], "every system and step", "a numerical statement about eigenvalues", [C+"quantumtrajectory/Master.h"], [("integration", C+"quantumtrajectory/Master.h")])
prop("N04", "Phase-space functions and entanglement measures have textbook values",
 "Wigner and Q functions, discrete Fourier transforms, negativity, entropy and mutual information equal their mathematical definitions for every state.",
 ["input"], "every state", "numerical special functions and eigenvalue decompositions", [C+"quantumdata/DistributionFunctions.h", C+"quantumdata/LazyDensityOperatorFFT.cc", C+"quantumdata/EntanglementMeasures.h"], [("distribution functions", C+"quantumdata/DistributionFunctions.h")])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
