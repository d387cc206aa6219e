#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line) from the table below."""
import json, os, sys
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(zip(("name","meaning","where"),s)) for s in state],
                     mechanism=[dict(zip(("name","where"),m)) for m in mech],
                     observe_at=list(observe), hook_needed=hook)))

# ---------------------------------------------------------------- concurrency
p("C01","Threaded assembly gives the serial system, without data races",
 "When several threads assemble element matrices and vectors into the global equation system, each thread working through whole element groups of the library's own colouring, the assembled matrix (sparse, dense or diagonal), right-hand sides, reaction forces and scalar sums equal those of a serial assembly, and both equal the sum of the element contributions mapped through the constraint equations of the dofs, for every interleaving of the threads. No two threads touch the same memory location without synchronisation while doing so. This holds with constrained dofs, multi-point constraints with distinct masters, prescribed values, several matrices and vectors, repeated assembly, and whether or not the sparsity pattern was established in advance. A product of the assembled matrix with a vector, computed by several threads, equals the serial product.",
 ["schedules","inputs","configurations"],
 "every interleaving at the level of shared-memory accesses of 1..8 worker threads, over structured meshes in 1-3D, boundary conditions, matrix formats and pre-established or dynamic sparsity pattern",
 "The unit tests assemble single elements serially; no test runs two threads into one system, so no interleaving is ever sampled.",
 ["src/ASM/AlgEqSystem.C","src/LinAlg/SAM.C","src/LinAlg/SystemMatrix.C","src/LinAlg/SparseMatrix.C","src/LinAlg/DenseMatrix.C","src/LinAlg/DiagMatrix.C","src/Utility/ThreadGroups.C"],
 [("locked sparsity pattern: in-place accumulation","src/LinAlg/SparseMatrix.C (preAssemble, assemble)"),("serialisation of unsafe updates","src/ASM/AlgEqSystem.C (assemble)"),("element colouring","src/Utility/ThreadGroups.C")],
 [("A","values of the locked sparse matrix","src/LinAlg/SparseMatrix.h"),("R","reaction force vector","src/ASM/AlgEqSystem.h")],
 ["AlgEqSystem::assemble","AlgEqSystem::finalize","SystemMatrix::operator()"])
p("C02","Element thread groups are a complete conflict-free partition",
 "For any structured patch in two or three parameter directions and any number of available threads, the calculated thread groups contain every element exactly once, there are never more simultaneous groups than threads, and two elements of simultaneous groups never share a node of the spline basis. A prescribed stripe direction is kept. This holds for any history of the object: calculating again with another number of threads or other stripes, renumbering through an element map, filtering through an element list in any order, copying. The single group and the single stripe contain exactly the listed elements, or all elements, once.",
 ["configurations","inputs","schedules"],
 "all element counts in 2-3 parameter directions (including zero-span elements and fewer elements than threads), polynomial degrees, stripe directions and thread counts, with the thread count being an environment-decided quantity at run time",
 "TestThreadGroups checks a few fixed sizes with one fixed thread count per test.",
 ["src/Utility/ThreadGroups.C","src/Utility/ThreadGroups.h"],
 [("stripe partitioning","src/Utility/ThreadGroups.C (calcGroups)"),("mapping to element numbers","src/Utility/ThreadGroups.C (applyMap)")],
 (),["ThreadGroups::calcGroups","ThreadGroups::applyMap","ThreadGroups::operator[]"])
p("C03","Expression functions may be evaluated by all threads at once",
 "A scalar, vector or tensor function parsed from a (deterministic) text expression returns, when evaluated simultaneously by any number of worker threads up to the maximum configured when it was parsed, exactly the values a single thread obtains for the same points and times, whatever was evaluated before: values, first and second derivatives, gradients and hessians, given explicitly, by finite differences or by automatic differentiation. A parameter set before the parallel region, or by a thread for its own evaluations, is seen by the values and all derivatives. A failing evaluation (such as a division by zero) yields zero and is counted, exactly once, without harming the other threads. No evaluation touches shared memory unsynchronised.",
 ["schedules","inputs"],
 "all interleavings of up to 8 evaluating threads over a family of expressions, points and derivative directions",
 "The tests evaluate expressions from one thread, or from an OpenMP loop whose schedule the test does not control.",
 ["src/Utility/ExprFunctions.C","src/Utility/ExprFunctions.h","3rdparty/expreval/expr.cpp"],
 [("one parser instance per thread","src/Utility/ExprFunctions.C")],
 (),["EvalFunc","EvalFunction","EvalMultiFunction"])
p("C04","Solver instances sharing a process do not influence each other",
 "Two or more nonlinear or dynamic solvers living in one process, advanced in any interleaving of their time steps and iterations, each produce exactly the convergence decisions, iteration counts and solutions they produce when run alone. In particular what one solver has seen of residual history never changes whether the other is judged converged, slow or diverged.",
 ["schedules","histories"],
 "every interleaving of per-iteration and per-step calls of 2-3 solvers with different tolerances, norms and residual histories",
 "Each solver test owns the process: no test interleaves two instances at iteration level, which is what staggered coupling does.",
 ["src/SIM/NonLinSIM.C","src/SIM/NewmarkSIM.C","src/SIM/NewmarkNLSIM.C","src/SIM/HHTSIM.C","src/SIM/GenAlphaSIM.C","Apps/Utils/SIMCoupledSI.h"],
 [("convergence bookkeeping","src/SIM/NonLinSIM.C (checkConvergence)"),("convergence bookkeeping","src/SIM/NewmarkSIM.C (checkConvergence)")],
 (),["NonLinSIM::solveIteration","NewmarkSIM::solveIteration"])

# ---------------------------------------------------------------- time / histories
p("C05","Time stepping visits the prescribed instants and recovers from cut-backs",
 "With a prescribed sequence of time steps the simulation visits exactly the accumulated instants, each step starting where the last accepted one ended, and stops at (never beyond) the final time; a step that was rejected and cut back is redone from the same start time with a smaller increment and time never jumps or runs backwards otherwise. Iteration-driven step control and cut-back change the increment by the configured factors and keep it within its configured bounds, the CFL control approaches its limit as configured, step definitions may be given as sizes, numbers of steps or graded geometrically, and a cut-back affects only what follows, so that the final time is still reached exactly. Copying, saving and restoring the time state continues the same sequence of instants.",
 ["histories","fault_sequences","crash_points"],
 "all histories of accepted steps, rejected steps at arbitrary places, save/restore at arbitrary places, over random step specifications (explicit lists, segments, bounds)",
 "No test drives the stepping object through rejected steps or restores; its failure paths are only reached by diverging simulations.",
 ["src/SIM/TimeStep.C","src/SIM/TimeStep.h"],
 [("increment","src/SIM/TimeStep.C (increment)"),("cutback","src/SIM/TimeStep.C (cutback)"),("save and restore","src/SIM/TimeStep.C (serialize, deSerialize)")],
 [("mySteps","prescribed step segments","src/SIM/TimeStep.h"),("lstep","steps done in the current segment","src/SIM/TimeStep.h")],
 ["TimeStep::increment","TimeStep::cutback","TimeStep::deSerialize"])
p("C06","A restarted simulation continues as if never interrupted",
 "If a simulation is killed at any point after a completed checkpoint and restarted from that checkpoint in a fresh process, every later time level (instant, increment, displacement, velocity, acceleration and convergence history as far as it affects results) is the same as in the uninterrupted run. This holds for the quasi-static nonlinear, Newmark, nonlinear Newmark, HHT and generalized-alpha integrators and for coupled simulators, whichever optional quantities they carry.",
 ["crash_points","histories","configurations"],
 "every time level as kill point, including the very first and repeated kills, over integrators, integrator parameters, nonlinear models, variable step sizes and cut-backs before the kill",
 "No test restarts any solver: the (de)serialisation code of the solvers is not executed by the suite.",
 ["src/SIM/SIMsolution.C","src/SIM/NonLinSIM.C","src/SIM/MultiStepSIM.C","src/SIM/NewmarkSIM.C","src/SIM/NewmarkNLSIM.C","src/SIM/HHTSIM.C","src/SIM/GenAlphaSIM.C","src/SIM/TimeStep.C","Apps/Utils/SIMCoupled.h","Apps/Utils/SIMSolver.h"],
 [("serialisation of solver state","src/SIM/*SIM.C (serialize, deSerialize)"),("restart","Apps/Utils/SIMSolver.h (restart)")],
 (),["SIMSolver::solveProblem","SIMSolver::restart"])
p("C07","The checkpoint file returns exactly what was last stored for a level",
 "Reading a restart level returns, for every name, byte for byte the data last written for that level, and asking for the most recent level returns the level of the last checkpoint taken, whatever earlier runs left in the file. This holds over any history of runs that start from scratch, are killed, restart from some level, and write checkpoints of varying names, sizes and intervals into one file. A level that was never written is reported as an error.",
 ["histories","crash_points"],
 "all histories of run / kill / restart / rerun with different strides, data names and sizes over one restart file",
 "No test writes a restart file twice or reads a level that was left by another run.",
 ["src/Utility/HDF5Restart.C","src/Utility/HDF5Base.C"],
 [("stride and level counting","src/Utility/HDF5Restart.C (dumpStep)"),("write and read of level groups","src/Utility/HDF5Restart.C (writeData, readData)")],
 (),["HDF5Restart::writeData","HDF5Restart::readData"])
p("C08","Checkpoint writes and reads are honest under storage faults",
 "If opening, writing, extending or closing the file fails while a checkpoint is written (full disk, I/O error, unwritable file), the write is reported as failed, and if it is reported as successful all its data can be read back. Neither a failed checkpoint nor one torn by killing the process while it adds a level makes reading return wrong bytes, and neither does a failing or truncated read: reading any level that was not being replaced either returns exactly the data stored for it or reports an error, and asking for the most recent level never returns an older one unreported.",
 ["fault_sequences","crash_points"],
 "storage faults (ENOSPC, EIO, short write, failing open, failing read) at every file operation of every checkpoint write or read, and kills between file operations",
 "No test injects any storage fault: error branches of the restart code are never executed.",
 ["src/Utility/HDF5Restart.C","src/Utility/HDF5Base.C"],
 [("error propagation from the file layer","src/Utility/HDF5Restart.C (writeData, readData)"),("open/close","src/Utility/HDF5Base.C (openFile, closeFile)")],
 (),["HDF5Restart::writeData","HDF5Restart::readData"])
p("C09","Result export happens at exactly the due steps, in consecutive levels",
 "Over any sequence of time steps, a step is exported if and only if it is step zero or at least the current output stride after the last exported step. Each exported step produces exactly one new level in every registered writer, numbered consecutively from the start level (or after the last level in the file when exporting without time), opened and closed once and stamped with that step's time, containing every registered field exactly once with its current value, except fields that are switched off; a step that is not due produces nothing. A field marked once is exported at the first level only, unless switched on again, and stride changes and switching of fields commanded through the control channel take effect at the next step. A field without value and a failing writer are reported without preventing the other writers from being served. The restart checkpoint decision is likewise taken at exactly the first step at least the restart stride after the last checkpoint.",
 ["histories","configurations"],
 "all histories of step numbers (with repeats and skips), strides, registration sets, control commands and writers failing at arbitrary levels",
 "No test drives the exporter over a history; the suite has no test of it at all.",
 ["src/Utility/DataExporter.C","src/Utility/DataExporter.h","src/Utility/HDF5Restart.C"],
 [("stride and level logic","src/Utility/DataExporter.C (dumpTimeLevel)"),("control commands","src/Utility/DataExporter.C (OnControl)")],
 (),["DataExporter::dumpTimeLevel","DataExporter::OnControl","DataWriter"])
p("C10","Exported result files read back exactly, and never lie under faults",
 "Every non-empty vector, integer vector and time stamp exported at a level of a result file is read back bit for bit from that level, for any number of levels, names, sizes and sessions appending to the file. When a file operation fails during export or import, an export reported as successful can be read back, and reading never returns data other than what was exported for that level: it returns the data or reports failure.",
 ["fault_sequences","histories"],
 "all histories of export sessions, levels and data sets, with storage faults at every file operation",
 "No test round-trips a result file in this configuration and none injects storage faults.",
 ["src/Utility/HDF5Writer.C","src/Utility/HDF5Reader.C","src/Utility/HDF5Base.C"],
 [("writing arrays","src/Utility/HDF5Writer.C (writeArray, writeVector)"),("reading arrays","src/Utility/HDF5Reader.C (readVector)")],
 (),["HDF5Writer","HDF5Reader"])
p("C11","Commands on the control channel are delivered exactly once, in order",
 "Every complete command written to the control pipe of a running simulation is dispatched to the registered callback exactly once and in the order written, no matter how writes are split, merged or interleaved with polls, how long a message is, and whether several messages are pending at one poll. Malformed or unknown input is ignored, once it is ended by a NUL byte or by its writer closing the pipe, without losing later commands and without touching memory it does not own; polling never blocks the simulation. Opening the channel reports whether it can be used, and the pipe is removed at shut-down.",
 ["schedules","histories","fault_sequences","inputs"],
 "all splits and mergings of command bytes over polls, message lengths around internal buffer limits, interrupted or failing reads, and writers opening and closing at arbitrary points",
 "The only test writes one small message and polls once.",
 ["src/Utility/ControlFIFO.C","src/Utility/ControlFIFO.h"],
 [("polling and dispatch","src/Utility/ControlFIFO.C (poll)")],
 (),["ControlFIFO::poll","ControlCallback::OnControl"])
p("C12","Linear solves are right or reported failed over any solve history",
 "Over any sequence of assembling (each assembly starting from a cleared matrix, the sparsity pattern being complete from the start or after the first assembly), re-initialising, scaling, shifting the diagonal, adding, multiplying, copying, solving, and re-solving with the old factors for one or several right-hand sides, a solve that reports success returns the solution of the current matrix for the current right-hand side, for dense, symmetric dense, sparse direct (SuperLU, UMFPACK) and diagonal systems alike, and a product is that of the current matrix. If the factorisation or solution routine fails (singular matrix, out of memory) the solve reports failure, a later success is never a wrong solution, and the same object solves correctly once it is assembled anew. A well-conditioned system is never reported as failed unless the library failed.",
 ["histories","fault_sequences"],
 "all operation histories of length up to ~25 on systems up to size ~30, with solver-library failures (singular, memory) injected at arbitrary calls",
 "The tests solve each system once or twice with a well-conditioned matrix, and never see a failing factorisation.",
 ["src/LinAlg/SparseMatrix.C","src/LinAlg/DenseMatrix.C","src/LinAlg/DiagMatrix.C","src/LinAlg/SystemMatrix.C","src/ASM/AlgEqSystem.C"],
 [("factorisation reuse flags","src/LinAlg/SparseMatrix.C (solveSLUx, solveUMF)"),("factorisation reuse","src/LinAlg/DenseMatrix.C (solve)")],
 (),["SystemMatrix::solve","AlgEqSystem"])
p("C13","Static condensation files are complete or the reduction fails",
 "Reducing a sparse system to the free dofs of any set of retained nodes (homogeneous constraints) returns the Schur complement and condensed load of the assembled system, and recovering the internal dofs from any retained solution reproduces the full solution, from the recovery file in the same session and in a later one. Under storage faults or kills while the recovery file is written or read, or a failing equation solver, the operation either reports failure or what is recovered is still right: a file whose writing was reported as successful can be read back in full, and a file left incomplete is never read as a complete one.",
 ["fault_sequences","histories","inputs"],
 "systems and retained-dof sets of any layout, and storage faults at every file operation while writing or reading the recovery data",
 "One test condenses one small matrix without file faults; recovery from file with faults is never run.",
 ["src/ASM/AlgEqSystem.C","src/LinAlg/SparseMatrix.C","src/LinAlg/DenseMatrix.C"],
 [("condensation","src/ASM/AlgEqSystem.C (staticCondensation)"),("recovery","src/ASM/AlgEqSystem.C (recoverInternals)")],
 (),["AlgEqSystem::staticCondensation","AlgEqSystem::recoverInternals"])
p("C14","A nonlinear or dynamic solution step reports its true outcome under any failure",
 "A solution step of the quasi-static nonlinear driver and of the dynamic drivers (Newmark, nonlinear Newmark, HHT, generalized alpha) reports convergence only if the configured criterion (norm, reference norm, tolerances, iteration and divergence limits) is met in its last iteration, where residual and correction are those of the discretized equations of motion at the current iterate; the solution returned is then that iterate with its last correction added, it takes the prescribed values and satisfies the couplings, and the velocities and accelerations follow from the displacements through the Newmark relations. When the criterion is not met the step reports divergence, and any failure of assembly, load or boundary condition update, or equation solver in any iteration is reported as failure or divergence. A step that did not converge leaves the stored previous solutions untouched, and after the client has put back the current solution, the reference norm and the time state, the repeated step gives the same result as if the failed attempt had never been made.",
 ["fault_sequences","histories"],
 "failures of element assembly, loads, constraints and equation solver, non-finite and excessive loads, at every iteration of every step, over random models, solver settings and integrators",
 "The tests let every iteration succeed.",
 ["src/SIM/NonLinSIM.C","src/SIM/NewmarkSIM.C","src/SIM/NewmarkNLSIM.C","src/SIM/HHTSIM.C","src/SIM/GenAlphaSIM.C","src/SIM/MultiStepSIM.C"],
 [("iteration loop","src/SIM/NonLinSIM.C (solveStep)"),("iteration loop","src/SIM/NewmarkSIM.C (solveStep)"),("correction","src/SIM/HHTSIM.C, src/SIM/NewmarkNLSIM.C, src/SIM/GenAlphaSIM.C (correctStep)")],
 (),["NonLinSIM::solveStep","NewmarkSIM::solveStep"])
p("C15","Staggered coupling follows its iteration contract under failures",
 "In a staggered coupled simulation every sub-solver performs the same sub-iterations in the prescribed order, the coupling iterates until both are converged or the iteration limit is hit, relaxation is applied to what is exchanged as configured, and a failing or diverging sub-solver makes the whole step fail at once without post-processing or saving it. Stepping, initialisation, saving and restart are forwarded to both sub-solvers exactly once each, in order, and never to the second after the first has failed.",
 ["fault_sequences","histories"],
 "failures or divergence of either sub-solver at every call, over coupling iteration limits and convergence histories",
 "The coupling tests use stubs that always succeed.",
 ["Apps/Utils/SIMCoupled.h","Apps/Utils/SIMCoupledSI.h"],
 [("staggered loop","Apps/Utils/SIMCoupledSI.h (solveStep)"),("forwarding","Apps/Utils/SIMCoupled.h")],
 (),["SIMCoupled","SIMCoupledSI::solveStep"])
p("C16","The simulation drivers advance, adapt, save and stop correctly under failures",
 "A simulation driver (stationary, transient, mesh adaptive, or time-slab adaptive) calls the simulator and the result writers in a fixed order: the model is saved before any result, each time step is advanced, solved and saved once, in that order, until the final time or the step limit, and a step is saved under its own step number and time only when it has been solved, with results that refer to the mesh they belong to (the geometry is exported again with the first level written after a refinement). The time-slab adaptive driver predicts without saving, and after a refinement resumes from the stored state, at the time of that state, through the same sequence of increments. Any failure of solving, adapting, saving the model or results, exporting results or writing the restart data ends the run at once with a nonzero status without any further step or saving; a run that reports success has solved and saved every step. A run restarted from a restart file continues as the uninterrupted run does.",
 ["fault_sequences","histories"],
 "failures at every driver callback of every step and of the files written, over drivers, stepping specifications, mesh adaptation histories, save strides and step limits, with restarts",
 "No test makes the driver see a failing step.",
 ["Apps/Utils/SIMSolver.h","Apps/Utils/SIMSolverTS.h","Apps/Utils/SIMSolverAdap.h","src/Utility/DataExporter.C","src/SIM/TimeStep.C"],
 [("time loop","Apps/Utils/SIMSolver.h (solveProblem)"),("time-slab loop","Apps/Utils/SIMSolverTS.h (solveProblem)"),("adaptive loop","Apps/Utils/SIMSolverAdap.h (solveProblem)")],
 (),["SIMSolver::solveProblem","SIMSolverTS::solveProblem","SIMSolverAdapInternal::solveProblem"])
p("C17","Multi-stage time integration keeps order, step control and restarts right",
 "Integrating M du/dt = f(u,t) with the explicit Runge-Kutta schemes (any step-size history), the embedded Runge-Kutta schemes, and the Adams-Bashforth and Adams-Moulton schemes (constant steps, starting with increasing order, or with full order when the previous states are given), every step returns the textbook update at the right time, with prescribed and coupled dofs at their values, also when the operator is assembled and factorized only once. The embedded schemes accept a step only if its error estimate meets the tolerance, otherwise redo it from the same state with a smaller step until the smallest one allowed, and choose the next step size from the estimate. An assembly, constraint update or solution that fails in any stage or flux evaluation fails the step. A run restarted from a state saved after any step continues with the same values. The coefficients of the backward difference formulas differentiate polynomials up to their order exactly (first derivative: any step-size history; second: constant steps).",
 ["fault_sequences","histories","crash_points"],
 "failing assemblies, constraint updates and solutions in every stage, loads that are not numbers, rejected steps, changing step sizes, kills at any assembly, and save/restart at every step, over all provided schemes",
 "No test runs these integrators at all; only the coefficients are sampled.",
 ["Apps/Utils/SIMExplicitRK.h","Apps/Utils/SIMExplicitRKE.h","Apps/Utils/SIMExplicitLMM.h","Apps/Utils/SIMImplicitLMM.h","Apps/Utils/TimeIntUtils.C","src/Utility/BDF.C"],
 [("stages","Apps/Utils/SIMExplicitRK.h (solveRK)"),("step control","Apps/Utils/SIMExplicitRKE.h (solveStep)"),("history of loads","Apps/Utils/SIMExplicitLMM.h")],
 (),["SIMExplicitRK::solveStep","SIMExplicitRKE::solveStep","SIMExplicitLMM::solveStep","SIMImplicitLMM::solveStep"])
p("C18","Log output reaches every healthy sink completely and in order",
 "Everything written to the log stream arrives, complete and in order, at the console when enabled for this process and at every additional sink present at that time (files included), with the formatting (precision, flags, manipulators) and the flushing the writer asked for, for any history of writes, of sinks added or removed and of redirections. A sink that fails (full disk, broken stream) neither loses nor alters what the other sinks receive; a sink is released with its last owner; text that was flushed to a log file survives a crash of the process. The program messages, its banner included, go through the log only, and scope messages nest correctly under any call history.",
 ["fault_sequences","histories","crash_points"],
 "all histories of log operations over up to 4 sinks with sinks failing at arbitrary characters and crashes at arbitrary writes",
 "The tests write a few strings to healthy string streams.",
 ["src/Utility/LogStream.C","src/Utility/LogStream.h","src/Utility/ScopedLogger.C","src/IFEM.C"],
 [("tee to sinks","src/Utility/LogStream.h (write)"),("program log","src/IFEM.C (Init, Close)")],
 (),["utl::LogStream","ScopedLogger","IFEM::cout"])
p("C19","The profiler accounts for simulated time exactly, for any thread history",
 "For any nesting and repetition of started and stopped tasks, the profiler reports for each task the number of invocations, the accumulated and the mean wall and CPU time that elapsed between its starts and stops, the time not spent in any main task, and the total, in columns that can be told apart. Starts and stops by several threads at once (at most as many as the maximum when the profiler was made) neither corrupt nor lose each other, and each thread's tasks are reported for that thread. Starting a task that is running is ignored and stopping a task that was not started is only reported. Clearing or replacing the profiler forgets everything measured before, for every thread, and a deleted profiler is not used again.",
 ["schedules","histories"],
 "all nested start/stop histories under a simulated clock with arbitrary advances, and all interleavings of worker threads profiling inside a parallel region",
 "The profiler has no test; real clocks cannot be compared exactly.",
 ["src/Utility/Profiler.C","src/Utility/Profiler.h"],
 [("task accounting","src/Utility/Profiler.C (start, stop)"),("report","src/Utility/Profiler.C (report)")],
 (),["utl::Profiler"])
p("C20","Reading model input either succeeds completely or reports failure",
 "Reading input whose storage fails (missing, unreadable or empty files, truncation at any byte, I/O errors in any read) is reported as failure, or yields exactly what the readable, well-formed content prescribes: it never crashes or hangs, never leaves files open, and never reports success with a part of the well-formed content dropped or altered. This holds for the XML input file and the files it includes (at most 10 levels deep, circular ones are refused), for superelement files, for mesh files in XML and Matlab format with their node and element sets, for property files and partitioning files (one that cannot be opened means that the mesh is to be partitioned), for files with piece-wise linear and Chebyshev functions (which report failure as an error message), and for dense matrices in text and binary format. A failure in one part of the input makes the reading of the whole fail. Reads that merely return less than asked for are no failure, and once the faults stop the same input is read as ever.",
 ["fault_sequences","inputs"],
 "truncation at every byte, missing files and I/O errors at every file operation, for every kind of input file",
 "The tests read intact files only.",
 ["src/SIM/SIMadmin.C","src/SIM/SIMinput.C","src/SIM/SIMsupel.C","src/SIM/XMLInputBase.C","src/ASM/ASMsupel.C","src/ASM/ASMutils.C","src/Utility/Functions.C","src/Utility/Chebyshev.C","src/LinAlg/DenseMatrix.C"],
 [("input reading","src/SIM/SIMadmin.C (read)"),("XML loading","src/SIM/XMLInputBase.C (readXML, handleIncludes)"),("patch, property and partitioning files","src/SIM/SIMinput.C (parseGeometryTag, readPatches)"),("superelement files","src/ASM/ASMsupel.C (read)"),("mesh files","src/ASM/ASMutils.C (readMatlab, readXML)"),("function files","src/Utility/Functions.C (LinearFunc, LinVecFunc)"),("matrix files","src/LinAlg/DenseMatrix.C (load)")],
 (),["SIMadmin::read","XMLInputBase::readXML","ASMsupel::read","ASM::readMatlab","ASM::readXML","LinearFunc","ChebyshevFunc","DenseMatrix::load"])

p("C21","Finite element results are filed completely, in their place, and found again",
 "Whatever fields are registered and in whatever sequence levels are exported, a level in the HDF5 result file holds exactly what the registered, enabled fields prescribe, and no other arrays: for each non-empty, active patch and each basis of a simulator the primary solution (under the name of the integrand, the prefix or the description; translations only for six dofs per node; not the components whose output is suppressed), the secondary solution evaluated in this time level, the projections of each method (on their own basis if they have one), element norms with element contributions under their names, eigenmodes with their values, the element activation flags whenever an element becomes active (per simulator and file, zero-volume elements excluded), element results, nodal forces with coordinates (each node of the node map once, with the forces of all its elements), the geometry bases when they are new or updated, and local-to-global node numbers - bit for bit. A failing write is reported by the level that it hits. Searching for the level closest to a time finds it; initial conditions read from the file (any level, on any stored geometry) are exactly those that were written, and ones that are missing or unreadable are reported; a texture property that can not be read is reported or leaves the property undefined, never with invalid values.",
 ["histories","fault_sequences","inputs"],
 "all combinations of fields, options and models, and all histories of exports, sessions and storage faults",
 "The tests write a single spline patch or none, in one session without faults, and most of the options are not covered.",
 ["src/Utility/HDF5Writer.C","src/Utility/DataExporter.C","src/SIM/SIMbase.C","src/SIM/SIMinput.C","src/ASM/GlbForceVec.C","src/ASM/ASMbase.C","src/Utility/FieldFunctions.C","src/Utility/TextureProperties.C"],
 [("writing of a simulator","src/Utility/HDF5Writer.C (writeSIM, writeBasis, writeKnotspan, writeNodalForces)"),("extraction for a patch","src/SIM/SIMbase.C (extractPatchSolution, extractElmRes, evalSecondarySolution)"),("nodal forces","src/ASM/GlbForceVec.C"),("initial conditions","src/SIM/SIMinput.C (setInitialConditions)"),("level search","src/Utility/FieldFunctions.C (FieldFuncHDF5::findClosestLevel)")],
 (),["HDF5Writer::writeSIM","HDF5Writer::writeBasis","HDF5Writer::writeNodalForces","HDF5Writer::writeKnotspan","SIMinput::setInitialConditions","SIMbase::extractPatchSolution","SIMbase::extractElmRes","GlbForceVec::assemble","TextureProperties"])
p("C22","Result point output shows the results of the points asked for, or fails",
 "For any set of result points (points given by parameters or nodes, lines, element centres, grids of parametric or Cartesian points, of all nodes or all elements, on any patches, some of them outside the model), what is saved in each time step, or printed, is one line per existing point of the group - by patch, points before elements - with the time (or the point's number in its group, or the global node number), the primary solution with its derived fields, exact solutions at the point and time, the secondary solution with the material of the patch, and the reaction forces of supported nodes, in the requested precision; grids get one file per (selected) component, headed by its name, with one line per step, including velocities and accelerations when they are given. Coordinate and map files tell which points these are. The first step of a run starts the files anew, later steps and continued runs append to them. The same holds for vectors with any number of components per node dumped at the points, and for dumps of the primary and the complete solution, with any number of dofs per node. A file that could not be written completely is reported as failure, except by the preprocessing, and results written before are preserved through write failures and crashes; the number format of the stream is restored.",
 ["histories","fault_sequences","crash_points","inputs"],
 "all sets of result points on all models, and all histories of steps, program runs, storage faults and crashes",
 "The tests check only the parsing of result points, no output.",
 ["src/SIM/SIMoutput.C","src/SIM/SIMoutput.h"],
 [("evaluation","src/SIM/SIMoutput.C (evalResults)"),("point files","src/SIM/SIMoutput.C (savePoints, dumpResults, dumpVector)"),("grid files","src/SIM/SIMoutput.C (saveResults)"),("preprocessing","src/SIM/SIMoutput.C (preprocessResPtGroup, setPointResultFile)")],
 (),["SIMoutput::dumpResults","SIMoutput::savePoints","SIMoutput::saveResults","SIMoutput::dumpVector","SIMoutput::dumpSolution","SIMoutput::dumpPrimSol","SIMoutput::preprocessResPtGroup"])

p("C23","Eigenmodes solve the eigenproblem, and modal responses obey their equations",
 "An eigenvalue analysis that reports success returns as many modes as asked for (at most one per equation), numbered from one by ascending eigenvalue; each is an eigenpair of the assembled matrices (frequency in Hz for the vibration methods), the shapes are orthogonal, expanded to dofs by the constraints, and - for a Krylov space of sufficient size - they are those the method is to find (the lowest, the largest, or those nearest to the shift). One that does not converge, or whose assembly or equation solution fails, is reported as failure, and can be repeated. Normalization gives a mode unit modal mass and keeps its shape, a zero mode is refused, and the damping of a mode is that of the damping matrix. In modal time integration every mode follows Newmark's recurrence of its scalar equation with its own damping, or else Rayleigh damping, for all predictors, parameters and varying step sizes (quasi-statically, load over squared frequency); the expanded displacement, velocity and acceleration are the sums over the modes; a step in which anything fails is reported as failure and repeating it gives the response without the failure; modal solutions of wrong size are refused. A restart from saved modes and state (also one saved without damping) continues the same response. An eigenmode history is the sum of the chosen modes, scaled to unit maximum, times amplitude and sine of the chosen or natural frequency times the time since its start, also after restart.",
 ["histories","fault_sequences","crash_points","inputs"],
 "all models, analyses, damping and time integration parameters, and all histories of steps, failures and restarts",
 "There is no test of the eigenvalue analysis, the modal time integration or the eigenmode histories.",
 ["src/SIM/SIMmodal.C","src/SIM/EigenModeSIM.C","src/Eig/EigSolver.C","src/Eig/eig_drv4.f","src/SIM/SIMbase.C","src/SIM/NewmarkSIM.C","src/ASM/NewmarkMats.C","src/LinAlg/DiagMatrix.C"],
 [("eigenvalue analysis","src/SIM/SIMbase.C (systemModes, Mode), src/Eig (eig::solve, eig_drv1-6)"),("modal system","src/SIM/SIMmodal.C (assembleModalSystem, expandSolution, saveModes, restoreModes)"),("histories","src/SIM/EigenModeSIM.C")],
 (),["SIMbase::systemModes","eig::solve","Mode::orthonormalize","Mode::computeDamping","SIMmodal","EigenModeSIM","NewmarkSIM"])

p("C24","Norms, projections, forces and reactions cover the whole model exactly once",
 "Integrating solution norms adds the terms of every active element of every non-empty patch exactly once, with the material, element set, solution and projected solutions of that patch, and those of every boundary likewise, into the norm groups that have values (groups of missing projections are empty, also when the arrays are reused), and the global norms are the final operation on the sums of the element norms plus the external energy: reaction forces times prescribed motion, along the path of increments if there are several, which a failing call does not change. Projecting the secondary solution gives in each node the value from the patch, or the mean over the patches sharing it, or on a separate basis the values patch by patch with room for inactive ones; projecting an explicit function gives its values for any parameter domain and time, interleaved or not, and leaves other components alone. Boundary forces are the sum over the ends, edges or faces with the code (of either sign), each patch with its own solution and material; nodal forces add each element once. Reaction forces are the residuals of the last assembly at the fixed dofs, also after a failed one. All this holds for any number of threads and any interleaving, without data races, after any history of calls, and a failing element, boundary, material or patch makes the call report failure.",
 ["schedules","histories","fault_sequences","inputs"],
 "all models, materials, element sets, boundary conditions and activation times, all thread interleavings, all histories of calls and failures",
 "The tests call solutionNorms and project on single models, with one thread schedule and no failures; forces, nodal forces, missing projections, inactive patches and repeated calls are not tested.",
 ["src/SIM/SIMbase.C","src/SIM/ForceIntegrator.C","src/ASM/GlbNorm.C","src/ASM/GlbForceVec.C","src/ASM/GlbL2projector.C","src/ASM/IntegrandBase.C","src/LinAlg/SystemMatrix.C","src/LinAlg/SAM.C"],
 [("norms","src/SIM/SIMbase.C (solutionNorms, externalEnergy), src/ASM/GlbNorm.C"),("projections","src/SIM/SIMbase.C (project), src/ASM/GlbL2projector.C"),("forces","src/SIM/ForceIntegrator.C, src/ASM/GlbForceVec.C, src/SIM/SIMbase.C (getCurrentReactions)")],
 (),["SIMbase::solutionNorms","SIMbase::project","SIMbase::externalEnergy","SIMbase::getCurrentReactions","SIM::getBoundaryForce","SIM::getNodalForces","GlbNorm","GlbForceVec","L2ProbIntegrand","L2FuncIntegrand"])

p("C25","The adaptive loop refines by its rules, stops when told and keeps its data",
 "In an adaptive simulation, each refinement marks exactly the elements (or the basis functions) that its rule selects from the element error norms of the current mesh - none, maximum, average, minimum, true beta, Dorfel or symmetrised, for any threshold - with ties treated alike, and passes them to the patches with the options given; in multi-patch models each patch gets its own, shared boundary nodes are refined on both sides, and transferred solutions come back in the order of the patches. The loop stops at the first mesh where a criterion holds (steps, dofs, error tolerance relative to the reference norm, condition number, zero reference, nothing to refine) and not before. On each new mesh the input is read again with the options of the command line still in force, the solution is that of this mesh (also with transferred initial solutions and dual problems), and the norms and refinement indicators are those of its elements. Each requested mesh and error file is written once for each refinement under the name of its step. A basis saved and restored is the same basis. If reading, assembly, solution (including NaN), projection, norms, saving or refinement fails in any cycle, the loop stops and reports it, and a norm that does not exist is refused.",
 ["fault_sequences","histories","inputs"],
 "all error distributions, marking rules, thresholds, stop criteria and patch layouts; failures at any stage of any cycle",
 "The tests mark elements for one or two given error vectors; the adaptive loop itself, re-reading, transfer, files, multi-patch refinement and all failures are not tested (no LR-splines in the build).",
 ["src/SIM/AdaptiveSetup.C","src/SIM/AdaptiveSIM.C","Apps/Utils/SIMSolverAdap.h","src/SIM/SIMinput.C","src/SIM/SIMoptions.C"],
 [("marking","src/SIM/AdaptiveSetup.C (calcRefinement, adaptMesh)"),("cycles","src/SIM/AdaptiveSIM.C (solveStep), Apps/Utils/SIMSolverAdap.h"),("refinement of the model","src/SIM/SIMinput.C (refine, saveBasis, restoreBasis)")],
 (),["AdaptiveSetup","AdaptiveSIM","SIMSolverAdapImpl","AdaptiveISolver","SIMinput::refine","SIMinput::saveBasis","SIMinput::restoreBasis"])

# ------------------------------------------ pure-function properties: not applicable
def na(id,title,statement,text,files):
    p(id,title,statement,["inputs"],text,"The tests sample a handful of inputs; the statement is over all inputs.",files,[("pure computation",files[0])])
na("C31","Matrix and vector algebra agrees with exact linear algebra",
 "Products, transposes, inverses, norms and block operations on dense matrices and vectors return the mathematically defined result up to rounding for all sizes and aliasing patterns the interface allows.","all matrices and sizes",["src/LinAlg/matrix.h","src/LinAlg/MatVec.C"])
na("C32","Quadrature, Lagrange and other basis functions are exact to their order",
 "Quadrature rules integrate polynomials exactly up to their degree, and basis functions are interpolatory or partition unity with consistent derivatives for all orders and points.","all orders and evaluation points",["src/Utility/GaussQuadrature.C","src/ASM/Lagrange.C","src/Utility/Legendre.C","src/Utility/Chebyshev.C"])
na("C33","Constraint equations are resolved to an equivalent master-slave form",
 "Any acyclic set of multi-point constraints is resolved to constraints on free or prescribed dofs only, and the expanded solution satisfies every constraint.","all acyclic constraint sets",["src/Utility/MPC.C","src/ASM/SAMpatch.C","src/ASM/ASMbase.C"])
na("C34","Parsed expressions and their derivatives evaluate correctly",
 "A parsed expression evaluates to the value of the formula and its automatic derivatives equal the true derivatives wherever the expression is smooth.","all expressions and points",["src/Utility/ExprFunctions.C","src/Utility/AnaSol.C","3rdparty/expreval/expr.cpp"])
na("C35","Tensor operations satisfy their algebraic definitions",
 "Tensor products, principal values, rotations and coordinate transformations satisfy their defining identities for all dimensions.","all tensors",["src/Utility/Tensor.C","src/Utility/Tensor4.C","src/Utility/Vec3Oper.C"])
na("C36","Weak-form operators integrate the stated bilinear and linear forms",
 "Element operators add the exact contribution of the stated weak form at an integration point for all bases and dimensions.","all bases, dimensions and coefficients",["Apps/Utils/EqualOrderOperators.C","Apps/Utils/CompatibleOperators.C"])
na("C38","Domain decomposition assigns every dof to one owner consistently",
 "In a distributed run every equation has exactly one owning process and all processes agree on global numbering and ghost dofs.","all partitions and process counts",["src/ASM/DomainDecomposition.C","src/LinAlg/ProcessAdm.C"])
na("C39","Spline patches, adaptive refinement and model generators are geometrically right",
 "Generated and refined spline patches represent the prescribed geometry and integrate, constrain and project fields consistently.","all geometries and refinements",["src/ASM/ASMs2D.C","src/ASM/ASMs3D.C","src/SIM/AdaptiveSIM.C","src/SIM/ModelGenerator.C"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
for q in P:
    assert len(q["title"]) <= 80, q["title"]
    for f in q["anchors"]["files"]:
        assert os.path.exists("/repo/"+f), f
open(out,"w").write("".join(json.dumps(q)+"\n" for q in P))
