#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the statements stay reviewable)."""
import json, os
H="include/mini_opt/"; S="source/"
P=[]
def p(id,title,statement,over,text,why,files,mechanism,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mechanism],observe_at=list(observe),hook_needed=None)))
QP=[H+"qp.hpp",S+"qp.cc"]; NL=[H+"nonlinear.hpp",S+"nonlinear.cc"]; ST=[H+"structs.hpp",S+"structs.cc"]
NOT_RUN="nonlinear_test needs geometry_utils and is not built here: no test that runs reaches this code; even the upstream tests sample a few problems and starting points."

p("C01","Interior-point success certifies the constrained optimum",
"Whenever the interior-point QP solver reports that the KKT tolerance was satisfied, the returned point, slacks and multipliers satisfy every first-order condition of the convex QP given to it (stationarity, equality feasibility, inequality feasibility up to the slack, complementarity, non-negative slacks and inequality multipliers) within the tolerances passed in, so the point is the constrained minimiser up to the remaining duality gap. It reports this at the first iteration whose KKT error is below the KKT tolerance and whose average complementarity is below the complementarity tolerance, and otherwise reports that it ran out of iterations after exactly the allowed number. The reported summary of equality multipliers (smallest value, largest magnitude) matches the returned multipliers and is present exactly when there are equality constraints.",
["inputs","configurations"],"every strictly convex QP of the bounded alphabet (dimensions, Hessians, linear terms, equality and bound constraints including several on one variable) x every barrier strategy, initial-guess method, starting barrier value, reduction factor, tolerance and iteration limit of the alphabet",
"qp_test solves about 1000 random problems with one strategy and two guesses and compares only x; no test checks the multipliers against the optimality conditions, early termination, predictor-corrector, fixed decrease, or duplicated constraints.",
QP,[("termination test on KKT error and complementarity",S+"qp.cc:Solve"),("KKT residual evaluation",S+"qp.cc:EvaluateKKTConditions/ComputeErrors"),("multiplier summary",S+"qp.cc:ComputeLagrangeMultiplierSummary")],
[("variables","x, s, y, z","QPInteriorPointSolver"),("mu","barrier parameter","Solve")],["QPInteriorPointSolver::Solve","x_block/s_block/y_block/z_block"])

p("C02","Interior-point solver converges on strictly convex, strictly feasible QPs",
"For every well-scaled strictly convex QP that has a strictly feasible point, the interior-point solver, given enough iterations and a barrier reduction factor of at most one half, terminates by satisfying its tolerance instead of exhausting the iterations, failing to factorize or diverging. This holds for the decreasing barrier strategies (proportional to complementarity, and fixed decrease) and for each automatic initial guess. A QP with only equality constraints, or none, is solved in one iteration.",
["inputs","configurations"],"every problem of the bounded QP alphabet with a strictly feasible point x strategies x guesses x barrier settings",
"the existing tests sample random diagonal-dominated problems with one strategy; slow or failed convergence on a corner (active equality plus bound, two-sided bounds, infeasible start) is a for-all statement.",
QP,[("barrier loop",S+"qp.cc:Solve"),("initial guess",S+"qp.cc:ComputeInitialGuess"),("fraction to boundary",S+"qp.cc:ComputeAlpha")],
[("iterations","count until termination","QPInteriorPointSolverOutputs")],["QPInteriorPointSolver::Solve"])

p("C03","Interior-point steps are damped Newton steps that stay strictly interior",
"Starting from strictly positive slacks and inequality multipliers, every iterate of the interior-point solver on a feasible problem keeps all slacks and all inequality multipliers strictly positive and finite. Each iterate differs from the previous one by the Newton step of the perturbed KKT system at the previous iterate for the recorded barrier value (with the second-order correction in predictor-corrector mode), scaled by the recorded primal step size for the point and slacks and the recorded dual step size for the multipliers. Both step sizes lie in (0, 1], and one is below 1 only when a full step would leave the positive orthant, in which case it is 0.995 of the largest step that does not.",
["inputs","histories","configurations"],"every iterate of every bounded-alphabet QP, for all strategies and for automatic and user-provided starting points",
"the elimination is unit-tested at four hand-picked states; nothing checks the step taken by Solve, the recorded step sizes, or predictor-corrector mode.",
QP,[("variable elimination and back substitution",S+"qp.cc:ComputeLDLT/SolveForUpdate"),("fraction to the boundary rule",S+"qp.cc:ComputeAlpha")],
[("delta","Newton step","QPInteriorPointSolver"),("alpha","primal and dual step sizes","IPIterationOutputs")],["Solve with max_iterations = 1..k","QPInteriorPointIteration"])

p("C04","Barrier schedule and interior-point iteration record are faithful",
"The interior-point solver records one entry per iteration, and each entry's KKT error components are the Euclidean norms of the KKT residuals at the iterate before and after that iteration for the barrier value the iteration started from. The barrier value starts at the configured initial value (or at the starting average complementarity when so requested) and after each iteration becomes the reduction factor times the average complementarity, or times its previous value in fixed-decrease mode; when a decrease is only allowed on small error it changes only if the KKT error is at most the barrier value. In predictor-corrector mode the recorded affine complementarity is that of the point which the recorded affine probe steps reach, and the barrier used is the current complementarity times the cube of their ratio. Automatic initial guesses start from zero or from the equality-constrained minimiser, moved onto the bounds where those are violated, with slacks equal to the constraint values (kept positive) and inequality multipliers equal to their reciprocals.",
["inputs","configurations","histories"],"every iteration of every bounded-alphabet QP, all strategies, guesses and flags",
"no test reads the per-iteration record or the barrier sequence.",
QP+[H+"structs.hpp"],[("barrier update",S+"qp.cc:Solve"),("error norms",S+"qp.cc:ComputeErrors"),("initial guess",S+"qp.cc:ComputeInitialGuess")],
[("mu","barrier parameter","Solve"),("iterations","per-iteration record","QPInteriorPointSolverOutputs")],["QPInteriorPointSolverOutputs.iterations"])

p("C05","Null-space solver returns the equality-constrained minimiser or says it cannot",
"For a QP whose equality constraints are consistent (redundant rows included), the null-space solver reports success exactly when the Hessian is positive definite on the null space of the constraints (a Hessian that is singular there may go either way by rounding), and the point it then returns satisfies the constraints and minimises the quadratic among all points that do. Otherwise it reports that the problem is not positive definite. The Hessian is read from its lower triangle only.",
["inputs"],"every small-integer QP of the alphabet: dimension 1-4, 1-5 equality rows of any rank, indefinite and semidefinite Hessians included",
"two hand-written problems are tested; rank-deficient rows, fully determined problems, indefinite reduced Hessians and garbage in the upper triangle are not.",
QP,[("QR null-space basis",S+"qp.cc:QPNullSpaceSolver::Solve"),("Cholesky of the reduced Hessian",S+"qp.cc:QPNullSpaceSolver::Solve")],
[("x","solution","QPNullSpaceSolver")],["QPNullSpaceSolver::Solve","QPNullSpaceSolver::variables"])

p("C06","QP solver objects carry nothing over from earlier problems",
"The outcome of solving a QP (status, iteration record and variables) depends only on that problem and the parameters of that call, and, where a user-provided start is requested, on the variables set by the caller: it is identical to what a newly constructed solver produces, whatever sequence of other problems, dimensions, parameters, failed factorizations and rejected inputs the object went through before. It never depends on the prior contents of memory, and the problem itself is never modified.",
["histories"],"every sequence up to the bound of set-up, solve, set-variables, in-place problem edits and failing calls over problems of different dimensions",
"the tests reuse one solver over same-sized problems and never compare it to a fresh one.",
QP,[("Setup resizes and clears",S+"qp.cc:Setup"),("Solve resets the guess",S+"qp.cc:ComputeInitialGuess"),("steps cleared per factorization",S+"qp.cc:ComputeLDLT")],
[("H, H_inv, r, delta, delta_affine","reused storage","QPInteriorPointSolver"),("Q, u, y, x","reused storage","QPNullSpaceSolver")],["QPInteriorPointSolver","QPNullSpaceSolver"])

p("C07","Nonlinear solver runs are independent of the object's history",
"A run of the nonlinear solver produces the same termination state, iteration record and final variables as a newly constructed solver given the same problem, parameters, start and callback, whatever happened earlier on the object: completed runs with any outcome, runs stopped by the callback, runs aborted by an exception thrown from a cost, constraint, retraction or callback, and edits of the problem's bound constraints between runs. An exception thrown by user code reaches the caller unchanged. The result never depends on the prior contents of memory, and the problem is never modified.",
["histories","fault_sequences"],"every sequence up to the bound of runs (different starts, parameters and outcomes), bound-constraint edits, callback changes, and a fault injected at every user-code call",
NOT_RUN,NL,[("state reset at the start of Solve",S+"nonlinear.cc:Solve"),("solver variant re-selected per Solve",S+"nonlinear.cc:Solve"),("QP refilled per iteration",S+"nonlinear.cc:LinearizeAndFillQP")],
[("state","NOMINAL or ATTEMPTING_RESTORE_LM","ConstrainedNonlinearLeastSquares"),("steps, dx, qp, solver","reused storage","ConstrainedNonlinearLeastSquares")],["ConstrainedNonlinearLeastSquares::Solve"])

p("C08","Malformed problems are rejected with an exception, never by memory corruption",
"Every problem, parameter set or vector whose dimensions or indices are inconsistent, or whose parameters lie outside their allowed range, is rejected with an exception derived from std::exception before anything is read or written out of bounds: for the QP solvers, the nonlinear solver, residuals and bound-constraint helpers alike. Well-formed inputs, including the extremes of the allowed ranges, are not rejected.",
["inputs","configurations"],"every single and double deviation (each dimension, index, coefficient, pointer and parameter, off by one in both directions and extreme values) from each well-formed base input",
"no test passes a malformed input; release builds disable Eigen's own checks.",
[H+"qp.hpp",S+"qp.cc",H+"residual.hpp",S+"nonlinear.cc",H+"assertions.hpp"],[("dimension and index assertions",S+"qp.cc:Setup, QPNullSpaceSolver::Solve; "+H+"residual.hpp"),("parameter checks",S+"qp.cc:CheckParams, "+S+"nonlinear.cc:CheckParams")],(),["exceptions","AddressSanitizer"])

p("C09","Accepted steps decrease the merit; failed searches keep the iterate",
"Each iteration of the nonlinear solver that reports success moved the variables to a point whose merit (half the summed squared costs plus the current penalty times the L1 norm of the equality residuals) satisfies the Armijo sufficient-decrease condition relative to the iterate it started from, and is never larger than before. Every iteration that does not report success leaves the variables exactly as they were. At any exit the solver's variables are the last accepted point, or the initial point if none was accepted, even when costs return non-finite values.",
["inputs","histories","fault_sequences"],"every assignment of cost and constraint values from the alphabet (decrease, tiny decrease, equal, increase, zero, NaN, infinity) to the points the solver visits, over several iterations, both line-search strategies and both QP back ends",
NOT_RUN,NL,[("Armijo test",S+"nonlinear.cc:SelectStepSize"),("swap on success only",S+"nonlinear.cc:UpdateLambdaAndCheckExitConditions")],
[("variables","linearization point","ConstrainedNonlinearLeastSquares"),("candidate_vars","trial point","ConstrainedNonlinearLeastSquares")],["user exit callback","variables()","NLSIteration"])

p("C10","Line search follows the documented step-size rules",
"Within an iteration the step sizes tried start at 1, decrease strictly and stay in (0, 1], and at most one more than the configured number of line-search iterations are tried. Backtracking multiplies by the configured factor; the polynomial strategy tries the minimiser of the quadratic, then of the cubic, that interpolates the merit values and slope seen so far, and reports an invalid step size when that minimiser is not positive, finite and smaller than the previous step. The search stops at the first trial that meets the sufficient-decrease condition and reports success, first-order satisfaction, a positive derivative, non-finite cost, or exhaustion exactly when the corresponding condition holds.",
["inputs","histories"],"every assignment of merit values from the alphabet to trial points x line-search strategy x iteration limits x backtracking factors",
NOT_RUN,NL,[("step size selection",S+"nonlinear.cc:SelectStepSize"),("interpolation",S+"nonlinear.cc:QuadraticApproxMinimum/CubicApproxCoeffs/CubicApproxMinimum")],
[("steps","trials of this iteration","ConstrainedNonlinearLeastSquares")],["NLSIteration.line_search_steps","NLSIteration.step_result"])

p("C11","Levenberg-Marquardt damping follows its state machine",
"The damping starts at the configured initial value with the optimizer in its nominal state. A successful step multiplies it by the success factor, or by the restore factor when the optimizer was recovering, never letting it fall below the minimum, and returns to the nominal state; a search that exhausts its iterations or meets a positive derivative raises it to the larger of ten times its value and the failure value (only ten times when already recovering) and enters or stays in the recovering state. The solver stops with the maximum-damping status exactly when this raised value exceeds the maximum, and no other outcome changes the damping or the state.",
["histories","configurations"],"every sequence of step outcomes up to the bound x damping parameters including zero, minimum equal to maximum, and growth that reaches the maximum exactly",
NOT_RUN,NL,[("lambda update",S+"nonlinear.cc:UpdateLambdaAndCheckExitConditions")],
[("lambda","damping","Solve"),("state","NOMINAL or ATTEMPTING_RESTORE_LM","ConstrainedNonlinearLeastSquares")],["NLSIteration.lambda","NLSIteration.optimizer_state"])

p("C12","Termination states of the nonlinear solver are honest",
"The nonlinear solver reports a satisfied absolute tolerance, relative tolerance or first-order tolerance exactly when the documented condition holds at that iteration, and stops there: after an accepted step both error terms below the absolute tolerance, or a merit that did not fall by more than the relative fraction; or both directional derivatives below the derivative tolerance. It reports maximum iterations only after exactly that many iterations, an indefinite QP only when the equality-constrained subproblem has no unique minimiser, and a user exit only when the callback asked for it and no other exit applied. The number of recorded iterations never exceeds the limit, and a zero limit returns the start unchanged.",
["histories","configurations"],"every sequence of outcomes up to the bound x tolerances x iteration limits x callback vetoes at every iteration",
NOT_RUN,NL,[("exit conditions",S+"nonlinear.cc:UpdateLambdaAndCheckExitConditions"),("callback veto",S+"nonlinear.cc:Solve"),("indefinite check",S+"nonlinear.cc:QPWasIndefinite")],(),["NLSSolverOutputs.termination_state","user exit callback"])

p("C13","The nonlinear iteration record tells the truth",
"Every recorded iteration holds the true error terms at the iterate it started from, the true error terms of every trial point with the step size that produced it, the true directional derivatives along the step taken, the damping and penalty that were in force, and the QP outcome; iterations are numbered consecutively from zero. Consecutive records chain: an iteration starts from the last accepted trial's errors. Evaluating the errors at a point on request gives half the summed squared costs and the L1 norm of the equality residuals, and leaves the solver unchanged.",
["inputs","histories"],"every iteration of every explored run, over several costs and constraints of different sizes",
NOT_RUN,NL+ST,[("error evaluation",S+"nonlinear.cc:EvaluateNonlinearErrors/LinearizeAndFillQP"),("record assembly",S+"nonlinear.cc:Solve"),("directional derivatives",S+"nonlinear.cc:ComputeQPCostDerivative")],(),["NLSSolverOutputs.iterations","EvaluateNonlinearErrors"])

p("C14","Each nonlinear step solves the damped, linearised subproblem",
"The search direction of every iteration whose sub-problem was solved to tolerance is the minimiser of the Gauss-Newton quadratic at the current variables, with the current damping added to its diagonal, subject to the linearised equality constraints and to the bound constraints shifted to the current variables. Costs and constraints that touch only some of the variables, in any order, contribute exactly to those variables. The optional eigenvalue record describes that same damped quadratic.",
["inputs","configurations"],"every problem of the alphabet (several costs and equality constraints over permuted variable subsets, bound constraints) x linearization points x damping values",
NOT_RUN,NL+[H+"residual.hpp",S+"qp.cc"],[("linearization",S+"nonlinear.cc:LinearizeAndFillQP"),("direction",S+"nonlinear.cc:ComputeStepDirection"),("eigenvalues",S+"qp.cc:ComputeEigenvalueStats")],
[("dx","search direction","ConstrainedNonlinearLeastSquares"),("qp","local quadratic","ConstrainedNonlinearLeastSquares")],["custom retraction argument dx"])

p("C15","The equality penalty never shrinks and makes steps descend the merit function",
"Within a run the penalty on equality violations starts at the configured value and never decreases; without equality constraints it never changes. When the value required by the current step exceeds it (the largest equality multiplier magnitude when the interior-point solver was used, otherwise the quadratic model's cost increase over (1 - rho) times the L1 constraint violation) it becomes that value times the configured scale factor. With a solved subproblem and the bounds met at the current variables, a non-zero step is then never an ascent direction of the merit function.",
["inputs","histories"],"every explored run with equality constraints: constraint values, gradients, multipliers, rho, scale factors and initial penalties of the alphabet, both QP back ends",
NOT_RUN,NL,[("penalty selection",S+"nonlinear.cc:SelectPenalty"),("penalty raise",S+"nonlinear.cc:Solve")],[("penalty","merit weight","Solve")],["NLSIteration.penalty","NLSIteration.directional_derivatives"])

p("C16","Retraction and exit-callback contracts",
"A custom retraction is called once per trial point, with the current variables, the full-length search direction and the trial's step size, and the point it produces is exactly the one that is evaluated and, if accepted, adopted; without one, the trial is the current variables plus the step size times the direction. The exit callback is called exactly once after each recorded iteration with that iteration's record, and sees the variables already updated. Returning true never changes the run, and returning false stops it after that iteration without altering its results.",
["histories","inputs"],"every explored run x custom or default retraction x callback answers at every iteration",
NOT_RUN,NL,[("retraction",S+"nonlinear.cc:RetractCandidateVars"),("callback",S+"nonlinear.cc:Solve")],(),["custom retraction","SetUserExitCallback"])

p("C17","Bound constraints are never violated once satisfied",
"If the starting point satisfies all bound constraints, then with the default retraction every trial point at which the nonlinear solver evaluates the user's costs, and every accepted iterate, satisfies them too, up to a small tolerance relative to the magnitudes involved. If the start violates some of them and no equality constraint interferes, a full accepted step restores feasibility.",
["inputs","histories"],"every feasible and infeasible start of the grid (interior, on and outside the bounds) x bound sets (one-sided, two-sided, duplicated, scaled coefficients of both signs) x costs that push against the bounds, with or without equality constraints, x parameters",
NOT_RUN,NL+QP,[("constraints shifted to the linearization point",H+"qp.hpp:ShiftTo, "+S+"nonlinear.cc:LinearizeAndFillQP"),("feasible initial guess",S+"qp.cc:ComputeInitialGuess"),("fraction to the boundary",S+"qp.cc:ComputeAlpha")],(),["points passed to cost functions","variables()"])

p("C18","Constrained linear least-squares problems are solved to the true optimum",
"For every least-squares problem with affine costs, affine equality constraints and bound constraints that has a unique solution and a strictly feasible point, the nonlinear solver, started from any point that meets the bounds and given sufficient iterations, ends at that constrained optimum; it ends in a tolerance-satisfied state whenever its first-order tolerance is no finer than the accuracy of the sub-problem solutions. The equality constraints hold there to within tolerance.",
["inputs","configurations"],"every affine problem of the alphabet x starts x line-search strategies x damping settings",
NOT_RUN,NL+QP+[H+"residual.hpp"],[("SQP loop",S+"nonlinear.cc:Solve"),("QP back-end choice",S+"nonlinear.cc:Solve/ComputeStepDirection")],(),["variables()","NLSSolverOutputs.termination_state"])

p("C19","Residuals contribute exactly their own terms to the right entries",
"Evaluating a residual passes the listed variables in the listed order and returns the user function's value. Adding it to a quadratic adds J'J to the lower triangle at the listed rows and columns and J'r to the listed entries of the gradient, leaves every other entry untouched, and returns half the squared error; contributions of several residuals add up in any order. Writing its Jacobian fills exactly the listed columns and the error, whether the parameter count is static or dynamic and whichever way the index list was given.",
["inputs","histories"],"every list of distinct indices up to the bound into vectors up to the bound x residual sizes x static and dynamic parameter counts x sequences of accumulations onto pre-filled storage",
"four fixed index lists are tested, always onto zeroed storage and never two residuals together; writing a Jacobian is not tested.",
[H+"residual.hpp",S+"residual.cc"],[("gather",H+"residual.hpp:GatherValues"),("scatter into lower triangle",H+"residual.hpp:UpdateHessian"),("column scatter",H+"residual.hpp:UpdateJacobian")],(),["Residual::ErrorVector/UpdateHessian/UpdateJacobian/QuadraticError"])

p("C20","Solvers on different threads, or nested, do not interfere",
"Solver objects used on different threads at the same time, even when they share one read-only problem, behave under every interleaving exactly as when run alone, without data races, and a solver run started inside another solver's cost function, retraction or callback affects neither run. There is no hidden shared mutable state besides the trace collector, which is itself safe.",
["schedules"],"all interleavings at synchronisation operations and user-code calls up to the preemption bound of two concurrent runs, each checked for happens-before races on every memory access; all placements of a nested run",
"no test uses threads or nests solvers.",
NL+QP+[H+"residual.hpp",S+"tracing.cc"],[("all solver state is per object",H+"nonlinear.hpp, "+H+"qp.hpp"),("collector lock",S+"tracing.cc:submit_event")],(),["every load and store of the library, via compiler instrumentation"])

p("C21","Concurrent tracing loses, duplicates and corrupts nothing",
"Under every interleaving of threads that finish traced scopes and threads that export the trace, each finished scope yields exactly one event carrying its name, its own thread's id and its own times, every export is a consistent snapshot that contains all scopes finished before it began and none started after it ended, and there is no data race, deadlock or double initialisation of the collector.",
["schedules"],"all interleavings, at synchronisation operations, of two to three threads with one to three operations each, including first use of the collector by several threads at once; happens-before race detection on every memory access",
"no test uses the tracing code.",
[H+"tracing.hpp",S+"tracing.cc"],[("collector mutex",S+"tracing.cc:submit_event/get_trace_json"),("function-local static collector",S+"tracing.cc:get_instance"),("thread-local ids",S+"tracing.cc:~scoped_trace")],
[("events","bounded queue","trace_collector_impl")],["trace_collector","scoped_trace"])

p("C22","Exported traces are valid, complete and bounded",
"The exported trace is always valid JSON whose event list contains, in completion order, one complete-event entry per scope that ended normally, with the scope's name as given, its start time and its duration converted to microseconds, and the process and thread that ran it. Scopes left by an exception record nothing. At most the most recent hundred thousand events are retained; exporting does not remove any.",
["histories","inputs"],"every program of nested, sequential and throwing scopes up to the bound under a controlled clock, every name of an alphabet that includes quotes, backslashes, control characters, braces and non-ASCII text, extreme times and durations, and event counts around the retention limit",
"no test uses the tracing code.",
[H+"tracing.hpp",S+"tracing.cc"],[("event formatting",S+"tracing.cc:formatter<trace_event>"),("retention",S+"tracing.cc:submit_event"),("unwinding check",S+"tracing.cc:~scoped_trace")],[("events","bounded queue","trace_collector_impl")],["trace_collector::get_trace_json"])

p("C23","Solver outputs survive the JSON round trip",
"Converting the outputs of a nonlinear optimization to JSON and back, directly or through JSON text, reproduces every field of every iteration: all enumerations, optional parts, both kinds of QP outcome, all list lengths, and all finite numbers bit for bit. Values that JSON text cannot represent (not-a-number and infinities, which solver outputs routinely contain) never make reading fail and come back as not-a-number from text.",
["inputs"],"every combination of enumerators, optional presence, QP outcome kind and list lengths up to the bound, with every numeric field in turn taking every special value while all others are distinct",
"no test uses serialization.",
[H+"serialization.hpp",S+"serialization.cc"],[("to_json/from_json",S+"serialization.cc"),("enum tables",S+"serialization.cc:NLOHMANN_JSON_SERIALIZE_ENUM")],(),["adl_serializer<NLSSolverOutputs>"])

p("C24","Damaged solver-output JSON is refused, not misread",
"Reading solver outputs from a JSON document in which a required field is missing, or a field holds a value of the wrong kind, throws an exception derived from std::exception; it never crashes, reads out of bounds, or yields outputs with missing parts filled in.",
["inputs","fault_sequences"],"every single removal and every single wrong-kind replacement of a node in documents of each structural shape",
"no test uses serialization.",
[S+"serialization.cc"],[("field access on read",S+"serialization.cc:from_json")],(),["json::get<NLSSolverOutputs>","AddressSanitizer"])

p("C25","Summaries, counters and names describe the outputs faithfully",
"The counters over solver outputs equal the sums they describe: QP iterations (one per equality-constrained solve), trial steps, and iterations whose search neither succeeded nor met the first-order condition. The text summary lists every iteration in order with its number, state, damping, penalty, errors, QP outcome, search result and every trial step, and ends with the termination state; colour codes appear only when requested and removing them gives the uncoloured text; QP iteration details appear only when requested. Every enumerator prints as its own name, distinct within its type, and the satisfied-tolerance predicate is true exactly for the three tolerance states.",
["inputs"],"every combination of enumerators, QP outcome kind, optional presence and list lengths up to the bound",
NOT_RUN,ST,[("counters",S+"structs.cc:NumQPIterations/NumLineSearchSteps/NumFailedLineSearches"),("formatting",S+"structs.cc:ToString")],(),["ToString","operator<<","TerminationStateIndicatesSatisfiedTol"])

p("C26","Bound-constraint helpers agree with the inequality they stand for",
"A bound constraint accepts exactly the values x for which a*x + b >= 0; the comparison helpers build constraints that accept exactly the values on the stated side, limit included. Clamping returns x itself when it is already feasible and otherwise the limit value, which is feasible and nearest; clamping with a zero coefficient is refused. Shifting a constraint to a point x accepts a displacement dx exactly when the original accepts x + dx, and shifting twice equals shifting once by the sum.",
["inputs"],"every variable index, coefficient, offset, point and displacement of an exactly representable grid",
"one test evaluates about a dozen hand-picked values.",
[H+"qp.hpp"],[("IsFeasible/ClampX/ShiftTo",H+"qp.hpp:LinearInequalityConstraint"),("Var comparison operators",H+"qp.hpp:Var")],(),["LinearInequalityConstraint","Var"])

p("C27","Accepted parameters never fail inside a run",
"Parameter validity is decided before any user code runs: the nonlinear solver either rejects the parameters immediately, without calling a cost, constraint, retraction or callback, or runs to one of its termination states. With accepted parameters, a finite problem and well-posed sub-problems (strictly convex, with a strictly feasible point) a run never ends in an internal assertion failure or factorization exception, whatever the corner of the allowed parameter ranges.",
["configurations","inputs"],"every pair of parameter corner values (all others default) x strategies x problem classes (unconstrained, equality, bounds, both)",
NOT_RUN,NL+QP,[("parameter checks",S+"nonlinear.cc:CheckParams, "+S+"qp.cc:CheckParams"),("internal assertions",S+"nonlinear.cc:SelectStepSize")],(),["exceptions thrown by Solve"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
