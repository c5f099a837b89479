import os
CHECKS = {}
NOT_APPLICABLE = {}
def check(pid, **kw): CHECKS[pid] = kw
TRUST = "the compiler, the C++ runtime, Eigen 3.4.0, fmt and nlohmann-json as installed; the harness and its oracle"
check("C26", harness=["constraint_mc.cc"], sources=[], level="exploration", technique="bounded exhaustive enumeration against an exact oracle",
  rule="every (helper kind, variable, a, b or limit) of the grid is one case, evaluated at every grid point x and displacement dx; a case is non-trivial when a != 0 or the refusal path is exercised, i.e. always",
  bounds="22 coefficients x 26-54 offsets x 41-89 points x 41-81 displacements, all dyadic (exact); points next to the limits; arbitrary limits of variables with the neighbouring floating-point values",
  assumptions=[TRUST], limit={"quick": 60, "thorough": 600}, note="Exhaustive over the stated dyadic grid with an exact oracle; values outside the grid (rounding) are not covered.")
check("C19", harness=["residual_mc.cc"], sources=["residual"], level="model_checking", technique="stateless model checking: exhaustive accumulation sequences against an exact reference",
  bounds="1-3 residuals in sequence, vectors of 1-4 (thorough 5) entries, every ordered list of 1-4 distinct indices, residual size 1-3, five construction forms, zero, not-a-number and infinite Jacobian columns, zero and non-zero prefill; large residuals: 5-17 parameters in 5 orders, up to 17 rows, 1-2 in sequence",
  assumptions=[TRUST], limit={"quick": 60, "thorough": 600}, note="Exhaustive over index lists, sizes, forms and accumulation sequences in integer-exact arithmetic; residuals beyond 4 parameters are covered at the stated sizes and orders only.")
check("C22", harness=["trace_mc.cc"], sources=["tracing"], level="model_checking", technique="stateless model checking of traced programs under a controlled clock",
  bounds="all programs of up to 6 (thorough 7) operations and nesting 3, on a moving and on a standing clock; all pairs of 24 names/macro flavours, nested or not; 10 start times x 15 x 15 durations; 0-3 other threads; 11 event counts around the retention limit",
  assumptions=[TRUST], limit={"quick": 60, "thorough": 600}, note="Exhaustive over small programs of scopes, names, clock values and event counts; concurrency is C21.")
ENV_BOUNDS = ("configurations: every choice of at most 3 deviations from the base among 34 parameter sets, 15 problem/back-end classes (1-7 variables; none, wide/infeasible/tight/contradictory bounds, 1-5 equality rows, combinations), 4 divisions of the rows over residuals, 2 line searches, 3 retractions, 3 callback modes, 5 magnitudes of the values (1e-8 to 1e10); "
  "environment: every choice of at most 3 (thorough 4) deviations, 4 (thorough 7) together with the configuration's, among the values at the start, at every trial point (10-13 outcomes, down to differences of one part in 10^13, placed around the solver's own thresholds) and of the Jacobian at every linearization; up to 6 iterations (one parameter set: 300)")
def env_check(pid, note): check(pid, harness=["nls_env.cc"], level="model_checking", technique="stateless model checking of the solver against an exhaustively scripted environment, reference state machine as oracle",
  bounds=ENV_BOUNDS, assumptions=[TRUST, "user functions are deterministic", "decisions within rounding distance of a threshold are not judged (counted as ambiguous)"], limit={"quick": 120, "thorough": 780}, shards={"quick": 40, "thorough": 96}, note=note)
env_check("C09", "Every accepted and rejected step of every explored run is re-derived; values outside the scripted alphabet are not covered.")
env_check("C10", "Step-size sequence and search result re-derived in extended precision for every explored search.")
env_check("C11", "Damping and state re-derived after every iteration of every explored outcome sequence.")
env_check("C12", "Every exit decision of every explored run re-derived; callback vetoes at every iteration.")
env_check("C13", "Every field of every record compared with what the user functions actually returned.")
env_check("C15", "Penalty and merit derivative re-derived at every iteration with equality constraints, both QP back ends.")
env_check("C16", "Calls observed by retraction, functions and callback matched one to one with the record; runs repeated without callback and with a stop at every iteration.")
QP_BOUNDS = ("9 small families (1-5 variables, 0-2 equality rows); every problem within 2-4 (thorough 3-6) deviations of the family's base problem: Hessian, each gradient entry, equality rows and offsets, "
  "up to 5 (thorough 6) bounds of 10 kinds in every order and multiplicity, 3 barrier strategies, 3 guesses with 8 user-provided starts, 12 parameter sets; units of the objective, the variables, one variable and the constraints changed by 2^6-2^20 (not C02); problems of 7-33 variables with 0-8 equality rows and up to 66 bounds around a constructed optimum; up to 12 iterations, every iterate observed")
def qp_check(pid, note, bounds=QP_BOUNDS): check(pid, harness=["qp_mc.cc"], sources=["qp"], level="model_checking", technique="stateless model checking: exhaustive bounded QP alphabet, every iterate judged by independent extended-precision oracles",
  bounds=bounds, assumptions=[TRUST, "steps computed at states whose largest multiplier/slack ratio exceeds 1e12 are not compared"], limit={"quick": 120, "thorough": 780}, shards={"quick": 40, "thorough": 96}, note=note)
qp_check("C01", "Every reported success is compared with independently recomputed KKT residuals and a brute-force active-set optimum; problems outside the alphabet are not covered.")
qp_check("C02", "Termination by tolerance for every strictly feasible problem of the alphabet, 2000 iterations allowed.", QP_BOUNDS.replace("up to 12 iterations, every iterate observed", "strategies and guesses as stated in the property, up to 2000 iterations"))
qp_check("C03", "Every step of every run is compared with the Newton step of the uneliminated system.")
qp_check("C04", "Every record entry of every run is recomputed from the observed iterates.")
check("C05", harness=["ns_mc.cc"], sources=["qp"], level="model_checking", technique="exhaustive enumeration of bounded integer problems executed on the implementation, exact rational oracle",
  bounds="1-6 variables, 1-5 equality rows of any rank (zero, repeated, scaled and combined rows), every Hessian/row/gradient/feasible point within 2-4 (thorough 3-6) entry deviations of three base problems; all of n=1 and n=2,K=1; NaN in the upper triangle; problems of 7-16 (thorough 33) variables with up to n+3 rows, redundant rows at every place, 5 Hessians, known answers; objective scaled by 2^-50 to 2^20, all rows by 2^-60 to 2^25, one row by 2^-25 to 2^7",
  assumptions=[TRUST, "exactly singular reduced Hessians are judged only when they are zero (otherwise rounding decides)"], limit={"quick": 200, "thorough": 780}, shards={"quick": 40, "thorough": 96}, note="Exhaustive over the integer alphabet against exact rational arithmetic; badly scaled or nearly dependent rows are not covered.")
FN_BOUNDS = ("1-3 variables; every problem within 4 (thorough 5) edits of the base: up to 2 extra costs of 3-14 kinds (index lists in and out of order, 1-3 rows, static and dynamic), prior weights and far targets, up to 2 equality constraints of 2-10 kinds, "
  "up to 3 bounds of 11 kinds per variable in any multiplicity, 5 start values per variable, 8-12 parameter sets, default or custom retraction; problems of 6 and 11 variables: 5 cost, 6 equality and 6 bound patterns (chains, stars, reversed and repeated indices), within 1 (thorough 2) further edits")
def fn_check(pid, note, bounds=FN_BOUNDS, technique="stateless model checking: exhaustive bounded alphabet of analytic problems run on the solver, independent linearisation and brute-force active-set oracle", **kw):
    check(pid, harness=["nls_fn.cc"], level="model_checking", technique=technique, bounds=bounds, assumptions=[TRUST], limit={"quick": 100 if not kw else 150, "thorough": 780}, shards={"quick": 40, "thorough": 96}, note=note, **kw)
ENV_PART = [dict(harness=["nls_env.cc"], options={"quick": ["--opt", "total=3"]})]
ENV_TOO = "; plus the scripted environment of C09 with one deviation less (where the functions are arbitrary): "
fn_check("C14", "Every search direction of every explored run compared with the minimiser of an independently assembled sub-problem (sub-problems that the interior-point solver did not solve to tolerance are only counted).",
  FN_BOUNDS + ENV_TOO + "directions without active bounds are compared with the solution of the sub-problem with the recorded damping", parts=ENV_PART)
fn_check("C17", "Every point at which user costs are evaluated is tested against the bounds.", FN_BOUNDS + ENV_TOO + "bounds far away, violated at the start and 1/16 wide around it", parts=ENV_PART)
fn_check("C18", "Every affine problem of the alphabet with a strictly feasible point, started from points that meet the bounds.", technique="stateless model checking: exhaustive bounded alphabet of affine problems run on the solver, brute-force active-set optimum as oracle")
fn_check("C27", "Every pair (thorough: triple) of 75 parameter corner values on 18-24 problems.", "75 corner values of the parameters (allowed extremes and just outside), all pairs (thorough triples) x 18 (thorough 24) problem classes; plus the problem alphabet of C14, where a run may only throw when the sub-problem at hand is infeasible or has no interior" + ENV_TOO + "no run throws unless it was fed non-finite derivatives, a singular sub-problem or contradictory bounds", technique="stateless model checking: exhaustive parameter-corner combinations and scripted environments on the implementation", parts=ENV_PART)
HOOK = ["-fsanitize=address", "-fno-omit-frame-pointer", "-include", os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness", "eigen_hook.hpp")]
check("C08", harness=["reject_mc.cc"], sources=["qp", "nonlinear", "residual", "tracing", "structs"], level="model_checking", technique="exhaustive enumeration of deviations from well-formed inputs, executed under AddressSanitizer with Eigen's checks routed to the harness",
  opt=["-O1"], lib_flags=HOOK, har_flags=HOOK, link=["-fsanitize=address"],
  bounds="5 targets (interior-point, null-space, residual, bound helpers, nonlinear solver); every combination of at most 4 (nonlinear: 3; thorough 5 and 4) deviations in dimensions (off by one both ways, zero, larger), indices (-1, n, extremes of int), coefficients, pointers, call order, 16 kinds of edits between Setup and Solve, edits after construction and 64 parameter values",
  assumptions=[TRUST, "AddressSanitizer and Eigen's dimension checks detect out-of-bounds accesses"], limit={"quick": 90, "thorough": 780}, shards={"quick": 40, "thorough": 96}, note="Exhaustive over the stated deviations; repeated indices are not judged.")
check("C06", harness=["reuse_mc.cc"], sources=["qp", "structs"], level="model_checking", technique="stateless model checking: every bounded operation sequence on one solver object, compared bit for bit with new objects under poisoned memory",
  bounds="interior-point: every sequence of 3 (thorough 4) uses out of 18 problems x 8 parameter sets (the first in another object or in the same storage), repeated and continued solves, 3 kinds of rejection, copies and moves; null-space: every sequence of 4 (thorough 5) uses out of 19 problems and copies; heap and stack filled with 3 different patterns",
  assumptions=[TRUST], limit={"quick": 150, "thorough": 780}, shards={"quick": 40, "thorough": 96}, note="Exhaustive over the stated sequences; problem alphabet of 18 and 19 problems (neighbours that differ in one part included).")
check("C07", harness=["reuse_mc.cc"], level="model_checking", technique="stateless model checking: every bounded operation sequence with an exception injected at every user call, compared bit for bit with new objects under poisoned memory",
  bounds="4 problem classes x 3 bound sets at construction; every sequence of 3 runs with at most 3 (thorough 4) deviations: custom retraction, another usual start, bound edits (switching back-ends), 4 starts, 8 parameter sets, 4 callback modes, skipped runs, rejected calls, copies, an exception of 3 types at every call of a cost, constraint, retraction or callback",
  assumptions=[TRUST], limit={"quick": 90, "thorough": 780}, shards={"quick": 40, "thorough": 96}, note="Exhaustive over the stated sequences.")
TS = ["-fsanitize=thread", "-fno-builtin-memcpy", "-fno-builtin-memset", "-fno-builtin-memmove"]
def sched_check(pid, **kw):
    check(pid, harness=["sched_mc.cc", "sched_rt.cc"], cxx="clang++", opt=["-O1", "-g1", "-fno-pie"], lib_flags=["-fsanitize=thread"], har_flags=["-fsanitize=thread"], rt_flags={"sched_rt.cc": ["-O2", "-g1", "-fno-pie"]}, link=["-no-pie"],
          level="model_checking", shards={"quick": 40, "thorough": 96}, assumptions=[TRUST, "sequentially consistent atomics; switches only at synchronisation operations (complete for programs without data races, which the happens-before detector establishes on every explored schedule)"], **kw)
sched_check("C21", sources=["tracing"], technique="stateless model checking of the implementation under a controlled scheduler (preemption-bounded) with a happens-before race detector",
  bounds="2 threads of up to 3 operations each and 3 threads of up to 2 (scope, nested scopes, export, scope left by an exception), collector existing or not; every schedule with at most 4 preemptions (up to 3 operations), 3 (4 operations), 2 (5), 1 (6), 3 threads 3 (3 operations), 2 (4); thorough 5, 4, 3, 3".replace("; every schedule", "; an export against 1 (thorough 2) scopes on a collector holding 99999 or 100000 (thorough 99998 too) events, 1 (thorough 2) preemptions; every schedule"),
  limit={"quick": 120, "thorough": 780}, note="Exhaustive over schedules up to the stated preemption bound; up to 3 threads.")
sched_check("C20", technique="stateless model checking of the implementation under a controlled scheduler (preemption-bounded) with a happens-before race detector; nested runs enumerated at every user call",
  bounds="all pairs of 11 jobs (6 nonlinear problem classes, one of them with a line search through the quadratic and the cubic fit, both QP solvers, evaluation, failing run) sharing one problem or not, collector existing or not, every schedule with at most 2 (thorough 3) preemptions; all triples of 10 with 1 (thorough 2); every job (and a larger problem) started inside every user call of 6 outer runs under watch for uses of freed memory, on entry and after the derivatives were written",
  limit={"quick": 120, "thorough": 780}, note="Exhaustive over schedules up to the stated preemption bound and over all nesting points.")
check("C23", harness=["json_mc.cc"], level="model_checking", technique="exhaustive enumeration of output structures and of special numbers in every field on the implementation, plus outputs of enumerated real runs",
  bounds="0 to 3 iterations: the first in every structure (2 states x 18 QP outcomes x eigenvalues or not x 6 search results x 0 to 3 steps), the others within 1 (thorough 2) deviations; 16 special numbers (NaN, infinities, signed zero, subnormal, extremes, hard-to-print) in every field (thorough: every pair of fields) of 6 base structures; directly, through compact and indented text, and a second time; outputs of 1792 (thorough 3328) solver runs; lists of up to 65537 steps or QP iterations and up to 300 iterations",
  assumptions=[TRUST], limit={"quick": 60, "thorough": 780}, shards={"quick": 40, "thorough": 96}, note="Exhaustive over the stated structures and field pairs.")
check("C24", harness=["json_mc.cc"], lib_flags=["-fsanitize=address"], har_flags=["-fsanitize=address"], link=["-fsanitize=address"], level="model_checking", technique="exhaustive enumeration of document damage, executed under AddressSanitizer, judged by an independent reader of the format",
  bounds="4 documents; every single damage and every pair (thorough: triple in small documents): each value removed, renamed or replaced by 28 values of other kinds (3, thorough 12, for the second); every truncation, byte deletion, duplication and replacement by 11 bytes of the text",
  assumptions=[TRUST, "AddressSanitizer detects out-of-bounds accesses"], limit={"quick": 60, "thorough": 780}, shards={"quick": 40, "thorough": 96}, note="Exhaustive over the stated damage; an integral number written with a fraction as iteration number is not judged.")
check("C25", harness=["text_mc.cc"], sources=["structs"], level="model_checking", technique="exhaustive enumeration of output structures, special numbers in every field and all enumerators on the implementation; the text is read back token by token",
  bounds="0 to 3 iterations: the first in every structure (2 states x 18 QP outcomes x eigenvalues or not x 6 search results x 0 to 3 steps), the others within 1 (thorough 2) deviations; 16 special numbers in every field (thorough: every pair of fields) of 6 base structures; with and without colour and QP details; all 24 enumerators; lists of up to 65537 steps or QP iterations and up to 300 iterations",
  assumptions=[TRUST], limit={"quick": 60, "thorough": 780}, shards={"quick": 40, "thorough": 96}, note="Exhaustive over the stated structures and fields.")
