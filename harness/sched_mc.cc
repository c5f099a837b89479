// C20 / C21: every schedule (up to a preemption bound) of threads that trace, export and solve, on the
// implementation compiled with access instrumentation and run under the scheduler of sched_rt.cc, which also
// reports every pair of conflicting accesses not ordered by synchronisation.
#include <unistd.h>
#include <mini_opt/nonlinear.hpp>
#include <mini_opt/qp.hpp>
#include <mini_opt/tracing.hpp>
#include <nlohmann/json.hpp>
#include "mc.hpp"
#include "nls_common.hpp"
#include "sched_rt.hpp"
using namespace mini_opt;
using mc::X;
using mc::cat;
using Eigen::MatrixXd;
using Eigen::VectorXd;
namespace {
std::string g_case;
const char* g_prop = "";
int pick(int n, const char* label) { return X.choose(n, label); }
void report(const char* kind, const std::string& msg) { X.fail(g_prop, kind, cat(kind, ": ", msg, "\n  ", g_case)); }

// ================================================================ C21
struct Scope { int thread; std::string_view name; std::int64_t t0, t1, t2, t3; };
struct Export { int thread; std::int64_t e0, e1; std::string text; };
const char* const kNames[] = {"a0", "a1", "a2", "a3", "a4", "a5", "b0", "b1", "b2", "b3", "b4", "b5", "c0", "c1", "c2", "c3", "c4", "c5"};
struct Log { std::vector<Scope> scopes; std::vector<Export> exports; trace_collector* inst = nullptr; };
enum TOp { kScope, kNested, kExport, kThrow };
void scope(Log& log, int t, int& k, int depth) {
  const std::size_t at = log.scopes.size();
  log.scopes.push_back({t, kNames[t * 6 + k++], sched::now(), 0, 0, 0});
  {
    const scoped_trace s{log.scopes[at].name};
    log.scopes[at].t1 = sched::now();
    if (depth) scope(log, t, k, depth - 1);
    log.scopes[at].t2 = sched::now();
  }
  log.scopes[at].t3 = sched::now();
}
void export_now(Log& log, int t) {
  Export e{t, sched::now(), 0, {}};
  trace_collector* c = trace_collector::get_instance();
  if (log.inst && log.inst != c) X.fail("C21", "two-collectors", cat("two different collectors\n  ", g_case));
  log.inst = c;
  e.text = c->get_trace_json();
  e.e1 = sched::now();
  log.exports.push_back(std::move(e));
}
struct Ev { std::string name; std::int64_t ts, dur, pid, tid; };
bool parse(const std::string& text, std::vector<Ev>* out) {
  try {
    const nlohmann::json doc = nlohmann::json::parse(text);
    for (auto& e : doc.at("traceEvents")) {
      if (e.at("ph") != "X") return false;
      out->push_back({e.at("name").get<std::string>(), e.at("ts").get<std::int64_t>(), e.at("dur").get<std::int64_t>(), e.at("pid").get<std::int64_t>(), e.at("tid").get<std::int64_t>()});
    }
    return true;
  } catch (const std::exception&) { return false; }
}
void check_export(const std::vector<Log>& logs, const Export& x, bool final, mc::Hash* h) {
  std::vector<Ev> evs;
  ++X.checks;
  const std::string who = final ? "the final export" : cat("an export by thread ", x.thread);
  if (!parse(x.text, &evs)) { X.fail("C21", "corrupt", cat(who, " is not a valid trace document\n  ", g_case, "\n", x.text.substr(0, 600))); return; }
  std::map<std::string, const Scope*> all;
  for (auto& l : logs) for (auto& s : l.scopes) all[std::string(s.name)] = &s;
  std::map<std::string, int> seen;
  for (auto& e : evs) {
    h->add(std::hash<std::string>()(e.name));
    auto it = all.find(e.name);
    if (it == all.end()) { X.fail("C21", "unknown-event", cat(who, " contains an event '", e.name, "' nobody submitted\n  ", g_case)); return; }
    const Scope& s = *it->second;
    if (++seen[e.name] > 1) X.fail("C21", "duplicate", cat(who, " contains the event of scope ", e.name, " twice\n  ", g_case));
    if (e.tid != sched::real_tid(s.thread)) X.fail("C21", "thread-id", cat(who, ": scope ", e.name, " of thread ", s.thread, " carries another thread's id\n  ", g_case));
    if (e.pid != getpid()) X.fail("C21", "process-id", cat(who, ": wrong process id\n  ", g_case));
    const std::int64_t start = e.ts * 1000, end = start + e.dur * 1000;
    if (start < s.t0 || start > s.t1 || (s.t3 && (end < s.t2 || end > s.t3)))
      X.fail("C21", "times", cat(who, ": scope ", e.name, " carries times ", start, "..", end, " instead of its own (", s.t0, "..", s.t1, " to ", s.t2, "..", s.t3, ")\n  ", g_case));
    if (s.t0 > x.e1) X.fail("C21", "from-the-future", cat(who, " contains scope ", e.name, " which started after it ended\n  ", g_case));
  }
  for (auto& [n, s] : all) {
    if (seen.count(n)) {
      // a consistent snapshot contains everything that had finished before anything it contains began
      for (auto& [m, q] : all) if (!seen.count(m) && q->t3 && q->t3 < s->t0) X.fail("C21", "inconsistent", cat(who, " contains scope ", n, " but not ", m, " which finished before it began\n  ", g_case));
    } else if (s->t3 && s->t3 < x.e0) X.fail("C21", "lost", cat(who, " lacks scope ", n, " which finished before it began\n  ", g_case, "\n", x.text.substr(0, 600)));
  }
}
// A collector at its limit: finishing scopes push out the oldest events while another thread exports.
void c21_full() {
  const bool thorough = X.thorough();
  const int fills = 100000 - X.choose(thorough ? 3 : 2, "room left");
  std::vector<std::vector<int>> prog(2);
  prog[0] = {kExport};
  const int scopes = thorough ? 1 + X.choose(2, "scopes") : 1;
  prog[1].assign(scopes, kScope);
  X.shard_point();
  g_case = cat(fills, " events recorded already, [ export ] against ", scopes, " scope(s)");
  sched::begin_session();
  for (int i = 0; i < fills; ++i) trace_collector::get_instance()->submit_event(trace_event{"fill", i, 1, 1, 0});
  std::vector<Log> logs(2);
  for (auto& l : logs) { l.scopes.reserve(16); l.exports.reserve(8); }
  std::vector<std::function<void()>> bodies;
  for (int t = 0; t < 2; ++t)
    bodies.push_back([t, &logs, &prog] {
      int k = 0;
      for (int o : prog[t]) {
        sched::point("operation");
        if (o == kExport) export_now(logs[t], t); else scope(logs[t], t, k, 0);
      }
    });
  sched::Config c;
  c.pick = pick;
  c.report = report;
  c.preemptions = thorough ? 2 : 1;
  c.large = true;
  sched::run(bodies, c);
  const auto st = sched::stats();
  Log last;
  export_now(last, 0);
  logs[0].exports.push_back(last.exports[0]);
  mc::Hash h;
  for (std::size_t x = 0; x < logs[0].exports.size(); ++x) {
    const std::string& text = logs[0].exports[x].text;
    ++X.checks;
    // the events in order: fills i, i+1, ... without a gap, then the scopes in completion order
    long n = 0, first = -1, next = -1, seen = 0;
    bool ok = true;
    for (std::size_t p = text.find("\"name\""); p != std::string::npos; p = text.find("\"name\"", p + 1)) {
      ++n;
      const std::size_t q = text.find('"', text.find(':', p)) + 1;
      if (text.compare(q, 5, "fill\"") == 0) {
        const std::size_t at = text.find("\"ts\"", q);
        const long i = std::atol(text.c_str() + text.find(':', at) + 1);
        if (first < 0) first = next = i;
        ok = ok && i == next++ && !seen;
      } else {
        ok = ok && text.compare(q, 3, cat("b", seen, "\"")) == 0;
        ++seen;
      }
    }
    h.add(seen);
    const std::string who = x + 1 == logs[0].exports.size() ? "the final export" : "the export";
    if (!ok || next != fills) X.fail("C21", "lost", cat(who, " is not a consistent snapshot: events are missing, repeated or out of order (", n, " events, ", first, "..", next, " of those before)\n  ", g_case));
    else if (first != std::max(0l, fills + seen - 100000)) X.fail("C21", "retention", cat(who, " has ", n, " events, the oldest number ", first, ", with ", seen, " scopes\n  ", g_case));
  }
  sched::end_session();
  X.state(h.add(fills).h);
  X.outcome(h.h);
  X.transitions += st.sync;
  X.count("scheduling points", st.sync);
  X.count("instrumented accesses", st.accesses);
  X.count("schedules on a full collector");
  X.set_sample_text(g_case);
}
void c21() {
  g_prop = "C21";
  X.deviations_left = 1 << 20;
  const bool thorough = X.thorough();
  if (X.choose(2, "collector at its limit")) { c21_full(); return; }
  const int nt = 2 + X.choose(2, "third thread");
  std::vector<std::vector<int>> prog(nt);
  int total = 0;
  for (int t = 0; t < nt; ++t) {
    const int maxlen = nt == 2 ? 3 : thorough ? 2 : 1 + (t == 0);
    const int len = 1 + X.choose(maxlen, "operations");
    for (int i = 0; i < len; ++i) prog[t].push_back(X.choose(t == 0 && i == 0 ? 4 : 3, "operation"));
    total += len;
  }
  for (int t = 1; t < nt; ++t) if (prog[t] > prog[t - 1]) X.skip();  // threads are interchangeable
  // warmed by main: the collector already exists when the threads start
  const int warm = X.choose(2, "collector exists");
  X.shard_point();
  g_case = cat(warm ? "warm" : "cold", " program:");
  static constexpr const char* on[] = {"scope", "nested", "export", "scope left by an exception"};
  for (auto& p : prog) { g_case += " ["; for (int o : p) g_case += cat(" ", on[o]); g_case += " ]"; }
  sched::begin_session();
  if (warm) trace_collector::get_instance();
  std::vector<Log> logs(nt);
  for (auto& l : logs) { l.scopes.reserve(16); l.exports.reserve(8); }
  std::vector<std::function<void()>> bodies;
  for (int t = 0; t < nt; ++t) {
    bodies.push_back([t, &logs, &prog] {
      int k = 0;
      for (int o : prog[t]) {
        sched::point("operation");
        if (o == kExport) export_now(logs[t], t);
        else if (o == kThrow) try { const scoped_trace s{"thrown"}; throw 1; } catch (int) {}
        else scope(logs[t], t, k, o == kNested ? 1 : 0);
      }
    });
  }
  sched::Config c;
  c.pick = pick;
  c.report = report;
  if (nt == 3 && !thorough) c.preemptions = total <= 3 ? 3 : 2;
  else c.preemptions = total <= 3 ? (thorough ? 5 : 4) : total <= 4 ? (thorough ? 4 : 3) : total <= 5 ? (thorough ? 3 : 2) : (thorough ? 3 : 1);
  sched::run(bodies, c);
  const auto st = sched::stats();
  mc::Hash h;
  Log last;
  export_now(last, 0);
  for (auto& l : logs) if (l.inst && l.inst != last.inst) X.fail("C21", "two-collectors", cat("two different collectors\n  ", g_case));
  if (st.inits > 1) X.fail("C21", "double-initialisation", cat("the collector (or another static) was initialised ", st.inits, " times\n  ", g_case));
  for (auto& l : logs) for (auto& e : l.exports) check_export(logs, e, false, &h);
  std::size_t finished = 0;
  for (auto& l : logs) finished += l.scopes.size();
  std::vector<Ev> evs;
  check_export(logs, last.exports[0], true, &h);
  if (parse(last.exports[0].text, &evs) && evs.size() != finished)
    X.fail("C21", "lost", cat(finished, " scopes finished but the final export has ", evs.size(), " events\n  ", g_case));
  // the threads' ids must differ for the thread-id check to mean anything
  for (int i = 0; i < nt; ++i) for (int j = 0; j < i; ++j) if (sched::real_tid(i) == sched::real_tid(j)) X.hard("thread ids collide");
  sched::end_session();
  X.state(h.h);
  X.outcome(mc::Hash().add(h.h).add(total).h);
  X.transitions += st.sync;
  X.count("scheduling points", st.sync);
  X.count("instrumented accesses", st.accesses);
  X.count(cat("schedules with ", st.preemptions, " preemptions"));
  X.set_sample_text(g_case);
}

// ================================================================ C20
using nls::NLS;
using LC = LinearInequalityConstraint;
struct Hook { int calls = 0, at = -1, site = -1; std::function<void()> inner; bool in_inner = false; };
thread_local Hook* t_hook = nullptr;
void visit(int site) {
  Hook* h = t_hook;
  if (!h || h->in_inner) return;
  if (site == h->site || h->site < 0) {
    if (h->calls++ == h->at && h->inner) { h->in_inner = true; h->inner(); h->in_inner = false; }
  }
}
struct Cost0 {
  Eigen::Vector2d operator()(const Eigen::Vector2d& p, Eigen::Matrix2d* J) const {
    visit(0);
    if (J) *J << 1, 0, -3 * p[0], 1.5;
    const Eigen::Vector2d r(p[0] - 1, 1.5 * (p[1] - p[0] * p[0]));
    visit(0);  // the derivatives are written already
    return r;
  }
};
struct Cost1 {
  Eigen::Matrix<double, 1, 1> operator()(const VectorXd& p, Eigen::Matrix<double, 1, Eigen::Dynamic>* J) const {
    visit(0);
    double s = -0.25;
    for (long i = 0; i < p.size(); ++i) s += std::sin(p[i]);
    if (J) for (long i = 0; i < p.size(); ++i) (*J)(0, i) = std::cos(p[i]);
    visit(0);
    return Eigen::Matrix<double, 1, 1>(s);
  }
};
struct Eq0 {
  Eigen::Matrix<double, 1, 1> operator()(const VectorXd& p, Eigen::Matrix<double, 1, Eigen::Dynamic>* J) const {
    visit(1);
    double v = -1;
    for (long j = 0; j < p.size(); ++j) v += p[j] * p[j] + 0.5 * p[j];
    if (J) for (long j = 0; j < p.size(); ++j) (*J)(0, j) = 2 * p[j] + 0.5;
    visit(1);
    return Eigen::Matrix<double, 1, 1>(v);
  }
};
// More rows, more variables and more constraints than any other problem here.
struct Cost9 {
  Eigen::Matrix<double, 9, 1> operator()(const VectorXd& p, Eigen::Matrix<double, 9, Eigen::Dynamic>* J) const {
    Eigen::Matrix<double, 9, 1> r;
    for (int i = 0; i < 9; ++i) {
      r[i] = 0.1 * i - 0.3;
      for (long j = 0; j < p.size(); ++j) { r[i] += (i == j ? 2 : 0.125 * ((i + j) % 3)) * p[j]; if (J) (*J)(i, j) = i == j ? 2 : 0.125 * ((i + j) % 3); }
    }
    return r;
  }
};
// Full steps overshoot: the line search goes through the quadratic and the cubic fit.
struct Curved {
  Eigen::Matrix<double, 1, 1> operator()(const Eigen::Matrix<double, 1, 1>& p, Eigen::Matrix<double, 1, 1>* J) const {
    visit(0);
    if (J) (*J)(0, 0) = 1 / (1 + p[0] * p[0]);
    return Eigen::Matrix<double, 1, 1>(std::atan(p[0]));
  }
};
Problem make_problem(int kind) {
  Problem p;
  if (kind == 6) {
    p.dimension = 1;
    p.costs.push_back(MakeResidual<1, 1>({0}, Curved{}));
    return p;
  }
  if (kind == 5) {
    p.dimension = 8;
    p.costs.push_back(MakeResidual<9, Eigen::Dynamic>({0, 1, 2, 3, 4, 5, 6, 7}, Cost9{}));
    for (int i = 0; i < 3; ++i) p.equality_constraints.push_back(MakeResidual<1, Eigen::Dynamic>({2 * i, 2 * i + 1}, Eq0{}));
    for (int i = 0; i < 8; ++i) p.inequality_constraints.push_back(Var(i) <= 2.0);
    return p;
  }
  p.dimension = kind == 4 ? 3 : 2;
  p.costs.push_back(MakeResidual<2, 2>({0, 1}, Cost0{}));
  p.costs.push_back(MakeResidual<1, Eigen::Dynamic>({1, kind == 4 ? 2 : 0}, Cost1{}));
  if (kind == 1 || kind == 3 || kind == 4) p.equality_constraints.push_back(MakeResidual<1, Eigen::Dynamic>({0, 1}, Eq0{}));
  if (kind == 2 || kind == 3) { p.inequality_constraints.push_back(Var(0) <= 0.75); p.inequality_constraints.push_back(Var(1) >= -2.0); }
  return p;
}
// The harness has no function-local statics of its own: a session forgets those.
std::vector<Problem>* g_problems;
const std::vector<Problem>& problems() { return *g_problems; }
std::vector<QP>* g_qps;
const std::vector<QP>& qps() { return *g_qps; }
std::vector<QP> make_qps() {
    std::vector<QP> r;
    for (int k = 0; k < 3; ++k) {
      QP q(3);
      q.G << 2, 0, 0, 0.5, 3, 0, 0, -0.5, 1;
      q.c << 1, -2, 0.5;
      if (k) { q.A_eq.resize(1, 3); q.A_eq << 1, 1, -1; q.b_eq = VectorXd::Constant(1, -0.25); }
      if (k < 2) { q.constraints.push_back(LC(0, 1, 0.25)); q.constraints.push_back(LC(1, -1, 0.5)); }
      r.push_back(std::move(q));
    }
    return r;
}
struct Result {
  bool threw = false;
  std::string what;
  std::optional<NLSSolverOutputs> nls;
  std::optional<QPInteriorPointSolverOutputs> ip;
  VectorXd vars;
  double extra = 0;
};
std::string diff(const Result& a, const Result& b) {
  if (a.threw != b.threw) return cat(a.threw ? "throws " : "returns where it throws alone: ", (a.threw ? a.what : b.what).substr(0, 120));
  if (a.what != b.what) return "different exception";
  if (a.nls.has_value() != b.nls.has_value() || a.ip.has_value() != b.ip.has_value()) return "different kind";
  if (a.nls) {
    if (a.nls->termination_state != b.nls->termination_state) return cat("termination ", a.nls->termination_state, " vs ", b.nls->termination_state);
    if (auto d = nls::diff(a.nls->iterations, b.nls->iterations); !d.empty()) return d;
  }
  if (a.ip && !nls::same(*a.ip, *b.ip)) return "iteration record";
  if (!nls::same(a.vars, b.vars)) return cat("variables ", nls::str(a.vars), " vs ", nls::str(b.vars));
  if (!mc::same_bits(a.extra, b.extra)) return "values";
  return "";
}
struct Job { const char* name; int kind; int prob; int flavour; };
// kind 0 nonlinear, 1 interior point, 2 null space, 3 evaluation only
const Job kJobs[] = {{"unconstrained", 0, 0, 0}, {"equality", 0, 1, 0}, {"bounds", 0, 2, 0}, {"equality and bounds, armijo", 0, 3, 1}, {"equality, retraction and callback", 0, 4, 2},
                     {"interior point", 1, 0, 0}, {"interior point with equality", 1, 1, 1}, {"null space", 2, 2, 0}, {"evaluation", 3, 3, 0}, {"failing run", 0, 2, 3}, {"curved", 0, 6, 5}, {"large", 0, 5, 0}, {"large evaluation", 3, 5, 0}, {"far start", 0, 0, 4}};
constexpr int kCurved = 10;
constexpr int kThreadJobs = 11;  // those run by threads
constexpr int kNJ = sizeof(kJobs) / sizeof(kJobs[0]);
Result run_job(int j, const Problem& prob, const QP& qp) {
  Result r;
  const Job& job = kJobs[j];
  try {
    if (job.kind == 0) {
      NLS::Retraction ret;
      if (job.flavour == 2) ret = [](VectorXd& x, ConstVectorBlock dx, double a) { visit(2); for (long i = 0; i < x.size(); ++i) x[i] += dx[i] * a; };
      NLS s(&prob, ret);
      NLS::Params p;
      p.max_iterations = job.flavour == 5 ? 1 : 2;
      if (job.flavour == 1) { p.line_search_strategy = LineSearchStrategy::ARMIJO_BACKTRACK; p.log_qp_eigenvalues = true; p.lambda_initial = 0.01; }
      if (job.flavour == 2) s.SetUserExitCallback([](const NLSIteration& it) { visit(3); return it.iteration < 1; });
      p.max_qp_iterations = 3;
      VectorXd x = VectorXd::Constant(prob.dimension, 0.25);
      if (job.flavour == 3) x[0] = NAN;
      if (job.flavour == 5) x.setConstant(8);
      if (job.flavour == 4) x.setConstant(30);  // values and derivatives of another magnitude
      r.nls = s.Solve(p, x);
      r.vars = s.variables();
    } else if (job.kind == 1) {
      QPInteriorPointSolver s(&qp);
      QPInteriorPointSolver::Params p;
      p.max_iterations = 3;
      if (job.flavour) { p.initial_guess_method = InitialGuessMethod::SOLVE_EQUALITY_CONSTRAINED; p.barrier_strategy = BarrierStrategy::PREDICTOR_CORRECTOR; }
      r.ip = s.Solve(p);
      r.vars = s.variables();
    } else if (job.kind == 2) {
      QPNullSpaceSolver s;
      r.extra = s.Solve(qp) == QPNullSpaceTerminationState::SUCCESS;
      r.vars = s.variables();
    } else {
      NLS s(&prob);
      const Errors e = s.EvaluateNonlinearErrors(VectorXd::Constant(prob.dimension, 0.5));
      r.extra = e.f + 3 * e.equality + prob.costs[0].QuadraticError(VectorXd::Constant(prob.dimension, 0.5));
    }
  } catch (const std::exception& e) {
    r.threw = true;
    r.what = e.what();
  }
  return r;
}
Result run_job(int j) { return run_job(j, problems()[kJobs[j].kind == 0 || kJobs[j].kind == 3 ? kJobs[j].prob : 0], qps()[kJobs[j].kind == 1 || kJobs[j].kind == 2 ? kJobs[j].prob : 0]); }
std::vector<Result>* g_alone;
const Result& alone(int j) { return (*g_alone)[j]; }
void c20_threads() {
  const int nt = X.choose(2, "third thread") ? 3 : 2;
  const bool thorough = X.thorough();
  std::vector<int> job(nt);
  for (int t = 0; t < nt; ++t) job[t] = X.choose(kThreadJobs, "job");
  for (int t = 1; t < nt; ++t) if (job[t] > job[t - 1]) X.skip();
  if (nt == 3 && job[0] == kCurved) X.skip();
  const int share = X.choose(2, "problem of its own");
  const int first = X.choose(2, "collector exists");
  X.shard_point();
  g_case = cat(nt, " threads:");
  for (int j : job) g_case += cat(" [", kJobs[j].name, "]");
  g_case += share ? " problems of their own" : " sharing one problem";
  sched::begin_session();
  if (first) trace_collector::get_instance();
  std::vector<Result> res(nt);
  std::vector<Problem> own;
  std::vector<QP> ownq;
  own.reserve(nt);
  for (int t = 0; t < nt; ++t) { own.push_back(make_problem(kJobs[job[t]].kind == 0 || kJobs[job[t]].kind == 3 ? kJobs[job[t]].prob : 0)); }
  std::vector<std::function<void()>> bodies;
  for (int t = 0; t < nt; ++t)
    bodies.push_back([t, share, &res, &own, &job] {
      const Job& j = kJobs[job[t]];
      if (share && (j.kind == 0 || j.kind == 3)) res[t] = run_job(job[t], own[t], qps()[0]);
      else res[t] = run_job(job[t]);
    });
  sched::Config c;
  c.pick = pick;
  c.report = report;
  c.preemptions = nt == 2 ? (thorough ? 3 : 2) : (thorough ? 2 : 1);
  sched::run(bodies, c);
  const auto st = sched::stats();
  sched::end_session();
  mc::Hash h;
  for (int t = 0; t < nt; ++t) {
    ++X.checks;
    h.add(job[t]).vec(res[t].vars);
    if (auto d = diff(res[t], alone(job[t])); !d.empty()) X.fail("C20", "threads-interfere", cat("thread ", t, " (", kJobs[job[t]].name, ") does not behave as when run alone: ", d, "\n  ", g_case));
  }
  X.state(h.add(st.switches).h);
  X.outcome(h.h);
  X.transitions += st.sync;
  X.count("scheduling points", st.sync);
  X.count("instrumented accesses", st.accesses);
  X.maximum("memory granules touched in one run", double(st.granules));
  X.count(cat("schedules with ", st.preemptions, " preemptions"));
  X.set_sample_text(g_case);
}
std::map<std::pair<int, int>, int>* g_counts;
void c20_nested() {
  const int o = X.choose(6, "outer job"), outer = o == 5 ? kCurved : o;
  const int site = X.choose(4, "site");
  static constexpr const char* sn[] = {"cost", "constraint", "retraction", "callback"};
  // how often the outer run reaches the site
  auto& counts = *g_counts;
  if (!counts.count({outer, site})) { Hook h; h.site = site; t_hook = &h; (void)run_job(outer); t_hook = nullptr; counts[{outer, site}] = h.calls; }
  const int n = counts[{outer, site}];
  if (n == 0) X.skip();
  const int at = X.choose(n, "call");
  const int inner = X.choose(kNJ, "inner job");
  const int again = X.choose(2, "inner twice");
  X.shard_point();
  g_case = cat("[", kJobs[inner].name, "] inside call ", at, " of a ", sn[site], " of [", kJobs[outer].name, "]");
  Hook h;
  h.site = site;
  h.at = at;
  std::vector<Result> in;
  h.inner = [&] { for (int k = 0; k <= again; ++k) in.push_back(run_job(inner)); };
  // one modelled thread: every access is watched for memory that was freed meanwhile
  Result r;
  const std::vector<std::function<void()>> bodies{[&] {
    t_hook = &h;
    r = run_job(outer);
    t_hook = nullptr;
  }};
  sched::begin_session();
  sched::Config c;
  c.pick = pick;
  c.report = report;
  sched::run(bodies, c);
  sched::end_session();
  ++X.checks;
  if (auto d = diff(r, alone(outer)); !d.empty()) X.fail("C20", "nested-outer", cat("the outer run changed: ", d, "\n  ", g_case));
  for (auto& i : in) { ++X.checks; if (auto d = diff(i, alone(inner)); !d.empty()) X.fail("C20", "nested-inner", cat("the inner run does not behave as when run alone: ", d, "\n  ", g_case)); }
  if (in.empty()) X.hard("inner run not reached");
  X.state(mc::Hash().add(outer).add(site).add(at).add(inner).vec(r.vars).h);
  X.outcome(mc::Hash().add(outer).add(inner).add(7).h);
  X.count("nested runs");
  X.set_sample_text(g_case);
}
void c20() {
  g_prop = "C20";
  X.deviations_left = 1 << 20;
  if (X.choose(2, "nested") == 0) c20_threads(); else c20_nested();
}
void body() { if (X.want("C21")) c21(); else c20(); }
}  // namespace
int main(int argc, char** argv) {
  X.parse(argc, argv);
  sched::begin_session();
  g_problems = new std::vector<Problem>;
  for (int i = 0; i < 7; ++i) g_problems->push_back(make_problem(i));
  g_qps = new std::vector<QP>(make_qps());
  g_alone = new std::vector<Result>;
  g_counts = new std::map<std::pair<int, int>, int>;
  if (!X.want("C21")) for (int k = 0; k < kNJ; ++k) g_alone->push_back(run_job(k));
  sched::end_session();
  // a trial run of every operation in turn
  sched::begin_session();
  {
    const std::vector<std::function<void()>> bodies{[] {
      { const scoped_trace s{"trial"}; }
      (void)trace_collector::get_instance()->get_trace_json();
      if (!X.want("C21")) for (int k = 0; k < kNJ; ++k) (void)run_job(k);
    }};
    sched::Config c;
    sched::run(bodies, c);
  }
  sched::end_session();
  sched::settle();
  return X.run(body);
}
