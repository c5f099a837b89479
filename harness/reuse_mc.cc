// C06 / C07: every bounded sequence of uses of one solver object, compared bit for bit with what a newly
// constructed solver produces for the same call, under differently poisoned heap and stack memory.
#include <mini_opt/nonlinear.hpp>
#include <mini_opt/qp.hpp>
#include "mc.hpp"
#include "nls_common.hpp"
using namespace mini_opt;
using mc::X;
using mc::cat;
using Eigen::MatrixXd;
using Eigen::VectorXd;

// ---------------------------------------------------------------- poisoned memory
extern "C" void* __libc_malloc(std::size_t);
static bool g_fill_on = false;
static unsigned char g_fill = 0;
extern "C" void* malloc(std::size_t n) {
  void* p = __libc_malloc(n);
  if (g_fill_on && p) std::memset(p, g_fill, n);
  return p;
}
namespace {
__attribute__((noinline)) void scribble_stack(unsigned char b) {
  volatile unsigned char buf[24 * 1024];
  for (std::size_t i = 0; i < sizeof buf; ++i) buf[i] = b;
}
// 0xff: quiet not-a-number; 0x41: 2261634.5...; 0x7f: 1.4e306
const unsigned char kFill[] = {0xff, 0x41, 0x7f};
template <class F>
void poisoned(unsigned char b, F&& f) {
  struct Off { ~Off() { g_fill_on = false; } } off;
  scribble_stack(b);
  g_fill = b;
  g_fill_on = true;
  f();
}

// ================================================================ C06
struct Out {
  bool threw = false;
  std::string what;
  std::optional<QPInteriorPointSolverOutputs> out;
  VectorXd vars;
};
std::string first_line(const std::string& s) { return s.substr(0, s.find('\n')); }
std::string diff(const Out& a, const Out& b) {
  if (a.threw != b.threw) return cat(a.threw ? "throws" : "returns", " where a new solver ", b.threw ? "throws" : "returns", ": ", (a.threw ? a.what : b.what).substr(0, 200));
  if (a.threw) return a.what == b.what ? "" : cat("different exception: ", a.what.substr(0, 150), " / ", b.what.substr(0, 150));
  if (a.out && !nls::same(*a.out, *b.out)) {
    if (a.out->termination_state != b.out->termination_state) return "termination state differs";
    if (a.out->iterations.size() != b.out->iterations.size()) return cat("number of iterations ", a.out->iterations.size(), " vs ", b.out->iterations.size());
    for (std::size_t i = 0; i < a.out->iterations.size(); ++i) if (!nls::same(a.out->iterations[i], b.out->iterations[i])) return cat("iteration record ", i, " differs");
    return "multiplier summary differs";
  }
  if (!nls::same(a.vars, b.vars)) return cat("variables ", nls::str(a.vars), " vs ", nls::str(b.vars));
  return "";
}
struct QPCase { std::string name; QP qp; };
QP make(int n, int K, std::vector<LinearInequalityConstraint> cons, double scale, double off) {
  QP q(n);
  for (int i = 0; i < n; ++i) {
    for (int j = 0; j < i; ++j) q.G(i, j) = 0.25 * ((i + j) % 3 - 1);
    for (int j = i + 1; j < n; ++j) q.G(i, j) = NAN;  // only the lower triangle is read
    q.G(i, i) = scale * (1 + 0.5 * i);
    q.c[i] = off * (i % 2 ? -1 : 1) + 0.125 * i;
  }
  q.A_eq.resize(K, n);
  q.b_eq.resize(K);
  for (int k = 0; k < K; ++k) {
    for (int j = 0; j < n; ++j) q.A_eq(k, j) = (k + 2 * j) % 3 - 0.5 * k + (k == 0);
    q.b_eq[k] = 0.25 - 0.5 * k;
  }
  q.constraints = std::move(cons);
  return q;
}
using LC = LinearInequalityConstraint;
const std::vector<QPCase>& qps() {
  static const std::vector<QPCase> v = [] {
    std::vector<QPCase> r;
    auto add = [&](const char* n, QP q) { r.push_back({n, std::move(q)}); };
    add("2 bounds", make(2, 0, {LC(0, 1, 0.25), LC(1, -1, 0.5)}, 2, 1));
    add("2 bounds, other data", make(2, 0, {LC(1, 2, 1), LC(0, -1, 0.125)}, 1, -2));
    add("unconstrained", make(2, 0, {}, 2, 1));
    add("unconstrained, larger", make(6, 0, {}, 1, 3));                          // as many variables in total as the first problem
    add("equality", make(3, 1, {}, 2, 1));
    add("two equalities", make(4, 2, {}, 1, 2));                                 // total 6
    add("equality and bounds", make(3, 1, {LC(0, 1, 1), LC(2, -1, 1)}, 2, 1));
    add("equality and bounds, other data", make(3, 1, {LC(2, 1, 0.5), LC(1, 1, 2)}, 1, -1));
    add("many bounds", make(2, 0, {LC(0, 1, 1), LC(0, -1, 1), LC(1, 1, 1), LC(1, -1, 1), LC(0, 2, 1)}, 1, 4));
    add("one variable", make(1, 0, {LC(0, -1, 0.5)}, 2, -3));
    // neighbours of the first and of "equality and bounds", each different in one part only
    { QP q = r[0].qp; q.c = -q.c; add("2 bounds, gradient negated", q); }
    { QP q = r[0].qp; q.G(1, 0) += 0.125; add("2 bounds, one Hessian entry changed", q); }
    { QP q = r[0].qp; std::swap(q.constraints[0].b, q.constraints[1].b); add("2 bounds, limits swapped", q); }
    { QP q = r[6].qp; q.b_eq = -q.b_eq; add("equality and bounds, right-hand side negated", q); }
    { QP q = r[6].qp; q.A_eq(0, 1) *= -1; add("equality and bounds, one coefficient negated", q); }
    { QP q = make(2, 0, {LC(0, 1, 0.25), LC(1, -1, 0.5)}, 2, 1); q.G(1, 0) = NAN; add("not-a-number Hessian", q); }
    { QP q = make(2, 0, {LC(0, 1, 0.25), LC(1, -1, 0.5)}, 2, 1); q.c[0] = INFINITY; add("infinite gradient", q); }
    { QP q = make(3, 1, {LC(0, 1, 1), LC(2, -1, 1)}, 2, 1); q.G.setZero(); add("zero Hessian", q); }
    return r;
  }();
  return v;
}
struct ParCase { const char* name; void (*set)(QPInteriorPointSolver::Params&); int start; };
using QPar = QPInteriorPointSolver::Params;
const ParCase kPars[] = {
    {"naive", [](QPar& p) { p.max_iterations = 12; }, 0},
    {"equality guess", [](QPar& p) { p.max_iterations = 4; p.initial_guess_method = InitialGuessMethod::SOLVE_EQUALITY_CONSTRAINED; }, 0},
    {"predictor-corrector", [](QPar& p) { p.max_iterations = 6; p.barrier_strategy = BarrierStrategy::PREDICTOR_CORRECTOR; }, 0},
    {"fixed decrease, one iteration", [](QPar& p) { p.max_iterations = 1; p.barrier_strategy = BarrierStrategy::FIXED_DECREASE; }, 0},
    {"complementarity start, small errors only", [](QPar& p) { p.max_iterations = 5; p.initialize_mu_with_complementarity = true; p.decrease_mu_only_on_small_error = true; }, 0},
    {"user start", [](QPar& p) { p.max_iterations = 3; p.initial_guess_method = InitialGuessMethod::USER_PROVIDED; }, 1},
    {"user start with non-positive slack", [](QPar& p) { p.max_iterations = 3; p.initial_guess_method = InitialGuessMethod::USER_PROVIDED; }, 2},
    {"user start, predictor-corrector", [](QPar& p) { p.max_iterations = 3; p.initial_guess_method = InitialGuessMethod::USER_PROVIDED; p.barrier_strategy = BarrierStrategy::PREDICTOR_CORRECTOR; }, 1},
};
constexpr int kNPar = sizeof(kPars) / sizeof(kPars[0]);
VectorXd start_for(const QP& q, int kind) {
  const int n = (int)q.G.rows(), M = (int)q.constraints.size(), K = (int)q.A_eq.rows();
  VectorXd v = VectorXd::Constant(n + 2 * M + K, 0.5);
  for (int i = 0; i < n; ++i) v[i] = 0.125 * i;
  if (kind == 2 && M) v[n] = -1;
  return v;
}
Out run_ip(QPInteriorPointSolver& s, const QPar& p) {
  Out o;
  try {
    o.out = s.Solve(p);
    o.vars = s.variables();
  } catch (const std::exception& e) {
    o.threw = true;
    o.what = e.what();
  }
  return o;
}
bool same_qp(const QP& a, const QP& b) {
  auto m = [](const MatrixXd& x, const MatrixXd& y) { return x.rows() == y.rows() && x.cols() == y.cols() && (x.size() == 0 || std::memcmp(x.data(), y.data(), sizeof(double) * x.size()) == 0); };
  if (!m(a.G, b.G) || !m(a.c, b.c) || !m(a.A_eq, b.A_eq) || !m(a.b_eq, b.b_eq) || a.constraints.size() != b.constraints.size()) return false;
  for (std::size_t i = 0; i < a.constraints.size(); ++i) if (a.constraints[i].variable != b.constraints[i].variable || a.constraints[i].a != b.constraints[i].a || a.constraints[i].b != b.constraints[i].b) return false;
  return true;
}
// What a new solver does, computed under every poison (which must agree).
const Out& ip_reference(int prob, int par) {
  static std::map<std::pair<int, int>, Out> cache;
  auto it = cache.find({prob, par});
  if (it != cache.end()) return it->second;
  const QP& q = qps()[prob].qp;
  QPar p;
  kPars[par].set(p);
  Out ref;
  for (int k = 0; k < 3; ++k) {
    Out o;
    poisoned(kFill[k], [&] {
      QPInteriorPointSolver s;
      if (k == 1) s = QPInteriorPointSolver(&q); else s.Setup(&q);
      if (kPars[par].start) s.SetVariables(start_for(q, kPars[par].start));
      o = run_ip(s, p);
    });
    ++X.checks;
    if (k == 0) ref = std::move(o);
    else if (auto d = diff(o, ref); !d.empty())
      X.fail("C06", "depends-on-memory", cat("a newly constructed interior-point solver depends on prior memory contents: ", d, "\n  problem ", qps()[prob].name, ", ", kPars[par].name));
  }
  return cache.emplace(std::make_pair(prob, par), std::move(ref)).first->second;
}

void c06_ip() {
  const int nq = (int)qps().size();
  // every reference is computed first: a choice must never depend on the cache
  static const bool warm = [nq] { for (int i = 0; i < nq; ++i) for (int j = 0; j < kNPar; ++j) ip_reference(i, j); return true; }();
  (void)warm;
  const int len = X.thorough() ? 4 : 3;
  QP slot = qps()[0].qp;  // one problem object rewritten in place, as the nonlinear solver does
  std::vector<QP> own;
  own.reserve(len + 1);
  QPInteriorPointSolver s;
  int cur = -1;  // problem set up (-1: none)
  std::string hist;
  for (int step = 0; step < len; ++step) {
    // which use: a clean solve (0 .. nq-1), or one of the others
    const int op = X.choose(nq + 7, "use");
    if (step == 1) X.shard_point();
    const int last = step == len - 1;
    const unsigned char poison = kFill[(step + op) % 3];
    if (op < nq) {
      const int par = X.choose(kNPar, "parameters");
      const int where = step ? 0 : X.choose(2, "storage");
      const QP& want = qps()[op].qp;
      const QP* q;
      if (where == 0) { slot = want; q = &slot; } else { own.push_back(want); q = &own.back(); }
      QPar p;
      kPars[par].set(p);
      Out o;
      std::string setup_error;
      poisoned(poison, [&] {
        try {
          s.Setup(q);
          if (kPars[par].start) s.SetVariables(start_for(*q, kPars[par].start));
        } catch (const std::exception& e) { setup_error = e.what(); }
        if (setup_error.empty()) o = run_ip(s, p);
      });
      cur = op;
      hist += cat(" solve(", qps()[op].name, ", ", kPars[par].name, ")");
      X.state(mc::Hash().add(op).add(par).add(o.threw).vec(o.vars).h);
      ++X.checks;
      if (!setup_error.empty()) X.fail("C06", "setup-after-history", cat("setting up a valid problem fails: ", first_line(setup_error), "\n  history:", hist));
      else if (auto d = diff(o, ip_reference(op, par)); !d.empty()) X.fail("C06", "history", cat("interior-point solver differs from a new one: ", d, "\n  history:", hist));
      if (!same_qp(*q, want)) X.fail("C06", "modified", cat("the problem was modified\n  history:", hist));
      X.outcome(mc::Hash().add(o.threw).add(o.out ? o.out->iterations.size() : 99).add(hist.size() % 7).h);
      continue;
    }
    const int kind = op - nq;
    hist += cat(" use", kind);
    bool threw = false;
    if (kind == 0) {  // solve again without setting up: only the naive guess is judged here
      QPar p;
      kPars[2].set(p);
      Out o;
      poisoned(poison, [&] { o = run_ip(s, p); });
      ++X.checks;
      if (cur < 0) { if (!o.threw) X.fail("C06", "solved-nothing", cat("solving without a problem set up returned\n  history:", hist)); }
      else if (auto d = diff(o, ip_reference(cur, 2)); !d.empty()) X.fail("C06", "solve-again", cat("solving again differs from a new solver: ", d, "\n  history:", hist));
      threw = o.threw;
    } else if (kind == 1) {  // continue from where it is (user-provided start)
      if (cur < 0) continue;
      const VectorXd at = s.variables();
      QPar p;
      kPars[5].set(p);
      Out o, ref;
      const QP q = qps()[cur].qp;
      poisoned(poison, [&] { o = run_ip(s, p); });
      poisoned(kFill[(step + op + 1) % 3], [&] { QPInteriorPointSolver f(&q); f.SetVariables(at); ref = run_ip(f, p); });
      ++X.checks;
      if (auto d = diff(o, ref); !d.empty()) X.fail("C06", "continue", cat("continuing from the current variables differs from a new solver given them: ", d, "\n  history:", hist));
    } else if (kind == 2 || kind == 3) {  // rejected problem
      own.push_back(qps()[cur < 0 ? 0 : cur].qp);
      if (kind == 2) own.back().c.conservativeResize(own.back().c.size() + 1);
      else own.back().constraints.emplace_back(99, 1, 1);
      try { s.Setup(&own.back()); } catch (const std::exception&) { threw = true; }
      cur = threw ? -2 : cur;
    } else if (kind == 4) {  // rejected parameters, rejected start
      QPar p;
      p.sigma = 2;
      try { (void)s.Solve(p); } catch (const std::exception&) { threw = true; }
      try { s.SetVariables(VectorXd::Ones(77)); } catch (const std::exception&) {}
    } else if (kind == 5) {  // continue with a copy; the original is used up and destroyed
      QPInteriorPointSolver* old = new QPInteriorPointSolver(s);
      QPInteriorPointSolver copy(*old);
      if (cur >= 0) { QPar p; kPars[0].set(p); (void)run_ip(*old, p); }
      delete old;
      s = copy;
    } else {  // moved
      QPInteriorPointSolver t(std::move(s));
      s = QPInteriorPointSolver();
      s = std::move(t);
    }
    X.state(mc::Hash().add(op).add(threw).h);
  }
  X.set_sample_text(hist);
}

// ---------------------------------------------------------------- null-space solver
struct NsOut { bool threw = false; std::string what; QPNullSpaceTerminationState st{}; VectorXd x; };
const std::vector<QPCase>& nsps() {
  static const std::vector<QPCase> v = [] {
    std::vector<QPCase> r;
    auto add = [&](const char* n, QP q) { r.push_back({n, std::move(q)}); };
    add("2 variables", make(2, 1, {}, 2, 1));
    add("2 variables, other data", make(2, 1, {}, 1, -3));
    add("3 variables", make(3, 1, {}, 2, 1));
    add("3 variables, 2 rows", make(3, 2, {}, 1, 2));
    add("5 variables, 2 rows", make(5, 2, {}, 1, 2));
    add("fully determined", make(2, 2, {}, 1, 2));
    add("one variable", make(1, 1, {}, 3, 2));
    // neighbours of the fourth, each different in one part only
    { QP q = r[3].qp; q.b_eq = -q.b_eq; add("3 variables, 2 rows, right-hand side negated", q); }
    { QP q = r[3].qp; q.c = q.c.reverse().eval(); add("3 variables, 2 rows, gradient reversed", q); }
    { QP q = r[3].qp; q.A_eq.row(0).swap(q.A_eq.row(1)); add("3 variables, 2 rows exchanged", q); }
    { QP q = r[3].qp; q.G(2, 1) += 0.125; add("3 variables, 2 rows, one Hessian entry changed", q); }
    { QP q = make(3, 1, {}, -2, 1); add("indefinite", q); }
    { QP q = make(4, 1, {}, 2, 1); q.G.setZero(); add("zero Hessian", q); }
    { QP q = make(3, 2, {}, 2, 1); q.A_eq.row(1) = 2 * q.A_eq.row(0); q.b_eq[1] = 2 * q.b_eq[0]; add("dependent rows", q); }
    { QP q = make(3, 1, {}, 2, 1); q.A_eq.setZero(); q.b_eq.setZero(); add("zero row", q); }
    { QP q = make(2, 1, {}, 2, 1); q.c[0] = NAN; add("not-a-number gradient", q); }
    { QP q = make(2, 1, {}, 2, 1); q.G(1, 0) = INFINITY; add("infinite Hessian", q); }
    { QP q = make(2, 1, {}, 2, 1); q.b_eq.conservativeResize(2); add("rejected", q); }
    { QP q = make(3, 1, {}, 2, 1); q.c.conservativeResize(2); add("rejected gradient", q); }
    return r;
  }();
  return v;
}
NsOut run_ns(QPNullSpaceSolver& s, const QP& q) {
  NsOut o;
  try {
    o.st = s.Solve(q);
    if (o.st == QPNullSpaceTerminationState::SUCCESS) o.x = s.variables();
  } catch (const std::exception& e) { o.threw = true; o.what = e.what(); }
  return o;
}
std::string diff(const NsOut& a, const NsOut& b) {
  if (a.threw != b.threw) return cat(a.threw ? "throws " : "returns where a new solver throws ", first_line(a.threw ? a.what : b.what));
  if (a.what != b.what) return "different exception";
  if (a.st != b.st) return cat("state ", a.st, " vs ", b.st);
  if (!nls::same(a.x, b.x)) return cat("solution ", nls::str(a.x), " vs ", nls::str(b.x));
  return "";
}
const NsOut& ns_reference(int prob) {
  static std::map<int, NsOut> cache;
  auto it = cache.find(prob);
  if (it != cache.end()) return it->second;
  NsOut ref;
  for (int k = 0; k < 3; ++k) {
    NsOut o;
    poisoned(kFill[k], [&] { QPNullSpaceSolver s; o = run_ns(s, nsps()[prob].qp); });
    ++X.checks;
    if (k == 0) ref = std::move(o);
    else if (auto d = diff(o, ref); !d.empty()) X.fail("C06", "null-space-depends-on-memory", cat("a new null-space solver depends on prior memory contents: ", d, "\n  problem ", nsps()[prob].name));
  }
  return cache.emplace(prob, std::move(ref)).first->second;
}
void c06_ns() {
  const int nq = (int)nsps().size();
  static const bool warm = [nq] { for (int i = 0; i < nq; ++i) ns_reference(i); return true; }();
  (void)warm;
  const int len = X.thorough() ? 5 : 4;
  QPNullSpaceSolver s;
  QP slot;
  std::string hist;
  for (int step = 0; step < len; ++step) {
    const int op = X.choose(nq + 1, "use");
    if (step == 1) X.shard_point();
    if (op == nq) { QPNullSpaceSolver t(s); QPNullSpaceSolver u(std::move(s)); s = t; hist += " copied"; continue; }
    slot = nsps()[op].qp;
    NsOut o;
    poisoned(kFill[(step + op) % 3], [&] { o = run_ns(s, slot); });
    hist += cat(" solve(", nsps()[op].name, ")");
    ++X.checks;
    X.state(mc::Hash().add(op).add(o.threw).vec(o.x).add(100).h);
    if (auto d = diff(o, ns_reference(op)); !d.empty()) X.fail("C06", "null-space-history", cat("null-space solver differs from a new one: ", d, "\n  history:", hist));
    if (!same_qp(slot, nsps()[op].qp)) X.fail("C06", "null-space-modified", cat("the problem was modified\n  history:", hist));
    X.outcome(mc::Hash().add(o.threw).add((int)o.st).add(50).h);
  }
  X.set_sample_text(hist);
}

// ================================================================ C07
using nls::NLS;
struct Foreign { int id; };
struct UserError : std::runtime_error { using std::runtime_error::runtime_error; int id = 0; };
struct Env {
  int calls = 0, throw_at = -1, kind = 0;
  std::uint64_t trace = 0;
  int site = -1;  // where it threw
};
Env* g_env = nullptr;
void visit(int site, const double* x, long n) {
  Env* e = g_env;
  if (!e) return;
  mc::Hash h;
  h.h = e->trace + 1;
  h.add(site);
  for (long i = 0; i < n; ++i) h.d(x[i]);
  e->trace = h.h;
  if (e->calls++ == e->throw_at) {
    e->site = site;
    if (e->kind == 0) { UserError u("user"); u.id = 4711 + site; throw u; }
    if (e->kind == 1) throw Foreign{4711 + site};
    throw std::bad_alloc();
  }
}
struct Cost0 {  // curved, two residuals, non-finite beyond x0 = 3
  Eigen::Vector2d operator()(const Eigen::Vector2d& p, Eigen::Matrix2d* J) const {
    visit(0, p.data(), 2);
    if (J) *J << 1, 0, -3 * p[0], 1.5;
    if (p[0] > 3) return {NAN, 0};
    return {p[0] - 1, 1.5 * (p[1] - p[0] * p[0])};
  }
};
struct Cost1 {  // static 1x1
  Eigen::Matrix<double, 1, 1> operator()(const Eigen::Matrix<double, 1, 1>& p, Eigen::Matrix<double, 1, 1>* J) const {
    visit(1, p.data(), 1);
    if (J) (*J)(0, 0) = std::cos(p[0]);
    return Eigen::Matrix<double, 1, 1>(std::sin(p[0]) - 0.25);
  }
};
struct CostBig {  // dynamic, 3 residuals
  Eigen::Vector3d operator()(const VectorXd& p, Eigen::Matrix<double, 3, Eigen::Dynamic>* J) const {
    visit(2, p.data(), p.size());
    if (J) { J->setZero(); for (int k = 0; k < 3; ++k) for (long j = 0; j < p.size(); ++j) (*J)(k, j) = (k + j) % 2 ? 0.5 : 2 * p[j]; }
    Eigen::Vector3d r;
    for (int k = 0; k < 3; ++k) { r[k] = -0.5 * k; for (long j = 0; j < p.size(); ++j) r[k] += (k + j) % 2 ? 0.5 * p[j] : p[j] * p[j]; }
    return r;
  }
};
struct Eq0 {
  Eigen::Matrix<double, 1, 1> operator()(const VectorXd& p, Eigen::Matrix<double, 1, Eigen::Dynamic>* J) const {
    visit(3, p.data(), p.size());
    if (J) for (long j = 0; j < p.size(); ++j) (*J)(0, j) = 2 * p[j] + 0.5;
    double v = -1;
    for (long j = 0; j < p.size(); ++j) v += p[j] * p[j] + 0.5 * p[j];
    return Eigen::Matrix<double, 1, 1>(v);
  }
};
struct PClass { const char* name; int dim; bool eq, flat, dup; };
const PClass kClass[] = {{"no equality", 2, false, false, false}, {"equality", 2, true, false, false}, {"flat Hessian, equality", 3, true, true, false}, {"three variables", 3, false, false, false}};
void fill_problem(Problem& p, int cls) {
  const PClass& c = kClass[cls];
  p.dimension = c.dim;
  if (!c.flat) {
    p.costs.push_back(MakeResidual<2, 2>({0, 1}, Cost0{}));
    p.costs.push_back(MakeResidual<1, 1>({1}, Cost1{}));
    if (c.dim == 3) p.costs.push_back(MakeResidual<3, Eigen::Dynamic>({2, 0}, CostBig{}));
  } else {
    p.costs.push_back(MakeResidual<1, 1>({1}, Cost1{}));  // nothing depends on two of the variables
  }
  if (c.eq) p.equality_constraints.push_back(MakeResidual<1, Eigen::Dynamic>({0, 1}, Eq0{}));
}
void set_bounds(Problem& p, int b) {
  p.inequality_constraints.clear();
  if (b == 1) { p.inequality_constraints.push_back(Var(0) <= 2.0); p.inequality_constraints.push_back(Var(1) >= -2.0); }
  if (b == 2) { p.inequality_constraints.push_back(Var(0) >= -0.5); p.inequality_constraints.push_back(Var(0) <= 0.75); p.inequality_constraints.push_back(Var(1) <= 0.5); }
  if (b == 3) { p.inequality_constraints.push_back(Var(0) <= -4.0); p.inequality_constraints.push_back(Var(0) >= 4.0); }  // infeasible: the sub-problem may fail
}
struct NPar { const char* name; void (*set)(NLS::Params&); };
const NPar kNPars[] = {
    {"defaults, 4 iterations", [](NLS::Params& p) { p.max_iterations = 4; }},
    {"armijo", [](NLS::Params& p) { p.max_iterations = 5; p.line_search_strategy = LineSearchStrategy::ARMIJO_BACKTRACK; p.max_line_search_iterations = 4; }},
    {"no line search, damping", [](NLS::Params& p) { p.max_iterations = 6; p.max_line_search_iterations = 0; p.lambda_initial = 0.1; p.max_lambda = 10; }},
    {"eigenvalues", [](NLS::Params& p) { p.max_iterations = 3; p.log_qp_eigenvalues = true; }},
    {"no iterations", [](NLS::Params& p) { p.max_iterations = 0; }},
    {"tight damping limit", [](NLS::Params& p) { p.max_iterations = 6; p.max_lambda = 0; p.max_line_search_iterations = 0; }},
    {"one QP iteration, high penalty", [](NLS::Params& p) { p.max_iterations = 4; p.max_qp_iterations = 1; p.equality_penalty_initial = 50; }},
    {"loose tolerances", [](NLS::Params& p) { p.max_iterations = 6; p.relative_exit_tol = 0.5; p.absolute_first_derivative_tol = 0.5; }},
};
constexpr int kNNP = sizeof(kNPars) / sizeof(kNPars[0]);
const double kStart[4][3] = {{0.25, 0.5, -0.5}, {-1.2, 1, 2}, {2.75, -1, 0.125}, {3.5, 0, 0}};
struct Op { int bounds = 0, start = 0, par = 0, cb = 0, throw_at = -1, kind = 0; };
struct Run {
  int threw = 0;  // 1 user exception, 2 other exception
  std::string what;
  int id = 0;
  std::optional<NLSSolverOutputs> out;
  VectorXd vars;
  Env env;
};
VectorXd start_of(int cls, int k) { VectorXd v(kClass[cls].dim); for (long i = 0; i < v.size(); ++i) v[i] = kStart[k][i]; return v; }
NLS::Retraction retraction(int k) {
  if (k == 0) return nullptr;
  return [](VectorXd& x, ConstVectorBlock dx, double a) { visit(4, dx.data(), dx.size()); for (long i = 0; i < x.size(); ++i) x[i] += dx[i] * a * (i == 0 ? 0.9 : 1.0); };
}
Run run_nls(NLS& s, int cls, const Op& op, bool keep_callback = false) {
  Run r;
  r.env.throw_at = op.throw_at;
  r.env.kind = op.kind;
  NLS::Params p;
  kNPars[op.par].set(p);
  const int cb = op.cb;
  if (keep_callback) {}
  else if (cb == 0) s.SetUserExitCallback(nullptr);
  else s.SetUserExitCallback([cb](const NLSIteration& it) { visit(5, &it.lambda, 1); return !(cb == 2 && it.iteration >= 0) && !(cb == 3 && it.iteration >= 1); });
  const VectorXd x0 = start_of(cls, op.start);
  g_env = &r.env;
  try {
    r.out = s.Solve(p, x0);
    r.vars = s.variables();
  } catch (const UserError& e) { r.threw = 1; r.id = e.id; r.what = e.what(); }
  catch (const Foreign& e) { r.threw = 1; r.id = e.id; r.what = "foreign"; }
  catch (const std::bad_alloc& e) { r.threw = 1; r.id = 4711 + r.env.site; r.what = "bad_alloc"; }
  catch (const std::exception& e) { r.threw = 2; r.what = e.what(); }
  g_env = nullptr;
  return r;
}
std::string diff(const Run& a, const Run& b) {
  if (a.threw != b.threw) return cat(a.threw ? "throws" : "returns", " where a new solver ", b.threw ? "throws" : "returns", ": ", first_line(a.threw ? a.what : b.what));
  if (a.threw && (a.what != b.what || a.id != b.id)) return cat("exception ", first_line(a.what), " (", a.id, ") vs ", first_line(b.what), " (", b.id, ")");
  if (a.env.calls != b.env.calls || a.env.trace != b.env.trace) return cat("user functions called differently (", a.env.calls, " vs ", b.env.calls, " calls)");
  if (a.threw) return "";
  if (a.out->termination_state != b.out->termination_state) return cat("termination ", a.out->termination_state, " vs ", b.out->termination_state);
  if (auto d = nls::diff(a.out->iterations, b.out->iterations); !d.empty()) return d;
  if (!nls::same(a.vars, b.vars)) return cat("variables ", nls::str(a.vars), " vs ", nls::str(b.vars));
  return "";
}
const Run& nls_reference(int cls, int retr, const Op& op) {
  using Key = std::array<int, 8>;
  static std::map<Key, Run> cache;
  const Key key{cls, retr, op.bounds, op.start, op.par, op.cb, op.throw_at, op.kind};
  auto it = cache.find(key);
  if (it != cache.end()) return it->second;
  Run ref;
  for (int k = 0; k < 3; ++k) {
    Run r;
    Problem p;
    fill_problem(p, cls);
    set_bounds(p, op.bounds);
    poisoned(kFill[k], [&] { NLS s(&p, retraction(retr)); r = run_nls(s, cls, op); });
    ++X.checks;
    if (k == 0) ref = std::move(r);
    else if (auto d = diff(r, ref); !d.empty())
      X.fail("C07", "depends-on-memory", cat("a newly constructed nonlinear solver depends on prior memory contents: ", d, "\n  ", kClass[cls].name, " bounds ", op.bounds, " start ", op.start, " ", kNPars[op.par].name));
  }
  return cache.emplace(key, std::move(ref)).first->second;
}
void c07() {
  X.deviations_left = 1 << 20;
  const int cls = X.choose(4, "problem"), b0 = X.choose(3, "bounds at construction");
  const int len = 3;
  X.deviations_left = X.thorough() ? 4 : 3;
  const int retr = X.deviate(2, "retraction"), s0 = X.deviate(2, "usual start");
  Problem p;
  fill_problem(p, cls);
  set_bounds(p, b0);
  NLS s(&p, retraction(retr));
  std::string hist = cat(kClass[cls].name, ", retraction ", retr, ", bounds ", b0, ":");
  Op prev;
  prev.bounds = b0;
  int installed = -1;
  for (int step = 0; step < len; ++step) {
    const bool last = step == len - 1;
    Op op;
    op.start = s0;
    // an edit of the bounds between runs; then deviations from a plain run
    op.bounds = prev.bounds;
    if (const int e = X.deviate(4, "bounds edit")) op.bounds = (prev.bounds + e) % 4;
    if (const int e = X.deviate(4, "start")) op.start = (s0 + e) % 4;
    op.par = X.deviate(kNNP, "parameters");
    op.cb = (prev.cb + X.deviate(4, "callback")) % 4;
    if (step == 0) X.shard_point();
    // a callback stays in place until another one is set, whatever happened in the meantime
    const bool keep = installed == op.cb;
    const bool run_it = !X.deviate(2, "skip run") || last;
    if (op.bounds != prev.bounds) set_bounds(p, op.bounds);
    prev = op;
    // other uses of the object between runs
    switch (X.deviate(5, "between")) {
      case 1: { try { (void)s.EvaluateNonlinearErrors(start_of(cls, 2)); } catch (const std::exception&) {} hist += " evaluate"; break; }
      case 2: { NLS::Params q; q.max_lambda = -1; try { (void)s.Solve(q, start_of(cls, 0)); } catch (const std::exception&) {} hist += " bad-parameter"; break; }
      case 3: { NLS::Params q; try { (void)s.Solve(q, VectorXd::Ones(9)); } catch (const std::exception&) {} hist += " bad-start"; break; }
      case 4: { NLS t(s); NLS u(std::move(s)); s = t; hist += " copied"; break; }
    }
    if (!run_it) continue;
    // an exception at any call of user code in this run
    const int total = nls_reference(cls, retr, op).env.calls;
    if (!last && total > 0) {
      const int t = X.deviate(total + 1, "throw at call");
      if (t) { op.throw_at = t - 1; op.kind = X.deviate(3, "exception type"); }
    }
    const std::size_t nb = p.inequality_constraints.size(), nc = p.costs.size(), ne = p.equality_constraints.size();
    const auto bounds_before = p.inequality_constraints;
    Run r;
    poisoned(kFill[(step + op.par + op.cb) % 3], [&] { r = run_nls(s, cls, op, keep); });
    installed = op.cb;
    hist += cat(" run(bounds ", op.bounds, ", start ", op.start, ", ", kNPars[op.par].name, ", callback ", op.cb, op.throw_at >= 0 ? cat(", throw at call ", op.throw_at, " at site ", r.env.site) : "", ")");
    ++X.checks;
    X.state(mc::Hash().add(cls).add(r.threw).add(r.env.trace).vec(r.vars).h);
    X.outcome(mc::Hash().add(r.threw).add(r.out ? (int)r.out->termination_state : 20 + r.env.site).add(r.out ? r.out->iterations.size() : 0).h);
    if (r.threw == 1) X.count(cat("user exception at site ", r.env.site));
    else if (r.threw == 2) X.count("run aborted by the solver's own exception");
    else X.count(cat("run ended ", nls::name(r.out->termination_state)));
    if (op.throw_at >= 0 && r.threw != 1) X.fail("C07", "exception-lost", cat("an exception thrown by user code did not reach the caller unchanged\n  history: ", hist));
    else if (auto d = diff(r, nls_reference(cls, retr, op)); !d.empty()) X.fail("C07", "history", cat("nonlinear solver differs from a new one: ", d, "\n  history: ", hist));
    bool same = p.inequality_constraints.size() == nb && p.costs.size() == nc && p.equality_constraints.size() == ne && p.dimension == kClass[cls].dim;
    for (std::size_t i = 0; same && i < nb; ++i) same = bounds_before[i].variable == p.inequality_constraints[i].variable && bounds_before[i].a == p.inequality_constraints[i].a && bounds_before[i].b == p.inequality_constraints[i].b;
    if (!same) X.fail("C07", "modified", cat("the problem was modified\n  history: ", hist));
  }
  X.set_sample_text(hist);
}
void body() {
  if (X.want("C06")) { if (X.choose(2, "solver") == 0) c06_ip(); else c06_ns(); }
  else c07();
}
}  // namespace
int main(int argc, char** argv) { X.parse(argc, argv); return X.run(body); }
