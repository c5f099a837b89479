// C14, C17, C18, C27: the nonlinear solver on every small analytic problem of a bounded alphabet.
//
// Costs, equality constraints, bounds, starts and parameters are edits of a base problem; every
// problem within D edits is run.  Oracles: an independent linearisation of the same functions
// assembled in extended precision, a brute-force active-set optimum of the sub-problem, and the
// bounds themselves at every point the solver evaluates.
#include <Eigen/Eigenvalues>
#include "nls_common.hpp"
#include "qp_oracle.hpp"
using namespace nls;
using namespace qpo;
using mc::X;
namespace {
// ---------------------------------------------------------------- user functions
struct Term {
  std::vector<int> idx;
  int kind = 0;  // 0 linear, 1 p0^2, 2 p0*p1, 3 10 (p1 - p0^2), 4 sin p0, 5 zero (spy)
  std::vector<double> w;
  double off = 0;
  int rdim = 1, form = 0;  // form: 0 dynamic, 1 static parameter count
};
using VXd = Eigen::VectorXd;
struct Log {
  std::vector<VXd> trials;  // full points at which errors alone were evaluated
  std::vector<VXd> lin;     // full points at which derivatives were requested
  long calls = 0;
  VXd last_dx;
};
template <class In>
double row_value(const Term& t, int row, const In& p) {
  double v = t.off;
  for (long i = 0; i < p.size(); ++i) v += t.w[(i + row) % t.w.size()] * p[i];
  if (t.kind == 5) return 0;
  if (row > 0) return v;
  if (t.kind == 1) v += p[0] * p[0];
  if (t.kind == 2) v += p[0] * p[1];
  if (t.kind == 3) v = 10 * (p[1] - p[0] * p[0]) + t.off;
  if (t.kind == 4) v += std::sin(p[0]);
  return v;
}
template <class In>
double row_deriv(const Term& t, int row, const In& p, int j) {
  double v = t.w[(j + row) % t.w.size()];
  if (t.kind == 5) return 0;
  if (row > 0) return v;
  if (t.kind == 1 && j == 0) v += 2 * p[0];
  if (t.kind == 2) { if (j == 0) v += p[1]; if (j == 1) v += p[0]; }
  if (t.kind == 3) v = j == 0 ? -20 * p[0] : j == 1 ? 10 : 0;
  if (t.kind == 4 && j == 0) v += std::cos(p[0]);
  return v;
}
template <int R, int N>
struct Fn {
  Term t;
  Log* log;
  Eigen::Matrix<double, R, 1> operator()(const Eigen::Matrix<double, N, 1>& p, Eigen::Matrix<double, R, N>* J) const {
    ++log->calls;
    if (t.kind == 5) (J ? log->lin : log->trials).push_back(p);
    Eigen::Matrix<double, R, 1> r;
    for (int k = 0; k < R; ++k) r[k] = row_value(t, k, p);
    if (J) for (int k = 0; k < R; ++k) for (long j = 0; j < p.size(); ++j) (*J)(k, j) = row_deriv(t, k, p, (int)j);
    return r;
  }
};
template <int R>
Residual make_r(const Term& t, Log* log) {
  constexpr int D = Eigen::Dynamic;
  if (t.form == 0) return MakeResidual<R, D>(t.idx, Fn<R, D>{t, log});
  switch (t.idx.size()) {
    case 1: return MakeResidual<R, 1>({t.idx[0]}, Fn<R, 1>{t, log});
    case 2: return MakeResidual<R, 2>({t.idx[0], t.idx[1]}, Fn<R, 2>{t, log});
    default: return MakeResidual<R, 3>({t.idx[0], t.idx[1], t.idx[2]}, Fn<R, 3>{t, log});
  }
}
Residual make(const Term& t, Log* log) { return t.rdim == 1 ? make_r<1>(t, log) : t.rdim == 2 ? make_r<2>(t, log) : make_r<3>(t, log); }

// ---------------------------------------------------------------- a case
struct Case {
  int n = 1;
  std::vector<Term> costs, eqs;
  std::vector<P::C> bounds;
  VXd start;
  NLS::Params par;
  int retraction = 0;  // 0 none, 1 custom one that adds
  double min_prior = 1;
};
std::string text(const Term& t) {
  std::ostringstream o;
  static const char* nm[] = {"linear", "square", "product", "rosenbrock", "sine", "spy"};
  o << nm[t.kind] << "(idx";
  for (int i : t.idx) o << " " << i;
  o << "; w";
  for (double v : t.w) o << " " << v;
  o << "; off " << t.off << "; rows " << t.rdim << (t.form ? "; static)" : ")");
  return o.str();
}
std::string text(const Case& c) {
  std::ostringstream o;
  o << "n=" << c.n << " costs:";
  for (auto& t : c.costs) if (t.kind != 5) o << " " << text(t);
  o << " eq:";
  for (auto& t : c.eqs) o << " " << text(t);
  o << " bounds:";
  for (auto& b : c.bounds) o << " " << (double)b.a << "*x" << b.v << "+" << (double)b.b << ">=0";
  o << " start=" << str(c.start) << " lambda0=" << c.par.lambda_initial << " strategy=" << (int)c.par.line_search_strategy << " ls=" << c.par.max_line_search_iterations
    << " qp_it=" << c.par.max_qp_iterations << " kkt=" << c.par.termination_kkt_tolerance << " it=" << c.par.max_iterations << " rel=" << c.par.relative_exit_tol;
  return o.str();
}
VXd gather(const Term& t, const VXd& x) {
  VXd p(t.idx.size());
  for (std::size_t i = 0; i < t.idx.size(); ++i) p[i] = x[t.idx[i]];
  return p;
}
// Independent linearisation at x.
P linearise(const Case& c, const VXd& x, LD lambda) {
  P p;
  p.n = c.n;
  p.G.assign(c.n, Vec(c.n, 0)); p.c.assign(c.n, 0);
  for (auto& t : c.costs) {
    const VXd q = gather(t, x);
    for (int r = 0; r < t.rdim; ++r) {
      const LD v = row_value(t, r, q);
      for (std::size_t i = 0; i < t.idx.size(); ++i) {
        const LD di = row_deriv(t, r, q, (int)i);
        p.c[t.idx[i]] += di * v;
        for (std::size_t j = 0; j < t.idx.size(); ++j) p.G[t.idx[i]][t.idx[j]] += di * (LD)row_deriv(t, r, q, (int)j);
      }
    }
  }
  for (int i = 0; i < c.n; ++i) p.G[i][i] += lambda;
  for (auto& t : c.eqs) {
    const VXd q = gather(t, x);
    for (int r = 0; r < t.rdim; ++r) {
      Vec row(c.n, 0);
      for (std::size_t i = 0; i < t.idx.size(); ++i) row[t.idx[i]] += row_deriv(t, r, q, (int)i);
      p.A.push_back(row); p.b.push_back(row_value(t, r, q));
    }
  }
  p.K = (int)p.A.size();
  for (auto& b : c.bounds) p.cons.push_back({b.v, b.a, b.b + b.a * (LD)x[b.v]});
  return p;
}
Eigen::VectorXd eigs(const P& p) {
  Eigen::MatrixXd G(p.n, p.n);
  for (int i = 0; i < p.n; ++i) for (int j = 0; j < p.n; ++j) G(i, j) = (double)p.G[i][j];
  return Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd>(G, Eigen::EigenvaluesOnly).eigenvalues();
}
LD violation(const Case& c, const VXd& x, LD rel) {  // positive when violated by more than the tolerance
  LD worst = -1;
  for (auto& b : c.bounds) {
    const LD v = b.a * (LD)x[b.v] + b.b;
    worst = std::max(worst, -v - (2e-9L + rel * (fabsl(b.a * (LD)x[b.v]) + fabsl(b.b))));
  }
  return worst;
}
struct Snap { NLSIteration it; VXd after; std::size_t trials; std::size_t lins; VXd dx; };
struct Run { bool threw = false; std::string what; NLSSolverOutputs out{NLSTerminationState::MAX_ITERATIONS, {}}; std::vector<Snap> snaps; VXd final; Log log; };

void run(const Case& c, Run* r) {
  Problem pr;
  pr.dimension = c.n;
  for (auto& t : c.costs) pr.costs.push_back(make(t, &r->log));
  for (auto& t : c.eqs) pr.equality_constraints.push_back(make(t, &r->log));
  for (auto& b : c.bounds) pr.inequality_constraints.emplace_back(b.v, (double)b.a, (double)b.b);
  Log* log = &r->log;
  NLS::Retraction ret;
  if (c.retraction == 1) ret = [log](VXd& x, ConstVectorBlock dx, double a) { ++log->calls; log->last_dx = dx; for (long i = 0; i < x.size(); ++i) x[i] += dx[i] * a; };
  NLS s(&pr, ret);
  s.SetUserExitCallback([&](const NLSIteration& it) { ++log->calls; r->snaps.push_back({it, s.variables(), log->trials.size(), log->lin.size(), log->last_dx}); return true; });
  try { r->out = s.Solve(c.par, c.start); } catch (const std::exception& e) { r->threw = true; r->what = e.what(); }
  r->final = s.variables();
}

// ---------------------------------------------------------------- alphabet
int dev(int n, const char* l) { return X.deviate(n, l); }
std::vector<Term> kCosts(int n) {
  // (index lists in and out of order)
  std::vector<Term> v{{{0}, 1, {1}, -2}, {{0}, 4, {0.5}, 0.25}, {{0}, 0, {3}, 1}};
  if (n >= 2)
    for (Term t : std::vector<Term>{{{0, 1}, 3, {0}, 0}, {{1, 0}, 3, {0}, 1}, {{1, 0}, 2, {0.5, -1}, 1}, {{0, 1}, 0, {1, 2}, -1, 2}, {{1, 0}, 0, {2, -1}, 2, 2}, {{1}, 1, {-1}, 0.5}, {{0, 1}, 1, {0, 1}, -1, 2}}) v.push_back(t);
  if (n >= 3)
    for (Term t : std::vector<Term>{{{2, 0}, 0, {1, -3}, 0.5, 1}, {{2, 1, 0}, 2, {1, 2, 0}, -1, 2}, {{1, 2, 0}, 0, {1, 2, -1}, 0, 2}, {{0, 2}, 3, {0}, -1}, {{0, 2, 1}, 0, {1, 2, -1}, 0.5, 3}}) v.push_back(t);
  return v;
}
std::vector<Term> kEqs(int n, bool linear) {
  std::vector<Term> v;
  if (n == 1) v = {{{0}, 0, {2}, -1}, {{0}, 1, {0}, -2}};
  else v = {{{0, 1}, 0, {1, 1}, -1}, {{1, 0}, 0, {2, -1}, 0.5}, {{1}, 0, {1}, -0.5}, {{0, 1}, 1, {0, 1}, -2}, {{1, 0}, 2, {1, 0}, -1}, {{1}, 4, {0.5}, 0.25}};
  if (n >= 3) for (Term t : std::vector<Term>{{{2, 0}, 0, {1, -2}, 0.25}, {{2, 1, 0}, 0, {1, 1, 1}, -1, 2}, {{2, 0, 1}, 1, {0, 1, 1}, -1}, {{0, 1, 2}, 0, {1, 1, 0}, 0.25}, {{2, 0, 1}, 0, {1, 2, -1}, 0.5, 3}}) v.push_back(t);
  if (linear) v.erase(std::remove_if(v.begin(), v.end(), [](const Term& t) { return t.kind != 0; }), v.end());
  return v;
}
const std::vector<std::pair<LD, LD>> kBounds{{1, 0}, {-1, 1}, {1, 1}, {-1, 0.25L}, {1, -0.25L}, {2, 3}, {-0.5L, 0.75L}, {-1, -0.5L}, {1, -2}, {1, 4}, {-1, 120}};

// Problems with more variables, costs and constraints than the solver's and the reader's small cases.
void build_large(Case* c, bool linear) {
  const int n = c->n = X.choose(2, "large n") ? 11 : 6;
  Term spy;
  spy.kind = 5; spy.w = {0};
  for (int i = 0; i < n; ++i) spy.idx.push_back(i);
  c->costs.push_back(spy);
  const int cp = X.choose(5, "costs"), ep = X.choose(6, "equalities"), bp = X.choose(6, "bounds");
  X.shard_point();
  auto prior = [&](int i, double w, double t) { Term q; q.idx = {i}; q.w = {w}; q.off = -w * t; q.form = i % 2; c->costs.push_back(q); };
  auto mix = [&](Term t) { if (linear) t.kind = 0; c->costs.push_back(t); };
  for (int i = 0; i < n; ++i) prior(i, 1 + 0.5 * (i % 3), (i * 3 % 5) - 2);
  if (cp == 1) for (int i = 0; i + 1 < n; ++i) mix({{i + 1, i}, 2, {0.5, -0.25}, 0.5, 1, i % 2});                       // a chain
  if (cp == 2) for (int i = 0; i + 1 < n; ++i) mix({{n - 1, i}, i % 2 ? 1 : 0, {0.25, 1}, -0.5, 2, i % 2});            // a star
  if (cp == 3) { Term t{spy.idx, 0, {1, 0.5, -1, 0.25}, -1, 3}; std::reverse(t.idx.begin(), t.idx.end()); mix(t); mix({{n - 1, 0, n / 2}, 2, {1, -1, 0.5}, 0, 2, 1}); }  // all variables, reversed
  if (cp == 4) for (int i = 0; i < 3 * n; ++i) mix({{(i * 7) % n, (i * 7 + 3) % n, (i * 7 + 5) % n}, i % 5 ? 0 : 4, {0.25, -0.5, 0.125}, 0.25 * (i % 3), 1 + i % 3, i % 2});  // many
  if (ep == 1 || ep == 2) c->eqs.push_back({{n - 1, 0}, 0, {1, 2}, -0.5});
  if (ep == 2) { c->eqs.push_back({{n / 2, 1, n - 2}, 0, {1, -1, 1}, 0.25, 2}); if (n > 6) c->eqs.push_back({{3, 4}, linear ? 0 : 2, {1, 1}, 0.5, 1, 1}); }
  if (ep == 3) for (int i = 0; i + 2 < n; ++i) c->eqs.push_back({{i + 1, i}, 0, {1, -1}, 0.125 * (i % 3)});              // all but two of the variables' freedoms
  if (ep == 4) { Term t{spy.idx, 0, {1, -1, 2}, -1, 1}; std::reverse(t.idx.begin(), t.idx.end()); c->eqs.push_back(t); }
  if (ep == 5) c->eqs.push_back({{n - 2, 2}, linear ? 0 : 1, {1, 1}, -1, 1, 1});
  if (bp == 1) c->bounds.push_back({n - 1, -1, 0.25L});
  if (bp == 2) for (int i = 0; i < 5; ++i) c->bounds.push_back({n - 1 - i, i % 2 ? 1 : -1, 0.5L + i});
  if (bp == 3) for (int i = 0; i < 4; ++i) c->bounds.push_back({n / 2, i % 2 ? 2 : -1, 1.0L + i});
  if (bp == 4) for (int i = 0; i < 6; ++i) c->bounds.push_back({(i * 5) % n, i % 2 ? -0.5L : 3, 0.25L * (i + 2)});
  if (bp == 5) for (int i = 0; i < 3; ++i) { c->bounds.push_back({2 * i, 1, 0.5L}); c->bounds.push_back({2 * i, -1, 0.5L}); }
  c->start.resize(n);
  const int sp = X.choose(3, "start");
  for (int i = 0; i < n; ++i) c->start[i] = sp == 0 ? 0 : sp == 1 ? (i % 2 ? 0.25 : -0.25) : i % 3 - 1;
}
void build(Case* c, bool linear, int budget) {
  X.deviations_left = budget;
  c->n = 1 + X.choose(4, "n");
  if (c->n == 4) { X.deviations_left = X.thorough() ? 2 : 1; return build_large(c, linear); }
  const int n = c->n;
  static const double t0[] = {1, -2, 0.5}, st[] = {0, 1, -1, 3, 0.25}, pw[] = {1, 0.25, 3};
  Term spy;
  spy.kind = 5; spy.w = {0};
  for (int i = 0; i < n; ++i) spy.idx.push_back(i);
  c->costs.push_back(spy);
  const auto cs = kCosts(n);
  const auto es = kEqs(n, linear);
  // extra costs before the priors
  int from = 1;
  for (int i = 0; i < 2; ++i) {
    const int k = dev((int)cs.size() - from + 2, "cost");
    if (!k) break;
    Term t = cs[from + k - 2];
    from += k;
    if (linear) t.kind = t.kind == 3 ? 0 : 0;
    if (t.w == std::vector<double>{0}) t.w = {2, -1};
    if (t.idx.size() <= 3) t.form = i;
    c->costs.push_back(t);
    if (from > (int)cs.size()) break;
  }
  for (int i = 0; i < n; ++i) {
    const int pk = dev(5, "prior");
    const double w = pk < 3 ? pw[pk] : 1, target = pk < 3 ? t0[i] : pk == 3 ? -6 : 500;  // 3, 4: the optimum is far from the start
    c->min_prior = std::min(c->min_prior, w);
    Term t;
    t.idx = {i}; t.w = {w}; t.off = -w * target; t.form = i % 2;
    c->costs.push_back(t);
  }
  from = 1;
  for (int i = 0; i < 2; ++i) {
    const int k = dev((int)es.size() - from + 2, "equality");
    if (!k) break;
    c->eqs.push_back(es[from + k - 2]);
    from += k;
    if (from > (int)es.size()) break;
  }
  X.shard_point();
  int b0 = 0;
  const int nb = (int)kBounds.size();
  for (int i = 0; i < 3; ++i) {
    const int k = dev(n * nb - b0 + 1, "bound");
    if (!k) break;
    const int j = b0 + k - 1;
    b0 = j;  // repetition allowed
    c->bounds.push_back({j / nb, kBounds[j % nb].first, kBounds[j % nb].second});
  }
  c->start.resize(n);
  for (int i = 0; i < n; ++i) c->start[i] = st[dev(5, "start")];
}

// ---------------------------------------------------------------- C14 / C17
void steps() {
  const bool T = X.thorough();
  Case c;
  build(&c, false, T ? 5 : 4);
  auto& p = c.par;
  p.max_iterations = 5; p.max_qp_iterations = 60; p.termination_kkt_tolerance = 1e-9; p.lambda_failure_init = 0.125; p.max_lambda = 50;
  switch (dev(12, "parameter")) {
    case 11: p.line_search_strategy = LineSearchStrategy::ARMIJO_BACKTRACK; p.max_line_search_iterations = 20; p.armijo_search_tau = 0.96; break;
    case 10: p.max_line_search_iterations = 0; p.max_iterations = 8; p.lambda_failure_init = 0; p.max_lambda = 1; break;
    case 1: p.lambda_initial = 0.5; break;
    case 2: p.lambda_initial = 1e-2; p.lambda_decrease_on_success = 0.5; break;
    case 3: p.line_search_strategy = LineSearchStrategy::ARMIJO_BACKTRACK; break;
    case 4: p.line_search_strategy = LineSearchStrategy::ARMIJO_BACKTRACK; p.max_line_search_iterations = 12; p.armijo_search_tau = 0.5; break;
    case 5: p.max_line_search_iterations = 0; p.max_iterations = 8; break;
    case 6: p.max_line_search_iterations = 0; p.lambda_initial = 4; p.min_lambda = 1; break;
    case 7: p.max_qp_iterations = 10; p.termination_kkt_tolerance = 1e-6; break;
    case 8: p.max_qp_iterations = 2; break;
    case 9: p.max_iterations = 20; p.relative_exit_tol = 0; p.absolute_exit_tol = 1e-300; p.absolute_first_derivative_tol = 0; break;
  }
  c.retraction = dev(2, "retraction");
  p.log_qp_eigenvalues = X.want("C14");
  Run r;
  run(c, &r);
  auto F = [&](const char* prop, const std::string& key, const std::string& m) { X.fail(prop, key, m + "\n  " + text(c)); };
  X.state(mc::Hash().vec(r.final).add(r.threw).add(r.snaps.size()).h);
  if (r.threw) {
    // why: the sub-problem at the last linearisation point
    Vec tmp;
    const P q = linearise(c, r.log.lin.empty() ? c.start : r.log.lin.back(), 0);
    const bool strict = brute(q, &tmp, 0.05L);
    LD far = 0;
    for (LD v : tmp) far = std::max(far, fabsl(v));
    const char* cls = !strict ? "infeasible or without interior" : q.K >= q.n ? "fully determined" : far > 1e3L ? "minimiser beyond 1000" : "strictly feasible";
    X.count(cat("threw on a sub-problem that is ", cls));
    ++X.checks;
    if (strict && far < 1e3L) F("C27", "throws-on-feasible-problem", "threw although the sub-problem at its last linearisation is strictly convex and strictly feasible: " + r.what.substr(0, 200));
  }
  X.outcome(mc::Hash().add(r.threw).add(r.threw ? 0 : (int)r.out.termination_state).add(r.snaps.size()).h);
  if (!r.threw) X.count("ended " + name(r.out.termination_state));
  X.set_sample_text(text(c) + (r.threw ? " threw" : cat(" -> ", name(r.out.termination_state), " after ", r.snaps.size())));

  if (X.want("C14")) {
    VXd x = c.start;
    std::size_t t0 = 0;
    for (auto& s : r.snaps) {
      const auto& it = s.it;
      const P q = linearise(c, x, it.lambda > 0 ? it.lambda : 0);
      // the direction: given to the retraction, or the first (full-step) trial
      VXd dx;
      double slack = 0;
      if (c.retraction) dx = s.dx;
      else if (s.trials > t0) { dx = r.log.trials[t0] - x; slack = 4e-16 * (1 + x.cwiseAbs().maxCoeff() + dx.cwiseAbs().maxCoeff()); }
      t0 = s.trials;
      const Eigen::VectorXd ev = eigs(q);
      const double lmin = ev.minCoeff(), lmax = ev.maxCoeff();
      if (it.qp_eigenvalues) {
        const double et = 1e-12 * (1 + ev.cwiseAbs().maxCoeff()) * 10;
        ++X.checks;
        if (std::abs(it.qp_eigenvalues->min - lmin) > et || std::abs(it.qp_eigenvalues->max - lmax) > et || std::abs(it.qp_eigenvalues->abs_min - ev.cwiseAbs().minCoeff()) > et)
          F("C14", "eigenvalues", cat("iteration ", it.iteration, ": recorded (", it.qp_eigenvalues->min, ",", it.qp_eigenvalues->max, ",", it.qp_eigenvalues->abs_min, ") damped quadratic has (", lmin, ",", lmax, ")"));
      } else F("C14", "eigenvalues-missing", cat("iteration ", it.iteration, ": eigenvalues requested but not recorded"));
      if (dx.size() && dx.allFinite() && x.allFinite() && lmin > 1e-6) {
        bool solved;
        const auto* ip = std::get_if<QPInteriorPointSolverOutputs>(&it.qp_outputs);
        if (ip) solved = ip->termination_state == QPInteriorPointTerminationState::SATISFIED_KKT_TOL;
        else solved = std::get<QPNullSpaceTerminationState>(it.qp_outputs) == QPNullSpaceTerminationState::SUCCESS;
        Vec best;
        LD margin = HUGE_VALL, growth = 1;
        bool have = false;
        if (!solved) X.count("sub-problem not solved to tolerance");
        else have = brute(q, &best, 0, &margin, &growth);
        if (have) {
          // nearly dependent rows make directions that no double-precision solver determines
          LD far = 0;
          for (LD v : best) far = std::max(far, fabsl(v));
          if (far > 1e3L) { have = false; X.count("direction not judged: beyond 1000"); }
        } else if (solved) X.count("sub-problem without unique minimiser");
        if (have) {
          const int M = (int)q.cons.size();
          LD d = 0, big = 1;
          for (int i = 0; i < c.n; ++i) { d = std::max(d, fabsl(best[i] - (LD)dx[i])); big = std::max(big, fabsl(best[i])); }
          LD tol = slack + 1e-11L * big * (1 + lmax / lmin);
          if (ip) tol += 20 * p.termination_kkt_tolerance * big * growth / std::min(1.0, lmin);
          if (M) {
            const LD mu = 1e-6L * M, lin = 20 * mu * (1 + big) / (std::max(margin, (LD)1e-12) * std::min(1.0, lmin)), root = 4 * sqrtl(mu / std::min(1.0, lmin)) * (1 + big);
            tol += std::min(lin, root);
          }
          // equality rows that are nearly dependent with the active bounds amplify the primal residual
          ++X.checks;
          X.count(M ? (q.K ? "direction judged: bounds and equalities" : "direction judged: bounds") : q.K ? "direction judged: equalities" : "direction judged: unconstrained");
          X.maximum(M ? "direction error/tolerance, bounds" : "direction error/tolerance, no bounds", (double)(d / tol));
          if (d > tol) F("C14", "direction", cat("iteration ", it.iteration, " lambda ", it.lambda, ": direction ", str(dx), " differs by ", (double)d, " from the sub-problem's minimiser (tolerance ", (double)tol, ")"));
        }
      } else X.count("direction not judged");
      x = s.after;
    }
  }
  if (X.want("C17")) {
    const bool ok0 = violation(c, c.start, 0) <= 0;
    X.count(c.bounds.empty() ? "no bounds" : ok0 ? "feasible start" : "infeasible start");
    if (c.bounds.empty() || c.retraction) { X.trivial(); return; }
    bool feas = ok0;
    std::size_t t0 = 0;
    VXd x = c.start;
    for (std::size_t k = 0; k < r.snaps.size(); ++k) {
      const auto& s = r.snaps[k];
      for (std::size_t t = t0; t < s.trials; ++t) {
        const VXd& tr = r.log.trials[t];
        if (!tr.allFinite()) { X.count("non-finite trial"); continue; }
        const LD rel = 1e-13L * (1 + (LD)(tr - x).cwiseAbs().maxCoeff());
        const LD v = violation(c, tr, rel);
        if (feas) {
          ++X.checks;
          if (v > 0) F("C17", "trial-violates", cat("iteration ", s.it.iteration, " trial ", t - t0, " at ", str(tr), " violates a bound by ", (double)v, " although ", str(x), " satisfies them"));
        }
      }
      t0 = s.trials;
      const LD rel = 1e-13L * (1 + (LD)(s.after - x).cwiseAbs().maxCoeff());
      const LD va = s.after.allFinite() ? violation(c, s.after, rel) : 0;
      if (feas) {
        ++X.checks;
        if (va > 0) F("C17", "iterate-violates", cat("iterate ", str(s.after), " violates a bound by ", (double)va));
      } else if (s.it.step_result == StepSizeSelectionResult::SUCCESS && s.it.line_search_steps.back().alpha == 1 && c.eqs.empty()) {
        // restoring is only possible when the bounds are consistent
        std::vector<LD> lo(c.n, -HUGE_VALL), hi(c.n, HUGE_VALL);
        for (auto& b : c.bounds) { const LD lim = -b.b / b.a; if (b.a > 0) lo[b.v] = std::max(lo[b.v], lim); else hi[b.v] = std::min(hi[b.v], lim); }
        bool cons = true;
        for (int i = 0; i < c.n; ++i) cons &= lo[i] <= hi[i];
        if (cons) {
          ++X.checks;
          X.count("full step from an infeasible point");
          if (va > 0) F("C17", "not-restored", cat("full accepted step from ", str(x), " ends at ", str(s.after), " which violates a bound by ", (double)va));
          feas = true;
        } else X.count("inconsistent bounds");
      }
      x = s.after;
    }
  }
}

// ---------------------------------------------------------------- C18
void linear_problems() {
  const bool T = X.thorough();
  Case c;
  build(&c, true, T ? 5 : 4);
  auto& p = c.par;
  p.max_iterations = 200; p.max_qp_iterations = 200; p.termination_kkt_tolerance = 1e-8;
  // The sub-solver stops at an average complementarity of 1e-6, so a derivative within a multiple of
  // that is all it can deliver; with the finer default only the final point is judged.
  p.absolute_first_derivative_tol = 2e-5;
  switch (dev(9, "parameter")) {
    case 8: p.absolute_first_derivative_tol = 1e-6; break;
    case 1: p.lambda_initial = 0.5; break;
    case 2: p.line_search_strategy = LineSearchStrategy::ARMIJO_BACKTRACK; break;
    case 3: p.line_search_strategy = LineSearchStrategy::ARMIJO_BACKTRACK; p.max_line_search_iterations = 12; p.armijo_search_tau = 0.5; break;
    case 4: p.max_line_search_iterations = 0; break;
    case 5: p.relative_exit_tol = 0; break;
    case 6: p.equality_penalty_initial = 0.01; break;
    case 7: p.min_lambda = 0.25; p.lambda_initial = 1; break;
  }
  c.retraction = dev(2, "retraction");
  const P q = linearise(c, VXd::Zero(c.n), 0);
  Vec best, tmp;
  if (violation(c, c.start, 0) > -1e-12L && !c.bounds.empty()) {
    for (auto& b : c.bounds) if (b.a * (LD)c.start[b.v] + b.b < 0) { X.count("start violates a bound"); X.trivial(); return; }
  }
  if (!brute(q, &tmp, 0.03L) || !brute(q, &best)) { X.count("no strictly feasible point or dependent rows"); X.trivial(); return; }
  Run r;
  run(c, &r);
  auto F = [&](const std::string& key, const std::string& m) { X.fail("C18", key, m + "\n  " + text(c)); };
  X.state(mc::Hash().vec(r.final).add(r.threw).add(r.snaps.size()).h);
  ++X.checks;
  if (r.threw) { F("exception", "threw: " + r.what); return; }
  const auto st = r.out.termination_state;
  X.outcome(mc::Hash().add((int)st).add(r.snaps.size()).h);
  X.count("ended " + name(st));
  X.maximum("iterations", (double)r.snaps.size());
  const bool sat = st == NLSTerminationState::SATISFIED_ABSOLUTE_TOL || st == NLSTerminationState::SATISFIED_RELATIVE_TOL || st == NLSTerminationState::SATISFIED_FIRST_ORDER_TOL;
  if (!sat && p.absolute_first_derivative_tol < 1e-5) X.count("default derivative tolerance: not satisfied at the end");
  else if (!sat) { F("not-satisfied", cat("ended in ", name(st), " after ", r.snaps.size(), " iterations at ", str(r.final))); return; }
  LD d = 0, f = 0;
  for (int i = 0; i < c.n; ++i) d = std::max(d, fabsl(best[i] - (LD)r.final[i]));
  VXd b(c.n);
  for (int i = 0; i < c.n; ++i) b[i] = (double)best[i];
  for (auto& t : c.costs) for (int k = 0; k < t.rdim; ++k) { const LD v = row_value(t, k, gather(t, b)); f += 0.5L * v * v; }
  const LD lmin = eigs(q).minCoeff();
  const LD tol = 4 * sqrtl(2 * (2 * (LD)p.absolute_first_derivative_tol * (1 + q.cons.size()) + 2 * p.relative_exit_tol * f) / lmin) + 1e-6L;
  X.maximum("distance/tolerance", (double)(d / tol));
  if (d > tol) F("not-optimum", cat("ended in ", name(st), " at ", str(r.final), ", the optimum is ", str(b), " (distance ", (double)d, ", tolerance ", (double)tol, ")"));
  LD eq = 0;
  for (auto& t : c.eqs) for (int k = 0; k < t.rdim; ++k) eq += fabsl(row_value(t, k, gather(t, r.final)));
  X.maximum("equality error", (double)eq);
  if (eq > 1e-4L) F("equality", cat("equality constraints violated by ", (double)eq, " at the end (", name(st), ")"));
  X.set_sample_text(text(c) + cat(" -> ", name(st), " after ", r.snaps.size(), ", distance ", (double)d));
}

// ---------------------------------------------------------------- C27
struct Corner { const char* what; void (*set)(NLS::Params&); };
const Corner kCorners[] = {
    {"max_iterations=0", [](NLS::Params& p) { p.max_iterations = 0; }}, {"max_iterations=1", [](NLS::Params& p) { p.max_iterations = 1; }}, {"max_iterations=100", [](NLS::Params& p) { p.max_iterations = 100; }},
    {"max_iterations=-1", [](NLS::Params& p) { p.max_iterations = -1; }},
    {"max_qp_iterations=1", [](NLS::Params& p) { p.max_qp_iterations = 1; }}, {"max_qp_iterations=40", [](NLS::Params& p) { p.max_qp_iterations = 40; }}, {"max_qp_iterations=0", [](NLS::Params& p) { p.max_qp_iterations = 0; }},
    {"max_qp_iterations=300", [](NLS::Params& p) { p.max_qp_iterations = 300; }},
    {"kkt=1e-300", [](NLS::Params& p) { p.termination_kkt_tolerance = 1e-300; }}, {"kkt=1e-12", [](NLS::Params& p) { p.termination_kkt_tolerance = 1e-12; }}, {"kkt=1e300", [](NLS::Params& p) { p.termination_kkt_tolerance = 1e300; }}, {"kkt=0", [](NLS::Params& p) { p.termination_kkt_tolerance = 0; }},
    {"abs=1e-300", [](NLS::Params& p) { p.absolute_exit_tol = 1e-300; }}, {"abs=1e300", [](NLS::Params& p) { p.absolute_exit_tol = 1e300; }}, {"abs=0", [](NLS::Params& p) { p.absolute_exit_tol = 0; }}, {"abs=nan", [](NLS::Params& p) { p.absolute_exit_tol = NAN; }},
    {"rel=0", [](NLS::Params& p) { p.relative_exit_tol = 0; }}, {"rel=1", [](NLS::Params& p) { p.relative_exit_tol = 1; }}, {"rel=1.1", [](NLS::Params& p) { p.relative_exit_tol = 1.1; }},
    {"fo=0", [](NLS::Params& p) { p.absolute_first_derivative_tol = 0; }}, {"fo=1e300", [](NLS::Params& p) { p.absolute_first_derivative_tol = 1e300; }},
    {"ls=0,failinit=0,max_lambda=1", [](NLS::Params& p) { p.max_line_search_iterations = 0; p.lambda_failure_init = 0; p.max_lambda = 1; p.max_iterations = 6; }},
    {"ls=0", [](NLS::Params& p) { p.max_line_search_iterations = 0; }}, {"ls=50", [](NLS::Params& p) { p.max_line_search_iterations = 50; }}, {"ls=3000", [](NLS::Params& p) { p.max_line_search_iterations = 3000; }}, {"ls=-1", [](NLS::Params& p) { p.max_line_search_iterations = -1; }},
    {"backtrack", [](NLS::Params& p) { p.line_search_strategy = LineSearchStrategy::ARMIJO_BACKTRACK; }},
    {"tau=1e-300", [](NLS::Params& p) { p.armijo_search_tau = 1e-300; }}, {"tau=0.999", [](NLS::Params& p) { p.armijo_search_tau = 0.999; }}, {"tau=1", [](NLS::Params& p) { p.armijo_search_tau = 1; }}, {"tau=0", [](NLS::Params& p) { p.armijo_search_tau = 0; }},
    {"penalty=0", [](NLS::Params& p) { p.equality_penalty_initial = 0; }}, {"penalty=1e-300", [](NLS::Params& p) { p.equality_penalty_initial = 1e-300; }}, {"penalty=1e12", [](NLS::Params& p) { p.equality_penalty_initial = 1e12; }}, {"penalty=-1", [](NLS::Params& p) { p.equality_penalty_initial = -1; }},
    {"scale=1", [](NLS::Params& p) { p.equality_penalty_scale_factor = 1; }}, {"scale=1e6", [](NLS::Params& p) { p.equality_penalty_scale_factor = 1e6; }}, {"scale=0.5", [](NLS::Params& p) { p.equality_penalty_scale_factor = 0.5; }},
    {"rho=0", [](NLS::Params& p) { p.equality_penalty_rho = 0; }}, {"rho=0.999999", [](NLS::Params& p) { p.equality_penalty_rho = 0.999999; }}, {"rho=1", [](NLS::Params& p) { p.equality_penalty_rho = 1; }},
    {"lambda0=1", [](NLS::Params& p) { p.lambda_initial = 1; }}, {"lambda0=2>max", [](NLS::Params& p) { p.lambda_initial = 2; }}, {"lambda0=1e-300", [](NLS::Params& p) { p.lambda_initial = 1e-300; }},
    {"failinit=0", [](NLS::Params& p) { p.lambda_failure_init = 0; }}, {"failinit=1e300", [](NLS::Params& p) { p.lambda_failure_init = 1e300; }}, {"failinit=1e-300", [](NLS::Params& p) { p.lambda_failure_init = 1e-300; }},
    {"dec=0", [](NLS::Params& p) { p.lambda_decrease_on_success = 0; }}, {"dec=0.999", [](NLS::Params& p) { p.lambda_decrease_on_success = 0.999; }}, {"dec=1", [](NLS::Params& p) { p.lambda_decrease_on_success = 1; }},
    {"restore=0", [](NLS::Params& p) { p.lambda_decrease_on_restore = 0; }}, {"restore=0.999", [](NLS::Params& p) { p.lambda_decrease_on_restore = 0.999; }}, {"restore=-0.1", [](NLS::Params& p) { p.lambda_decrease_on_restore = -0.1; }},
    {"max_lambda=0", [](NLS::Params& p) { p.max_lambda = 0; }}, {"max_lambda=1e10", [](NLS::Params& p) { p.max_lambda = 1e10; }}, {"max_lambda=1e300", [](NLS::Params& p) { p.max_lambda = 1e300; }},
    {"min_lambda=1,lambda0=1", [](NLS::Params& p) { p.min_lambda = 1; p.lambda_initial = 1; }}, {"min_lambda=-1", [](NLS::Params& p) { p.min_lambda = -1; }}, {"min_lambda=-1,lambda0=-1", [](NLS::Params& p) { p.min_lambda = -1; p.lambda_initial = -1; }}, {"min_lambda=2", [](NLS::Params& p) { p.min_lambda = 2; }},
    {"failinit=-1", [](NLS::Params& p) { p.lambda_failure_init = -1; }}, {"failinit=-1,ls=0", [](NLS::Params& p) { p.lambda_failure_init = -1; p.max_line_search_iterations = 0; p.max_iterations = 6; }}, {"fo=-1", [](NLS::Params& p) { p.absolute_first_derivative_tol = -1; }}, {"dec=-0.1", [](NLS::Params& p) { p.lambda_decrease_on_success = -0.1; }},
    {"restore=1", [](NLS::Params& p) { p.lambda_decrease_on_restore = 1; }}, {"rho=-0.1", [](NLS::Params& p) { p.equality_penalty_rho = -0.1; }}, {"rel=-0.1", [](NLS::Params& p) { p.relative_exit_tol = -0.1; }}, {"kkt=nan", [](NLS::Params& p) { p.termination_kkt_tolerance = NAN; }}, {"penalty=nan", [](NLS::Params& p) { p.equality_penalty_initial = NAN; }},
    {"scale=nan", [](NLS::Params& p) { p.equality_penalty_scale_factor = NAN; }}, {"max_lambda=-1", [](NLS::Params& p) { p.max_lambda = -1; p.min_lambda = -1; p.lambda_initial = -1; }}, {"lambda0=nan", [](NLS::Params& p) { p.lambda_initial = NAN; }}, {"failinit=nan", [](NLS::Params& p) { p.lambda_failure_init = NAN; }}, {"tau=nan", [](NLS::Params& p) { p.armijo_search_tau = NAN; }},
    {"eigenvalues", [](NLS::Params& p) { p.log_qp_eigenvalues = true; }}};
constexpr int kNC = sizeof(kCorners) / sizeof(kCorners[0]);

void corners() {
  const bool T = X.thorough();
  Case c;
  const int cls = X.choose(T ? 24 : 18, "class");
  const int which = cls % 6, var = cls / 6;
  c.n = 2;
  Term spy; spy.kind = 5; spy.w = {0}; spy.idx = {0, 1};
  c.costs.push_back(spy);
  auto prior = [&](int i, double w, double t) { Term q; q.idx = {i}; q.w = {w}; q.off = -w * t; c.costs.push_back(q); };
  if (var == 0) { prior(0, 1, 1); prior(1, 1, -2); c.start = VXd::Zero(2); }
  else if (var == 1) { c.costs.push_back({{0, 1}, 3, {0}, 0}); prior(0, 1, 1); c.start.resize(2); c.start << -1.2, 1; }  // Rosenbrock
  else if (var == 2) { c.costs.push_back({{0, 1}, 1, {0, 1}, -3, 2}); prior(0, 0.5, 0); prior(1, 0.5, 1); c.start.resize(2); c.start << 3, -3; }
  else { prior(0, 1, 1); prior(1, 1, -2); c.start.resize(2); c.start << 1, -2; }  // at the optimum
  if (which == 1 || which == 4 || which == 5) c.eqs.push_back(which == 5 ? Term{{1, 0}, 0, {1, 2}, -0.5} : Term{{0, 1}, 1, {0, 1}, -2});
  if (which == 2 || which == 4) { c.bounds.push_back({0, 1, 2}); c.bounds.push_back({0, -1, 4}); c.bounds.push_back({1, 1, 4}); }
  if (which == 3) { c.bounds.push_back({0, 1, -0.5L}); c.bounds.push_back({1, -1, 0.5L}); }   // may be violated at the start
  if (which == 5 && var > 0) c.eqs.push_back({{0}, 0, {1}, -0.25});                            // fully determined
  const int a = X.choose(kNC, "corner");
  X.shard_point();
  const int b = X.choose(a + 1, "corner");
  int d = a;
  kCorners[a].set(c.par);
  if (b != a) kCorners[b].set(c.par);
  if (T) { d = X.choose(b + 1, "corner"); if (d != b) kCorners[d].set(c.par); }
  Run r;
  run(c, &r);
  X.state(mc::Hash().add(cls).vec(r.final).add(r.threw).add(r.snaps.size()).add(r.threw ? 9 : (int)r.out.termination_state).h);
  X.outcome(mc::Hash().add(r.threw).add(r.threw ? 9 : (int)r.out.termination_state).h);
  ++X.checks;
  const std::string what = cat(kCorners[a].what, " ", kCorners[b].what, T ? cat(" ", kCorners[d].what) : "");
  X.set_sample_text(what + (r.threw ? (r.log.calls ? " failed" : " rejected") : " -> " + name(r.out.termination_state)));
  if (!r.threw) { X.count("ended " + name(r.out.termination_state)); return; }
  if (r.log.calls == 0) { X.count("rejected before any user code"); return; }
  X.fail("C27", "fails-inside-run", cat("accepted (", r.log.calls, " user calls) and then threw: ", r.what.substr(0, 300), "\n  parameters: ", what, "\n  ", text(c)));
}
}  // namespace
int main(int argc, char** argv) {
  X.parse(argc, argv);
  return X.run([] {
    if (X.want("C18")) linear_problems();
    else if (X.want("C27") && X.choose(2, "phase") == 0) corners();
    else steps();
  });
}
