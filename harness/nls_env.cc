// C09 C10 C11 C12 C13 C15 C16: the nonlinear solver against an adversarial, scripted environment.
//
// The user's cost and constraint functions are played by the explorer: the first time the solver
// visits a point, the values there are *chosen* from an alphabet placed around the solver's own
// decision thresholds; revisits are answered consistently.  Jacobians are chosen at linearization
// points.  The oracle re-derives the documented algorithm from the record, from the callback
// snapshots and from the calls the user functions observed.
#include <Eigen/Dense>
#include "nls_common.hpp"
using namespace nls;
using mc::X;
using Eigen::MatrixXd;
using Eigen::VectorXd;
using LD = long double;

static const double kC1 = 1.0e-4;

struct Cfg {
  int backend = 0;  // 0,1 none (n=1,2)  2 wide bounds  3 infeasible bounds  4 tight bounds  5 eq n=2 K=1  6 eq n=3 K=2  7 eq+wide bounds  8 eq+infeasible bounds  9 eq n=3 K=2+wide bounds  10 eq+tight bounds  11 eq+bounds that contradict it  12 eq n=4 K=3  13 eq n=4 K=3+wide bounds  14 eq n=7 K=5
  int n = 2, K = 0, split = 0, bounds = 0;
  int retraction = 0;  // 0 default 1 custom linear 2 custom twisted
  int callback = 0;    // 0 always true 1 none 2 chosen
  int params = 0;
  int mood = 0;        // what the environment does by default: 0 good decrease 1 insufficient decrease 2 increase
  int mag = 0;         // magnitude of the values: 0 about one 1 large 2 small 3 large constraint violation 4 large cost
  NLS::Params p{};
  int rows() const { return std::max(3, n); }  // rows of the stacked cost residual
};

struct Pt {
  VectorXd x, r, c;
  bool lin = false;
  MatrixXd J, A;
  int id = 0;
};
enum class Ev { LIN, EVAL, RETRACT, CB };
struct Event {
  Ev t;
  int which = 0;
  VectorXd x;        // LIN/EVAL: argument; RETRACT: input point; CB: variables
  VectorXd dx, out;  // RETRACT
  double alpha = 0;
  int iter = -1;  // CB: index into cb_iters
};

struct Env {
  Cfg cfg;
  bool frozen = false;
  struct Piece { int off, len; bool eq; };
  std::vector<Piece> pieces;  // how the stacked residuals are divided over the problem's residuals
  std::map<std::vector<std::uint64_t>, Pt> memo;
  std::vector<Event> log;
  std::vector<NLSIteration> cb_iters;
  int env_budget = 0, full_budget = 0, points = 0;
  // estimates used only to place the alphabet around the thresholds
  const Pt* cur = nullptr;
  VectorXd dx_est;
  double pen_est = 1, lam_est = 0;
  bool first_trial = true;
  bool singular = false;
  bool bad_numbers = false;  // the script returned something non finite at a linearization point

  static std::vector<std::uint64_t> key(const VectorXd& x) {
    std::vector<std::uint64_t> k;
    for (long i = 0; i < x.size(); ++i) k.push_back(mc::Explorer::bits(x[i] == 0 ? 0.0 : x[i]));
    return k;
  }
  int dev(int n, const char* l) {
    if (frozen || env_budget <= 0) return 0;
    int c = X.choose(n, l);
    if (c) --env_budget;
    return c;
  }
  int mooded(int n) {
    const int d = dev(n, "trial");
    const int base = cfg.mood == 1 ? 1 : cfg.mood == 2 ? 3 : 0;
    return d == 0 ? base : d == base ? 0 : d;
  }
  VectorXd unit_r(int id) const {
    VectorXd u(cfg.rows());
    if (u.size() > 3) { for (long i = 0; i < u.size(); ++i) u[i] = (i + id) % 3 ? 0.5 : -0.75; return u / u.norm(); }
    switch (id % 3) {
      case 0: u << 0.6, -0.48, 0.64; break;
      case 1: u << -0.48, 0.64, 0.6; break;
      default: u << 0.64, 0.6, -0.48; break;
    }
    return u;
  }
  VectorXd unit_c(int id) const {
    VectorXd v(cfg.K);
    if (cfg.K == 1) v << (id % 2 ? -1.0 : 1.0);
    if (cfg.K == 2) v << (id % 2 ? -0.75 : 0.75), 0.25;
    if (cfg.K == 3) v << (id % 2 ? -0.5 : 0.5), 0.25, -0.25;
    if (cfg.K == 5) v << 0.25, (id % 2 ? -0.375 : 0.375), 0.125, -0.125, 0.125;
    return v;
  }
  Pt& at(const VectorXd& x) {
    auto k = key(x);
    auto it = memo.find(k);
    if (it != memo.end()) return it->second;
    Pt p;
    p.x = x;
    p.id = points++;
    static const double mf[] = {1, 1e8, 1e-8, 1, 1e10}, mc_[] = {1, 1e4, 1e-5, 1e6, 1};
    double f = 2 * mf[cfg.mag], c = cfg.K ? mc_[cfg.mag] : 0.0;
    if (!cur) {
      switch (dev(cfg.K ? 5 : 4, "start")) {
        case 1: f = 0; break;
        case 2: f = std::nan(""); bad_numbers = true; break;
        case 3: f = 1e-14; break;
        case 4: c = 0; break;
        default: break;
      }
    } else {
      // a trial point: place the values around the thresholds of the search in progress
      const double f0 = 0.5 * cur->r.squaredNorm(), c0 = cur->c.lpNorm<1>();
      double alpha = 1;
      if (first_trial) {
        dx_est = x - cur->x;
        if (cfg.K) {
          // multiplier / penalty estimate
          MatrixXd G = cur->J.transpose() * cur->J;
          G.diagonal().array() += lam_est;
          VectorXd g = cur->J.transpose() * cur->r;
          double np;
          if (cfg.bounds) {
            VectorXd y = (cur->A * cur->A.transpose()).fullPivLu().solve(cur->A * (G * dx_est + g));
            np = y.lpNorm<Eigen::Infinity>();
          } else {
            np = (g.dot(dx_est) + 0.5 * std::max(0.0, dx_est.dot(G * dx_est))) / ((1 - cfg.p.equality_penalty_rho) * std::max(c0, 2.2e-16));
          }
          if (np > pen_est) pen_est = np * cfg.p.equality_penalty_scale_factor;
        }
        first_trial = false;
      } else if (dx_est.norm() > 0) {
        alpha = (x - cur->x).norm() / dx_est.norm();
      }
      double D = (cur->J.transpose() * cur->r).dot(dx_est);
      for (int i = 0; i < cfg.K; ++i) D += pen_est * ((cur->c[i] > 0) - (cur->c[i] < 0)) * cur->A.row(i).dot(dx_est);
      const double phi0 = f0 + pen_est * c0, aD = alpha * D * kC1;
      double target = 0.25 * phi0;
      f = -1;
      c = cfg.K ? 0.25 * c0 : 0;
      if (!cfg.K) {
        switch (mooded(env_budget == full_budget ? 12 : 10)) {
          case 0: break;
          case 1: target = phi0 + 0.5 * aD; break;          // a decrease, but not a sufficient one
          case 2: target = phi0 + 1.5 * aD; break;          // barely sufficient
          case 3: target = 2 * phi0; break;
          case 4: target = 0; break;
          case 5: f = std::nan(""); break;
          case 6: f = HUGE_VAL; break;
          case 7: target = 100 * phi0; break;
          case 8: target = phi0; break;
          case 9: target = 0.9 * phi0; break;
          case 10: target = phi0 + aD + 3e-13 * phi0; break;   // misses a sufficient decrease by a hair
          case 11: target = phi0 * (1 + 4.5e-16); break;       // larger by two units in the last place
        }
      } else {
        switch (mooded(13)) {
          case 0: break;
          case 1: target = phi0 + 0.5 * aD; c = 0.5 * c0; break;
          case 2: target = phi0 + 1.5 * aD; c = 0.5 * c0; break;
          case 3: target = 2 * phi0; c = c0; break;            // cost up, constraint unchanged
          case 4: f = 0; c = 0; break;                          // solved exactly
          case 5: f = std::nan(""); break;
          case 6: f = f0; c = std::nan(""); break;
          case 7: f = 0.5 * f0; c = 3 * c0 + 1; break;          // cost down, constraint up
          case 8: f = 2 * f0; c = 0; break;                     // constraint solved, cost up
          case 9: f = HUGE_VAL; break;
          case 10: f = 0; c = 0.5 * c0; break;
          case 11: f = f0; c = HUGE_VAL; break;
          case 12: target = 0.9 * phi0; c = 0.9 * c0; break;
        }
      }
      if (f == -1) {
        f = target - pen_est * c;
        if (f < 0) { c = 0; f = std::max(0.0, target); }
      }
    }
    p.r = std::isnan(f) ? VectorXd(VectorXd::Constant(cfg.rows(), f)) : VectorXd(std::sqrt(2 * f) * unit_r(p.id));
    if (std::isinf(f)) p.r = VectorXd::Constant(cfg.rows(), f);
    p.c = std::isfinite(c) ? VectorXd(c * unit_c(p.id)) : VectorXd(VectorXd::Constant(cfg.K, c));
    return memo.emplace(k, p).first->second;
  }
  void linearize(Pt& p) {
    if (p.lin) return;
    p.lin = true;
    const int n = cfg.n;
    p.J.resize(cfg.rows(), n);
    p.A.resize(cfg.K, n);
    const int id = p.id;
    for (int i = 0; i < cfg.rows(); ++i)
      for (int j = 0; j < n; ++j) p.J(i, j) = (i == j ? 1.25 : 0.25) + 0.125 * ((i + 2 * j + id) % 3);
    for (int i = 0; i < cfg.K; ++i)
      for (int j = 0; j < n; ++j) p.A(i, j) = (i == j ? 1.0 : 0.5) + 0.25 * ((j + id) % 2);
    switch (dev(3, "jacobian")) {
      case 1: p.J.setZero(); singular = true; break;  // the damped Hessian may be singular
      case 2: p.J.setConstant(std::nan("")); bad_numbers = true; break;
      default: break;
    }
  }
  // Called by every user function.
  void call(int which, const VectorXd& x, bool jac, VectorXd* val, MatrixXd* jacobian) {
    log.push_back({jac ? Ev::LIN : Ev::EVAL, which, x, {}, {}, 0, -1});
    if (jac && (!cur || !same(cur->x, x))) {
      Pt& p = at(x);
      linearize(p);
      cur = &p;
    }
    if (jac) first_trial = true;
    Pt& p = at(x);
    const Piece& q = pieces[which];
    *val = (q.eq ? p.c : p.r).segment(q.off, q.len);
    if (jac) { if (!p.lin) linearize(p); *jacobian = (q.eq ? p.A : p.J).middleRows(q.off, q.len); }
  }
};

template <int R>
struct Fn {
  Env* env;
  int which;
  Eigen::Matrix<double, R, 1> operator()(const VectorXd& x, Eigen::Matrix<double, R, Eigen::Dynamic>* J) const {
    VectorXd v;
    MatrixXd j;
    env->call(which, x, J != nullptr, &v, &j);
    if (J) *J = j;
    return v;
  }
};

static const VectorXd& start_point(int n) {
  static std::vector<VectorXd> s;
  if (s.empty())
    for (int k = 0; k <= 7; ++k) { VectorXd v(k); for (int i = 0; i < k; ++i) v[i] = i % 2 ? -0.75 : 0.5 + i; s.push_back(v); }
  return s[n];
}

static void build_problem(Env* e, Problem* pr) {
  const Cfg& c = e->cfg;
  pr->dimension = c.n;
  std::vector<int> idx;
  for (int i = 0; i < c.n; ++i) idx.push_back(i);
  std::vector<int> cl, el;
  switch (c.split) {
    case 0: cl = {1, c.rows() - 1}; el = {c.K}; break;
    case 1: cl = {1, c.rows() - 1}; el.assign(c.K, 1); break;
    case 2: cl = {c.rows()}; el = {c.K - 1, 1}; break;
    case 3: cl = {c.rows() - 1, 1}; el = {1, c.K - 1}; break;
  }
  auto add = [&](std::vector<Residual>& to, const std::vector<int>& lens, bool eq) {
    int off = 0;
    for (int len : lens) {
      if (!len) continue;
      const int which = static_cast<int>(e->pieces.size());
      e->pieces.push_back({off, len, eq});
      off += len;
      switch (len) {
        case 1: to.push_back(MakeResidual<1, Eigen::Dynamic>(idx, Fn<1>{e, which})); break;
        case 2: to.push_back(MakeResidual<2, Eigen::Dynamic>(idx, Fn<2>{e, which})); break;
        case 3: to.push_back(MakeResidual<3, Eigen::Dynamic>(idx, Fn<3>{e, which})); break;
        case 4: to.push_back(MakeResidual<4, Eigen::Dynamic>(idx, Fn<4>{e, which})); break;
        case 5: to.push_back(MakeResidual<5, Eigen::Dynamic>(idx, Fn<5>{e, which})); break;
        case 6: to.push_back(MakeResidual<6, Eigen::Dynamic>(idx, Fn<6>{e, which})); break;
        case 7: to.push_back(MakeResidual<7, Eigen::Dynamic>(idx, Fn<7>{e, which})); break;
      }
    }
  };
  add(pr->costs, cl, false);
  if (c.K) add(pr->equality_constraints, el, true);
  const VectorXd& x0 = start_point(c.n);
  if (c.bounds == 1)
    for (int i = 0; i < c.n; ++i) { pr->inequality_constraints.push_back(Var(i) >= -1000.0); pr->inequality_constraints.push_back(Var(i) <= 1000.0); }
  if (c.bounds == 2) pr->inequality_constraints.push_back(Var(0) >= x0[0] + 0.5);
  if (c.bounds == 4) for (int i = 0; i < c.n; ++i) pr->inequality_constraints.push_back(Var(i) >= x0[i] + 0.5);
  if (c.bounds == 3) { pr->inequality_constraints.push_back(Var(0) <= x0[0] + 0.0625); pr->inequality_constraints.push_back(Var(0) >= x0[0] - 0.0625); }
}

static const int kParamSets = 34, kBackends = 15;
static void set_params(Cfg& c) {
  NLS::Params& p = c.p;
  p.max_iterations = 3;
  p.max_qp_iterations = 15;
  p.absolute_exit_tol = 1e-10;
  switch (c.params) {
    case 0: break;
    case 1: p.max_line_search_iterations = 0; p.max_iterations = 6; p.lambda_failure_init = 0.5; p.max_lambda = 5; break;  // reaches the maximum exactly
    case 2: p.max_line_search_iterations = 0; p.max_iterations = 5; p.lambda_initial = 0.125; p.min_lambda = 0.0625; p.lambda_decrease_on_success = 0.25;
      p.lambda_decrease_on_restore = 0.5; p.lambda_failure_init = 0.5; p.max_lambda = 1000; break;
    case 3: p.max_line_search_iterations = 1; break;
    case 4: p.max_line_search_iterations = 3; break;
    case 5: p.relative_exit_tol = 0.5; break;
    case 6: p.relative_exit_tol = 0; p.absolute_exit_tol = 1.0; break;
    case 7: p.absolute_first_derivative_tol = 0; break;
    case 8: p.absolute_first_derivative_tol = 1e3; break;
    case 9: p.armijo_search_tau = 0.25; break;
    case 10: p.equality_penalty_initial = 0.0078125; p.equality_penalty_scale_factor = 2; break;
    case 11: p.equality_penalty_initial = 128; break;
    case 12: p.equality_penalty_initial = 0.0078125; p.equality_penalty_rho = 0.75; p.equality_penalty_scale_factor = 1; break;
    case 13: p.max_iterations = 0; break;
    case 14: p.max_iterations = 1; break;
    case 15: p.log_qp_eigenvalues = true; break;
    case 16: p.max_lambda = 0; p.lambda_failure_init = 0; p.max_line_search_iterations = 0; break;  // minimum == maximum == 0
    case 17: p.max_lambda = 0.25; p.min_lambda = 0.25; p.lambda_initial = 0.25; p.lambda_failure_init = 0.5; break;
    case 18: p.lambda_initial = 2; p.max_lambda = 64; p.min_lambda = 0.5; p.lambda_decrease_on_success = 0.125; p.max_line_search_iterations = 0; p.max_iterations = 5; break;
    case 19: p.lambda_initial = 0.5; p.lambda_decrease_on_success = 0; p.lambda_decrease_on_restore = 0; p.lambda_failure_init = 0.0625; p.max_line_search_iterations = 0; p.max_iterations = 5; p.max_lambda = 50; break;
    case 20: p.relative_exit_tol = 1; p.max_line_search_iterations = 1; break;
    case 21: p.max_qp_iterations = 1; break;  // the interior point solver stops early
    case 22: p.max_iterations = 13; break;    // more iterations than the solver reserves space for
    case 23: p.max_line_search_iterations = 9; p.max_iterations = 2; break;
    case 25: p.max_line_search_iterations = 0; p.max_iterations = 5; p.lambda_initial = 0.5; p.min_lambda = 0.5; p.lambda_failure_init = 0.5; p.lambda_decrease_on_success = 0.25;
      p.lambda_decrease_on_restore = 0.03125; p.max_lambda = 1000; break;  // recovering falls below the minimum
    case 26: p.equality_penalty_initial = 0.0078125; p.equality_penalty_rho = 0; p.equality_penalty_scale_factor = 1; p.absolute_first_derivative_tol = 1; break;  // the two derivatives nearly cancel
    case 27: p.equality_penalty_initial = 0.0078125; p.equality_penalty_rho = 0; p.equality_penalty_scale_factor = 1; p.absolute_first_derivative_tol = 0.25; p.max_qp_iterations = 1; break;
    case 28: p.max_line_search_iterations = 0; p.max_iterations = 5; p.lambda_failure_init = 0; p.max_lambda = 1; break;  // raising the damping leaves it at zero
    case 29: p.max_line_search_iterations = 0; p.max_iterations = 5; p.lambda_initial = 0.125; p.lambda_failure_init = 0.5; p.max_lambda = 12.5; p.lambda_decrease_on_success = 0.5; p.absolute_first_derivative_tol = 0; break;
    case 30: p.max_line_search_iterations = 0; p.max_iterations = 5; p.lambda_initial = std::ldexp(1.0, -60); p.lambda_decrease_on_success = 0.5; p.lambda_failure_init = 1e-17; break;  // damping far below rounding
    case 31: p.max_line_search_iterations = 4; p.max_iterations = 4; p.lambda_failure_init = 1e15; p.max_lambda = 1e30; break;  // recovering with steps near rounding
    case 32: p.max_iterations = 300; break;
    case 33: p.max_line_search_iterations = 13; p.max_iterations = 2; break;
    case 24: p.max_lambda = 1e12; p.max_line_search_iterations = 0; p.max_iterations = 9; p.lambda_failure_init = 1e-6; p.lambda_decrease_on_restore = 0.875; break;
  }
}

// ---- reference step-size formulas, in extended precision -----------------------------------------
struct MaybeAlpha { bool some = false; LD v = 0; };
static MaybeAlpha quad_min(LD phi0, LD d, LD a0, LD p0) {
  const LD num = p0 - d * a0 - phi0;
  if (d > 0 || num <= 0) return {};
  return {true, -d * a0 * a0 / (2 * num)};
}
static MaybeAlpha cubic_min(LD phi0, LD d, LD a0, LD p0, LD a1, LD p1) {
  const LD r0 = p0 - phi0 - d * a0, r1 = p1 - phi0 - d * a1;
  const LD det = a0 * a0 * a0 * a1 * a1 - a0 * a0 * a1 * a1 * a1;
  const LD a = (r0 * a1 * a1 - r1 * a0 * a0) / det;
  const LD b = (a0 * a0 * a0 * r1 - a1 * a1 * a1 * r0) / det;
  const LD arg = b * b - 3 * a * d;
  if (a == 0 || arg < 0) return {};
  return {true, (-b + sqrtl(arg)) / (3 * a)};
}

struct Iter {  // what the log says about one iteration
  VectorXd x;
  std::vector<VectorXd> trials;
  std::vector<const Event*> retr;
  std::vector<const Event*> cbs;
  std::vector<int> evals_per_trial;
};

static std::vector<Iter> split_log(const std::vector<Event>& log) {
  std::vector<Iter> out;
  bool in_lin = false, fresh = true;
  std::set<int> seen;
  for (const Event& e : log) {
    switch (e.t) {
      case Ev::LIN:
        if (!in_lin || (seen.count(e.which))) { out.push_back({}); out.back().x = e.x; seen.clear(); }
        seen.insert(e.which);
        in_lin = true;
        break;
      case Ev::EVAL:
        if (out.empty()) out.push_back({});
        if (fresh || in_lin || out.back().trials.empty() || seen.count(e.which) || !same(out.back().trials.back(), e.x)) {
          out.back().trials.push_back(e.x);
          out.back().evals_per_trial.push_back(0);
          seen.clear();
        }
        out.back().evals_per_trial.back()++;
        seen.insert(e.which);
        in_lin = fresh = false;
        break;
      case Ev::RETRACT: if (out.empty()) out.push_back({}); out.back().retr.push_back(&e); in_lin = false; fresh = true; seen.clear(); break;
      case Ev::CB: if (out.empty()) out.push_back({}); out.back().cbs.push_back(&e); in_lin = false; fresh = true; seen.clear(); break;
    }
  }
  return out;
}

static bool close(double a, double b, double scale, double tol = 1e-11) {
  if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
  if (std::isinf(a) || std::isinf(b)) return a == b;
  if (!std::isfinite(scale)) return a == b;
  return std::abs(a - b) <= tol * (std::abs(a) + std::abs(b) + scale) + 1e-300;
}
static double ffn(const Pt& p) { return 0.5 * p.r.squaredNorm(); }
static double cfn(const Pt& p) { return p.c.size() ? p.c.lpNorm<1>() : 0.0; }

struct RunResult {
  bool threw = false;
  std::string what;
  std::unique_ptr<NLSSolverOutputs> out;
  VectorXd vars;
};

static RunResult execute(Env& env, const Problem& pr, const VectorXd& x0, bool with_callback, int stop_at) {
  RunResult rr;
  NLS::Retraction retr;
  Env* e = &env;
  if (env.cfg.retraction) {
    const bool twist = env.cfg.retraction == 2;
    retr = [e, twist](VectorXd& x, ConstVectorBlock dx, double alpha) {
      Event ev{Ev::RETRACT, 0, x, dx, {}, alpha, -1};
      x += dx * alpha;
      if (twist) for (long i = 0; i < x.size(); ++i) x[i] += 0.03125 * alpha * alpha * (i % 2 ? -1 : 1);
      ev.out = x;
      e->log.push_back(ev);
      if (e->cur && e->first_trial) {
        // the direction is known exactly here
      }
    };
  }
  NLS solver(&pr, retr);
  if (with_callback) {
    const NLS* s = &solver;
    const int mode = env.cfg.callback;
    solver.SetUserExitCallback([e, s, mode, stop_at](const NLSIteration& it) {
      const int k = static_cast<int>(e->cb_iters.size());
      e->cb_iters.push_back(it);
      Event ev{Ev::CB, 0, s->variables(), {}, {}, 0, k};
      e->log.push_back(ev);
      if (!e->frozen && mode == 2) return X.choose(2, "proceed") == 0;
      if (e->frozen) return k != stop_at;
      return true;
    });
  }
  try {
    NLSSolverOutputs o = solver.Solve(env.cfg.p, x0);
    rr.out = std::make_unique<NLSSolverOutputs>(std::move(o));
  } catch (const std::exception& ex) {
    rr.threw = true;
    rr.what = ex.what();
  }
  rr.vars = solver.variables();
  return rr;
}

static void judge(Env& env, const Problem& pr, const VectorXd& x0, RunResult& rr, const std::vector<int>& stops);

int main(int argc, char** argv) {
  X.parse(argc, argv);
  const bool T = X.thorough();
  const int cfg_budget0 = X.opt.count("cfg") ? std::atoi(X.opt["cfg"].c_str()) : 3;
  const int env_budget0 = X.opt.count("env") ? std::atoi(X.opt["env"].c_str()) : (T ? 4 : 3);
  const int total0 = X.opt.count("total") ? std::atoi(X.opt["total"].c_str()) : 4;
  return X.run([&] {
    Env env;
    Cfg& c = env.cfg;
    int budget = cfg_budget0;
    auto dev = [&](int n, const char* l) {
      if (budget <= 0) return 0;
      int v = X.choose(n, l);
      if (v) --budget;
      return v;
    };
    // properties that only make sense with equality constraints start from such a back end
    const bool eq_first = X.want("C15");
    c.params = dev(kParamSets, "params");
    c.backend = dev(kBackends, "backend");
    if (eq_first) c.backend = (c.backend + 5) % kBackends;
    if (X.want("C17")) c.backend = (c.backend + 4) % kBackends;
    if (X.want("C27")) c.backend = (c.backend + 10) % kBackends;
    const int strat = dev(2, "strategy");
    c.retraction = dev(3, "retraction");
    if (X.want("C16") || X.want("C10")) c.retraction = (c.retraction + 1) % 3;
    c.callback = dev(3, "callback");
    c.split = dev(4, "split");
    c.mood = dev(3, "mood");
    c.mag = dev(5, "magnitude");
    static const int dim_of[kBackends] = {2, 1, 2, 2, 2, 2, 3, 2, 2, 3, 2, 2, 4, 4, 7}, rows_of[kBackends] = {0, 0, 0, 0, 0, 1, 2, 1, 1, 2, 1, 1, 3, 3, 5};
    c.n = dim_of[c.backend];
    c.K = rows_of[c.backend];
    if (c.split == 1 && c.K < 2) X.skip();
    if (c.params == 32 && budget < 1) X.skip();
    X.shard_point();
    c.bounds = c.backend == 2 || c.backend == 7 || c.backend == 9 || c.backend == 13 ? 1 : c.backend == 3 || c.backend == 8 ? 2 : c.backend == 4 || c.backend == 10 ? 3 : c.backend == 11 ? 4 : 0;
    // large values send the steps to the bounds, which these oracles assume far away
    if (c.bounds && c.mag && c.mag != 2) X.skip();
    if (X.want("C17") && (!c.bounds || c.retraction)) X.skip();
    set_params(c);
    c.p.line_search_strategy = strat ? LineSearchStrategy::ARMIJO_BACKTRACK : LineSearchStrategy::POLYNOMIAL_APPROXIMATION;
    // the base configuration and its neighbours get the full number of environment deviations
    env.env_budget = std::min(env_budget0, (T ? 7 : total0) - (cfg_budget0 - budget));
    if (c.params >= 22 && c.params <= 24) --env.env_budget;
    if (c.params == 32) env.env_budget = std::min(env.env_budget, 1);
    if (c.params == 33) env.env_budget -= 2;
    env.full_budget = env.env_budget;
    env.pen_est = c.p.equality_penalty_initial;
    env.lam_est = c.p.lambda_initial;
    Problem pr;
    build_problem(&env, &pr);
    const VectorXd x0 = start_point(c.n);
    RunResult rr = execute(env, pr, x0, c.callback != 1, -1);
    std::vector<int> stops;
    judge(env, pr, x0, rr, stops);

    mc::Hash h;
    h.add(c.params).add(c.backend).add(strat).add(c.retraction).add(c.callback);
    X.outcome(mc::Hash().add(rr.threw ? 99 : static_cast<int>(rr.out->termination_state)).add(rr.threw ? 0 : rr.out->iterations.size()).h);
    if (rr.out) {
      for (auto& it : rr.out->iterations) {
        h.add(static_cast<int>(it.step_result)).add(static_cast<int>(it.optimizer_state)).d(it.lambda).d(it.penalty);
        for (auto& s : it.line_search_steps) h.d(s.alpha).d(s.errors.f).d(s.errors.equality);
        X.state(h.h);
        X.count("step_result:" + name(it.step_result));
      }
      X.count("termination:" + name(rr.out->termination_state));
    } else {
      X.count("threw");
      X.state(h.h);
    }
    X.set_sample_text(rr.threw ? "exception " + rr.what.substr(0, 60) : cat(name(rr.out->termination_state), " after ", rr.out->iterations.size()));
  });
}

static void judge(Env& env, const Problem& pr, const VectorXd& x0, RunResult& rr, const std::vector<int>&) {
  const Cfg& c = env.cfg;
  const NLS::Params& p = c.p;
  const std::string where = X.describe_path();
  auto F = [&](const char* prop, const char* key, const std::string& m) { X.fail(prop, key, m + "\n  at " + where); };
  const std::vector<Iter> its = split_log(env.log);
  const std::vector<NLSIteration> empty;
  ++X.checks;

  if (rr.threw) {
    // Only a non-finite start or Jacobian may abort a run, and then the variables are the last accepted point.
    const bool early_ip = p.max_qp_iterations < 15;
    if (!env.bad_numbers && !early_ip && !env.singular && c.bounds != 4)
      for (const char* q : {"C09", "C10", "C11", "C12", "C13", "C15", "C16", "C17", "C27"}) F(q, "exception", "run aborted by an exception: " + rr.what);
    const VectorXd& last = its.empty() ? x0 : its.back().x;
    if (!same(rr.vars, last)) F("C09", "variables-after-exception", cat("variables ", str(rr.vars), " after an aborted run, last accepted ", str(last)));
    return;
  }
  const NLSSolverOutputs& o = *rr.out;
  const auto N = o.iterations.size();
  if (static_cast<int>(N) > p.max_iterations) F("C12", "too-many-iterations", cat(N, " iterations recorded, limit ", p.max_iterations));
  const bool indef = o.termination_state == NLSTerminationState::QP_INDEFINITE;
  if (its.size() != N + (indef ? 1 : 0)) {
    F("C13", "record-count", cat(its.size(), " linearizations observed, ", N, " iterations recorded"));
    return;
  }
  if (p.max_iterations == 0) {
    if (o.termination_state != NLSTerminationState::MAX_ITERATIONS || !same(rr.vars, x0) || !env.log.empty())
      F("C12", "zero-limit", "zero iteration limit did not return the start unchanged");
  }
  const int nres = static_cast<int>(pr.costs.size() + pr.equality_constraints.size());

  VectorXd v = x0;  // last accepted
  double lam = p.lambda_initial, pen = p.equality_penalty_initial;
  OptimizerState st = OptimizerState::NOMINAL;
  bool within_bounds = true;
  for (auto& q : pr.inequality_constraints) within_bounds &= q.IsFeasible(x0[q.variable]);
  for (std::size_t k = 0; k < its.size(); ++k) {
    const Iter& L = its[k];
    ++X.checks;
    if (!same(L.x, v)) { F("C09", "iterate-changed", cat("iteration ", k, " linearizes at ", str(L.x), ", last accepted point is ", str(v))); return; }
    const Pt& P = env.memo.at(Env::key(L.x));
    const VectorXd g = P.J.transpose() * P.r;
    MatrixXd G = P.J.transpose() * P.J;
    G.diagonal().array() += lam;
    if (k == N) {  // the iteration that ended with QP_INDEFINITE
      bool pd = false;
      if (c.K && !c.bounds) {
        Eigen::FullPivLU<MatrixXd> lu(P.A);
        MatrixXd Z = lu.kernel();
        if (lu.rank() < c.n) pd = (Z.transpose() * G * Z).eval().llt().info() == Eigen::Success && (Z.transpose() * G * Z).eigenvalues().real().minCoeff() > 1e-12;
        else pd = true;
      } else pd = true;
      if (pd && !env.bad_numbers) F("C12", "not-indefinite", cat("QP_INDEFINITE reported at iteration ", k, " although the subproblem has a unique minimiser"));
      if (!L.trials.empty()) F("C12", "indefinite-trials", "trial points evaluated after an indefinite subproblem");
      break;
    }
    const NLSIteration& I = o.iterations[k];
    if (c.K && !c.bounds && !env.bad_numbers && G.cwiseAbs().maxCoeff() == 0 && c.n > c.K)
      F("C12", "indefinite-missed", cat("iteration ", k, ": zero reduced Hessian was not reported as indefinite"));
    const double f0 = ffn(P), c0 = cfn(P);
    const auto& steps = I.line_search_steps;
    const int ns = static_cast<int>(steps.size());

    // ---------------- C17: no trial leaves the bounds once they hold
    if (c.bounds && !c.retraction) {
      auto outside = [&](const VectorXd& y, double tol) { double w = 0; for (auto& q : pr.inequality_constraints) { const double e = q.a * y[q.variable] + q.b; if (!(e >= -tol * std::abs(q.a))) w = std::max(w, -e); } return w; };
      for (std::size_t i = 0; i < L.trials.size(); ++i) {
        const VectorXd& y = L.trials[i];
        if (!y.allFinite()) { X.count("non-finite trial"); continue; }
        const double w = outside(y, 1e-13 * (1 + (y - v).cwiseAbs().maxCoeff()));
        if (within_bounds) {
          ++X.checks;
          if (w > 0) F("C17", "trial-violates", cat("iteration ", k, " trial ", i, " at ", str(y), " violates a bound by ", w, " although ", str(v), " satisfies them"));
        }
      }
      const bool taken = I.step_result == StepSizeSelectionResult::SUCCESS && !L.trials.empty();
      if (!within_bounds && taken && c.K == 0 && steps.back().alpha == 1) {
        const double w = outside(L.trials.back(), 1e-13 * (1 + (L.trials.back() - v).cwiseAbs().maxCoeff()));
        ++X.checks;
        X.count("full step from an infeasible point");
        if (w > 0) F("C17", "not-restored", cat("full accepted step from ", str(v), " ends at ", str(L.trials.back()), " which violates a bound by ", w));
      }
      if (taken && !within_bounds) { within_bounds = true; for (auto& q : pr.inequality_constraints) within_bounds &= q.IsFeasible(L.trials.back()[q.variable]); }
    }
    // ---------------- C13 / C16: correspondence of record and calls
    if (I.iteration != static_cast<int>(k)) F("C13", "iteration-number", cat("record ", k, " is numbered ", I.iteration));
    if (ns != static_cast<int>(L.trials.size())) {
      F("C13", "trial-count", cat("iteration ", k, ": ", L.trials.size(), " trial points evaluated, ", ns, " recorded"));
      F("C16", "trial-count", cat("iteration ", k, ": ", L.trials.size(), " trial points evaluated, ", ns, " recorded"));
      return;
    }
    for (int e : L.evals_per_trial) if (e != nres) { F("C16", "evaluation-split", cat("iteration ", k, ": the functions of one trial were not evaluated at one point")); return; }
    if (c.retraction) {
      if (static_cast<int>(L.retr.size()) != ns) { F("C16", "retraction-count", cat("iteration ", k, ": retraction called ", L.retr.size(), " times for ", ns, " trials")); return; }
      for (int i = 0; i < ns; ++i) {
        if (!same(L.retr[i]->x, v)) F("C16", "retraction-x", cat("iteration ", k, " trial ", i, ": retraction got ", str(L.retr[i]->x), " instead of the current variables ", str(v)));
        if (L.retr[i]->dx.size() != c.n) F("C16", "retraction-dx-size", cat("direction of length ", L.retr[i]->dx.size()));
        if (!same(L.retr[i]->dx, L.retr[0]->dx)) F("C16", "retraction-dx", cat("iteration ", k, ": direction differs between trials"));
        if (L.retr[i]->alpha != steps[i].alpha) F("C16", "retraction-alpha", cat("iteration ", k, " trial ", i, ": retraction alpha ", L.retr[i]->alpha, " recorded ", steps[i].alpha));
        if (!same(L.retr[i]->out, L.trials[i])) F("C16", "retraction-result", cat("iteration ", k, " trial ", i, ": evaluated ", str(L.trials[i]), " instead of the retracted point ", str(L.retr[i]->out)));
      }
    } else if (!L.retr.empty()) F("C16", "retraction-unexpected", "retraction called");
    VectorXd dx = c.retraction ? L.retr[0]->dx : VectorXd((L.trials[0] - v) / steps[0].alpha);
    if (!c.retraction)
      for (int i = 0; i < ns; ++i) {
        const VectorXd e = v + steps[i].alpha * dx - L.trials[i];
        if (e.lpNorm<Eigen::Infinity>() > 1e-12 * (1 + v.lpNorm<Eigen::Infinity>() + dx.lpNorm<Eigen::Infinity>()))
          F("C16", "default-step", cat("iteration ", k, " trial ", i, " is at ", str(L.trials[i]), ", not on x + alpha*dx"));
      }
    if (!close(I.errors_initial.f, f0, 0) || !close(I.errors_initial.equality, c0, 0))
      F("C13", "errors-initial", cat("iteration ", k, " errors_initial (", I.errors_initial.f, ",", I.errors_initial.equality, ") true (", f0, ",", c0, ")"));
    std::vector<const Pt*> TP;
    for (int i = 0; i < ns; ++i) {
      TP.push_back(&env.memo.at(Env::key(L.trials[i])));
      if (!close(steps[i].errors.f, ffn(*TP[i]), 0) || !close(steps[i].errors.equality, cfn(*TP[i]), 0))
        F("C13", "step-errors", cat("iteration ", k, " step ", i, " errors (", steps[i].errors.f, ",", steps[i].errors.equality, ") true (", ffn(*TP[i]), ",", cfn(*TP[i]), ")"));
    }
    double d_eq = 0, d_eq_abs = 0;
    for (int i = 0; i < c.K; ++i) { const double t = P.A.row(i).dot(dx); d_eq += ((P.c[i] > 0) - (P.c[i] < 0)) * t; d_eq_abs += P.A.row(i).cwiseAbs().dot(dx.cwiseAbs()); }
    const double d_f = g.dot(dx), d_f_abs = g.cwiseAbs().dot(dx.cwiseAbs());
    // without a retraction the direction was recovered from the trial point, to within its rounding
    const double rnd = c.retraction ? 0 : 1e-4 * (1 + v.lpNorm<Eigen::Infinity>() + dx.lpNorm<Eigen::Infinity>()) / steps[0].alpha;
    // along a direction that is not a number there is no true derivative
    if (P.J.allFinite() && dx.allFinite() && (!close(I.directional_derivatives.d_f, d_f, 1e-2 * (d_f_abs + 1e-3) + rnd * g.lpNorm<1>()) || !close(I.directional_derivatives.d_equality, d_eq, 1e-2 * (d_eq_abs + 1e-3) + rnd * (c.K ? P.A.cwiseAbs().sum() : 0.0))))
      F("C13", "derivatives", cat("iteration ", k, " derivatives (", I.directional_derivatives.d_f, ",", I.directional_derivatives.d_equality, ") true (", d_f, ",", d_eq, ")"));
    // QP outcome
    const auto* ip = std::get_if<QPInteriorPointSolverOutputs>(&I.qp_outputs);
    const bool want_ns = c.K && !c.bounds;
    if ((ip == nullptr) != want_ns) F("C13", "qp-kind", cat("iteration ", k, " records the wrong kind of QP outcome"));
    bool qp_ok = true;
    if (ip) {
      qp_ok = ip->termination_state == QPInteriorPointTerminationState::SATISFIED_KKT_TOL;
      if (ip->iterations.empty() || static_cast<int>(ip->iterations.size()) > p.max_qp_iterations) F("C13", "qp-iterations", cat("iteration ", k, " records ", ip->iterations.size(), " QP iterations"));
      if (ip->lagrange_multipliers.has_value() != (c.K > 0)) F("C13", "qp-multipliers", cat("iteration ", k, ": presence of multipliers"));
      if (!ip->iterations.empty()) {
        const bool small = ip->iterations.back().kkt_final.Max() < p.termination_kkt_tolerance;
        if (qp_ok && !small) F("C13", "qp-status", "QP reported satisfied with a large KKT error");
      }
    } else if (std::get<QPNullSpaceTerminationState>(I.qp_outputs) != QPNullSpaceTerminationState::SUCCESS) {
      F("C13", "qp-status", "a failed null-space solve was recorded and used");
    }
    // the step really is the one of the recorded damping (only bounds that cannot matter)
    if (I.lambda != lam && std::abs(I.lambda - lam) > 1e-12 * lam) {
      F("C11", "lambda", cat("iteration ", k, " damping ", I.lambda, " expected ", lam));
    }
    if (c.bounds <= 1 && qp_ok && !env.bad_numbers && P.J.cwiseAbs().maxCoeff() > 0) {
      MatrixXd GL = P.J.transpose() * P.J;
      GL.diagonal().array() += I.lambda;
      MatrixXd KK = MatrixXd::Zero(c.n + c.K, c.n + c.K);
      const double gs = GL.cwiseAbs().maxCoeff();  // the multipliers absorb the scale of the objective
      KK.topLeftCorner(c.n, c.n) = GL / gs;
      KK.topRightCorner(c.n, c.K) = P.A.transpose();
      KK.bottomLeftCorner(c.K, c.n) = P.A;
      VectorXd rhs(c.n + c.K);
      rhs << -g / gs, -P.c;
      const VectorXd sol = KK.fullPivLu().solve(rhs);
      const double err = (sol.head(c.n) - dx).lpNorm<Eigen::Infinity>(), tol = c.bounds ? 1e-4 : 1e-9;
      if (!(err <= tol * (1 + dx.lpNorm<Eigen::Infinity>())))
        for (const char* q : {"C13", "C11", "C14"}) F(q, "damping-not-in-force", cat("iteration ", k, ": direction ", str(dx), " does not solve the subproblem with the recorded damping ", I.lambda, " (", str(VectorXd(sol.head(c.n))), ")"));
      X.maximum("direction error", err);
      ++X.checks;
    }
    if (I.qp_eigenvalues.has_value() != p.log_qp_eigenvalues) F("C13", "eigenvalues-presence", cat("iteration ", k));

    const double xr = c.retraction ? 0 : 1e-15 * (1 + v.lpNorm<Eigen::Infinity>() + dx.lpNorm<Eigen::Infinity>());  // rounding of a recovered direction
    // ---------------- C15: penalty
    if (c.K == 0) {
      if (I.penalty != p.equality_penalty_initial) F("C15", "penalty-without-constraints", cat("penalty ", I.penalty, " without equality constraints"));
    } else {
      ++X.checks;
      if (I.penalty < pen) F("C15", "penalty-shrinks", cat("iteration ", k, " penalty ", I.penalty, " after ", pen));
      double need, tol;
      if (ip) {
        need = ip->lagrange_multipliers ? ip->lagrange_multipliers->l_infinity : 0;
        tol = 1e-12 * std::abs(need);
        if (qp_ok && c.bounds == 1 && !env.bad_numbers && I.lambda < 1e8) {
          // the recorded multiplier is the subproblem's: y = (A A')^-1 A (G dx + g) with inactive bounds
          const VectorXd y = (P.A * P.A.transpose()).fullPivLu().solve(P.A * (G * dx + g));
          if (std::abs(y.lpNorm<Eigen::Infinity>() - need) > 1e-3 * (1 + std::abs(need)))
            F("C15", "multiplier", cat("iteration ", k, " recorded multiplier magnitude ", need, " true ", y.lpNorm<Eigen::Infinity>()));
        }
      } else {
        const double q = g.dot(dx), qq = 0.5 * std::max(0.0, dx.dot(G * dx));
        const double l1 = std::max(c0, 2.220446049250313e-16);
        need = (q + qq) / ((1 - p.equality_penalty_rho) * l1);
        tol = 1e-10 * (d_f_abs + qq + 1e-30) / ((1 - p.equality_penalty_rho) * l1);
      }
      const double expect_raised = need * p.equality_penalty_scale_factor;
      if (need > pen + tol) {
        if (!(std::abs(I.penalty - expect_raised) <= 1e-9 * std::abs(expect_raised) + tol * p.equality_penalty_scale_factor))
          F("C15", "penalty-raise", cat("iteration ", k, " penalty ", I.penalty, " from ", pen, ", required ", need, " scale ", p.equality_penalty_scale_factor));
        X.count("penalty raised");
      } else if (need < pen - tol) {
        if (I.penalty != pen) F("C15", "penalty-raised-needlessly", cat("iteration ", k, " penalty ", I.penalty, " from ", pen, ", required only ", need));
      } else {
        X.count("ambiguous: penalty");
      }
      pen = I.penalty;
      // Descent.
      if (qp_ok && c.bounds <= 1) {
        const double D = d_f + pen * d_eq;
        const double slack = (ip ? 1e-4 : 1e-9) * (d_f_abs + pen * d_eq_abs + 1e-6) + xr * (g.lpNorm<1>() + pen * P.A.cwiseAbs().sum());
        if (D > slack) F("C15", "ascent", cat("iteration ", k, ": the step is an ascent direction of the merit function: derivative ", D, " = ", d_f, " + ", pen, " * ", d_eq, ", recorded ", I.directional_derivatives.d_f, ", ", I.directional_derivatives.d_equality, ", direction ", str(dx), ", violation ", c0));
      }
    }

    // ---------------- C10: the search
    ++X.checks;
    const double phi0 = f0 + pen * c0;
    // a recorded derivative of exactly zero (checked against the true one above) leaves nothing to rounding
    const bool flat = I.directional_derivatives.d_f == 0 && I.directional_derivatives.d_equality == 0;
    const double D = flat ? 0 : d_f + pen * d_eq;
    const double Dabs = d_f_abs + pen * d_eq_abs;
    const double dtol = flat ? 0 : 1e-11 * (Dabs + 1e-30) + (c.retraction ? 0 : 1e-13) + xr * (g.lpNorm<1>() + pen * (c.K ? P.A.cwiseAbs().sum() : 0.0));
    // merit values as recorded (also checked above): they differ from the solver's only by the last rounding
    auto total = [&](const Errors& e) { return e.f + pen * e.equality; };
    const double m0 = total(I.errors_initial);
    auto merit_tol = [&](double ph, double alpha) { return 1e-15 * (std::abs(m0) + std::abs(ph)) + dtol * alpha * kC1; };
    // thresholds, with the zones where rounding decides marked ambiguous (2)
    auto lt = [](double a, double b, double tol) { return a < b - tol ? 1 : a > b + tol ? 0 : 2; };
    const double dmax = std::max(std::abs(d_f), std::abs(d_eq));
    const int is_fo = p.absolute_first_derivative_tol == 0 ? 0 : lt(dmax, p.absolute_first_derivative_tol, dtol);
    const int is_pos = flat ? 0 : lt(0, D, dtol);
    auto armijo = [&](int i) {
      const double ph = total(steps[i].errors), th = m0 + D * steps[i].alpha * kC1;
      if (flat && ph == m0) return 1;
      return lt(ph, th, merit_tol(ph, steps[i].alpha));
    };
    auto finite = [&](int i) { return std::isfinite(ffn(*TP[i])) && std::isfinite(cfn(*TP[i])); };
    if (ns < 1) F("C10", "no-trial", cat("iteration ", k, " tried nothing"));
    if (ns > p.max_line_search_iterations + 1) F("C10", "too-many-trials", cat("iteration ", k, " tried ", ns, " step sizes, limit ", p.max_line_search_iterations + 1));
    for (int i = 0; i < ns; ++i) {
      if (i == 0 ? steps[i].alpha != 1.0 : !(steps[i].alpha > 0 && steps[i].alpha < steps[i - 1].alpha))
        F("C10", "alpha-order", cat("iteration ", k, " step size ", i, " is ", steps[i].alpha));
    }
    // step size that follows trial i
    auto next_alpha = [&](int i, double* tol) -> MaybeAlpha {
      if (p.line_search_strategy == LineSearchStrategy::ARMIJO_BACKTRACK) { *tol = 1e-13; return {true, (LD)steps[i].alpha * p.armijo_search_tau}; }
      auto eval = [&](int e) -> MaybeAlpha {
        auto wob = [&](double x, int bit) { return (LD)x * (1 + (e == 0 ? 0 : ((e >> bit) & 1 ? 4e-16L : -4e-16L))); };
        const LD ph0 = wob(phi0, 0), dd = wob(D, 1);
        const LD pi = wob(steps[i].errors.Total(pen), 2);
        if (i == 0) return quad_min(ph0, dd, steps[0].alpha, pi);
        return cubic_min(ph0, dd, steps[i - 1].alpha, wob(steps[i - 1].errors.Total(pen), 3), steps[i].alpha, pi);
      };
      MaybeAlpha m = eval(0);
      double t = 1e-9;
      if (c.retraction == 0) t = 1e-7;
      for (int e = 1; e < 16; ++e) { MaybeAlpha q = eval(e); if (q.some != m.some) { *tol = 1e9; return m; } if (m.some) t = std::max<double>(t, 20 * std::abs((double)(q.v - m.v))); }
      *tol = t;
      return m;
    };
    for (int i = 0; i + 1 < ns; ++i) {
      if (!finite(i) || is_fo == 1 || is_pos == 1 || armijo(i) == 1)
        F("C10", "search-continued", cat("iteration ", k, ": the search went on after trial ", i, " although it should have stopped (finite=", finite(i), " fo=", is_fo, " pos=", is_pos, " armijo=", armijo(i), ")"));
      double tol;
      const MaybeAlpha a = next_alpha(i, &tol);
      if (tol > 0.05) { X.count("ambiguous: alpha"); continue; }
      ++X.checks;
      if (!a.some || std::abs((double)a.v - steps[i + 1].alpha) > tol + 1e-9 * steps[i + 1].alpha)
        F("C10", "alpha-value", cat("iteration ", k, " step size ", i + 1, " is ", steps[i + 1].alpha, ", rule gives ", a.some ? (double)a.v : -1, " (phi0=", phi0, " D=", D, ")"));
      else X.maximum("alpha error", std::abs((double)a.v - steps[i + 1].alpha));
    }
    {
      const int l = ns - 1;
      using R = StepSizeSelectionResult;
      std::set<int> ok;  // results compatible with the last trial, ambiguous tests branch
      auto add = [&](R r) { ok.insert(static_cast<int>(r)); };
      if (!finite(l)) add(R::FAILURE_NON_FINITE_COST);
      else {
        if (is_fo != 0) add(R::FIRST_ORDER_SATISFIED);
        if (is_fo != 1) {
          if (is_pos != 0) add(R::POSITIVE_DERIVATIVE);
          if (is_pos != 1) {
            const int ar = armijo(l);
            if (ar != 0) add(R::SUCCESS);
            if (ar != 1) {
              if (ns == p.max_line_search_iterations + 1) add(R::MAX_ITERATIONS);
              else if (p.line_search_strategy != LineSearchStrategy::ARMIJO_BACKTRACK) {
                double tol;
                const MaybeAlpha a = next_alpha(l, &tol);
                if (tol > 0.05 || !a.some || !(a.v > 0) || !(a.v < steps[l].alpha) || std::abs((double)a.v) < tol || std::abs((double)a.v - steps[l].alpha) < tol) add(R::FAILURE_INVALID_ALPHA);
              }
            }
          }
        }
      }
      if (!ok.count(static_cast<int>(I.step_result)))
        F("C10", "result", cat("iteration ", k, " reports ", name(I.step_result), " after ", ns, " trials (finite=", finite(l), " fo=", is_fo, " pos=", is_pos, " armijo=", armijo(l), ", limit ", p.max_line_search_iterations, ")"));
    }

    // ---------------- C09: acceptance
    const bool success = I.step_result == StepSizeSelectionResult::SUCCESS;
    const VectorXd before = v;
    if (success) {
      v = L.trials.back();
      const double ph = total(steps.back().errors), th = m0 + D * steps.back().alpha * kC1;
      ++X.checks;
      if (!(ph <= th + merit_tol(ph, steps.back().alpha)))
        F("C09", "armijo", cat("iteration ", k, " accepted merit ", ph, " from ", phi0, ", sufficient decrease needs ", th));
      if (!(ph <= m0 + merit_tol(ph, steps.back().alpha))) F("C09", "increase", cat("iteration ", k, " accepted merit ", ph, " > ", phi0));
    }
    if (!L.cbs.empty() && !same(L.cbs[0]->x, v))
      for (const char* q : {"C09", "C16"}) F(q, "variables-at-callback", cat("after iteration ", k, " (", name(I.step_result), ") the variables are ", str(L.cbs[0]->x), ", expected ", str(v)));

    // ---------------- C11: damping
    const double lam0 = lam;
    bool max_lambda = false;
    using R = StepSizeSelectionResult;
    if (I.step_result == R::SUCCESS) {
      lam = std::max(p.min_lambda, lam * (st == OptimizerState::NOMINAL ? p.lambda_decrease_on_success : p.lambda_decrease_on_restore));
      st = OptimizerState::NOMINAL;
    } else if (I.step_result == R::MAX_ITERATIONS || I.step_result == R::POSITIVE_DERIVATIVE) {
      lam = st == OptimizerState::NOMINAL ? std::max(lam * 10, p.lambda_failure_init) : lam * 10;
      st = OptimizerState::ATTEMPTING_RESTORE_LM;
      max_lambda = lam > p.max_lambda;
    }
    env.lam_est = lam;
    (void)lam0;
    ++X.checks;
    if (I.optimizer_state != st) F("C11", "state", cat("iteration ", k, " (", name(I.step_result), ") state ", name(I.optimizer_state), " expected ", name(st)));
    const bool last = k + 1 == N && !indef;
    const bool was_max_lambda = last && o.termination_state == NLSTerminationState::MAX_LAMBDA;
    if (was_max_lambda != max_lambda) F("C11", "max-lambda", cat("iteration ", k, ": damping raised to ", lam, ", maximum ", p.max_lambda, ", stopped with MAX_LAMBDA: ", was_max_lambda));

    // ---------------- C12: exits
    ++X.checks;
    std::set<int> exits;  // -1: none
    using S = NLSTerminationState;
    if (success) {
      const double fn = steps.back().errors.f, cn = steps.back().errors.equality, ph = fn + pen * cn;
      const int abs_ok = lt(std::max(fn, cn), p.absolute_exit_tol, 1e-12 * p.absolute_exit_tol);
      const int rel_ok = lt(phi0 * (1 - p.relative_exit_tol), ph, 1e-11 * (phi0 + ph));
      if (abs_ok != 0) exits.insert(static_cast<int>(S::SATISFIED_ABSOLUTE_TOL));
      if (abs_ok != 1) { if (rel_ok != 0) exits.insert(static_cast<int>(S::SATISFIED_RELATIVE_TOL)); if (rel_ok != 1) exits.insert(-1); }
    } else if (I.step_result == R::FIRST_ORDER_SATISFIED) {
      exits.insert(static_cast<int>(S::SATISFIED_FIRST_ORDER_TOL));
      if (is_fo == 0) F("C12", "first-order", cat("iteration ", k, ": first-order tolerance reported with derivatives (", d_f, ",", d_eq, ")"));
    } else if (max_lambda) exits.insert(static_cast<int>(S::MAX_LAMBDA));
    else exits.insert(-1);
    int got = -1;
    if (last && o.termination_state != S::MAX_ITERATIONS && o.termination_state != S::USER_CALLBACK) got = static_cast<int>(o.termination_state);
    if (!exits.count(got)) F("C12", "exit", cat("iteration ", k, " (", name(I.step_result), ", merit ", phi0, " -> ", steps.back().errors.Total(pen), ") ", got < 0 ? "did not exit" : "exited with " + name(o.termination_state), "; last=", last));
    if (last && o.termination_state == S::MAX_ITERATIONS && static_cast<int>(N) != p.max_iterations)
      F("C12", "max-iterations", cat("MAX_ITERATIONS after ", N, " of ", p.max_iterations));
    if (success && !last && !indef && !same(o.iterations[k + 1].errors_initial, steps.back().errors) && !close(o.iterations[k + 1].errors_initial.f, steps.back().errors.f, 0))
      F("C13", "chain", cat("iteration ", k + 1, " does not start from the accepted errors of iteration ", k));

    // ---------------- C16: callback
    const bool has_cb = c.callback != 1;
    if (static_cast<int>(L.cbs.size()) != (has_cb ? 1 : 0)) { F("C16", "callback-count", cat("callback called ", L.cbs.size(), " times for iteration ", k)); }
    else if (has_cb) {
      const std::string d = diff(env.cb_iters[L.cbs[0]->iter], I);
      if (!d.empty()) F("C16", "callback-record", cat("the callback saw a different record of iteration ", k, ": ", d));
    }
  }
  ++X.checks;
  if (!same(rr.vars, v)) F("C09", "final-variables", cat("final variables ", str(rr.vars), ", last accepted ", str(v)));

  // ---------------- callback veto, C12/C16: replay in the same (now frozen) environment
  if (c.callback != 1 && N > 0) {
    const bool vetoed = o.termination_state == NLSTerminationState::USER_CALLBACK;
    if (vetoed && c.callback != 2) F("C12", "user-exit", "USER_CALLBACK although the callback always returned true");
    const bool dual = X.want("C16") || X.want("C12");
    if (dual) {
      // 1. without any callback
      Env e2;
      auto rerun = [&](bool cb, int stop) {
        e2.cfg = env.cfg;
        e2.frozen = true;
        e2.memo = env.memo;
        e2.points = env.points;
        e2.pen_est = c.p.equality_penalty_initial;
        e2.lam_est = c.p.lambda_initial;
        e2.cur = nullptr; e2.first_trial = true; e2.log.clear(); e2.cb_iters.clear();
        Problem pr2;
        build_problem(&e2, &pr2);
        return execute(e2, pr2, x0, cb, stop);
      };
      RunResult b = rerun(false, -1);
      ++X.checks;
      if (b.threw) { if (!vetoed) F("C16", "callback-changes-run", "run without callback threw: " + b.what); }
      else {
        const std::string d = diff(o.iterations, b.out->iterations, vetoed ? N : ~std::size_t(0));
        if (!d.empty() || b.out->iterations.size() < N) F("C16", "callback-changes-run", cat("results differ from a run without a callback: ", d));
        if (!vetoed && (b.out->termination_state != o.termination_state || !same(b.vars, rr.vars))) F("C16", "callback-changes-run", "termination or variables differ from a run without a callback");
        if (vetoed && N < b.out->iterations.size() && b.out->iterations.size() == N) F("C12", "user-exit", "");
        if (vetoed && b.out->iterations.size() == N && b.out->termination_state != NLSTerminationState::MAX_ITERATIONS)
          F("C12", "user-exit-hides", cat("USER_CALLBACK reported although ", name(b.out->termination_state), " applied at the same iteration"));
      }
      // 2. stop at every iteration in turn
      if (c.callback == 0 && !b.threw) {
        for (int s = 0; s < static_cast<int>(N); ++s) {
          if (N > 20 && s > 3 && s + 4 < static_cast<int>(N) && s % 97) continue;
          RunResult q = rerun(true, s);
          ++X.checks;
          if (q.threw) { F("C16", "stop-throws", q.what); continue; }
          const bool natural = s + 1 == static_cast<int>(N) && o.termination_state != NLSTerminationState::MAX_ITERATIONS && !indef;
          const auto want = natural ? o.termination_state : NLSTerminationState::USER_CALLBACK;
          if (static_cast<int>(q.out->iterations.size()) != s + 1) F("C16", "stop-iterations", cat("callback returned false at iteration ", s, ", run recorded ", q.out->iterations.size()));
          if (q.out->termination_state != want)
            for (const char* pp : {"C12", "C16"}) F(pp, "stop-state", cat("callback returned false at iteration ", s, ": state ", name(q.out->termination_state), " expected ", name(want)));
          const std::string d = diff(o.iterations, q.out->iterations, s + 1);
          if (!d.empty()) F("C16", "stop-alters", cat("stopping at iteration ", s, " altered earlier results: ", d));
          if (s + 1 < static_cast<int>(its.size()) ? !same(q.vars, its[s + 1].x) : !same(q.vars, rr.vars)) F("C16", "stop-variables", cat("stopping at iteration ", s, ": variables ", str(q.vars)));
        }
      }
    }
  }
  // ---------------- C13: errors on request leave the solver unchanged
  if (X.want("C13")) {
    env.frozen = true;
    const auto nlog = env.log.size();
    NLS s2(&pr);
    NLS::Params p2 = p;
    p2.max_iterations = 0;
    (void)s2.Solve(p2, x0);
    for (auto& [kk, pt] : env.memo) {
      const VectorXd b4 = s2.variables();
      const Errors e = s2.EvaluateNonlinearErrors(pt.x);
      ++X.checks;
      if (!close(e.f, ffn(pt), 0) || !close(e.equality, cfn(pt), 0)) F("C13", "errors-on-request", cat("EvaluateNonlinearErrors gives (", e.f, ",", e.equality, ") true (", ffn(pt), ",", cfn(pt), ")"));
      if (!same(b4, s2.variables())) F("C13", "errors-on-request-variables", "EvaluateNonlinearErrors changed the variables");
    }
    (void)nlog;
  }
}
