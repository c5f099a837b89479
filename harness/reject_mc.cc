// C08: every single and double deviation from well-formed inputs, under AddressSanitizer with Eigen's
// own dimension checks routed to the harness.
#include <climits>
#include <mini_opt/nonlinear.hpp>
#include <mini_opt/qp.hpp>
#include <mini_opt/residual.hpp>
#include "mc.hpp"
using namespace mini_opt;
using mc::X;
using mc::cat;
using Eigen::MatrixXd;
using Eigen::VectorXd;
namespace {
int dev(int n, const char* l) { return X.deviate(n, l); }
template <class T> T alt(std::initializer_list<T> v, const char* l) { return *(v.begin() + X.deviate((int)v.size(), l)); }

// Runs a step of the code under test.  Returns 0 normal, 1 exception derived from std::exception.
std::string g_what;
std::string g_case;
bool g_bad = false;
template <class F>
int guarded(const char* where, F&& f) {
  try {
    f();
    return 0;
  } catch (const McEigenHit& h) {
    std::string file = h.file;
    X.fail("C08", cat("eigen-check ", where), cat(where, ": mismatched access reached Eigen (", std::string(h.what).substr(0, 160), " at ", file.substr(file.find_last_of('/') + 1), ":", h.line, ")\n  ", g_case));
    g_bad = true;
    return 1;
  } catch (const std::exception& e) {
    g_what = e.what();
    return 1;
  } catch (...) {
    X.fail("C08", cat("foreign-exception ", where), cat(where, ": exception not derived from std::exception\n  ", g_case));
    g_bad = true;
    return 1;
  }
}
void judge(const char* target, bool well, int threw, bool judged = true) {
  ++X.checks;
  X.outcome(mc::Hash().add(well).add(threw).add(std::strlen(target)).h);
  X.count(cat(target, well ? " well-formed" : " malformed", !judged ? " (memory safety only)" : "", threw ? ": rejected" : ": accepted"));
  X.set_sample_text(cat(g_case, threw ? " -> rejected: " + g_what.substr(0, 120) : " -> accepted"));
  if (g_bad || !judged) return;
  if (well && threw) X.fail("C08", cat("rejects-valid ", target), cat(target, ": rejects a well-formed input: ", g_what.substr(0, 300), "\n  ", g_case));
  if (!well && !threw) X.fail("C08", cat("accepts-malformed ", target), cat(target, ": accepts a malformed input\n  ", g_case));
}

MatrixXd spd(int r, int c) {
  MatrixXd G = MatrixXd::Zero(std::max(r, 0), std::max(c, 0));
  for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) G(i, j) = i == j ? 3 + i : 0.5;
  return G;
}
MatrixXd rows(int r, int c) {
  MatrixXd A = MatrixXd::Zero(r, c);
  for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) A(i, j) = i == j ? 2 : (i + 2 * j) % 3 ? 0.25 : 0;
  return A;
}

// ---------------------------------------------------------------- interior point
void ip() {
  const int gr = alt({3, 2, 4, 1}, "G rows"), gc = alt({3, 2, 4, 1}, "G cols"), cn = alt({3, 2, 4, 0, 1}, "c"), ar = alt({1, 0, 2}, "A rows"), ac = alt({3, 2, 4, 0}, "A cols"), bn = alt({1, 0, 2}, "b");
  const int v1 = alt({1, -1, 3, 0, 2, INT_MAX, INT_MIN, 4, -2}, "constraint"), v2 = alt({-99, 0, 2, 3, -1, INT_MIN, INT_MAX}, "constraint");
  const int vm = alt({-99, 1, 3, -1, INT_MAX, 4}, "constraint in between");
  const int a1 = dev(4, "coefficient");
  const int par = dev(21, "parameter"), guess = dev(3, "guess"), sv = dev(8, "set variables"), order = dev(6, "order");
  const int edit = dev(17, "edit after Setup"), when = dev(2, "edit after a first Solve");
  X.shard_point();
  QP qp, other;
  qp.G = spd(gr, gc); qp.c = VectorXd::Constant(cn, 0.5); qp.A_eq = rows(ar, ac); qp.b_eq = VectorXd::Constant(bn, -0.25);
  const double as[] = {1, -2, 1e-300, 1e300}, bs[] = {1, 1, 1, 1};
  qp.constraints.emplace_back(v1, as[a1], bs[a1]);
  if (vm != -99) qp.constraints.emplace_back(vm, 0.5, 2.0);
  if (v2 != -99) qp.constraints.emplace_back(v2, -1.0, 2.0);
  QPInteriorPointSolver::Params p;
  p.max_iterations = 3;
  bool well = gr == gc && gr == cn && ar == bn && (ar * ac > 0 ? ac == gr : ar == 0);
  for (auto& c : qp.constraints) well &= c.variable >= 0 && c.variable < gr;
  bool judged = a1 < 2;  // extreme coefficients may legitimately fail numerically
  switch (par) {
    case 1: p.initial_mu = 0; well = false; break;
    case 2: p.initial_mu = -1; well = false; break;
    case 3: p.initial_mu = NAN; well = false; break;
    case 4: p.initial_mu = 1e-300; break;
    case 5: p.sigma = 0; well = false; break;
    case 6: p.sigma = 1; break;
    case 7: p.sigma = std::nextafter(1.0, 2.0); well = false; break;
    case 8: p.sigma = -0.5; well = false; break;
    case 9: p.sigma = NAN; well = false; break;
    case 10: p.termination_kkt_tol = 0; well = false; break;
    case 11: p.termination_kkt_tol = -1e-9; well = false; break;
    case 12: p.termination_kkt_tol = 1e300; break;
    case 13: p.termination_kkt_tol = 1e-300; break;
    case 14: p.max_iterations = 0; well = false; break;
    case 15: p.max_iterations = -3; well = false; break;
    case 16: p.max_iterations = 1; break;
    case 17: p.barrier_strategy = BarrierStrategy::FIXED_DECREASE; break;
    case 18: p.barrier_strategy = BarrierStrategy::PREDICTOR_CORRECTOR; break;
    case 19: p.decrease_mu_only_on_small_error = true; p.initialize_mu_with_complementarity = true; break;
    case 20: p.sigma = 1e-12; break;
  }
  p.initial_guess_method = guess == 0 ? InitialGuessMethod::NAIVE : guess == 1 ? InitialGuessMethod::SOLVE_EQUALITY_CONSTRAINED : InitialGuessMethod::USER_PROVIDED;
  const int total = gr + 2 * (int)qp.constraints.size() + ar;
  int size = -1;  // not called
  switch (sv) {
    case 0: size = guess == 2 ? total : -1; break;
    case 1: size = total; break;
    case 2: size = total - 1; break;
    case 3: size = total + 1; break;
    case 4: size = 0; break;
    case 5: size = gr; break;
    case 6: size = 200; break;
    case 7: size = total - 2; break;
  }
  if (size >= 0 && size != total) well = false;
  g_case = cat("interior point: G ", gr, "x", gc, " c ", cn, " A ", ar, "x", ac, " b ", bn, " constraints on ", v1, vm != -99 ? cat(",", vm) : "", v2 != -99 ? cat(",", v2) : "", " a=", as[a1], " parameter case ", par, " guess ", guess, " SetVariables(", size, ") order ", order, edit ? cat(" edit after Setup ", edit, when ? " (after a first Solve)" : "") : "");
  other.G = spd(2, 2); other.c = VectorXd::Ones(2); other.A_eq.resize(0, 2); other.b_eq.resize(0);
  QPInteriorPointSolver s;
  int threw = 0;
  if (order == 1) { threw = guarded("Setup(nullptr)", [&] { s.Setup(nullptr); }); well = false; }
  else if (order == 2) { threw = guarded("Solve before Setup", [&] { (void)s.Solve(p); }); guarded("problem()", [&] { (void)s.problem(); }); well = false; }
  else if (order == 3) threw = guarded("construct", [&] { QPInteriorPointSolver t(&qp); if (size >= 0) t.SetVariables(VectorXd::Ones(size)); (void)t.Solve(p); });
  else {
    // earlier use of the object with another problem; set up again after a rejection or not
    if (order >= 4) guarded("earlier problem", [&] { QPInteriorPointSolver::Params q; s.Setup(&other); (void)s.Solve(q); });
    threw = guarded("Setup", [&] { s.Setup(&qp); });
    if (!threw || order == 5) {
      int t2 = 0;
      if (size >= 0) t2 = guarded("SetVariables", [&] { s.SetVariables(VectorXd::Ones(size)); });
      if (edit) {
        // the solver keeps a pointer to the problem: the caller may change it before solving (again)
        if (when && !t2) guarded("first Solve", [&] { (void)s.Solve(p); });
        const int N = gr, K = ar;
        switch (edit) {
          case 1: qp.constraints.clear(); qp.constraints.shrink_to_fit(); judged = false; break;
          case 2: qp.constraints.pop_back(); qp.constraints.shrink_to_fit(); judged = false; break;
          case 3: for (int i = 0; i < 5; ++i) qp.constraints.emplace_back(0, 1.0, 1.0); judged = false; break;
          case 4: qp.constraints[0].variable = N; well = false; break;
          case 5: qp.constraints[0].variable = -1; well = false; break;
          case 6: qp.constraints[0].variable = INT_MAX; well = false; break;
          case 7: qp.G = spd(N - 1, N - 1); well = false; break;
          case 8: qp.G = spd(N + 2, N + 2); well = false; break;
          case 9: qp.c = VectorXd::Ones(N + 1); well = false; break;
          case 10: qp.c.resize(0); well = false; break;
          case 11: qp.A_eq = rows(K + 1, N); well = false; break;
          case 12: qp.b_eq = VectorXd::Ones(K + 1); well = false; break;
          case 13: qp.A_eq = rows(K + 1, N); qp.b_eq = VectorXd::Zero(K + 1); judged = false; break;
          case 14: qp.A_eq.resize(0, 0); qp.b_eq.resize(0); judged = false; break;
          case 15: qp = QP(1); judged = false; break;
          case 16: qp.G = spd(N, N) * 2; qp.c.setConstant(0.25); qp.b_eq.setZero(); qp.constraints[0].b = 2; break;  // same dimensions
        }
      }
      if (!t2) t2 = guarded("Solve", [&] {
        (void)s.Solve(p);
        (void)s.x_block().sum(); (void)s.s_block().sum(); (void)s.y_block().sum(); (void)s.z_block().sum();
      });
      threw |= t2;
    }
  }
  X.state(mc::Hash().add(threw).vec(s.variables()).h);
  judge("QPInteriorPointSolver", well, threw, judged);
}

// ---------------------------------------------------------------- null space and eigenvalues
void ns() {
  const int gr = alt({3, 2, 4, 1, 0}, "G rows"), gc = alt({3, 2, 4, 1, 0}, "G cols"), cn = alt({3, 2, 4, 0, 1}, "c"), ar = alt({1, 0, 2, 3, 4, 5, 9}, "A rows"), ac = alt({3, 2, 4, 0, 1}, "A cols"), bn = alt({1, 0, 2, 3, 4, 5, 9}, "b");
  const int kind = dev(3, "rows");
  X.shard_point();
  QP qp;
  qp.G = spd(gr, gc); qp.c = VectorXd::Constant(cn, 0.5);
  qp.A_eq = kind == 0 ? rows(ar, ac) : kind == 1 ? MatrixXd::Ones(ar, ac) : MatrixXd::Zero(ar, ac);
  qp.b_eq = kind == 0 ? VectorXd(VectorXd::Zero(bn)) : VectorXd::Constant(bn, kind == 1 ? 1.0 : 0.0);
  const bool well = gr > 0 && gr == gc && gr == cn && ar > 0 && ar == bn && ac == gr;
  g_case = cat("null space: G ", gr, "x", gc, " c ", cn, " A ", ar, "x", ac, " b ", bn, " rows kind ", kind);
  QPNullSpaceSolver s;
  const int threw = guarded("QPNullSpaceSolver::Solve", [&] { (void)s.Solve(qp); });
  X.state(mc::Hash().add(threw).vec(s.variables()).h);
  judge("QPNullSpaceSolver", well, threw, true);
  const bool ok = gr == gc && gr > 0;
  const int t2 = guarded("ComputeEigenvalueStats", [&] { (void)qp.ComputeEigenvalueStats(); });
  judge("ComputeEigenvalueStats", ok, t2);
}

// ---------------------------------------------------------------- residuals
template <int R, int P>
struct Lin {
  Eigen::Matrix<double, R, 1> operator()(const Eigen::Matrix<double, P, 1>& p, Eigen::Matrix<double, R, P>* J) const {
    Eigen::Matrix<double, R, 1> r;
    for (int k = 0; k < R; ++k) { r[k] = k - 0.5; for (long j = 0; j < p.size(); ++j) r[k] += (1 + k + j) * p[j]; }
    if (J) for (int k = 0; k < R; ++k) for (long j = 0; j < p.size(); ++j) (*J)(k, j) = 1 + k + j;
    return r;
  }
};
void residual() {
  constexpr int D = Eigen::Dynamic;
  const int i0 = alt({0, -1, 3, 2, INT_MIN, INT_MAX, 5}, "index"), i1 = alt({2, 1, -1, 3, INT_MIN, INT_MAX}, "index");
  const int form = dev(6, "form"), what = X.choose(4, "call");
  const int n = alt({3, 2, 0, 4, 1}, "variables");
  X.shard_point();
  int threw = 0;
  std::vector<int> idx{i0, i1};
  std::unique_ptr<Residual> r;
  bool well = true;
  int count = 2;
  g_case = cat("residual: indices ", i0, ",", i1, " form ", form, " variables ", n);
  auto mk = [&](Residual&& x) { r = std::make_unique<Residual>(std::move(x)); };
  threw |= guarded("MakeResidual", [&] {
    switch (form) {
      case 0: mk(MakeResidual<2, D>(idx, Lin<2, D>{})); break;
      case 1: mk(MakeResidual<2, 2>({i0, i1}, Lin<2, 2>{})); break;
      case 2: well = false; mk(MakeResidual<2, 3>({i0, i1}, Lin<2, 3>{})); break;            // count mismatch
      case 3: well = false; mk(MakeResidual<2, 1>({i0, i1}, Lin<2, 1>{})); break;
      case 4: mk(MakeResidual<2, D>(std::vector<int>{}, Lin<2, D>{})); idx.clear(); count = 0; break;
      case 5: { mk(MakeResidual<2, D>(idx, Lin<2, D>{})); Residual moved = std::move(*r); well = false; break; }
    }
  });
  for (int i : idx) well &= i >= 0 && i < n;
  (void)count;
  const VectorXd x = VectorXd::Ones(n);
  bool judged = true;
  if (!threw) {
    if (what == 0) {
      const int b = alt({2, 1, 3, 0}, "b size"), off = dev(2, "b offset");
      VectorXd buf = VectorXd::Zero(b + 1 + off);
      well &= b == 2;
      g_case += cat(" ErrorVector into ", b);
      threw |= guarded("ErrorVector", [&] { r->ErrorVector(x, buf.segment(off, b)); });
    } else if (what == 1) {
      const int hr = alt({3, 2, 4, 0, 1}, "H rows"), hc = alt({3, 2, 4, 0}, "H cols"), b = alt({3, 2, 4, 0}, "b size"), np = dev(3, "null");
      MatrixXd H = MatrixXd::Zero(hr, hc);
      VectorXd bv = VectorXd::Zero(b);
      well &= hr == hc && hr == b && np == 0;
      for (int i : idx) well &= i < hr;
      // an index list may be empty; larger outputs than variables are fine
      g_case += cat(" UpdateHessian into ", hr, "x", hc, " and ", b, np == 1 ? " null H" : np == 2 ? " null b" : "");
      threw |= guarded("UpdateHessian", [&] { (void)r->UpdateHessian(x, np == 1 ? nullptr : &H, np == 2 ? nullptr : &bv); });
    } else if (what == 2) {
      const int jr = alt({2, 1, 3, 0}, "J rows"), jc = alt({3, 2, 1, 4, 0}, "J cols"), b = alt({2, 1, 3, 0}, "b size");
      MatrixXd J = MatrixXd::Zero(jr + 2, jc);
      VectorXd bv = VectorXd::Zero(b + 1);
      well &= jr == 2 && b == 2;
      for (int i : idx) well &= i < jc;
      g_case += cat(" UpdateJacobian into ", jr, "x", jc, " and ", b);
      threw |= guarded("UpdateJacobian", [&] { r->UpdateJacobian(x, J.middleRows(1, jr), bv.segment(1, b)); });
    } else {
      g_case += " QuadraticError";
      threw |= guarded("QuadraticError", [&] { (void)r->QuadraticError(x); });
    }
    if (form == 5) guarded("Dimension", [&] { (void)r->Dimension(); });
  }
  X.state(mc::Hash().add(threw).add(what).add(form).h);
  judge("Residual", well, threw, judged);
}

// ---------------------------------------------------------------- bound helpers
void bounds() {
  const int v = alt({1, 0, 2, -1, INT_MIN, INT_MAX, 3, -2}, "variable"), n = alt({3, 2, 1, 0}, "size");
  X.shard_point();
  const double a = alt({1.0, -1.0, 0.0, -0.0, 1e-300, -1e300}, "a"), b = alt({0.5, 0.0, -1e300, 1e300}, "b");
  g_case = cat("bound on ", v, " a=", a, " b=", b, " vector of ", n);
  const LinearInequalityConstraint c(v, a, b);
  const VectorXd x = VectorXd::Ones(n);
  int t = guarded("ShiftTo(vector)", [&] { (void)c.ShiftTo(x); });
  judge("ShiftTo", v >= 0 && v < n, t);
  t = guarded("ClampX", [&] { (void)c.ClampX(0.25); });
  judge("ClampX", a != 0, t);
  X.state(mc::Hash().add(v).add(n).d(a).h);
}

// ---------------------------------------------------------------- nonlinear solver
using NLS = ConstrainedNonlinearLeastSquares;
struct PCase { const char* name; void (*set)(NLS::Params&); bool ok; };
const PCase kParams[] = {
    {"defaults", [](NLS::Params&) {}, true},
#define BAD(f, v) {#f "=" #v, [](NLS::Params& p) { p.f = v; }, false}
#define GOOD(f, v) {#f "=" #v, [](NLS::Params& p) { p.f = v; }, true}
    BAD(max_iterations, -1), GOOD(max_iterations, 0), BAD(max_qp_iterations, 0), BAD(max_qp_iterations, -1), GOOD(max_qp_iterations, 1), BAD(termination_kkt_tolerance, 0), BAD(termination_kkt_tolerance, -1e-6), BAD(termination_kkt_tolerance, NAN), GOOD(termination_kkt_tolerance, 1e300),
    BAD(absolute_exit_tol, 0), BAD(absolute_exit_tol, -1), BAD(absolute_exit_tol, NAN), GOOD(absolute_exit_tol, 1e-300), BAD(max_line_search_iterations, -1), GOOD(max_line_search_iterations, 0), BAD(relative_exit_tol, -1e-9), GOOD(relative_exit_tol, 0), GOOD(relative_exit_tol, 1), BAD(relative_exit_tol, 1.0001), BAD(relative_exit_tol, NAN),
    BAD(absolute_first_derivative_tol, -1e-9), GOOD(absolute_first_derivative_tol, 0), BAD(absolute_first_derivative_tol, NAN), BAD(armijo_search_tau, 0), BAD(armijo_search_tau, 1), GOOD(armijo_search_tau, 0.999), GOOD(armijo_search_tau, 1e-300), BAD(armijo_search_tau, -0.5), BAD(armijo_search_tau, NAN),
    BAD(equality_penalty_initial, -1), BAD(equality_penalty_initial, 0), GOOD(equality_penalty_initial, 1e-300), BAD(equality_penalty_initial, NAN), BAD(equality_penalty_scale_factor, 0.999), GOOD(equality_penalty_scale_factor, 1), BAD(equality_penalty_scale_factor, NAN), BAD(equality_penalty_rho, -1e-9), GOOD(equality_penalty_rho, 0), BAD(equality_penalty_rho, 1), GOOD(equality_penalty_rho, 0.999), BAD(equality_penalty_rho, NAN),
    BAD(max_lambda, -1), GOOD(max_lambda, 0), BAD(max_lambda, NAN), BAD(min_lambda, 2), BAD(min_lambda, 0.5), BAD(min_lambda, NAN), BAD(lambda_initial, 2), BAD(lambda_initial, -1), GOOD(lambda_initial, 1), BAD(lambda_initial, NAN), BAD(lambda_failure_init, -1e-9), GOOD(lambda_failure_init, 0), BAD(lambda_failure_init, NAN),
    BAD(lambda_decrease_on_success, -1e-9), GOOD(lambda_decrease_on_success, 0), BAD(lambda_decrease_on_success, 1), BAD(lambda_decrease_on_success, NAN), BAD(lambda_decrease_on_restore, -1e-9), GOOD(lambda_decrease_on_restore, 0), BAD(lambda_decrease_on_restore, 1), BAD(lambda_decrease_on_restore, NAN), GOOD(log_qp_eigenvalues, true)};
constexpr int kNP = sizeof(kParams) / sizeof(kParams[0]);

void nls() {
  constexpr int D = Eigen::Dynamic;
  const int dim = alt({2, 0, -1, 1, 3, INT_MIN}, "dimension");
  const int c0 = alt({0, -1, 2, INT_MIN, INT_MAX}, "cost index"), c1 = alt({1, -1, 2, INT_MIN, INT_MAX}, "cost index");
  const int e0 = alt({-99, 0, 1, 2, -1, INT_MIN, INT_MAX}, "equality index"), ne = dev(5, "equality rows");
  const int b0 = alt({-99, 0, 1, 2, -1, INT_MIN, INT_MAX}, "bound"), b1 = alt({-99, 1, 2, -1}, "bound");
  const int bm = b0 == -99 ? -99 : alt({-99, 0, 2, -1, INT_MAX}, "bound in between");
  const int xs = alt({2, 1, 3, 0, 4, 50}, "start size");
  const int par = dev(kNP, "parameter");
  const int edit = dev(13, "edit"), retr = dev(4, "retraction"), extra = dev(6, "call"), form = dev(2, "form");
  X.shard_point();
  Problem p;
  p.dimension = dim;
  bool well = dim > 0 && xs == dim, judged = dim <= 2;
  if (form) p.costs.push_back(MakeResidual<2, 2>({c0, c1}, Lin<2, 2>{}));
  else p.costs.push_back(MakeResidual<2, D>(std::vector<int>{c0, c1}, Lin<2, D>{}));
  p.costs.push_back(MakeResidual<1, 1>({0}, Lin<1, 1>{}));
  for (int i : {c0, c1}) well &= i >= 0 && i < dim;
  if (c0 == c1) judged = false;  // repeated indices are the caller's problem
  if (e0 != -99) {
    switch (ne) {
      case 0: p.equality_constraints.push_back(MakeResidual<1, 1>({e0}, Lin<1, 1>{})); break;
      case 1: p.equality_constraints.push_back(MakeResidual<2, 1>({e0}, Lin<2, 1>{})); break;  // more rows than needed
      case 2: for (int k = 0; k < 3; ++k) p.equality_constraints.push_back(MakeResidual<1, D>(std::vector<int>{e0}, Lin<1, D>{})); break;
      case 3: p.equality_constraints.push_back(MakeResidual<3, 1>({e0}, Lin<3, 1>{})); break;
      case 4: for (int k = 0; k < 9; ++k) p.equality_constraints.push_back(MakeResidual<1, 1>({e0}, Lin<1, 1>{})); break;
    }
    well &= e0 >= 0 && e0 < dim;
    if (ne) judged = judged && b0 == -99 && (ne == 2 || ne == 4);
  }
  if (b0 != -99) { p.inequality_constraints.emplace_back(b0, 1.0, 3.0); well &= b0 >= 0 && b0 < dim; }
  if (bm != -99) { p.inequality_constraints.emplace_back(bm, 0.5, 3.0); well &= bm >= 0 && bm < dim; }
  if (b1 != -99) { p.inequality_constraints.emplace_back(b1, -1.0, 3.0); well &= b1 >= 0 && b1 < dim; }
  if (e0 != -99 && ne && (b0 != -99 || b1 != -99)) judged = false;  // dependent rows in the interior-point solver
  NLS::Params prm;
  prm.max_iterations = 3;
  kParams[par].set(prm);
  well &= kParams[par].ok;
  g_case = cat("nonlinear: dimension ", dim, " cost indices ", c0, ",", c1, " equality ", e0, " rows case ", ne, " bounds ", b0, ",", bm, ",", b1, " start of ", xs, " parameter ", kParams[par].name, " edit ", edit, " retraction ", retr, " call ", extra);
  NLS::Retraction ret;
  if (retr == 1) ret = [](VectorXd& x, ConstVectorBlock dx, double a) { x += dx * a; };
  if (retr == 2) ret = [](VectorXd& x, ConstVectorBlock, double) { x.conservativeResize(x.size() - 1); };
  if (retr == 3) ret = [](VectorXd& x, ConstVectorBlock, double) { x.conservativeResize(x.size() + 3); x.setOnes(); };
  if (retr >= 2) { judged = false; }
  std::unique_ptr<NLS> s;
  int threw = guarded("construct", [&] { s = std::make_unique<NLS>(extra == 1 ? nullptr : &p, ret); });
  if (extra == 1) well = false;
  if (!threw) {
    bool bad_edit = false;
    switch (edit) {
      case 1: p.dimension = 3; bad_edit = true; break;
      case 2: p.dimension = 1; bad_edit = true; break;
      case 3: p.costs.push_back(MakeResidual<6, 1>({0}, Lin<6, 1>{})); judged = false; break;     // larger than any at construction
      case 4: p.costs.insert(p.costs.begin(), MakeResidual<40, 1>({0}, Lin<40, 1>{})); judged = false; break;
      case 5: p.equality_constraints.push_back(MakeResidual<1, 1>({1}, Lin<1, 1>{})); bad_edit = true; break;
      case 6: p.equality_constraints.clear(); judged = false; break;
      case 7: p.inequality_constraints.emplace_back(1, 1.0, 5.0); break;
      case 8: p.inequality_constraints.emplace_back(2, 1.0, 5.0); bad_edit = true; break;
      case 9: p.inequality_constraints.emplace_back(-1, 1.0, 5.0); bad_edit = true; break;
      case 10: p.inequality_constraints.clear(); judged = false; break;
      case 11: p.equality_constraints.push_back(MakeResidual<30, 1>({1}, Lin<30, 1>{})); bad_edit = true; break;
      case 12: p.costs.pop_back(); judged = false; break;
    }
    if (dim != 2 || (edit >= 7 && e0 != -99 && ne)) judged = judged && !edit;
    if (edit == 7 && e0 != -99) judged = false;
    well &= !bad_edit;
    if (prm.max_iterations == 0 && well == false && kParams[par].ok && (xs == dim || xs == p.dimension)) judged = false;  // nothing is evaluated
    const VectorXd x0 = VectorXd::Constant(xs, 0.25);
    auto go = [&] { threw |= guarded("Solve", [&] { (void)s->Solve(prm, x0); (void)s->variables().sum(); }); };
    if (extra == 2) {  // only evaluate
      bool ok = dim > 0 && extra == 2;
      for (int i : {0, c0, c1}) ok &= i >= 0 && i < xs;
      if (e0 != -99) ok &= e0 >= 0 && e0 < xs;
      const int t = guarded("EvaluateNonlinearErrors", [&] { (void)s->EvaluateNonlinearErrors(x0); });
      X.state(mc::Hash().add(t).add(ok).h);
      judge("EvaluateNonlinearErrors", ok, t, edit == 0);
      return;
    }
    if (extra == 3) guarded("Solve(default)", [&] { NLS::Params q; q.max_iterations = 1; (void)s->Solve(q, x0); });
    if (extra == 4) guarded("Solve(wrong start)", [&] { NLS::Params q; (void)s->Solve(q, VectorXd::Ones(xs + 2)); });
    if (extra == 5) guarded("Solve(bad parameter)", [&] { NLS::Params q; q.max_lambda = -1; (void)s->Solve(q, x0); });
    go();
    X.state(mc::Hash().add(threw).vec(s->variables()).h);
  }
  judge("ConstrainedNonlinearLeastSquares", well, threw, judged);
}

void body() {
  g_bad = false;
  g_what.clear();
  X.deviations_left = 1 << 20;
  const int target = X.choose(5, "target");
  const bool T = X.thorough();
  X.deviations_left = target == 4 ? (T ? 4 : 3) : target == 3 ? 9 : T ? 5 : 4;
  switch (target) {
    case 0: ip(); break;
    case 1: ns(); break;
    case 2: residual(); break;
    case 3: bounds(); break;
    default: nls();
  }
}
}  // namespace
int main(int argc, char** argv) { X.parse(argc, argv); return X.run(body); }
