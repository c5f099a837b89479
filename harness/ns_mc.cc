// C05: every small-integer equality-constrained QP of the alphabet, decided in exact rational arithmetic.
#include <mini_opt/qp.hpp>
#include <Eigen/Dense>
#include <iostream>
#include "mc.hpp"
using mc::X;
using mc::cat;
using namespace mini_opt;
namespace {
using I = __int128;
struct Q {
  I p = 0, q = 1;
  Q(long a = 0) : p(a) {}
  Q(I a, I b) : p(a), q(b) {
    if (q < 0) { p = -p; q = -q; }
    I x = p < 0 ? -p : p, y = q;
    while (y) { I t = x % y; x = y; y = t; }
    if (x > 1) { p /= x; q /= x; }
  }
  Q operator+(const Q& o) const { return Q(p * o.q + o.p * q, q * o.q); }
  Q operator-(const Q& o) const { return Q(p * o.q - o.p * q, q * o.q); }
  Q operator*(const Q& o) const { return Q(p * o.p, q * o.q); }
  Q operator/(const Q& o) const { return Q(p * o.q, q * o.p); }
  bool zero() const { return p == 0; }
  double d() const { return (double)((long double)p / (long double)q); }
};
using QV = std::vector<Q>;
using QM = std::vector<QV>;

struct Prob {
  int n, K;
  std::vector<std::vector<int>> A, G;  // A is scaled by scale[k] = 2^e
  std::vector<int> c, xf, e;
};

// basis of the null space of A (columns), by rational elimination; also the rank
QM null_space(const Prob& p, int* rank) {
  QM M(p.K, QV(p.n));
  for (int k = 0; k < p.K; ++k) for (int j = 0; j < p.n; ++j) M[k][j] = Q(p.A[k][j]);
  std::vector<int> piv;
  int r = 0;
  for (int j = 0; j < p.n && r < p.K; ++j) {
    int s = -1;
    for (int k = r; k < p.K; ++k) if (!M[k][j].zero()) { s = k; break; }
    if (s < 0) continue;
    std::swap(M[r], M[s]);
    const Q f = M[r][j];
    for (auto& v : M[r]) v = v / f;
    for (int k = 0; k < p.K; ++k) if (k != r && !M[k][j].zero()) { const Q g = M[k][j]; for (int t = 0; t < p.n; ++t) M[k][t] = M[k][t] - g * M[r][t]; }
    piv.push_back(j); ++r;
  }
  *rank = r;
  QM N;
  for (int j = 0; j < p.n; ++j) {
    if (std::find(piv.begin(), piv.end(), j) != piv.end()) continue;
    QV v(p.n);
    v[j] = Q(1);
    for (int i = 0; i < r; ++i) v[piv[i]] = Q(0) - M[i][j];
    N.push_back(v);
  }
  return N;
}
std::string text(const Prob& p) {
  std::ostringstream o;
  o << "n=" << p.n << " K=" << p.K << " G(lower)=";
  for (auto& r : p.G) { o << "["; for (int v : r) o << v << " "; o << "]"; }
  o << " A=";
  for (int k = 0; k < p.K; ++k) { o << (p.e[k] ? cat("2^", p.e[k], "*") : "") << "["; for (int v : p.A[k]) o << v << " "; o << "]"; }
  o << " c=[";
  for (int v : p.c) o << v << " ";
  o << "] feasible point=[";
  for (int v : p.xf) o << v << " ";
  o << "]";
  return o.str();
}

const std::vector<int> kA{0, 1, -1, 2, 3, -2}, kG{0, 1, -1, 2, 4}, kc{1, 0, -2, 3}, kx{1, 0, -1, 2, 5};

// Problems with many variables, whose answer is known by construction.
void large() {
  X.deviations_left = 1 << 20;
  static const int ns[] = {7, 9, 12, 16, 20, 33};
  const int n = ns[X.choose(X.thorough() ? 6 : 4, "n")];
  const int kk = X.choose(5, "K");
  const int Ki = kk == 0 ? 1 : kk == 1 ? 3 : kk == 2 ? n / 2 : kk == 3 ? n - 2 : n - 1;  // independent rows, all orthogonal to sigma
  const int gk = X.choose(5, "G");
  const int red = X.choose(6, "redundant rows");  // none, a copy, a multiple, a sum, a zero row, many
  const int where = X.choose(3, "their place");
  X.shard_point();
  const int order = X.choose(3, "order of the rows"), perm = X.choose(3, "order of the variables"), xk = X.choose(3, "x"), yk = X.choose(2, "y"), sc = X.choose(3, "scale");
  std::vector<int> at(n);
  for (int i = 0; i < n; ++i) at[i] = perm == 0 ? i : perm == 1 ? n - 1 - i : (i * 5) % n;
  if (perm == 2 && n % 5 == 0) for (int i = 0; i < n; ++i) at[i] = (i * 7) % n;
  Eigen::VectorXd sigma(n), x(n);
  for (int i = 0; i < n; ++i) { sigma[at[i]] = i % 3 == 1 ? -1 : 1; x[i] = xk == 0 ? i % 4 - 1 : xk == 1 ? 0 : (i == n / 2 ? 100 : -0.5 * i); }
  std::vector<Eigen::VectorXd> rows;
  for (int k = 0; k < Ki; ++k) {
    Eigen::VectorXd r = Eigen::VectorXd::Zero(n);
    r[at[k]] = sigma[at[k]] * (1 + k % 3);
    r[at[k + 1]] = -sigma[at[k + 1]] * (1 + k % 3);
    rows.push_back(r);
  }
  std::vector<Eigen::VectorXd> extra;
  if (red == 1) extra = {rows[Ki / 2]};
  if (red == 2) extra = {-2 * rows[0]};
  if (red == 3) extra = {rows[0] + 3 * rows[Ki - 1]};
  if (red == 4) extra = {Eigen::VectorXd::Zero(n)};
  if (red == 5) for (int i = 0; i < std::min(Ki, 4); ++i) extra.push_back((i + 1) * rows[i] - rows[Ki - 1 - i] * (i % 2));
  if (order == 1) std::reverse(rows.begin(), rows.end());
  if (order == 2) for (int i = 0; i + 1 < Ki; i += 2) std::swap(rows[i], rows[i + 1]);
  rows.insert(where == 0 ? rows.begin() : where == 1 ? rows.begin() + Ki / 2 : rows.end(), extra.begin(), extra.end());
  const int K = static_cast<int>(rows.size());
  QP qp;
  qp.A_eq.resize(K, n); qp.b_eq.resize(K);
  for (int k = 0; k < K; ++k) { qp.A_eq.row(k) = rows[k].transpose() * (sc == 1 ? 64.0 : sc == 2 && k % 2 ? 0.125 : 1.0); qp.b_eq[k] = -qp.A_eq.row(k).dot(x); }
  Eigen::MatrixXd G = Eigen::MatrixXd::Zero(n, n);
  bool pd = true;
  if (gk == 0) for (int i = 0; i < n; ++i) { G(i, i) = 3 + i % 3; if (i) G(i, i - 1) = G(i - 1, i) = i % 2 ? 1 : -0.5; }
  else if (gk == 1) { G.diagonal().setConstant(n); G -= 2 * sigma * sigma.transpose(); pd = false; }  // negative along sigma, which the rows do not see
  else if (gk == 2) { G.diagonal().setConstant(1); G -= 2 * rows[K - 1] * rows[K - 1].transpose(); if (red == 4 && where == 2) G -= 2 * rows[0] * rows[0].transpose(); }  // indefinite, but only across the rows
  else if (gk == 3) { G = sigma * sigma.transpose(); for (auto& r : rows) G -= r * r.transpose(); pd = Ki == n - 1; G.diagonal().array() += Ki == n - 1 ? 0.5 : 0; if (Ki != n - 1) G.diagonal().array() -= 0.25; }
  else { G.diagonal().setConstant(-1); pd = false; }
  Eigen::VectorXd y(K);
  for (int k = 0; k < K; ++k) y[k] = yk ? (k % 3 - 1) * 2 : 0;
  qp.c = -G * x + qp.A_eq.transpose() * y;
  qp.G = G;
  for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) qp.G(i, j) = std::numeric_limits<double>::quiet_NaN();
  const std::string what = cat("large problem: n=", n, " K=", K, " (", Ki, " independent) G kind ", gk, " redundancy ", red, " at ", where, " row order ", order, " variable order ", perm, " x kind ", xk, " y ", yk, " scale ", sc);
  auto F = [&](const char* key, const std::string& msg) { X.fail("C05", key, msg + "\n  " + what); };
  QPNullSpaceSolver solver;
  QPNullSpaceTerminationState st;
  try { st = solver.Solve(qp); } catch (const std::exception& e) { F("exception", cat("threw: ", e.what())); return; }
  const bool ok = st == QPNullSpaceTerminationState::SUCCESS;
  X.count(ok ? "large, solved" : "large, not positive definite");
  X.state(mc::Hash().add(n).add(ok).add(K).vec(ok ? solver.variables() : Eigen::VectorXd()).h);
  ++X.checks;
  if (ok != pd) { F(pd ? "rejected-pd" : "success-not-pd", pd ? "reports not positive definite, but the reduced Hessian is" : "reports success, but the reduced Hessian is not positive definite"); return; }
  if (!ok) return;
  if (solver.variables().size() != n) { F("size", cat("solution has ", solver.variables().size(), " entries")); return; }
  const double err = (solver.variables() - x).cwiseAbs().maxCoeff(), tol = 1e-9 * (1 + x.cwiseAbs().maxCoeff());
  X.maximum("large: error / tolerance", err / tol);
  if (!(err <= tol)) F("wrong-point", cat("distance ", err, " from the minimiser"));
  X.set_sample_text(what);
}
void body() {
  if (X.choose(2, "size")) { large(); return; }
  const bool T = X.thorough();
  Prob p;
  static const std::pair<int, int> fam[] = {{1, 1}, {1, 2}, {1, 3}, {2, 1}, {2, 2}, {2, 3}, {3, 1}, {3, 2}, {3, 3}, {3, 4}, {4, 1}, {4, 2}, {4, 3}, {4, 4}, {4, 5}, {5, 2}, {5, 3}, {5, 5}, {6, 2}, {6, 4}};
  const int f = X.choose(20, "family");
  p.n = fam[f].first; p.K = fam[f].second;
  // small problems: everything; larger ones: deviations from two base problems
  const bool full = p.n == 1 || (p.n == 2 && p.K == 1);
  X.deviations_left = full ? 1 << 20 : p.n == 2 ? (T ? 6 : 4) : p.n == 3 ? (T ? 4 : 3) : p.n == 4 ? (T ? 4 : 3) : T ? 3 : 2;
  const int base = p.n == 1 ? 0 : X.choose(3, "base");
  const int na = p.n <= 2 ? 6 : p.n == 3 ? 4 : 4, ng = 5;
  p.A.assign(p.K, std::vector<int>(p.n, 0));
  p.G.assign(p.n, std::vector<int>(p.n, 0));
  p.e.assign(p.K, 0);
  static const int extra[5][6] = {{1, 1, 0, 1, 2, 1}, {1, -1, 1, 0, 1, 0}, {0, 1, 1, 1, -1, 2}, {2, 0, -1, 1, 0, 1}, {1, 2, 1, 2, 0, 1}};
  for (int k = 0; k < p.K; ++k) {
    // a whole row may be zero, or a combination of the earlier rows
    const int kind = X.deviate(k == 0 ? 2 : 5, "row");
    for (int j = 0; j < p.n; ++j) {
      int b = base == 0 ? (j == k % p.n ? 1 : 0) : base == 1 ? extra[k][j] : (j + k) % 3 - (k == 0 ? 0 : 1);
      if (kind == 1) b = 0;
      else if (kind == 2) b = p.A[k - 1][j];
      else if (kind == 3) b = -2 * p.A[k - 1][j];
      else if (kind == 4) b = k >= 2 ? p.A[k - 1][j] - 3 * p.A[k - 2][j] : 3 * p.A[k - 1][j];
      if (kind == 0) { const int d = X.deviate(na, "A"); p.A[k][j] = d ? (kA[d] == b ? kA[0] : kA[d]) : b; } else p.A[k][j] = b;
    }
  }
  if (p.n <= 3) X.shard_point();
  for (int i = 0; i < p.n; ++i) {
    for (int j = 0; j <= i; ++j) {
      const int b = i == j ? (base == 2 ? 0 : 2 + i) : (base == 1 ? 1 : 0);
      const int d = X.deviate(ng, "G");
      p.G[i][j] = d ? (kG[d] == b ? kG[0] : kG[d]) : b;
    }
    if (i == 0 && p.n > 3) X.shard_point();
  }
  // The last row, all rows, or the whole objective in other units: the same minimiser.
  int obj = 0;
  {
    static const int u[] = {0, -30, 20, -50, -10, 7, -25, -30, -60, 25};
    const int s = X.deviate(p.n >= 2 ? 10 : 4, "units");
    if (s < 4) obj = u[s]; else if (s < 7) p.e[p.K - 1] = u[s]; else p.e.assign(p.K, u[s]);
  }
  for (int i = 0; i < p.n; ++i) p.c.push_back(kc[X.deviate(4, "c")]);
  for (int i = 0; i < p.n; ++i) p.xf.push_back(kx[X.deviate(T ? 5 : 3, "x")]);

  // ---- exact answer
  int rank;
  const QM N = null_space(p, &rank);
  const int m = p.n - rank;
  auto Gs = [&](int i, int j) { return i >= j ? p.G[i][j] : p.G[j][i]; };
  QM R(m, QV(m));
  QV rhs(m);
  for (int a = 0; a < m; ++a) {
    for (int i = 0; i < p.n; ++i) {
      Q gi(p.c[i]);
      for (int j = 0; j < p.n; ++j) gi = gi + Q((long)Gs(i, j) * p.xf[j]);
      rhs[a] = rhs[a] - N[a][i] * gi;
    }
    for (int b = 0; b < m; ++b)
      for (int i = 0; i < p.n; ++i) for (int j = 0; j < p.n; ++j) if (Gs(i, j)) R[a][b] = R[a][b] + N[a][i] * Q(Gs(i, j)) * N[b][j];
  }
  // LDL without pivoting decides definiteness exactly
  bool pd = true;
  QM L = R;
  QV y = rhs;
  for (int k = 0; k < m && pd; ++k) {
    if (L[k][k].p <= 0) { pd = false; break; }
    for (int i = k + 1; i < m; ++i) {
      const Q g = L[i][k] / L[k][k];
      for (int j = k; j < m; ++j) L[i][j] = L[i][j] - g * L[k][j];
      y[i] = y[i] - g * y[k];
    }
  }
  // margin of the decision, in an orthonormal basis
  double lmin = 1, lmax = 1, gmax = 0;
  if (m > 0) {
    Eigen::MatrixXd Nd(p.n, m), Gd(p.n, p.n);
    for (int a = 0; a < m; ++a) for (int i = 0; i < p.n; ++i) Nd(i, a) = N[a][i].d();
    for (int i = 0; i < p.n; ++i) for (int j = 0; j < p.n; ++j) Gd(i, j) = Gs(i, j);
    Eigen::MatrixXd B = Eigen::HouseholderQR<Eigen::MatrixXd>(Nd).householderQ() * Eigen::MatrixXd::Identity(p.n, m);
    Eigen::VectorXd ev = Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd>(B.transpose() * Gd * B, Eigen::EigenvaluesOnly).eigenvalues();
    lmin = ev.minCoeff(); lmax = ev.cwiseAbs().maxCoeff();
    gmax = Gd.cwiseAbs().maxCoeff();
  }
  // exactly singular reduced Hessians can only be judged when every product involved is exact
  const bool knife = m > 0 && std::abs(lmin) < 1e-9 * std::max(1.0, lmax);
  const bool exact_zero = m > 0 && gmax == 0;

  // ---- the library
  QP qp;
  const double nan = std::numeric_limits<double>::quiet_NaN();
  qp.G.setConstant(p.n, p.n, nan);  // the upper triangle must not matter
  for (int i = 0; i < p.n; ++i) for (int j = 0; j <= i; ++j) qp.G(i, j) = std::ldexp(p.G[i][j], obj);
  qp.c.resize(p.n); qp.A_eq.resize(p.K, p.n); qp.b_eq.setZero(p.K);
  for (int i = 0; i < p.n; ++i) qp.c[i] = std::ldexp(p.c[i], obj);
  for (int k = 0; k < p.K; ++k) for (int j = 0; j < p.n; ++j) { qp.A_eq(k, j) = std::ldexp(p.A[k][j], p.e[k]); qp.b_eq[k] -= qp.A_eq(k, j) * p.xf[j]; }
  auto F = [&](const char* key, const std::string& msg) { X.fail("C05", key, msg + "\n  " + text(p) + (obj ? cat(" objective times 2^", obj) : "")); };
  QPNullSpaceSolver solver;
  QPNullSpaceTerminationState st;
  try { st = solver.Solve(qp); } catch (const std::exception& e) { F("exception", cat("threw: ", e.what())); return; }
  const bool ok = st == QPNullSpaceTerminationState::SUCCESS;
  X.count(rank < p.K ? "redundant rows" : "independent rows");
  X.count(m == 0 ? "fully determined" : pd ? "positive definite" : knife ? "singular" : "indefinite");
  X.state(mc::Hash().add(f).add(ok).add(rank).vec(ok ? solver.variables() : Eigen::VectorXd()).h);
  X.outcome(mc::Hash().add(f).add(ok).add(rank).add(pd).h);
  ++X.checks;
  if (!pd && ok && (!knife || exact_zero)) { F("success-not-pd", cat("reports success, but the reduced Hessian is not positive definite (smallest eigenvalue ", lmin, ")")); return; }
  if (pd && !ok) { F("rejected-pd", cat("reports not positive definite, but the reduced Hessian is (smallest eigenvalue ", lmin, ")")); return; }
  if (!ok || !pd) { if (!pd && knife) X.count("ambiguous: singular reduced Hessian"); return; }
  // back substitution
  QV t(m);
  for (int k = m - 1; k >= 0; --k) {
    Q v = y[k];
    for (int j = k + 1; j < m; ++j) v = v - L[k][j] * t[j];
    t[k] = v / L[k][k];
  }
  const auto& x = solver.variables();
  if (x.size() != p.n) { F("size", cat("solution has ", x.size(), " entries")); return; }
  double err = 0, scale = 1;
  for (int i = 0; i < p.n; ++i) {
    Q v(p.xf[i]);
    for (int a = 0; a < m; ++a) v = v + N[a][i] * t[a];
    scale = std::max(scale, std::abs(v.d()));
    const double d = std::abs(x[i] - v.d());
    err = std::isnan(d) ? HUGE_VAL : std::max(err, d);
  }
  ++X.checks;
  // conditioning of the constraint rows: smallest non-zero singular value
  double cond = 1;
  if (rank > 0) {
    Eigen::VectorXd sv = Eigen::JacobiSVD<Eigen::MatrixXd>(qp.A_eq).singularValues();
    double smin = sv[0];
    for (long i = 0; i < std::min<long>(rank, sv.size()); ++i) smin = std::min(smin, sv[i]);
    cond = sv[0] / smin;
  }
  const double tol = 1e-13 * scale * 10 * cond * (m > 0 ? std::max(1.0, (gmax + 1) / lmin) : 1.0);
  X.maximum("error / tolerance", err / tol);
  X.maximum("condition", cond);
  if (err > tol) F("wrong-point", cat("distance ", err, " from the exact minimiser (tolerance ", tol, ")"));
  X.set_sample_text(text(p) + cat(" -> ok, error ", err));
}
}  // namespace
int main(int argc, char** argv) { X.parse(argc, argv); return X.run(body); }
