// C19: residual assembly, exhaustively over index lists, residual sizes, construction forms and
// accumulation sequences, in exact (integer valued) arithmetic.
#include <mini_opt/residual.hpp>
#include "mc.hpp"
using namespace mini_opt;
using mc::X;
using mc::cat;

struct CallLog { int calls = 0; bool with_jac = false; std::vector<double> params; int jr = -1, jc = -1; };

// Integer valued, nonlinear, all entries distinct enough to expose any permutation or wrong column.
static double rval(int seed, int i, const double* x, int n) {
  double v = 3 * seed + 7 * i + 1;
  for (int j = 0; j < n; ++j) v += (1 + i + 2 * j + seed) * x[j] + (j == i % n ? x[j] * x[j] : 0);
  return v;
}
// A seed divisible by 4 has a column of zeros, one that leaves 2 a column of NaN or infinity.
static double jval(int seed, int i, int j, const double* x, int n) {
  if (seed % 4 == 2 && j == (seed / 4) % n) return seed % 8 == 2 ? std::nan("") : HUGE_VAL;
  if (seed % 4 == 0 && j == (seed / 4) % n) return 0; return (1 + i + 2 * j + seed) + (j == i % n ? 2 * x[j] : 0); }

template <int R, int P>
struct Fn {
  int seed;
  CallLog* log;
  Eigen::Matrix<double, R, 1> operator()(const Eigen::Matrix<double, P, 1>& x, Eigen::Matrix<double, R, P>* J) const {
    const int n = static_cast<int>(x.rows());
    log->calls++;
    log->with_jac = J != nullptr;
    log->params.assign(x.data(), x.data() + n);
    Eigen::Matrix<double, R, 1> r;
    for (int i = 0; i < R; ++i) r[i] = rval(seed, i, x.data(), n);
    if (J) {
      log->jr = static_cast<int>(J->rows());
      log->jc = static_cast<int>(J->cols());
      if (log->jr == R && log->jc == n)
        for (int i = 0; i < R; ++i)
          for (int j = 0; j < n; ++j) (*J)(i, j) = jval(seed, i, j, x.data(), n);
    }
    return r;
  }
};

// form: 0 dynamic vector (lvalue), 1 dynamic vector (rvalue), 2 dynamic initializer list,
//       3 static array, 4 static initializer list
template <int R, int P>
static Residual make_static(const std::vector<int>& L, int form, int seed, CallLog* log) {
  Fn<R, P> f{seed, log};
  if (form == 3) {
    std::array<int, P> a{};
    for (int i = 0; i < P; ++i) a[i] = L[i];
    return MakeResidual<R, P>(a, f);
  }
  if constexpr (P > 4) { std::array<int, P> b{}; for (int i = 0; i < P; ++i) b[i] = L[i]; return MakeResidual<R, P>(b, f); }
  else if constexpr (P == 1) return MakeResidual<R, P>({L[0]}, f);
  else if constexpr (P == 2) return MakeResidual<R, P>({L[0], L[1]}, f);
  else if constexpr (P == 3) return MakeResidual<R, P>({L[0], L[1], L[2]}, f);
  else return MakeResidual<R, P>({L[0], L[1], L[2], L[3]}, f);
}
// long index lists with a static count
template <int R>
static Residual make_long(const std::vector<int>& L, int seed, CallLog* log) {
  switch (L.size()) {
    case 5: return make_static<R, 5>(L, 3, seed, log);
    case 8: return make_static<R, 8>(L, 3, seed, log);
    case 9: return make_static<R, 9>(L, 3, seed, log);
    case 10: return make_static<R, 10>(L, 3, seed, log);
    default: return make_static<R, 17>(L, 3, seed, log);
  }
}
template <int R>
static Residual make_r(const std::vector<int>& L, int form, int seed, CallLog* log) {
  if (form >= 3) {
    switch (L.size()) {
      case 1: return make_static<R, 1>(L, form, seed, log);
      case 2: return make_static<R, 2>(L, form, seed, log);
      case 3: return make_static<R, 3>(L, form, seed, log);
      case 4: return make_static<R, 4>(L, form, seed, log);
      default: return make_long<R>(L, seed, log);
    }
  }
  constexpr int D = Eigen::Dynamic;
  Fn<R, D> f{seed, log};
  if (form == 0) { const std::vector<int> copy = L; return MakeResidual<R, D>(copy, f); }
  if (form == 1) { std::vector<int> copy = L; return MakeResidual<R, D>(std::move(copy), f); }
  switch (L.size()) {
    default: { const std::vector<int> copy = L; return MakeResidual<R, D>(copy, f); }
    case 4: return MakeResidual<R, D>({L[0], L[1], L[2], L[3]}, f);
    case 1: return MakeResidual<R, D>({L[0]}, f);
    case 2: return MakeResidual<R, D>({L[0], L[1]}, f);
    case 3: return MakeResidual<R, D>({L[0], L[1], L[2]}, f);
  }
}
static Residual make(int R, const std::vector<int>& L, int form, int seed, CallLog* log) {
  switch (R) {
    case 1: return make_r<1>(L, form, seed, log);
    case 2: return make_r<2>(L, form, seed, log);
    case 3: return make_r<3>(L, form, seed, log);
    case 4: return make_r<4>(L, form, seed, log);
    case 9: return make_r<9>(L, form, seed, log);
    default: return make_r<17>(L, form, seed, log);
  }
}

template <class M>
static bool equal(const M& a, const M& b) {  // not-a-number equals itself
  for (long i = 0; i < a.rows(); ++i) for (long j = 0; j < a.cols(); ++j) if (!(a(i, j) == b(i, j)) && !(std::isnan(a(i, j)) && std::isnan(b(i, j)))) return false;
  return true;
}
static std::vector<std::vector<int>> lists(int n, int kmax) {
  std::vector<std::vector<int>> out, cur{{}};
  for (int k = 1; k <= kmax && k <= n; ++k) {
    std::vector<std::vector<int>> nx;
    for (auto& c : cur)
      for (int i = 0; i < n; ++i) {
        bool used = false;
        for (int j : c) used |= j == i;
        if (!used) { auto d = c; d.push_back(i); nx.push_back(d); }
      }
    out.insert(out.end(), nx.begin(), nx.end());
    cur = nx;
  }
  return out;
}

int main(int argc, char** argv) {
  X.parse(argc, argv);
  const bool T = X.thorough();
  const int nmax = T ? 5 : 4;
  std::vector<std::vector<std::vector<int>>> L(nmax + 1);
  for (int n = 1; n <= nmax; ++n) L[n] = lists(n, 4);
  struct Part { std::vector<int> l; int R, form, seed; CallLog log; std::unique_ptr<Residual> r; };

  return X.run([&] {
    const int m = 1 + X.choose(4, "residuals");
    // the fourth alternative: one or two residuals with many parameters and rows
    const bool large = m == 4;
    const int n = large ? 20 : m == 1 ? 1 + X.choose(nmax, "n") : m == 2 ? 1 + X.choose(T ? 4 : 4, "n") : 1 + X.choose(T ? 3 : 2, "n");
    std::vector<Part> parts(large ? 1 + X.choose(2, "two") : m);
    for (int k = 0; k < (int)parts.size(); ++k) {
      Part& p = parts[k];
      if (large) {
        static const int sizes[] = {5, 8, 9, 10, 17}, rows[] = {1, 2, 3, 4, 9, 17};
        const int s = sizes[X.choose(5, "parameters")], order = X.choose(5, "order");
        p.R = rows[X.choose(6, "rows")];
        p.form = X.choose(2, "static") ? 3 : k;
        p.seed = order == 4 ? 4 * (k + 1) : 2 * k + 1;
        for (int i = 0; i < s; ++i) p.l.push_back(order == 0 ? i : order == 1 ? s - 1 - i : order == 2 ? (7 * i + 3) % 20 : order == 3 ? 19 - i : (i + s / 2) % s);
        if (k == 0) X.shard_point();
        continue;
      }
      p.l = X.pick(L[n], "indices");
      // several residuals: sizes and forms are tied together to keep the product small, but all occur
      p.R = m == 1 ? 1 + X.choose(3, "R") : 1 + X.choose(T ? 3 : 2, "R");
      p.form = m == 1 ? X.choose(5, "form") : (X.choose(2, "static") ? 3 + (p.R & 1) : p.R % 3);
      const int special = m == 1 ? X.choose(4, "special column") : k & 1;
      p.seed = special == 1 ? 4 * (k + 1) : special == 2 ? 2 + 8 * n : special == 3 ? 14 : 2 * k + 1;
      if (k == 0) X.shard_point();
    }
    // the vector of variables may be longer than the largest index used
    const int extra = m == 1 ? X.choose(2, "extra") : 0;
    Eigen::VectorXd x(n + extra);
    for (int i = 0; i < x.rows(); ++i) x[i] = (i % 2 ? -1 : 1) * (2 + 3 * i);
    const int prefill = m == 1 ? X.choose(2, "prefill") : 1;
    for (auto& p : parts) p.r = std::make_unique<Residual>(make(p.R, p.l, p.form, p.seed, &p.log));

    const int d = n + extra;
    Eigen::MatrixXd H(d, d), H0;
    Eigen::VectorXd b(d), b0;
    for (int i = 0; i < d; ++i) {
      b[i] = prefill ? 1000 + i : 0;
      for (int j = 0; j < d; ++j) H(i, j) = prefill ? 100000 + 100 * i + j : 0;
    }
    H0 = H;
    b0 = b;
    Eigen::MatrixXd He = H;
    Eigen::VectorXd be = b;
    const Eigen::VectorXd x0 = x;
    for (auto& p : parts) {
      const int P = static_cast<int>(p.l.size());
      std::vector<double> loc(P);
      for (int i = 0; i < P; ++i) loc[i] = x0[p.l[i]];
      std::vector<double> r(p.R);
      double sq = 0;
      for (int i = 0; i < p.R; ++i) { r[i] = rval(p.seed, i, loc.data(), P); sq += r[i] * r[i]; }
      auto J = [&](int i, int j) { return jval(p.seed, i, j, loc.data(), P); };
      for (int a = 0; a < P; ++a) {
        for (int c = 0; c < P; ++c) {
          if (p.l[c] > p.l[a]) continue;
          for (int i = 0; i < p.R; ++i) He(p.l[a], p.l[c]) += J(i, a) * J(i, c);
        }
        for (int i = 0; i < p.R; ++i) be[p.l[a]] += J(i, a) * r[i];
      }
      auto ctx = [&] {
        std::string s = cat("R=", p.R, " form=", p.form, " n=", n, " indices=[");
        for (int i : p.l) s += cat(i, " ");
        return s + "]";
      };
      if (p.r->Dimension() != p.R) X.fail("C19", "dimension", cat(ctx(), " Dimension()=", p.r->Dimension()));
      auto check_params = [&](const char* what, bool jac) {
        ++X.checks;
        if (p.log.calls != 1) X.fail("C19", "call-count", cat(ctx(), " ", what, " called the function ", p.log.calls, " times"));
        if (p.log.params != loc) X.fail("C19", "gather", cat(ctx(), " ", what, " passed wrong parameters"));
        if (p.log.with_jac != jac) X.fail("C19", "jacobian-request", cat(ctx(), " ", what, jac ? " did not ask for" : " asked for", " a Jacobian"));
        if (jac && (p.log.jr != p.R || p.log.jc != P)) X.fail("C19", "jacobian-size", cat(ctx(), " Jacobian storage is ", p.log.jr, "x", p.log.jc));
        p.log = CallLog{};
      };
      // error vector into a segment of a longer vector
      {
        Eigen::VectorXd e = Eigen::VectorXd::Constant(p.R + 2, -77.0);
        p.r->ErrorVector(x, e.segment(1, p.R));
        check_params("ErrorVector", false);
        for (int i = 0; i < p.R; ++i)
          if (e[1 + i] != r[i]) X.fail("C19", "error-vector", cat(ctx(), " ErrorVector[", i, "]=", e[1 + i], " expected ", r[i]));
        if (e[0] != -77 || e[p.R + 1] != -77) X.fail("C19", "error-vector-spill", ctx());
      }
      {
        const double q = p.r->QuadraticError(x);
        check_params("QuadraticError", false);
        if (q != 0.5 * sq) X.fail("C19", "quadratic-error", cat(ctx(), " QuadraticError=", q, " expected ", 0.5 * sq));
      }
      {
        const double q = p.r->UpdateHessian(x, &H, &b);
        check_params("UpdateHessian", true);
        if (q != 0.5 * sq) X.fail("C19", "hessian-return", cat(ctx(), " UpdateHessian returned ", q, " expected ", 0.5 * sq));
      }
      X.state([&] { mc::Hash h; h.add(p.R).add(p.form >= 3); for (int i = 0; i < d; ++i) for (int j = 0; j < d; ++j) h.d(H(i, j)); return h.vec(b).h; }());
      {
        // Jacobian into a row block of a larger, pre-filled matrix
        Eigen::MatrixXd A(p.R + 2, d);
        for (int i = 0; i < A.rows(); ++i) for (int j = 0; j < d; ++j) A(i, j) = -1000 - 10 * i - j;
        Eigen::MatrixXd Ae = A;
        Eigen::VectorXd e = Eigen::VectorXd::Constant(p.R + 2, -77.0), ee = e;
        for (int i = 0; i < p.R; ++i) {
          ee[1 + i] = r[i];
          for (int j = 0; j < P; ++j) Ae(1 + i, p.l[j]) = J(i, j);
        }
        p.r->UpdateJacobian(x, A.middleRows(1, p.R), e.segment(1, p.R));
        check_params("UpdateJacobian", true);
        if (!equal(A, Ae)) X.fail("C19", "jacobian", cat(ctx(), " Jacobian differs\ngot\n", A, "\nexpected\n", Ae));
        if (e != ee) X.fail("C19", "jacobian-error", cat(ctx(), " error written with the Jacobian differs"));
      }
      ++X.checks;
      if (x != x0) X.fail("C19", "params-modified", ctx());
      if (!equal(H, He)) X.fail("C19", "hessian", cat(ctx(), " Hessian differs\nbefore\n", H0, "\ngot\n", H, "\nexpected\n", He));
      if (!equal(b, be)) X.fail("C19", "gradient", cat(ctx(), " gradient differs: got ", b.transpose(), " expected ", be.transpose()));
    }
    X.outcome([&] { mc::Hash h; for (int i = 0; i < d; ++i) for (int j = 0; j < d; ++j) h.d(H(i, j)); return h.vec(b).h; }());
  });
}
