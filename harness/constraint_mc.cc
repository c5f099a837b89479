// C26: bound-constraint helpers against exact arithmetic on a dyadic grid (every value, product and
// sum below is exactly representable, so the oracle has no tolerance).
#include <mini_opt/qp.hpp>
#include "mc.hpp"
using namespace mini_opt;
using mc::X;
using mc::cat;

static std::vector<double> grid(double step, int n) {
  std::vector<double> v{0.0};
  for (int i = 1; i <= n; ++i) { v.push_back(i * step); v.push_back(-i * step); }
  return v;
}

int main(int argc, char** argv) {
  X.parse(argc, argv);
  const bool T = X.thorough();
  const std::vector<double> As{1, -1, 2, -2, 0.5, -0.5, 4, -4, 0.25, -0.25, 1024, -1024, 0x1p-20, -0x1p-20, 0x1p-44, -0x1p-44, 0x1p-60, -0x1p-60, 0x1p50, -0x1p50, 0.0, -0.0};
  std::vector<double> Bs = grid(0.5, T ? 24 : 10);
  for (double b : {1048576.0, -1048576.0, 0x1p-10, -0x1p-10, 3.0 * 0x1p-12}) Bs.push_back(b);
  std::vector<double> Xs = grid(0.25, T ? 40 : 16);
  for (double x : {1048576.0, -1048576.0, 0x1p30, -0x1p30, 0x1p-12, -0x1p-12, 0x1p-8, -0x1p-8}) Xs.push_back(x);
  const std::vector<double> Ds = grid(0.25, T ? 40 : 20);
  const std::vector<int> vars{0, 1, 2, 5};

  return X.run([&] {
    const int kind = X.choose(3, "helper");
    if (kind == 2) {
      // the helpers at arbitrary (not dyadic) limits and the neighbouring values: with a coefficient of
      // one the sign of x - limit is exact in binary floating point
      static const std::vector<double> limits{0.0, -0.0, 0.1, -0.1, 1.0 / 3, 3.14159, -2.7, 1e-300, -1e-300, 5e-324, -5e-324, 1e17, -1e17, 1e300, -1e300, 123456.789, 1 + 0x1p-52, 1e-13};
      const double lim = X.pick(limits, "limit");
      const int sense = X.choose(2, "sense");
      X.shard_point();
      const LinearInequalityConstraint c = sense ? (Var(1) >= lim) : (Var(1) <= lim);
      const double inf = std::numeric_limits<double>::infinity();
      std::vector<double> xs{lim, std::nextafter(lim, inf), std::nextafter(lim, -inf), 0.0, -0.0, 1.0, -1.0, 5e-324, -5e-324};
      for (double e : {1e-3, 1e-6, 1e-9, 1e-11, 1e-12, 1e-13, 1e-14, 1e-15, 1e-16}) for (double s : {1.0, -1.0}) { xs.push_back(lim + s * e); xs.push_back(lim * (1 + s * e)); xs.push_back(s * e); }
      for (double x : xs) {
        const bool want = sense ? x >= lim : x <= lim;
        X.checks += 2;
        if (c.IsFeasible(x) != want) X.fail("C26", "near-limit", cat(sense ? "x >= " : "x <= ", (lim), " at ", (x), ": IsFeasible=", c.IsFeasible(x)));
        const double got = c.ClampX(x);
        if (!(got == (want ? x : lim))) X.fail("C26", "near-limit-clamp", cat(sense ? "x >= " : "x <= ", (lim), " at ", (x), ": ClampX=", (got)));
        X.state(mc::Hash().d(lim).d(x).add(sense).add(want).h);
      }
      X.outcome(mc::Hash().add(sense).add(11).h);
      return;
    }
    const int var = X.pick(vars, "variable");
    double a, b, limit = 0;
    int sense = 0;
    if (kind == 0) {
      a = X.pick(As, "a");
      b = X.pick(Bs, "b");
      // far from one the offset scales with the coefficient, so that everything stays exact
      if (std::abs(a) > 0x1p40 || (a != 0 && std::abs(a) < 0x1p-40)) b *= std::abs(a);
    } else {
      sense = X.choose(2, "sense");
      limit = X.pick(Bs, "limit");
      a = sense ? 1.0 : -1.0;
      b = sense ? -limit : limit;
    }
    X.shard_point();
    const LinearInequalityConstraint c =
        kind == 0 ? LinearInequalityConstraint(var, a, b) : (sense ? (Var(var) >= limit) : (Var(var) <= limit));
    if (c.variable != var) X.fail("C26", "variable", cat("constraint refers to variable ", c.variable, " instead of ", var));
    std::vector<double> near = Xs;
    if (a != 0) {
      // just inside and outside the limit, where everything below is still exact
      const double lim = -b / a;
      for (int k : {10, 20, 30, 36, 40}) for (double s : {1.0, -1.0}) { const double x = lim + s * std::ldexp(1.0, -k); if (static_cast<long double>(x) == static_cast<long double>(lim) + s * std::ldexp(1.0L, -k) && std::abs(lim) < 64) near.push_back(x); }
    }
    for (double x : near) {
      const double xs_minus_zero = x == 0 ? -0.0 : x;
      for (double xv : {x, xs_minus_zero}) {
        const bool want = kind == 0 ? (static_cast<long double>(a) * xv + b >= 0.0L) : (sense ? xv >= limit : xv <= limit);
        ++X.checks;
        if (c.IsFeasible(xv) != want)
          X.fail("C26", "IsFeasible", cat("a=", a, " b=", b, " x=", xv, " IsFeasible=", c.IsFeasible(xv), " expected ", want));
        double got = 0;
        bool threw = false;
        try { got = c.ClampX(xv); } catch (const std::exception&) { threw = true; }
        ++X.checks;
        if (a == 0) {
          if (!threw) X.fail("C26", "clamp-zero-coefficient", cat("ClampX with a=0 returned ", got));
        } else if (threw) {
          X.fail("C26", "clamp-throws", cat("ClampX threw for a=", a, " b=", b, " x=", xv));
        } else {
          const double lim = static_cast<double>(-static_cast<long double>(b) / a);
          const double expect = want ? xv : lim;
          if (!(got == expect))
            X.fail("C26", "clamp-value", cat("a=", a, " b=", b, " x=", xv, " ClampX=", got, " expected ", expect));
          if (!c.IsFeasible(got)) X.fail("C26", "clamp-infeasible", cat("a=", a, " b=", b, " x=", xv, " ClampX=", got, " is infeasible"));
        }
        X.state(mc::Hash().d(a).d(b).d(xv).add(want).add(threw).h);
        X.outcome(mc::Hash().add(want).add(threw).add(a > 0).h);
      }
      // shifting, by scalar and by vector
      const LinearInequalityConstraint s = c.ShiftTo(x);
      Eigen::VectorXd v(6);
      for (int i = 0; i < 6; ++i) v[i] = 100.0 + i;
      v[var] = x;
      bool vthrew = false;
      LinearInequalityConstraint sv = s;
      try { sv = c.ShiftTo(v); } catch (const std::exception&) { vthrew = true; }
      ++X.checks;
      if (vthrew) X.fail("C26", "shift-vector-throws", cat("ShiftTo(vector of 6) threw for variable ", var));
      else if (sv.variable != s.variable || sv.a != s.a || sv.b != s.b)
        X.fail("C26", "shift-vector", cat("ShiftTo(vector) differs from ShiftTo(scalar): a=", a, " b=", b, " x=", x));
      for (int n = 0; n <= 6; ++n) {  // vectors too short for the index are refused
        if (var < n) continue;
        bool t = false;
        Eigen::VectorXd w = Eigen::VectorXd::Zero(n);
        try { (void)c.ShiftTo(w); } catch (const std::exception&) { t = true; }
        if (!t) X.fail("C26", "shift-vector-range", cat("ShiftTo(vector of ", n, ") accepted variable ", var));
      }
      if (s.variable != var) X.fail("C26", "shift-variable", cat("shifted constraint refers to variable ", s.variable));
      for (double dx : Ds) {
        ++X.checks;
        const bool want = kind == 0 ? (static_cast<long double>(a) * (static_cast<long double>(x) + dx) + b >= 0.0L)
                                    : (sense ? x + dx >= limit : x + dx <= limit);
        if (s.IsFeasible(dx) != want)
          X.fail("C26", "shift", cat("a=", a, " b=", b, " shifted to x=", x, " dx=", dx, " IsFeasible=", s.IsFeasible(dx), " expected ", want));
        const LinearInequalityConstraint twice = s.ShiftTo(dx), once = c.ShiftTo(x + dx);
        if (twice.variable != once.variable || twice.a != once.a || !(twice.b == once.b))
          X.fail("C26", "shift-twice", cat("a=", a, " b=", b, " x=", x, " dx=", dx, ": shifting twice gives b=", twice.b, ", once gives ", once.b));
      }
    }
  });
}
