// C01-C04: the interior-point QP solver on every QP of a bounded alphabet.
//
// Problems are built from a base problem by at most D deviations (objective entries, equality rows,
// bound constraints in every order and multiplicity, solver parameters, starting points), so every
// problem within D edits is covered.  Iterates are observed through prefix runs (max_iterations =
// 1..k on a fresh solver), so only the public API is used.  Oracles: KKT residuals and the Newton
// equations of the *uneliminated* system in extended precision, a brute-force active-set optimum.
#include <Eigen/Core>
#include <mini_opt/qp.hpp>
#include "mc.hpp"
#include "qp_oracle.hpp"
using namespace mini_opt;
using mc::X;
using mc::cat;
using mc::same_bits;
using namespace qpo;

static LD objective(const P& p, const Vec& x) {
  LD f = 0;
  for (int i = 0; i < p.n; ++i) { f += p.c[i] * x[i]; for (int j = 0; j < p.n; ++j) f += 0.5L * x[i] * p.G[i][j] * x[j]; }
  return f;
}
static LD nrm(const Vec& v) { LD t = 0; for (LD a : v) t += a * a; return sqrtl(t); }

struct It { Vec x, s, y, z; bool finite() const { for (auto* v : {&x, &s, &y, &z}) for (LD a : *v) if (!std::isfinite((double)a)) return false; return true; } };
struct Res { Vec d, comp, pe, pi; Vec dmag; };

static Res residuals(const P& p, const It& v, LD mu) {
  Res r;
  const int M = static_cast<int>(p.cons.size());
  r.d.assign(p.n, 0); r.dmag.assign(p.n, 0);
  for (int i = 0; i < p.n; ++i) {
    LD t = p.c[i], m = fabsl(p.c[i]);
    for (int j = 0; j < p.n; ++j) { t += p.G[i][j] * v.x[j]; m += fabsl(p.G[i][j] * v.x[j]); }
    for (int k = 0; k < p.K; ++k) { t -= p.A[k][i] * v.y[k]; m += fabsl(p.A[k][i] * v.y[k]); }
    for (int k = 0; k < M; ++k) if (p.cons[k].v == i) { t -= p.cons[k].a * v.z[k]; m += fabsl(p.cons[k].a * v.z[k]); }
    r.d[i] = t; r.dmag[i] = m;
  }
  for (int k = 0; k < p.K; ++k) { LD t = p.b[k]; for (int j = 0; j < p.n; ++j) t += p.A[k][j] * v.x[j]; r.pe.push_back(t); }
  for (int k = 0; k < M; ++k) { r.comp.push_back(v.s[k] * v.z[k] - mu); r.pi.push_back(p.cons[k].a * v.x[p.cons[k].v] + p.cons[k].b - v.s[k]); }
  return r;
}
static LD avgcomp(const It& v) { if (v.s.empty()) return 0; LD t = 0; for (std::size_t i = 0; i < v.s.size(); ++i) t += v.s[i] * v.z[i]; return t / v.s.size(); }

// Newton step of the full system for barrier mu and second-order term soc.
static bool newton(const P& p, const It& v, LD mu, const Vec* soc, It* step, LD* growth) {
  const int n = p.n, K = p.K, M = static_cast<int>(p.cons.size()), sz = n + K + 2 * M;
  Mat S(sz, Vec(sz, 0));
  Vec r(sz, 0), sol;
  const Res R = residuals(p, v, mu);
  for (int i = 0; i < n; ++i) {
    for (int j = 0; j < n; ++j) S[i][j] = p.G[i][j];
    for (int k = 0; k < K; ++k) S[i][n + M + k] = -p.A[k][i];
    for (int k = 0; k < M; ++k) if (p.cons[k].v == i) S[i][n + M + K + k] = -p.cons[k].a;
    r[i] = -R.d[i];
  }
  for (int k = 0; k < M; ++k) {  // z ds + s dz = -(sz - mu + soc), divided by s to stay scaled
    S[n + k][n + k] = v.z[k] / v.s[k];
    S[n + k][n + M + K + k] = 1;
    r[n + k] = -(R.comp[k] + (soc ? (*soc)[k] : 0)) / v.s[k];
    S[n + M + K + k][p.cons[k].v] = p.cons[k].a;
    S[n + M + K + k][n + k] = -1;
    r[n + M + K + k] = -R.pi[k];
  }
  for (int k = 0; k < K; ++k) { for (int j = 0; j < n; ++j) S[n + M + k][j] = p.A[k][j]; r[n + M + k] = -R.pe[k]; }
  if (!lu_solve(S, r, &sol, growth)) return false;
  step->x.assign(sol.begin(), sol.begin() + n);
  step->s.assign(sol.begin() + n, sol.begin() + n + M);
  step->y.assign(sol.begin() + n + M, sol.begin() + n + M + K);
  step->z.assign(sol.begin() + n + M + K, sol.end());
  return true;
}
// Longest step; ambiguous when rounding decides whether the full step leaves the orthant.
static LD step_length(const Vec& v, const Vec& d, LD tau, LD rel, LD abs, bool* ambiguous) {
  LD a = 1;
  for (std::size_t i = 0; i < v.size(); ++i) {
    const LD u = v[i] + d[i];
    if (fabsl(u) <= abs + rel * (fabsl(v[i]) + fabsl(d[i])) || (u <= 0 && v[i] <= 1e4L * abs)) *ambiguous = true;
    if (u <= 0 && d[i] < 0) a = std::min(a, tau * v[i] / -d[i]);
  }
  return a;
}

// ---------------------------------------------------------------- alphabet
static const std::vector<std::vector<std::vector<double>>>& hessians(int n) {
  static const std::vector<std::vector<std::vector<double>>> h1{{{2}}, {{0.25}}, {{8}}};
  static const std::vector<std::vector<std::vector<double>>> h2{{{2, 0}, {0, 1}}, {{2, 1}, {1, 2}}, {{4, -1}, {-1, 0.5}}, {{1, 0}, {0, 8}}};
  static const std::vector<std::vector<std::vector<double>>> h3{{{1, 0, 0}, {0, 2, 0}, {0, 0, 4}}, {{4, 1, 0}, {1, 3, -1}, {0, -1, 2}}, {{2, -1, 0.5}, {-1, 2, -1}, {0.5, -1, 2}}};
  static const std::vector<std::vector<std::vector<double>>> h5{
      {{4, 1, 0, 0, 1}, {1, 3, -1, 0, 0}, {0, -1, 2, 0.5, 0}, {0, 0, 0.5, 1, 0}, {1, 0, 0, 0, 5}},
      {{1, 0, 0, 0, 0}, {0, 1, 0, 0, 0}, {0, 0, 1, 0, 0}, {0, 0, 0, 1, 0}, {0, 0, 0, 0, 1}}};
  return n == 1 ? h1 : n == 2 ? h2 : n == 3 ? h3 : h5;
}
static const std::vector<std::vector<double>>& rows(int n, int k) {
  static const std::vector<std::vector<double>> r2a{{1, 1}, {1, -2}, {0, 1}}, r2b{{1, -1}, {2, 1}};
  static const std::vector<std::vector<double>> r3a{{1, 1, 1}, {0, 2, -1}, {1, 0, 0}}, r3b{{1, -1, 0}, {0, 1, 2}};
  static const std::vector<std::vector<double>> r5a{{1, 1, 1, 1, 1}, {0, 0, 2, -1, 0}}, r5b{{1, -1, 0, 0, 2}, {0, 1, 0, 1, 0}};
  if (n == 2) return k ? r2b : r2a;
  if (n == 3) return k ? r3b : r3a;
  return k ? r5b : r5a;
}
struct Kind { double a, b; };
static const std::vector<Kind> kKinds{{1, 1}, {-1, 1}, {1, -0.25}, {-1, 0.25}, {2, -1}, {-0.5, 0.125}, {1, 0}, {-1, 0}, {-1, -0.5}, {3, 4}};

struct Setup {
  P p;
  QP qp;
  QPInteriorPointSolver::Params par;
  std::vector<double> start;  // USER_PROVIDED
  bool user = false;
};

static std::string describe(const Setup& s) {
  std::ostringstream o;
  o << "n=" << s.p.n << " G=[";
  for (auto& r : s.p.G) { for (LD v : r) o << (double)v << " "; o << ";"; }
  o << "] c=[";
  for (LD v : s.p.c) o << (double)v << " ";
  o << "] A=[";
  for (auto& r : s.p.A) { for (LD v : r) o << (double)v << " "; o << ";"; }
  o << "] b=[";
  for (LD v : s.p.b) o << (double)v << " ";
  o << "] bounds:";
  for (auto& c : s.p.cons) o << " " << (double)c.a << "*x" << c.v << "+" << (double)c.b << ">=0";
  o << " strategy=" << (int)s.par.barrier_strategy << " guess=" << (int)s.par.initial_guess_method << " sigma=" << s.par.sigma << " mu0=" << s.par.initial_mu
    << " muc=" << s.par.initialize_mu_with_complementarity << " small=" << s.par.decrease_mu_only_on_small_error << " tol=" << s.par.termination_kkt_tol << "/"
    << s.par.termination_complementarity_tol << " maxit=" << s.par.max_iterations;
  if (s.user) { o << " start="; for (double v : s.start) o << v << ","; }
  return o.str();
}

struct Run { bool threw = false; std::string what; QPInteriorPointSolverOutputs out; It v; Eigen::VectorXd raw; };

static It unpack(const P& p, const Eigen::VectorXd& v) {
  It o;
  const int M = static_cast<int>(p.cons.size());
  int i = 0;
  for (int k = 0; k < p.n; ++k) o.x.push_back(v[i++]);
  for (int k = 0; k < M; ++k) o.s.push_back(v[i++]);
  for (int k = 0; k < p.K; ++k) o.y.push_back(v[i++]);
  for (int k = 0; k < M; ++k) o.z.push_back(v[i++]);
  return o;
}
static Run solve(const Setup& s, int max_it) {
  Run r;
  try {
    QPInteriorPointSolver solver(&s.qp);
    if (s.user) solver.SetVariables(Eigen::Map<const Eigen::VectorXd>(s.start.data(), static_cast<long>(s.start.size())));
    auto par = s.par;
    par.max_iterations = max_it;
    r.out = solver.Solve(par);
    r.raw = solver.variables();
    r.v = unpack(s.p, r.raw);
    // the block accessors are how users read the result: they must agree with the layout
    const auto x = solver.x_block(); const auto ss = solver.s_block(); const auto y = solver.y_block(); const auto z = solver.z_block();
    bool same = x.size() == (long)r.v.x.size() && ss.size() == (long)r.v.s.size() && y.size() == (long)r.v.y.size() && z.size() == (long)r.v.z.size();
    for (long i = 0; same && i < x.size(); ++i) same = same_bits(x[i], (double)r.v.x[i]);
    for (long i = 0; same && i < ss.size(); ++i) same = same_bits(ss[i], (double)r.v.s[i]) && same_bits(z[i], (double)r.v.z[i]);
    for (long i = 0; same && i < y.size(); ++i) same = same_bits(y[i], (double)r.v.y[i]);
    if (!same) X.fail("C01", "blocks", "block accessors disagree with variables()\n" + describe(s));
  } catch (const std::exception& e) { r.threw = true; r.what = e.what(); }
  return r;
}

// A problem with many variables whose optimum is known by construction: the optimum, the active bounds and the multipliers
// are chosen and the gradient and offsets derived from them.  Moving along sigma keeps the equality rows and enters the
// interior of every active bound, so there is a strictly feasible point.
template <class Dev>
static void large(P& p, Dev& dev, Vec* xs) {
  const int n = p.n, K = p.K;
  const int shape = X.choose(n > 13 ? 3 : 6, "bounds");      // none; one; every variable; every variable twice; alternating; the last ones, repeated
  const int order = X.choose(3, "order of the bounds");        // ascending, descending, interleaved
  const int active = X.choose(4, "active");        // none, every one, every third, the last
  const int hk = dev(3, "G"), yk = dev(3, "y"), ak = dev(2, "scale of the bounds");
  const int lim = dev(2, "more bounds");
  p.G.assign(n, Vec(n, 0));
  for (int i = 0; i < n; ++i) p.G[i][i] = hk == 0 ? 3 : hk == 1 ? 1 + i % 4 : 2.5L;
  for (int i = 0; i + 1 < n && hk != 1; ++i) p.G[i][i + 1] = p.G[i + 1][i] = i % 2 ? 0.5L : -1;
  if (hk == 2) p.G[0][n - 1] = p.G[n - 1][0] = 0.25L;
  xs->assign(n, 0);
  for (int i = 0; i < n; ++i) (*xs)[i] = ((i * 7) % 5 - 2) * 0.5L;
  auto sg = [](int i) { return i % 3 == 1 ? -1 : 1; };
  Vec g(n, 0);  // sum of multiplier times constraint gradient
  for (int k = 0; k < K; ++k) {
    Vec r(n, 0);
    // several pairs with cancelling signs along sigma
    for (int q = 0; q < 3; ++q) { const int i = (k + 2 * q) % n, j = (2 * k + 5 + q) % n; if (i == j) continue; r[i] += sg(i) * (q + 1); r[j] -= sg(j) * (q + 1); }
    LD t = 0;
    for (int j = 0; j < n; ++j) t += r[j] * (*xs)[j];
    p.A.push_back(r);
    p.b.push_back(-t);
    const LD y = yk == 0 ? (k % 2 ? -1 : 0.5L) : yk == 1 ? 0 : k - 2;
    for (int j = 0; j < n; ++j) g[j] += y * r[j];
  }
  if (shape) {
    std::vector<int> vars;
    if (shape == 1) vars = {n - 1};
    else if (shape == 4) for (int i = 0; i < n; i += 2) vars.push_back(i);
    else if (shape == 5) for (int rep = 0; rep < 3; ++rep) for (int i = n - 3; i < n; ++i) vars.push_back(i);
    else for (int i = 0; i < n; ++i) vars.push_back(i);
    if (order == 1) std::reverse(vars.begin(), vars.end());
    if (order == 2) { std::vector<int> w; for (int h = 0; h < 2; ++h) for (std::size_t i = h; i < vars.size(); i += 2) w.push_back(vars[i]); vars = w; }
    std::set<int> done;
    int at = 0;
    const int total = static_cast<int>(vars.size());
    for (int i : vars) {
      const bool act = !done.count(i) && (active == 1 || (active == 2 && i % 3 == 2) || (active == 3 && ++at == total));
      done.insert(i);
      const LD a = sg(i) * (ak ? (i % 2 ? 4 : 0.25L) : 1), z = act ? 0.5L + i % 2 : 0, gap = act ? 0 : 1 + (i % 3) * 0.5L;
      p.cons.push_back({i, a, -a * (*xs)[i] + gap * fabsl(a)});
      g[i] += a * z;
      if (shape == 3 || lim) p.cons.push_back({i, -a, a * (*xs)[i] + 2 * fabsl(a)});
    }
  }
  p.c.assign(n, 0);
  for (int i = 0; i < n; ++i) { p.c[i] = g[i]; for (int j = 0; j < n; ++j) p.c[i] -= p.G[i][j] * (*xs)[j]; }
}
static bool near(LD a, LD b, LD rel, LD abs) { return fabsl(a - b) <= rel * (fabsl(a) + fabsl(b)) + abs; }

static void body() {
  const bool T = X.thorough();
  Setup s;
  P& p = s.p;
  // ---------------- family and budget
  struct Fam { int n, K, quick, thorough; };
  static const std::vector<Fam> fams{{2, 0, 3, 5}, {2, 1, 2, 4}, {1, 0, 4, 6}, {3, 0, 2, 4}, {3, 1, 2, 4}, {3, 2, 2, 3}, {5, 2, 1, 3}, {2, 2, 2, 3}, {5, 0, 1, 3},
                               {7, 0, 1, 2}, {8, 3, 1, 2}, {13, 5, 1, 2}, {20, 0, 0, 1}, {33, 8, 0, 1}};
  // families of more than five variables are built around a known optimum: see large()
  const int fi = X.opt.count("fam") ? std::atoi(X.opt["fam"].c_str()) : X.choose(static_cast<int>(fams.size()), "family");
  const Fam& f = fams[fi];
  int budget = T ? f.thorough : f.quick;
  if (X.opt.count("d")) budget = std::atoi(X.opt["d"].c_str());
  if (X.want("C02")) budget -= 0;
  auto dev = [&](int n, const char* l) {
    if (budget <= 0) return 0;
    const int v = X.choose(n, l);
    if (v) --budget;
    return v;
  };
  p.n = f.n; p.K = f.K;
  const bool c02 = X.want("C02");
  // ---------------- parameters
  static const std::vector<BarrierStrategy> strat{BarrierStrategy::COMPLEMENTARITY, BarrierStrategy::FIXED_DECREASE, BarrierStrategy::PREDICTOR_CORRECTOR};
  s.par.barrier_strategy = strat[dev(c02 ? 2 : 3, "strategy")];
  static const std::vector<double> sig{0.1, 0.5, 1.0, 0.3};
  const int guess = dev(c02 ? 2 : 4, "guess");
  s.par.initial_guess_method = guess == 0 ? InitialGuessMethod::NAIVE : guess == 1 ? InitialGuessMethod::SOLVE_EQUALITY_CONSTRAINED : InitialGuessMethod::USER_PROVIDED;
  s.user = guess >= 2;
  s.par.max_iterations = c02 ? 2000 : 12;
  switch (dev(c02 ? 7 : 12, "parameter")) {
    case 0: s.par.sigma = 0.1; break;
    case 1: s.par.sigma = 0.5; break;
    case 2: s.par.sigma = 0.3; break;
    case 3: s.par.sigma = 0.1; s.par.initial_mu = 16; break;
    case 4: s.par.sigma = 0.1; s.par.initial_mu = 0.0078125; break;
    case 5: s.par.sigma = 0.1; s.par.initialize_mu_with_complementarity = true; break;
    case 6: s.par.sigma = 0.5; s.par.termination_kkt_tol = 1e-5; s.par.termination_complementarity_tol = 1e-4; break;
    case 7: s.par.sigma = 1.0; break;
    case 8: s.par.sigma = 0.1; s.par.decrease_mu_only_on_small_error = true; break;
    case 9: s.par.sigma = 0.1; s.par.termination_kkt_tol = 1e-2; s.par.termination_complementarity_tol = 1e-9; break;
    case 10: s.par.sigma = 0.1; s.par.termination_kkt_tol = 1e-9; s.par.termination_complementarity_tol = 1.0; break;
    case 11: s.par.sigma = 0.1; s.par.max_iterations = 3; break;
  }
  X.shard_point();
  Vec xlarge;
  if (p.n > 5) large(p, dev, &xlarge);
  else {
  // ---------------- objective and equality rows
  const auto& H = hessians(p.n)[dev(static_cast<int>(hessians(p.n).size()), "G")];
  p.G.assign(p.n, Vec(p.n));
  for (int i = 0; i < p.n; ++i) for (int j = 0; j < p.n; ++j) p.G[i][j] = H[i][j];
  for (int i = 0; i < p.n; ++i) {
    static const double base[5] = {-1, 2, 0.5, -0.25, 1};
    static const double alt[3] = {0, -3, 0.75};
    const int v = dev(4, "c");
    p.c.push_back(v ? alt[v - 1] : base[i]);
  }
  for (int k = 0; k < p.K; ++k) {
    const auto& R = rows(p.n, k)[dev(static_cast<int>(rows(p.n, k).size()), "A")];
    Vec r;
    for (double v : R) r.push_back(v);
    p.A.push_back(r);
    static const double bs[4] = {-0.5, 0, 1, 4};
    p.b.push_back(bs[dev(4, "b")]);
  }
  // equality rows that contradict each other or themselves: success can never be reported honestly
  if (p.K && X.want("C01")) switch (dev(p.K > 1 ? 4 : 2, "contradiction")) {
    case 1: p.A.back().assign(p.n, 0); p.b.back() = 1; break;
    case 2: p.A.back() = p.A.front(); p.b.back() = p.b.front() + 1; break;
    case 3: p.A.front() = p.A.back(); for (LD& v : p.A.front()) v *= -2; p.b.front() = -2 * p.b.back() + 0.125L; break;
  }
  // ---------------- bounds; the first one is free, so that most problems have one
  const int nk = static_cast<int>(kKinds.size());
  int c0 = X.choose(1 + p.n * nk, "bound");
  while (c0) {
    const int v = (c0 - 1) / nk, k = (c0 - 1) % nk;
    p.cons.push_back({v, kKinds[k].a, kKinds[k].b});
    if (p.cons.size() >= (T ? 6u : 5u)) break;
    c0 = dev(1 + p.n * nk, "bound");
  }
  // a full box on the five dimensional family
  if (p.n == 5 && p.cons.empty() && dev(2, "box"))
    for (int i = 0; i < 5; ++i) { p.cons.push_back({i, 1, 0.75}); p.cons.push_back({i, -1, 0.5}); }
  }
  const int M = static_cast<int>(p.cons.size());
  // ---------------- feasibility class
  Vec tmp, xstar;
  const bool big = p.n > 5;
  const bool strict = big || brute(p, &tmp, 0.05L);
  const bool feasible = strict || brute(p, &tmp, 0);
  const bool have_opt = big ? !xlarge.empty() : feasible && brute(p, &xstar);
  if (big) xstar = xlarge;
  // ---------------- units: of the objective, of the variables, of one variable, of the constraints
  int sc = 0;
  if (!c02 && p.K < p.n) {
    sc = dev(9, "scale");
    auto vars = [&](int i, LD f) {  // x_i measured in units f
      p.c[i] *= f;
      for (int j = 0; j < p.n; ++j) { p.G[i][j] *= f; p.G[j][i] *= f; }
      for (auto& r : p.A) r[i] *= f;
      for (auto& q : p.cons) if (q.v == i) q.a *= f;
      if (!xstar.empty()) xstar[i] /= f;
    };
    auto obj = [&](LD f) { for (auto& r : p.G) for (LD& g : r) g *= f; for (LD& g : p.c) g *= f; };
    switch (sc) {
      case 1: obj(1024); break;
      case 2: obj(1.0L / 1024); break;
      case 3: for (int i = 0; i < p.n; ++i) vars(i, 256); break;
      case 4: for (int i = 0; i < p.n; ++i) vars(i, 1.0L / 256); break;
      case 5: vars(p.n - 1, 64); break;
      case 6: for (auto& q : p.cons) { q.a *= 512; q.b *= 512; } break;
      case 7: for (auto& q : p.cons) { q.a /= 512; q.b /= 512; } for (int k = 0; k < p.K; ++k) { for (LD& v : p.A[k]) v *= 128; p.b[k] *= 128; } break;
      case 8: obj(1 << 20); break;
    }
  }
  // ---------------- start
  if (s.user) {
    const int pat = X.choose(4, "start");
    for (int i = 0; i < p.n; ++i) s.start.push_back(pat == 0 ? 0.0 : pat == 1 ? 0.5 : pat == 2 ? -2.0 : (i % 2 ? 3.0 : -1.0));
    for (int i = 0; i < M; ++i) s.start.push_back(guess == 2 ? (pat % 2 ? 0.5 + i : 1.0) : (pat == 1 ? 1e-3 : 4.0));
    for (int i = 0; i < p.K; ++i) s.start.push_back(pat == 0 ? 0.0 : pat == 1 ? 1.0 : -2.0);
    for (int i = 0; i < M; ++i) s.start.push_back(guess == 2 ? (pat == 2 ? 2.0 : 1.0) : (pat == 3 ? 0.0625 : 0.5 + 2.5 / (1 + i)));
  }
  // ---------------- the library's form of the problem; the upper triangle of G must not be read
  s.qp.G.resize(p.n, p.n);
  for (int i = 0; i < p.n; ++i) for (int j = 0; j < p.n; ++j) s.qp.G(i, j) = (double)p.G[i][j];
  s.qp.c.resize(p.n);
  for (int i = 0; i < p.n; ++i) s.qp.c[i] = (double)p.c[i];
  if (p.K) {
    s.qp.A_eq.resize(p.K, p.n); s.qp.b_eq.resize(p.K);
    for (int k = 0; k < p.K; ++k) { s.qp.b_eq[k] = (double)p.b[k]; for (int j = 0; j < p.n; ++j) s.qp.A_eq(k, j) = (double)p.A[k][j]; }
  }
  for (auto& c : p.cons) s.qp.constraints.emplace_back(c.v, (double)c.a, (double)c.b);
  auto F = [&](const char* prop, const std::string& key, const std::string& m) { X.fail(prop, key, m + "\n  " + describe(s)); };

  mc::Hash hh;
  // Known finding (known_findings.txt): the equality rows determine every variable and the automatic start lies on or
  // beyond a bound, so that some slack starts at its floor.  Such failures get keys of their own.
  std::string pinned;
  if (c02 && p.K == p.n && !s.user) {
    bool floored = false;
    Vec x0(p.n, 0);
    const bool eqstart = s.par.initial_guess_method == InitialGuessMethod::SOLVE_EQUALITY_CONSTRAINED;
    if (eqstart) { P q = p; q.cons.clear(); floored = !brute(q, &x0); }
    for (auto& c : p.cons) floored |= c.a * x0[c.v] + c.b <= 1e-6L;
    if (floored) pinned = "-fully-determined";
  }
  const Run full = solve(s, s.par.max_iterations);
  ++X.checks;
  X.outcome(mc::Hash().add(full.threw).add(full.threw ? 0 : (int)full.out.termination_state).add(full.threw ? 0 : full.out.iterations.size()).h);
  X.count(strict ? "strictly feasible" : feasible ? "feasible without interior" : "infeasible");
  if (full.threw) {
    X.count("threw");
    if (strict) for (const char* q : {"C01", "C02", "C03", "C04"}) F(q, "exception" + (q == std::string("C02") ? pinned : std::string()), "solver threw on a strictly feasible strictly convex QP: " + full.what.substr(0, 200));
    X.state(mc::Hash().add(1).h);
    return;
  }
  const auto& out = full.out;
  const int N = static_cast<int>(out.iterations.size());
  const bool sat = out.termination_state == QPInteriorPointTerminationState::SATISFIED_KKT_TOL;
  X.set_sample_text(describe(s) + cat(" -> ", sat ? "satisfied" : "max iterations", " after ", N));
  X.count(sat ? "satisfied" : "not satisfied");
  for (int k = 0; k < full.raw.size(); ++k) hh.d(full.raw[k]);
  X.state(hh.add(N).h);

  // ---------------- C02
  if (c02) {
    X.maximum("iterations", N);
    if (!strict) { X.trivial(); return; }
    ++X.checks;
    if (!sat) F("C02", "no-convergence" + pinned, cat("not solved after ", N, " iterations, KKT error ", out.iterations.back().kkt_final.Max(), ", complementarity ", (double)avgcomp(full.v)));
    if (M == 0 && N != 1) F("C02", "one-iteration", cat("a QP without inequality constraints took ", N, " iterations"));
    if (sat && have_opt) {
      LD d = 0;
      for (int i = 0; i < p.n; ++i) d = std::max(d, fabsl(xstar[i] - full.v.x[i]));
      X.maximum("distance to optimum", (double)d);
      if (d > 0.1L) F("C02", "wrong-optimum", cat("converged to a point at distance ", (double)d, " from the optimum"));
    }
    return;
  }

  // ---------------- C01
  if (X.want("C01")) {
    const LD tol = s.par.termination_kkt_tol;
    if (N < 1 || N > s.par.max_iterations) F("C01", "iteration-count", cat(N, " iterations recorded"));
    if (!sat && N != s.par.max_iterations) F("C01", "gave-up-early", cat("MAX_ITERATIONS after ", N, " of ", s.par.max_iterations, " iterations"));
    if (out.lagrange_multipliers.has_value() != (p.K > 0)) F("C01", "multiplier-presence", "presence of the multiplier summary");
    if (out.lagrange_multipliers && p.K && full.v.finite()) {
      LD mn = HUGE_VALL, li = 0;
      for (LD y : full.v.y) { mn = std::min(mn, y); li = std::max(li, fabsl(y)); }
      if (!same_bits(out.lagrange_multipliers->min, (double)mn) || !same_bits(out.lagrange_multipliers->l_infinity, (double)li))
        F("C01", "multiplier-summary", cat("summary (", out.lagrange_multipliers->min, ",", out.lagrange_multipliers->l_infinity, ") multipliers give (", (double)mn, ",", (double)li, ")"));
    }
    if (sat) {
      ++X.checks;
      const It& v = full.v;
      const Res r = residuals(p, v, 0);
      const LD mu = out.iterations.back().ip_outputs.mu;  // equals the barrier value except in predictor-corrector mode
      LD big = 1;
      for (LD m : r.dmag) big = std::max(big, m);
      for (LD a : v.x) big = std::max(big, 10 * fabsl(a));
      const LD eps = 1e-13L * big;
      if (nrm(r.d) > tol + eps) F("C01", "stationarity", cat("stationarity error ", (double)nrm(r.d), " reported satisfied to ", (double)tol));
      if (p.K && nrm(r.pe) > tol + eps) F("C01", "equality", cat("equality error ", (double)nrm(r.pe)));
      if (M && nrm(r.pi) > tol + eps) F("C01", "inequality", cat("slack error ", (double)nrm(r.pi)));
      const LD cp = avgcomp(v);
      if (M && cp > s.par.termination_complementarity_tol * (1 + 1e-12L)) F("C01", "complementarity", cat("average complementarity ", (double)cp, " tolerance ", s.par.termination_complementarity_tol));
      for (int i = 0; i < M; ++i) if (!(v.s[i] >= 0) || !(v.z[i] >= 0)) F("C01", "sign", cat("slack ", (double)v.s[i], " multiplier ", (double)v.z[i]));
      if (M && s.par.barrier_strategy != BarrierStrategy::PREDICTOR_CORRECTOR) {
        const LD cn = nrm(residuals(p, v, mu).comp);
        LD cb = mu;
        for (int i = 0; i < M; ++i) cb = std::max(cb, v.s[i] * v.z[i]);
        if (cn > tol + eps + 1e-7L * cb) F("C01", "centrality", cat("complementarity error ", (double)cn, " for the last barrier value"));
      }
      if (have_opt) {
        // duality gap bound on the distance to the brute-force optimum
        LD dist = 0, q = 0, gap = 0;
        Vec d(p.n);
        for (int i = 0; i < p.n; ++i) { d[i] = v.x[i] - xstar[i]; dist += d[i] * d[i]; }
        dist = sqrtl(dist);
        for (int i = 0; i < p.n; ++i) for (int j = 0; j < p.n; ++j) q += d[i] * p.G[i][j] * d[j];
        for (int i = 0; i < M; ++i) gap += v.s[i] * v.z[i];
        const LD bound = gap + nrm(r.d) * dist + nrm(v.y) * nrm(r.pe) + nrm(v.z) * nrm(r.pi) + 1e-12L * (1 + fabsl(objective(p, xstar)));
        if (objective(p, v.x) - objective(p, xstar) > bound) F("C01", "optimum", cat("objective ", (double)objective(p, v.x), " optimum ", (double)objective(p, xstar), " gap bound ", (double)bound));
        // strong convexity: (x-x*)'G(x-x*) <= gap terms + multipliers of x* times infeasibility (bounded by the tolerances)
        if (q > 2 * bound + 100 * (LD)(tol + eps) * (1 + nrm(xstar)) * 10) F("C01", "minimiser", cat("weighted distance ", (double)sqrtl(q), " from the constrained minimiser"));
        X.maximum("distance/bound", (double)(q / (2 * bound)));
        X.count("compared with brute-force optimum");
      } else if (!feasible) {
        // an infeasible problem: the certificate would have to be wrong
        F("C01", "infeasible-solved", "reported success on an infeasible problem");
      }
    }
  }
  // ---------------- iterates through prefix runs
  std::vector<It> it;  // it[k] = after k iterations; it[0] modelled
  It start;
  if (s.user) start = unpack(p, Eigen::Map<const Eigen::VectorXd>(s.start.data(), static_cast<long>(s.start.size())));
  else {
    start.x.assign(p.n, 0); start.y.assign(p.K, 0);
    if (guess == 1) {
      Mat S(p.n + p.K, Vec(p.n + p.K, 0));
      Vec r(p.n + p.K), sol;
      for (int i = 0; i < p.n; ++i) { for (int j = 0; j < p.n; ++j) S[i][j] = p.G[i][j]; r[i] = -p.c[i]; }
      for (int k = 0; k < p.K; ++k) { for (int j = 0; j < p.n; ++j) { S[p.n + k][j] = p.A[k][j]; S[j][p.n + k] = -p.A[k][j]; } r[p.n + k] = -p.b[k]; }
      if (!lu_solve(S, r, &sol)) { X.count("singular initial system"); return; }
      for (int i = 0; i < p.n; ++i) start.x[i] = sol[i];
      for (int k = 0; k < p.K; ++k) start.y[k] = sol[p.n + k];
    }
    for (auto& c : p.cons) { const LD lim = -c.b / c.a; start.x[c.v] = c.a < 0 ? std::min(start.x[c.v], lim) : std::max(start.x[c.v], lim); }
    for (auto& c : p.cons) { const LD g = c.a * start.x[c.v] + c.b; start.s.push_back(std::max(1e-9L, g)); start.z.push_back(1 / start.s.back()); }
    // a bound met with equality up to rounding: which side of the floor it lands on is a matter of rounding
    for (auto& c : p.cons) { const LD g = fabsl(c.a * start.x[c.v] + c.b); if (g > 1e-13L && g < 1e-8L) { X.count("ambiguous start"); return; } if (guess == 1 && g <= 1e-13L && g > 0) {} }
  }
  it.push_back(start);
  for (int k = 1; k <= N; ++k) {
    const Run r = k == N ? full : solve(s, k);
    if (r.threw) { F("C03", "prefix-exception", r.what); return; }
    if (static_cast<int>(r.out.iterations.size()) != k) { for (const char* q : {"C01", "C04"}) F(q, "prefix-length", cat("with a limit of ", k, " iterations ", r.out.iterations.size(), " were recorded")); return; }
    it.push_back(r.v);
    // C01: first iteration that meets both tolerances
    const bool small = r.out.iterations.back().kkt_final.Max() < s.par.termination_kkt_tol;
    const LD cp = avgcomp(r.v);
    const bool amb = near(cp, s.par.termination_complementarity_tol, 1e-12L, 0);
    const bool ok = small && cp < s.par.termination_complementarity_tol;
    const bool rep = r.out.termination_state == QPInteriorPointTerminationState::SATISFIED_KKT_TOL;
    ++X.checks;
    if (!amb && rep != ok) F("C01", "termination-rule", cat("after ", k, " iterations KKT error ", r.out.iterations.back().kkt_final.Max(), " complementarity ", (double)cp, ": reported ", rep ? "satisfied" : "not satisfied"));
    if (k < N && rep) F("C01", "stopped-late", cat("iteration ", k, " met the tolerances, the run went on to ", N));
    for (int j = 0; j < k; ++j) {
      const auto &a = r.out.iterations[j], &b = out.iterations[j];
      if (!same_bits(a.ip_outputs.mu, b.ip_outputs.mu) || !same_bits(a.kkt_final.r_dual, b.kkt_final.r_dual) || !same_bits(a.ip_outputs.alpha.primal, b.ip_outputs.alpha.primal))
        F("C04", "prefix-record", cat("record of iteration ", j, " depends on the iteration limit"));
    }
  }
  // every iterate is interior and finite
  for (int k = 1; k <= N; ++k) {
    bool pos = true;
    for (int i = 0; i < M; ++i) if (!(it[k].s[i] > 0) || !(it[k].z[i] > 0)) pos = false;
    ++X.checks;
    if (!it[k].finite() || !pos) {
      if (feasible || k <= 3) { F("C03", "interior", cat("after iteration ", k, " a slack or multiplier is not positive and finite")); return; }
      X.count("infeasible run left the representable range");
      return;
    }
    if (!feasible) {
      LD big = 0;
      for (auto* w : {&it[k].x, &it[k].s, &it[k].y, &it[k].z}) for (LD a : *w) big = std::max(big, fabsl(a));
      if (big > 1e60L) { X.count("infeasible run left the representable range"); return; }
    }
  }
  // ---------------- barrier sequence, errors (C04) and Newton steps (C03)
  LD mu = s.par.initialize_mu_with_complementarity ? avgcomp(it[0]) : s.par.initial_mu;
  const bool pc = M && s.par.barrier_strategy == BarrierStrategy::PREDICTOR_CORRECTOR;
  for (int k = 0; k < N; ++k) {
    const auto& R = out.iterations[k];
    if (!pc && X.want("C04")) {
      ++X.checks;
      if (!near(R.ip_outputs.mu, mu, 1e-9L, 0)) { F("C04", "barrier", cat("iteration ", k, " used barrier value ", R.ip_outputs.mu, ", the schedule gives ", (double)mu)); return; }
    }
    if (!pc) mu = R.ip_outputs.mu;
    for (int e = 0; e < 2; ++e) {
      const It& v = it[k + e];
      const Res r = residuals(p, v, mu);
      const KKTError& q = e ? R.kkt_final : R.kkt_initial;
      LD big = 1e-3L, cbig = mu;
      for (LD m : r.dmag) big = std::max(big, m);
      for (int i = 0; i < M; ++i) { big = std::max(big, fabsl(v.s[i])); cbig = std::max(cbig, v.s[i] * v.z[i]); }
      for (LD a : v.x) big = std::max(big, 10 * fabsl(a));
      const LD ab = 1e-13L * big * (guess == 1 && k + e == 0 ? 1e3L : 1);
      // the complementarity norm is computed from squares: sqrt of the rounding error
      const LD ac = 1e-7L * cbig;
      ++X.checks;
      const char* w = e ? "final" : "initial";
      if (!near(q.r_dual, nrm(r.d), 1e-9L, ab)) F("C04", cat("r_dual-", w), cat("iteration ", k, " ", w, " dual error ", q.r_dual, " true ", (double)nrm(r.d)));
      if (!near(q.r_primal_eq, p.K ? nrm(r.pe) : 0, 1e-9L, ab)) F("C04", cat("r_primal_eq-", w), cat("iteration ", k, " ", w, " equality error ", q.r_primal_eq, " true ", (double)nrm(r.pe)));
      if (!near(q.r_primal_ineq, M ? nrm(r.pi) : 0, 1e-9L, ab)) F("C04", cat("r_primal_ineq-", w), cat("iteration ", k, " ", w, " inequality error ", q.r_primal_ineq, " true ", (double)nrm(r.pi)));
      if (!near(q.r_comp, M ? nrm(r.comp) : 0, 1e-9L, ac)) F("C04", cat("r_comp-", w), cat("iteration ", k, " ", w, " complementarity error ", q.r_comp, " true ", (double)nrm(r.comp), " barrier ", (double)mu));
    }
    // the step
    const AlphaValues& al = R.ip_outputs.alpha;
    ++X.checks;
    if (!(al.primal > 0 && al.primal <= 1 && al.dual > 0 && al.dual <= 1)) F("C03", "alpha-range", cat("iteration ", k, " step sizes ", al.primal, " ", al.dual));
    It nt, aff;
    LD growth = 0;
    bool have = true;
    LD mu_used = M ? (LD)R.ip_outputs.mu : 0;
    if (pc) {
      have = newton(p, it[k], 0, nullptr, &aff, &growth);
      if (have) {
        Vec soc(M);
        for (int i = 0; i < M; ++i) soc[i] = aff.s[i] * aff.z[i];
        have = newton(p, it[k], mu_used, &soc, &nt, &growth);
      }
    } else have = newton(p, it[k], mu_used, nullptr, &nt, &growth);
    if (!have) { X.count("ill-conditioned state"); }
    else {
      // componentwise: new = old + alpha * step; errors of the explicit inverse scale with the conditioning
      LD sc = 0;
      for (auto* w : {&nt.x, &nt.s}) for (LD a : *w) sc = std::max(sc, fabsl(a));
      LD sd = 0;
      for (auto* w : {&nt.y, &nt.z}) for (LD a : *w) sd = std::max(sd, fabsl(a));
      LD xs = 1e-3L, ys = 1e-3L;
      for (LD a : it[k].x) xs = std::max(xs, fabsl(a));
      for (LD a : it[k].s) xs = std::max(xs, fabsl(a));
      for (LD a : it[k].y) ys = std::max(ys, fabsl(a));
      for (LD a : it[k].z) ys = std::max(ys, fabsl(a));
      LD ratio = 1;  // largest z/s: the reduced Hessian's scale
      for (int i = 0; i < M; ++i) ratio = std::max(ratio, it[k].z[i] / it[k].s[i]);
      if (sc) {  // in scaled units, relative to the objective's curvature
        LD gmin = HUGE_VALL;
        for (int i = 0; i < p.n; ++i) gmin = std::min(gmin, p.G[i][i]);
        for (int i = 0; i < M; ++i) ratio = std::max(ratio, p.cons[i].a * p.cons[i].a * it[k].z[i] / it[k].s[i] / gmin);
      }
      LD raug = 0;  // right-hand side of the eliminated system: its rounding enters the step
      {
        const Res r0 = residuals(p, it[k], mu_used);
        for (LD a : r0.d) raug = std::max(raug, fabsl(a));
        for (int i = 0; i < M; ++i) raug = std::max(raug, std::max(it[k].z[i] / it[k].s[i] * fabsl(r0.pi[i]), (fabsl(r0.comp[i]) + (pc ? fabsl(aff.s[i] * aff.z[i]) : 0)) / it[k].s[i] + it[k].z[i]));
      }
      if (ratio > (pc ? 1e8L : 1e12L)) X.count("ill-conditioned state");
      else {
        const LD tolp = (1e-10L + 1e-14L * ratio) * (sc + xs) + 1e-13L * raug, told = (1e-10L + 1e-14L * ratio) * (sd + ys) + ratio * 10 * tolp;
        auto cmp = [&](const Vec& a, const Vec& b, const Vec& d, LD alpha, LD tol, const char* nm) {
          for (std::size_t i = 0; i < a.size(); ++i) {
            const LD e = fabsl(b[i] - (a[i] + alpha * d[i]));
            X.maximum(cat("step error/tolerance ", nm), (double)(e / tol));
            if (e > tol) F("C03", cat("newton-", nm), cat("iteration ", k, ": ", nm, "[", i, "] moved by ", (double)(b[i] - a[i]), ", alpha ", (double)alpha, " times the Newton step is ", (double)(alpha * d[i])));
          }
        };
        ++X.checks;
        cmp(it[k].x, it[k + 1].x, nt.x, al.primal, tolp, "x");
        cmp(it[k].s, it[k + 1].s, nt.s, al.primal, tolp, "s");
        cmp(it[k].y, it[k + 1].y, nt.y, al.dual, told, "y");
        cmp(it[k].z, it[k + 1].z, nt.z, al.dual, told, "z");
        bool amb = false;
        const LD rel = 1e-9L + 10 * std::max(tolp / (sc + xs), told / (sd + ys));
        const LD ap = step_length(it[k].s, nt.s, 0.995L, rel, 10 * tolp, &amb), ad = step_length(it[k].z, nt.z, 0.995L, rel, 10 * told, &amb);
        if (rel > 1e-4L) amb = true;
        if (!amb) {
          ++X.checks;
          if (!near(al.primal, ap, 1e-6L + 10 * rel * (sc + xs) / sc, 0)) F("C03", "alpha-primal", cat("iteration ", k, " primal step size ", al.primal, " rule gives ", (double)ap));
          if (!near(al.dual, ad, 1e-6L + 10 * rel * (sd + ys) / sd, 0)) F("C03", "alpha-dual", cat("iteration ", k, " dual step size ", al.dual, " rule gives ", (double)ad));
        } else X.count("ambiguous step size");
        if (pc && X.want("C04")) {
          bool amb2 = false;
          const LD pp = step_length(it[k].s, aff.s, 1, rel, 10 * tolp, &amb2), pd = step_length(it[k].z, aff.z, 1, rel, 10 * told, &amb2);
          if (!amb2 && rel <= 1e-4L) {
            LD ma = 0, mabs = 0;
            for (int i = 0; i < M; ++i) { ma += (it[k].s[i] + pp * aff.s[i]) * (it[k].z[i] + pd * aff.z[i]); mabs += (fabsl(it[k].s[i]) + fabsl(aff.s[i])) * (fabsl(it[k].z[i]) + fabsl(aff.z[i])); }
            ma /= M; mabs /= M;
            ++X.checks;
            if (!near(R.ip_outputs.alpha_probe.primal, pp, 1e-6L + 1e-12L * ratio, 0) || !near(R.ip_outputs.alpha_probe.dual, pd, 1e-6L + 1e-12L * ratio, 0))
              F("C04", "alpha-probe", cat("iteration ", k, " probe step sizes ", R.ip_outputs.alpha_probe.primal, ",", R.ip_outputs.alpha_probe.dual, " true ", (double)pp, ",", (double)pd));
            if (!near(R.ip_outputs.mu_affine, ma, 1e-6L, (1e-9L + 1e-13L * ratio) * mabs + 10 * (tolp * (ys + sd) + told * (xs + sc))))
              F("C04", "mu-affine", cat("iteration ", k, " recorded affine complementarity ", R.ip_outputs.mu_affine, ", the affine step reaches ", (double)ma));
            const LD comp = avgcomp(it[k]), sg = powl((LD)R.ip_outputs.mu_affine / comp, 3);
            if (!near(R.ip_outputs.mu, sg * comp, 1e-6L, 1e-300L)) F("C04", "mu-corrector", cat("iteration ", k, " corrector barrier ", R.ip_outputs.mu, " expected ", (double)(sg * comp)));
          }
        }
      }
    }
    if (!pc && (!std::isnan(R.ip_outputs.mu_affine) || !std::isnan(R.ip_outputs.alpha_probe.primal) || !std::isnan(R.ip_outputs.alpha_probe.dual)))
      F("C04", "probe-presence", cat("iteration ", k, " records probe values outside predictor-corrector mode"));
    // next barrier value
    const LD err = R.kkt_final.Max();
    if (near(err, mu, 1e-9L, 0) && s.par.decrease_mu_only_on_small_error) {
      // rounding decides: adopt what the next record says
      X.count("ambiguous barrier update");
      if (k + 1 < N && !pc) mu = out.iterations[k + 1].ip_outputs.mu;
      if (pc) return;
      continue;
    }
    if (err <= mu || !s.par.decrease_mu_only_on_small_error)
      mu = s.par.barrier_strategy == BarrierStrategy::FIXED_DECREASE ? mu * s.par.sigma : s.par.sigma * avgcomp(it[k + 1]);
    mc::Hash st;
    for (LD a : it[k + 1].x) st.d((double)a);
    for (LD a : it[k + 1].s) st.d((double)a);
    for (LD a : it[k + 1].z) st.d((double)a);
    X.state(st.d((double)mu).h);
  }
}

int main(int argc, char** argv) {
  X.parse(argc, argv);
  return X.run(body);
}
