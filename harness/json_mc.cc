// C23: outputs of every structure, with special numbers in every field, through JSON and back.
// C24: every damaged document within a mutation bound, judged by an independent reading of the format.
#include <mini_opt/nonlinear.hpp>
#include <mini_opt/serialization.hpp>
#include <nlohmann/json.hpp>
#include "mc.hpp"
#include "nls_common.hpp"
#include "outputs_gen.hpp"
using namespace mini_opt;
using mc::X;
using mc::cat;
using nlohmann::json;
namespace {
// ================================================================ comparison
struct Cmp {
  bool text;  // went through text: what text cannot represent comes back as not-a-number
  std::string bad;
  void num(const char* what, double a, double b) {
    if (!bad.empty()) return;
    const bool ok = std::isfinite(a) ? mc::same_bits(a, b) : std::isnan(a) || text ? std::isnan(b) : (b == a || std::isnan(b));
    if (!ok) { std::ostringstream s; s.precision(17); s << what << ": " << a << " came back as " << b; bad = s.str(); }
  }
  template <class T> bool same(const char* what, const T& a, const T& b) {
    if (bad.empty() && !(a == b)) bad = cat(what, ": ", a, " came back as ", b);
    return bad.empty();
  }
  void kkt(const char* w, const KKTError& a, const KKTError& b) {
    num(cat(w, ".r_dual").c_str(), a.r_dual, b.r_dual);
    num(cat(w, ".r_comp").c_str(), a.r_comp, b.r_comp);
    num(cat(w, ".r_primal_eq").c_str(), a.r_primal_eq, b.r_primal_eq);
    num(cat(w, ".r_primal_ineq").c_str(), a.r_primal_ineq, b.r_primal_ineq);
  }
  void errors(const char* w, const Errors& a, const Errors& b) { num(cat(w, ".f").c_str(), a.f, b.f); num(cat(w, ".equality").c_str(), a.equality, b.equality); }
  void iteration(const NLSIteration& a, const NLSIteration& b) {
    same("iteration", a.iteration, b.iteration);
    same("optimizer_state", a.optimizer_state, b.optimizer_state);
    num("lambda", a.lambda, b.lambda);
    errors("errors_initial", a.errors_initial, b.errors_initial);
    if (same("kind of QP outcome", a.qp_outputs.index(), b.qp_outputs.index())) {
      if (a.qp_outputs.index() == 0) same("null-space outcome", std::get<0>(a.qp_outputs), std::get<0>(b.qp_outputs));
      else {
        auto &x = std::get<1>(a.qp_outputs), &y = std::get<1>(b.qp_outputs);
        same("QP termination", x.termination_state, y.termination_state);
        same("multipliers present", x.lagrange_multipliers.has_value(), y.lagrange_multipliers.has_value());
        if (same("number of QP iterations", x.iterations.size(), y.iterations.size()))
          for (std::size_t i = 0; i < x.iterations.size(); ++i) {
            auto &u = x.iterations[i], &v = y.iterations[i];
            kkt("kkt_initial", u.kkt_initial, v.kkt_initial);
            kkt("kkt_final", u.kkt_final, v.kkt_final);
            num("mu", u.ip_outputs.mu, v.ip_outputs.mu);
            num("alpha.primal", u.ip_outputs.alpha.primal, v.ip_outputs.alpha.primal);
            num("alpha.dual", u.ip_outputs.alpha.dual, v.ip_outputs.alpha.dual);
            num("alpha_probe.primal", u.ip_outputs.alpha_probe.primal, v.ip_outputs.alpha_probe.primal);
            num("alpha_probe.dual", u.ip_outputs.alpha_probe.dual, v.ip_outputs.alpha_probe.dual);
            num("mu_affine", u.ip_outputs.mu_affine, v.ip_outputs.mu_affine);
          }
        if (bad.empty() && x.lagrange_multipliers) {
          num("multipliers.min", x.lagrange_multipliers->min, y.lagrange_multipliers->min);
          num("multipliers.l_infinity", x.lagrange_multipliers->l_infinity, y.lagrange_multipliers->l_infinity);
        }
      }
    }
    if (same("eigenvalues present", a.qp_eigenvalues.has_value(), b.qp_eigenvalues.has_value()) && a.qp_eigenvalues) {
      num("eig min", a.qp_eigenvalues->min, b.qp_eigenvalues->min);
      num("eig max", a.qp_eigenvalues->max, b.qp_eigenvalues->max);
      num("eig abs_min", a.qp_eigenvalues->abs_min, b.qp_eigenvalues->abs_min);
    }
    num("d_f", a.directional_derivatives.d_f, b.directional_derivatives.d_f);
    num("d_equality", a.directional_derivatives.d_equality, b.directional_derivatives.d_equality);
    num("penalty", a.penalty, b.penalty);
    same("step_result", a.step_result, b.step_result);
    if (same("number of steps", a.line_search_steps.size(), b.line_search_steps.size()))
      for (std::size_t i = 0; i < a.line_search_steps.size(); ++i) {
        num("alpha", a.line_search_steps[i].alpha, b.line_search_steps[i].alpha);
        errors("step", a.line_search_steps[i].errors, b.line_search_steps[i].errors);
      }
  }
  void all(const NLSSolverOutputs& a, const NLSSolverOutputs& b) {
    same("termination_state", a.termination_state, b.termination_state);
    if (same("number of iterations", a.iterations.size(), b.iterations.size()))
      for (std::size_t i = 0; i < a.iterations.size(); ++i) iteration(a.iterations[i], b.iterations[i]);
  }
};
std::string compare(const NLSSolverOutputs& a, const NLSSolverOutputs& b, bool text) { Cmp c{text, {}}; c.all(a, b); return c.bad; }

// ================================================================ C23
void round_trip(const NLSSolverOutputs& o, const std::string& what) {
  try {
    const json j = o;
    ++X.checks;
    if (auto d = compare(o, j.get<NLSSolverOutputs>(), false); !d.empty()) X.fail("C23", "direct", cat(d, "\n  ", what));
    for (int indent : {-1, 2}) {
      const std::string text = j.dump(indent);
      const NLSSolverOutputs b = json::parse(text).get<NLSSolverOutputs>();
      ++X.checks;
      if (auto d = compare(o, b, true); !d.empty()) X.fail("C23", "text", cat(d, "\n  ", what));
      // a second trip changes nothing any more
      const std::string again = json(b).dump(indent);
      ++X.checks;
      if (again != text) X.fail("C23", "second-trip", cat("the second trip through text differs\n  ", what));
    }
    // writing into a document that already holds something else
    json used = {{"termination_state", 5}, {"iterations", {1, 2}}};
    used = o;
    if (used != j && used.dump() != j.dump()) X.fail("C23", "reused-document", what);
  } catch (const std::exception& e) {
    X.fail("C23", "refused", cat("the outputs could not be read back: ", e.what(), "\n  ", what));
  }
}
Problem make_problem(int kind) {
  Problem p;
  p.dimension = 2;
  p.costs.push_back(MakeResidual<2, 2>({0, 1}, [](const Eigen::Vector2d& v, Eigen::Matrix2d* J) {
    if (J) *J << 1, 0, -20 * v[0], 10;
    return Eigen::Vector2d(v[0] - 1, 10 * (v[1] - v[0] * v[0]));
  }));
  if (kind & 1) p.equality_constraints.push_back(MakeResidual<1, 2>({0, 1}, [](const Eigen::Vector2d& v, Eigen::Matrix<double, 1, 2>* J) {
    if (J) *J << 2 * v[0], 2 * v[1];
    return Eigen::Matrix<double, 1, 1>(v.squaredNorm() - 2);
  }));
  if (kind & 2) { p.inequality_constraints.push_back(Var(0) <= 0.75); p.inequality_constraints.push_back(Var(1) >= -2.0); }
  return p;
}
void solver_outputs() {
  const int kind = X.choose(4, "problem");
  ConstrainedNonlinearLeastSquares::Params p;
  p.max_iterations = X.choose(X.thorough() ? 13 : 7, "iterations");
  p.log_qp_eigenvalues = X.choose(2, "eigenvalues");
  p.line_search_strategy = X.choose(2, "line search") ? LineSearchStrategy::ARMIJO_BACKTRACK : LineSearchStrategy::POLYNOMIAL_APPROXIMATION;
  p.lambda_initial = X.choose(2, "damping") ? 0.01 : 0;
  p.max_qp_iterations = 1 + 4 * X.choose(2, "QP iterations");
  const int start = X.choose(4, "start");
  X.shard_point();
  const Problem prob = make_problem(kind);
  ConstrainedNonlinearLeastSquares s(&prob);
  Eigen::VectorXd x(2);
  const double st[4][2] = {{0.5, 0.5}, {-1.2, 1}, {0, 0}, {1e160, -1e160}};
  x << st[start][0], st[start][1];
  const std::string what = cat("a run of problem ", kind, " start ", start, " iterations ", p.max_iterations);
  try {
    const NLSSolverOutputs o = s.Solve(p, x);
    round_trip(o, what);
    X.state(mc::Hash().add(static_cast<int>(o.termination_state)).add(o.iterations.size()).add(kind).add(start).h);
    X.outcome(mc::Hash().add(static_cast<int>(o.termination_state)).add(o.iterations.size()).add(kind).h);
    X.count("outputs of real runs");
  } catch (const std::exception&) { X.trivial(); }
}
std::string describe(const NLSSolverOutputs& o) {
  std::ostringstream s;
  s.precision(17);
  s << o.iterations.size() << " iterations, " << o.termination_state << "; " << X.describe_path();
  return s.str();
}
void c23() {
  const int f = X.choose(2, "source");
  if (f) { solver_outputs(); return; }
  const NLSSolverOutputs o = gen::outputs(X.thorough() ? 2 : 1, X.thorough() ? 2 : 1);
  const std::string what = describe(o);
  round_trip(o, what);
  X.state(mc::Hash().add(json(o).dump().size()).add(o.iterations.size()).h);
  mc::Hash h;
  for (auto& it : o.iterations) h.add(it.qp_outputs.index()).add(it.line_search_steps.size()).add(it.qp_eigenvalues.has_value()).add(static_cast<int>(it.step_result));
  X.outcome(h.h);
  X.count(gen::g_values ? "outputs with special numbers" : "structures");
  X.set_sample_text(cat(o.iterations.size(), " iterations"));
}

// ================================================================ C24: an independent reading of the format
struct Bad {};
const json& field(const json& j, const char* k) {
  if (!j.is_object()) throw Bad{};
  auto it = j.find(k);
  if (it == j.end()) throw Bad{};
  return *it;
}
double rd(const json& j, const char* k) {
  const json& v = field(j, k);
  if (v.is_null()) return gen::kNaN;
  if (!v.is_number()) throw Bad{};
  return v.is_number_float() ? v.get_ref<const double&>() : v.is_number_unsigned() ? static_cast<double>(v.get_ref<const std::uint64_t&>()) : static_cast<double>(v.get_ref<const std::int64_t&>());
}
template <class E> E re(const json& v, std::initializer_list<const char*> names) {
  if (!v.is_string()) throw Bad{};
  int i = 0;
  for (auto n : names) { if (v.get_ref<const std::string&>() == n) return static_cast<E>(i); ++i; }
  throw Bad{};
}
bool g_unclear = false;  // an integral number written with a fraction: not judged
int ri(const json& j, const char* k) {
  const json& v = field(j, k);
  if (v.is_number_float()) {
    const double d = v.get_ref<const double&>();
    if (std::trunc(d) == d && std::abs(d) < 2147483648.0) { g_unclear = true; return static_cast<int>(d); }
    throw Bad{};
  }
  if (v.is_number_unsigned()) { const auto u = v.get_ref<const std::uint64_t&>(); if (u > 2147483647u) throw Bad{}; return static_cast<int>(u); }
  if (v.is_number_integer()) { const auto u = v.get_ref<const std::int64_t&>(); if (u > 2147483647ll || u < -2147483648ll) throw Bad{}; return static_cast<int>(u); }
  throw Bad{};
}
const json& list(const json& j, const char* k) { const json& v = field(j, k); if (!v.is_array()) throw Bad{}; return v; }
Errors rerr(const json& v) { Errors e; e.f = rd(v, "f"); e.equality = rd(v, "equality"); return e; }
KKTError rkkt(const json& v) { KKTError k; k.r_dual = rd(v, "r_dual"); k.r_comp = rd(v, "r_comp"); k.r_primal_eq = rd(v, "r_primal_eq"); k.r_primal_ineq = rd(v, "r_primal_ineq"); return k; }
AlphaValues ralpha(const json& v) { AlphaValues a; a.primal = rd(v, "primal"); a.dual = rd(v, "dual"); return a; }
QPInteriorPointSolverOutputs rip(const json& v) {
  QPInteriorPointSolverOutputs o;
  o.termination_state = re<QPInteriorPointTerminationState>(field(v, "termination_state"), {"SATISFIED_KKT_TOL", "MAX_ITERATIONS"});
  for (const json& e : list(v, "iterations")) {
    QPInteriorPointIteration it;
    it.kkt_initial = rkkt(field(e, "kkt_initial"));
    it.kkt_final = rkkt(field(e, "kkt_final"));
    const json& ip = field(e, "ip_outputs");
    it.ip_outputs.mu = rd(ip, "mu");
    it.ip_outputs.alpha = ralpha(field(ip, "alpha"));
    it.ip_outputs.alpha_probe = ralpha(field(ip, "alpha_probe"));
    it.ip_outputs.mu_affine = rd(ip, "mu_affine");
    o.iterations.push_back(it);
  }
  const json& l = field(v, "lagrange_multipliers");
  if (!l.is_null()) { QPLagrangeMultipliers m; m.min = rd(l, "min"); m.l_infinity = rd(l, "l_infinity"); o.lagrange_multipliers = m; }
  return o;
}
NLSSolverOutputs read(const json& j) {
  const auto term = re<NLSTerminationState>(field(j, "termination_state"), {"MAX_ITERATIONS", "SATISFIED_ABSOLUTE_TOL", "SATISFIED_RELATIVE_TOL", "SATISFIED_FIRST_ORDER_TOL", "MAX_LAMBDA", "QP_INDEFINITE", "USER_CALLBACK"});
  std::vector<NLSIteration> its;
  for (const json& e : list(j, "iterations")) {
    const json& q = field(e, "qp_outputs");
    std::variant<QPNullSpaceTerminationState, QPInteriorPointSolverOutputs> qp;
    if (q.is_object()) qp = rip(q); else qp = re<QPNullSpaceTerminationState>(q, {"SUCCESS", "NOT_POSITIVE_DEFINITE"});
    std::optional<QPEigenvalues> eig;
    if (const json& v = field(e, "qp_eigenvalues"); !v.is_null()) { QPEigenvalues w; w.min = rd(v, "min"); w.max = rd(v, "max"); w.abs_min = rd(v, "abs_min"); eig = w; }
    std::vector<LineSearchStep> steps;
    for (const json& t : list(e, "line_search_steps")) { LineSearchStep w; w.alpha = rd(t, "alpha"); w.errors = rerr(field(t, "errors")); steps.push_back(w); }
    DirectionalDerivatives d;
    d.d_f = rd(field(e, "directional_derivatives"), "d_f");
    d.d_equality = rd(field(e, "directional_derivatives"), "d_equality");
    its.emplace_back(ri(e, "iteration"), re<OptimizerState>(field(e, "optimizer_state"), {"NOMINAL", "ATTEMPTING_RESTORE_LM"}), rd(e, "lambda"), rerr(field(e, "errors_initial")), qp, eig, d, rd(e, "penalty"),
                     re<StepSizeSelectionResult>(field(e, "step_result"), {"SUCCESS", "MAX_ITERATIONS", "FIRST_ORDER_SATISFIED", "POSITIVE_DERIVATIVE", "FAILURE_NON_FINITE_COST", "FAILURE_INVALID_ALPHA"}), steps);
  }
  return NLSSolverOutputs(term, its);
}
void judge(const json& j, const std::string& what) {
  g_unclear = false;
  std::optional<NLSSolverOutputs> want;
  try { want.emplace(read(j)); } catch (const Bad&) {}
  std::optional<NLSSolverOutputs> got;
  std::string why;
  bool other = false;
  try { got.emplace(j.get<NLSSolverOutputs>()); }
  catch (const std::exception& e) { why = e.what(); }
  catch (...) { other = true; }
  ++X.checks;
  if (other) X.fail("C24", "wrong-exception", cat("an exception not derived from std::exception\n  ", what));
  else if (!want && got) X.fail("C24", "accepted", cat("a damaged document was read as ", got->iterations.size(), " iterations, ", got->termination_state, "\n  ", what));
  else if (want && !got && !g_unclear) X.fail("C24", "refused", cat("a sound document was refused: ", why, "\n  ", what));
  else if (want && got) {
    if (auto d = compare(*want, *got, false); !d.empty()) X.fail("C24", "misread", cat(d, "\n  ", what));
  }
  X.count(want ? (g_unclear ? "documents not judged" : "sound documents") : "damaged documents");
  X.outcome(mc::Hash().add(want.has_value()).add(std::hash<std::string>()(why.substr(0, 60))).h);
}
// every value of the document, in order
void visit(json& j, const std::string& path, std::vector<std::pair<std::string, json*>>& out) {
  out.push_back({path, &j});
  if (j.is_object()) for (auto it = j.begin(); it != j.end(); ++it) visit(it.value(), path + "/" + it.key(), out);
  else if (j.is_array()) for (std::size_t i = 0; i < j.size(); ++i) visit(j[i], path + "/" + std::to_string(i), out);
}
const std::vector<json>& replacements() {
  static const std::vector<json> v = [] {
    std::vector<json> r;
    for (const char* t : {"null", "true", "false", "5", "-1", "1.5", "2.0", "1e300", "4294967296", "18446744073709551615", "-2147483649", "\"\"", "\"SUCCESS\"", "\"NOMINAL\"", "\"MAX_ITERATIONS\"", "\"success\"", "\"SUCCESS \"", "\"QP_INDEFINITE\"", "\"0\"",
                          "[]", "{}", "[1]", "[null]", "[\"SUCCESS\"]", "{\"termination_state\": \"SUCCESS\"}", "{\"termination_state\": \"MAX_ITERATIONS\", \"iterations\": []}", "{\"iterations\": []}", "{\"a\": 1}"}) r.push_back(json::parse(t));
    return r;
  }();
  return v;
}
const std::vector<json>& documents() {
  static const std::vector<json> v = [] {
    std::vector<json> r;
    gen::g_values = false;
    gen::Slots s;
    using gen::Shape;
    const std::vector<std::vector<Shape>> shapes = {{{0, 2 + 1 + 2 + 8, 1, 0, 1}}, {{1, 1, 0, 3, 2}}, {{0, 0, 1, 5, 0}, {0, 2 + 6, 0, 1, 1}}, {}};
    for (std::size_t k = 0; k < shapes.size(); ++k) {
      std::vector<NLSIteration> its;
      for (std::size_t i = 0; i < shapes[k].size(); ++i) its.push_back(gen::iteration(shapes[k][i], static_cast<int>(i), s));
      r.push_back(json::parse(json(NLSSolverOutputs(static_cast<NLSTerminationState>((k * 2 + 1) % 7), its)).dump()));
    }
    return r;
  }();
  return v;
}
void mutations() {
  const int d = X.choose(static_cast<int>(documents().size()), "document");
  json j = documents()[d];
  std::string what = cat("document ", d);
  const int n = X.thorough() ? 3 : 2;
  int last = -1;
  for (int m = 0; m < n; ++m) {
    std::vector<std::pair<std::string, json*>> at;
    visit(j, "", at);
    // a third mutation only of the small documents
    if (m == 2 && at.size() > 30) break;
    if (m == 1) X.shard_point();
    if (m && X.choose(2, "another") == 0) break;
    // mutations at ascending positions: the rest is the same in another order
    const int lo = last + 1, cnt = static_cast<int>(at.size()) - lo;
    if (cnt <= 0) break;
    const int p = lo + X.choose(cnt, "where");
    const bool member = p > 0;
    const auto& reps = replacements();
    // remove | rename | replace
    const int k = X.choose((member ? 2 : 0) + (m == 0 ? static_cast<int>(reps.size()) : X.thorough() ? 12 : 3), "how") + (member ? 0 : 2);
    const std::string path = at[p].first;
    if (k < 2) {
      const auto slash = path.rfind('/');
      json& parent = j.at(json::json_pointer(path.substr(0, slash)));
      const std::string key = path.substr(slash + 1);
      if (parent.is_array()) { if (k == 1) X.skip(); parent.erase(std::stoul(key)); what += cat(", without ", path); }
      else if (k == 0) { parent.erase(key); what += cat(", without ", path); }
      else { json v = parent[key]; parent.erase(key); parent[key + "_"] = v; what += cat(", ", path, " renamed"); }
    } else {
      *at[p].second = reps[k - 2];
      what += cat(", ", path.empty() ? "/" : path, " = ", reps[k - 2].dump());
    }
    last = p;
  }
  judge(j, what);
  X.state(mc::Hash().add(std::hash<std::string>()(what)).h);
  X.set_sample_text(what);
}
void texts() {
  const int d = X.choose(static_cast<int>(documents().size()), "document");
  static std::map<int, std::string> cache;
  std::string& t = cache[d];
  if (t.empty()) t = documents()[d].dump();
  const int p = X.choose(static_cast<int>(t.size()), "position");
  static const std::string bytes = "\0{}[],:\"0-x\xff";
  const int k = X.choose(3 + static_cast<int>(bytes.size()), "damage");
  X.shard_point();
  std::string s = t;
  if (k == 0) s.resize(p);
  else if (k == 1) s.erase(p, 1);
  else if (k == 2) s.insert(p, 1, s[p]);
  else s[p] = bytes[k - 3];
  json j;
  bool parsed = true;
  try { j = json::parse(s); } catch (const json::parse_error&) { parsed = false; }
  ++X.checks;
  const std::string what = cat("document ", d, " with damage ", k, " at byte ", p);
  if (parsed) judge(j, what); else X.count("texts refused by the parser");
  X.state(mc::Hash().add(d).add(p).add(k).h);
  X.set_sample_text(what);
}
void c24() {
  if (X.choose(2, "kind") == 0) mutations(); else texts();
}
void body() {
  X.deviations_left = 1 << 20;
  if (X.want("C23")) c23(); else c24();
}
}  // namespace
int main(int argc, char** argv) {
  X.parse(argc, argv);
  documents();
  return X.run(body);
}
