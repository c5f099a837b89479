// C25: the summary text, counters and names of outputs of every structure, with special numbers in every field.
// The text is read back token by token (numbers and upper-case words) instead of being compared verbatim.
#include <mini_opt/nonlinear.hpp>
#include <mini_opt/structs.hpp>
#include <fmt/format.h>
#include <iomanip>
#include "mc.hpp"
#include "nls_common.hpp"
#include "outputs_gen.hpp"
using namespace mini_opt;
using mc::X;
using mc::cat;
namespace {
struct Tok { bool word; std::string s; double v; };
std::vector<Tok> scan(const std::string& line) {
  std::vector<Tok> r;
  for (std::size_t i = 0; i < line.size();) {
    const char c = line[i];
    const bool sign = (c == '-' || c == '+') && i + 1 < line.size() && (std::isdigit(line[i + 1]) || line.compare(i + 1, 3, "nan") == 0 || line.compare(i + 1, 3, "inf") == 0);
    if (std::isdigit(c) || (sign && std::isdigit(line[i + 1]))) {
      char* e;
      const double v = std::strtod(line.c_str() + i, &e);
      const std::size_t n = e - (line.c_str() + i);
      r.push_back({false, line.substr(i, n), v});
      i += n;
    } else if (std::isalpha(c) || sign) {
      std::size_t b = i, e = i + (sign ? 1 : 0);
      while (e < line.size() && (std::isalnum(line[e]) || line[e] == '_')) ++e;
      const std::string w = line.substr(b, e - b), u = sign ? w.substr(1) : w;
      if (u == "nan" || u == "inf") r.push_back({false, w, u == "nan" ? gen::kNaN : w[0] == '-' ? -gen::kInf : gen::kInf});
      else {
        bool up = w.size() >= 2;
        for (char k : w) up &= std::isupper(k) || std::isdigit(k) || k == '_';
        if (up) r.push_back({true, w, 0});
      }
      i = e;
    } else ++i;
  }
  return r;
}
// what a line must say
struct Want { bool word; std::string s; double v; double abs; };
Want W(std::string s) { return {true, std::move(s), 0, 0}; }
Want N(double v, double abs = 0) { return {false, "", v, abs}; }
using Line = std::vector<Want>;
bool close(double want, double got, double abs) {
  if (std::isnan(want)) return std::isnan(got);
  if (std::isinf(want)) return want == got;
  return std::abs(want - got) <= abs + 1e-14 * std::abs(want);
}
std::string show(const Line& l) {
  std::ostringstream s;
  s.precision(17);
  for (auto& w : l) { if (w.word) s << ' ' << w.s; else s << ' ' << w.v; }
  return s.str();
}
bool matches(const Line& l, const std::vector<Tok>& t) {
  if (l.size() != t.size()) return false;
  for (std::size_t i = 0; i < l.size(); ++i) {
    if (l[i].word != t[i].word) return false;
    if (l[i].word ? l[i].s != t[i].s : !close(l[i].v, t[i].v, l[i].abs)) return false;
  }
  return true;
}
const char* nm(OptimizerState s) { static const char* const n[] = {"NOMINAL", "ATTEMPTING_RESTORE_LM"}; return n[static_cast<int>(s)]; }
const char* nm(QPNullSpaceTerminationState s) { static const char* const n[] = {"SUCCESS", "NOT_POSITIVE_DEFINITE"}; return n[static_cast<int>(s)]; }
const char* nm(QPInteriorPointTerminationState s) { static const char* const n[] = {"SATISFIED_KKT_TOL", "MAX_ITERATIONS"}; return n[static_cast<int>(s)]; }
const char* nm(StepSizeSelectionResult s) { static const char* const n[] = {"SUCCESS", "MAX_ITERATIONS", "FIRST_ORDER_SATISFIED", "POSITIVE_DERIVATIVE", "FAILURE_NON_FINITE_COST", "FAILURE_INVALID_ALPHA"}; return n[static_cast<int>(s)]; }
const char* nm(NLSTerminationState s) { static const char* const n[] = {"MAX_ITERATIONS", "SATISFIED_ABSOLUTE_TOL", "SATISFIED_RELATIVE_TOL", "SATISFIED_FIRST_ORDER_TOL", "MAX_LAMBDA", "QP_INDEFINITE", "USER_CALLBACK"}; return n[static_cast<int>(s)]; }
void detail(const QPInteriorPointIteration& q, std::vector<Line>& out) {
  auto& a = q.kkt_initial; auto& b = q.kkt_final;
  out.push_back({N(a.Max()), N(b.Max()), N(q.ip_outputs.mu), N(q.ip_outputs.alpha.primal), N(q.ip_outputs.alpha.dual)});
  if (!std::isnan(q.ip_outputs.mu_affine)) out.push_back({N(q.ip_outputs.alpha_probe.primal), N(q.ip_outputs.alpha_probe.dual), N(q.ip_outputs.mu_affine)});
  out.push_back({W("KKT"), W("L2")});
  out.push_back({N(a.r_dual), N(b.r_dual)});
  out.push_back({N(a.r_comp), N(b.r_comp)});
  out.push_back({N(a.r_primal_eq), N(b.r_primal_eq)});
  out.push_back({N(a.r_primal_ineq), N(b.r_primal_ineq)});
}
double total(const Errors& e, double penalty) { return e.f + penalty * e.equality; }
void expect(const NLSIteration& it, bool qp, std::vector<Line>& out) {
  out.push_back({N(it.iteration), W(nm(it.optimizer_state)), N(it.lambda)});
  out.push_back({N(0), N(it.errors_initial.f), N(0), N(it.errors_initial.equality), N(total(it.errors_initial, it.penalty))});
  if (it.qp_eigenvalues) out.push_back({N(it.qp_eigenvalues->min), N(it.qp_eigenvalues->max), N(it.qp_eigenvalues->abs_min)});
  out.push_back({N(it.penalty, 1e-15)});
  const auto* ip = std::get_if<QPInteriorPointSolverOutputs>(&it.qp_outputs);
  if (ip) out.push_back({W("QP"), W("IP"), W(nm(ip->termination_state)), N(static_cast<double>(ip->iterations.size()))});
  else out.push_back({W("QP"), W(nm(std::get<QPNullSpaceTerminationState>(it.qp_outputs)))});
  out.push_back({N(it.directional_derivatives.d_f), N(it.directional_derivatives.d_equality)});
  out.push_back({W(nm(it.step_result))});
  double i = 0;
  for (auto& s : it.line_search_steps) { out.push_back({N(i), N(s.errors.f), N(i), N(s.errors.equality), N(total(s.errors, it.penalty)), N(s.alpha, 1e-10)}); ++i; }
  if (qp && ip) for (auto& q : ip->iterations) detail(q, out);
}
std::vector<std::string> lines(const std::string& t) {
  std::vector<std::string> r;
  std::string cur;
  for (char c : t) { if (c == '\n') { r.push_back(cur); cur.clear(); } else cur += c; }
  if (!cur.empty()) r.push_back(cur);
  // lines that say nothing carry no information
  std::vector<std::string> k;
  for (auto& l : r) if (l.find_first_not_of(" \t\r") != std::string::npos) k.push_back(l);
  return k;
}
// removes colour codes; false when an escape character is not part of one
bool strip(const std::string& s, std::string* out, int* codes) {
  *codes = 0;
  for (std::size_t i = 0; i < s.size(); ++i) {
    if (s[i] != '\x1b') { *out += s[i]; continue; }
    if (i + 1 >= s.size() || s[i + 1] != '[') return false;
    i += 2;
    while (i < s.size() && (std::isdigit(s[i]) || s[i] == ';')) ++i;
    if (i >= s.size() || s[i] != 'm') return false;
    ++*codes;
  }
  return true;
}
void judge_text(const std::string& text, const std::vector<Line>& want, const char* kind, const std::string& what) {
  ++X.checks;
  const auto ls = lines(text);
  for (std::size_t i = 0; i < std::min(ls.size(), want.size()); ++i)
    if (!matches(want[i], scan(ls[i]))) { X.fail("C25", kind, cat("the line '", ls[i], "' does not say", show(want[i]), "\n  ", what)); return; }
  if (ls.size() != want.size()) X.fail("C25", kind, cat(ls.size(), " lines instead of ", want.size(), ls.size() > want.size() ? ", first extra: '" + ls[want.size()] + "'" : ", first missing:" + show(want[ls.size()]), "\n  ", what));
}
template <class T>
void judge(const T& o, const std::vector<Line>& plain, const std::vector<Line>& with_qp, bool ends_coloured, const std::string& what) {
  std::string text[2][2];
  for (int c = 0; c < 2; ++c) for (int q = 0; q < 2; ++q) text[c][q] = o.ToString(c, q);
  ++X.checks;
  if (o.ToString() != text[0][0]) X.fail("C25", "defaults", cat("colour or QP details without being asked\n  ", what));
  for (int q = 0; q < 2; ++q) {
    if (text[0][q].find('\x1b') != std::string::npos) X.fail("C25", "colour-unasked", cat("colour codes although not requested\n  ", what));
    judge_text(text[0][q], q ? with_qp : plain, q ? "text-with-qp" : "text", what);
    std::string s;
    int codes = 0;
    ++X.checks;
    if (!strip(text[1][q], &s, &codes)) X.fail("C25", "colour-malformed", cat("malformed colour code\n  ", what));
    else if (s != text[0][q]) X.fail("C25", "colour-strip", cat("the coloured text without its codes is not the uncoloured text\n  ", what));
    else if (codes == 0 && ends_coloured) X.fail("C25", "colour-missing", cat("no colour although requested\n  ", what));
  }
}
void judge_outputs(const NLSSolverOutputs& o, const std::string& what) {
  std::vector<Line> plain, qp;
  std::size_t nqp = 0, nsteps = 0, nfail = 0;
  for (auto& it : o.iterations) {
    expect(it, false, plain);
    expect(it, true, qp);
    std::vector<Line> p1, q1;
    expect(it, false, p1);
    expect(it, true, q1);
    judge(it, p1, q1, true, what);
    if (auto* ip = std::get_if<QPInteriorPointSolverOutputs>(&it.qp_outputs)) {
      nqp += ip->iterations.size();
      for (auto& q : ip->iterations) { std::vector<Line> d; detail(q, d); judge_text(q.ToString(), d, "text-qp", what); }
    } else ++nqp;
    nsteps += it.line_search_steps.size();
    nfail += it.step_result != StepSizeSelectionResult::SUCCESS && it.step_result != StepSizeSelectionResult::FIRST_ORDER_SATISFIED;
  }
  plain.push_back({W(nm(o.termination_state))});
  qp.push_back({W(nm(o.termination_state))});
  judge(o, plain, qp, true, what);
  X.checks += 4;
  if (o.NumQPIterations() != nqp) X.fail("C25", "qp-count", cat("NumQPIterations is ", o.NumQPIterations(), " instead of ", nqp, "\n  ", what));
  if (o.NumLineSearchSteps() != nsteps) X.fail("C25", "step-count", cat("NumLineSearchSteps is ", o.NumLineSearchSteps(), " instead of ", nsteps, "\n  ", what));
  if (o.NumFailedLineSearches() != nfail) X.fail("C25", "failure-count", cat("NumFailedLineSearches is ", o.NumFailedLineSearches(), " instead of ", nfail, "\n  ", what));
  const bool tol = o.termination_state == NLSTerminationState::SATISFIED_ABSOLUTE_TOL || o.termination_state == NLSTerminationState::SATISFIED_RELATIVE_TOL || o.termination_state == NLSTerminationState::SATISFIED_FIRST_ORDER_TOL;
  if (TerminationStateIndicatesSatisfiedTol(o.termination_state) != tol) X.fail("C25", "tolerance-predicate", cat("wrong for ", nm(o.termination_state)));
}
std::string one(const NLSSolverOutputs& o) { return cat(o.iterations.size(), " iterations; ", X.describe_path()); }

// ---- names
struct Named { const char* type; int index; const char* want; std::string streamed, formatted; };
template <class E>
void add(std::vector<Named>& v, const char* type, std::initializer_list<std::pair<E, const char*>> names) {
  int i = 0;
  for (auto& [e, n] : names) { std::ostringstream s; s << "<" << e << ">"; v.push_back({type, i++, n, s.str(), fmt::format("<{}>", e)}); }
}
void names() {
  std::vector<Named> v;
  add<InitialGuessMethod>(v, "InitialGuessMethod", {{InitialGuessMethod::NAIVE, "NAIVE"}, {InitialGuessMethod::SOLVE_EQUALITY_CONSTRAINED, "SOLVE_EQUALITY_CONSTRAINED"}, {InitialGuessMethod::USER_PROVIDED, "USER_PROVIDED"}});
  add<QPInteriorPointTerminationState>(v, "QPInteriorPointTerminationState", {{QPInteriorPointTerminationState::SATISFIED_KKT_TOL, "SATISFIED_KKT_TOL"}, {QPInteriorPointTerminationState::MAX_ITERATIONS, "MAX_ITERATIONS"}});
  add<QPNullSpaceTerminationState>(v, "QPNullSpaceTerminationState", {{QPNullSpaceTerminationState::SUCCESS, "SUCCESS"}, {QPNullSpaceTerminationState::NOT_POSITIVE_DEFINITE, "NOT_POSITIVE_DEFINITE"}});
  add<LineSearchStrategy>(v, "LineSearchStrategy", {{LineSearchStrategy::ARMIJO_BACKTRACK, "ARMIJO_BACKTRACK"}, {LineSearchStrategy::POLYNOMIAL_APPROXIMATION, "POLYNOMIAL_APPROXIMATION"}});
  add<OptimizerState>(v, "OptimizerState", {{OptimizerState::NOMINAL, "NOMINAL"}, {OptimizerState::ATTEMPTING_RESTORE_LM, "ATTEMPTING_RESTORE_LM"}});
  add<StepSizeSelectionResult>(v, "StepSizeSelectionResult", {{StepSizeSelectionResult::SUCCESS, "SUCCESS"}, {StepSizeSelectionResult::MAX_ITERATIONS, "MAX_ITERATIONS"}, {StepSizeSelectionResult::FIRST_ORDER_SATISFIED, "FIRST_ORDER_SATISFIED"},
    {StepSizeSelectionResult::POSITIVE_DERIVATIVE, "POSITIVE_DERIVATIVE"}, {StepSizeSelectionResult::FAILURE_NON_FINITE_COST, "FAILURE_NON_FINITE_COST"}, {StepSizeSelectionResult::FAILURE_INVALID_ALPHA, "FAILURE_INVALID_ALPHA"}});
  add<NLSTerminationState>(v, "NLSTerminationState", {{NLSTerminationState::MAX_ITERATIONS, "MAX_ITERATIONS"}, {NLSTerminationState::SATISFIED_ABSOLUTE_TOL, "SATISFIED_ABSOLUTE_TOL"}, {NLSTerminationState::SATISFIED_RELATIVE_TOL, "SATISFIED_RELATIVE_TOL"},
    {NLSTerminationState::SATISFIED_FIRST_ORDER_TOL, "SATISFIED_FIRST_ORDER_TOL"}, {NLSTerminationState::MAX_LAMBDA, "MAX_LAMBDA"}, {NLSTerminationState::QP_INDEFINITE, "QP_INDEFINITE"}, {NLSTerminationState::USER_CALLBACK, "USER_CALLBACK"}});
  const int i = X.choose(static_cast<int>(v.size()), "enumerator");
  X.shard_point();
  const Named& n = v[i];
  ++X.checks;
  for (const std::string& s : {n.streamed, n.formatted})
    if (s != cat("<", n.want, ">")) X.fail("C25", "enumerator-name", cat(n.type, "::", n.want, " prints as ", s));
  for (auto& m : v) if (std::string(m.type) == n.type && m.index != n.index && m.streamed == n.streamed) X.fail("C25", "enumerator-name", cat(n.type, ": two enumerators print as ", n.streamed));
  X.state(mc::Hash().add(i).h);
  X.outcome(mc::Hash().add(i).h);
  X.set_sample_text(cat(n.type, "::", n.want));
}
void body() {
  X.deviations_left = 1 << 20;
  if (X.choose(2, "names") == 1) { names(); return; }
  const NLSSolverOutputs o = gen::outputs(X.thorough() ? 2 : 1, X.thorough() ? 2 : 1);
  judge_outputs(o, one(o));
  mc::Hash h;
  for (auto& it : o.iterations) h.add(it.qp_outputs.index()).add(it.line_search_steps.size()).add(it.qp_eigenvalues.has_value()).add(static_cast<int>(it.step_result));
  X.outcome(h.h);
  X.state(h.add(std::hash<std::string>()(o.ToString())).h);
  X.count(o.iterations.size() > 90 || (o.iterations.size() == 1 && (o.iterations[0].line_search_steps.size() > 90)) ? "long lists" : gen::g_values ? "outputs with special numbers" : "structures");
  X.set_sample_text(cat(o.iterations.size(), " iterations, ", o.termination_state));
}
}  // namespace
int main(int argc, char** argv) { X.parse(argc, argv); return X.run(body); }
