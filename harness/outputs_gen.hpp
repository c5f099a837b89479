// Enumerates solver outputs: every structure, and special numbers in every field.
#pragma once
#include <mini_opt/structs.hpp>
#include "mc.hpp"
namespace gen {
using namespace mini_opt;
using mc::X;
inline const double kInf = std::numeric_limits<double>::infinity();
inline const double kNaN = std::numeric_limits<double>::quiet_NaN();
inline const std::vector<double>& specials() {
  static const std::vector<double> v = {kNaN, kInf, -kInf, -0.0, 0.0, 1.0, 0.1, -1.0 / 3, 5e-324, -2.2250738585072014e-308, 1.7976931348623157e308, 9007199254740993.0, 1e22, -123456789012345680.0, 1e-7, 4294967296.0};
  return v;
}
inline bool g_values = false;  // whether numbers deviate
struct Slots {
  int n = 0;
  double operator()(const char* label) {
    const int i = n++;
    if (g_values) {
      const int c = X.deviate(1 + static_cast<int>(specials().size()), label);
      if (c) return specials()[c - 1];
    }
    return (i % 3 == 1 ? -1 : 1) * (0.7 + i * 1.3125 + 1.0 / (3 + i));
  }
};
inline KKTError kkt(Slots& s) { KKTError k; k.r_dual = s("r_dual"); k.r_comp = s("r_comp"); k.r_primal_eq = s("r_primal_eq"); k.r_primal_ineq = s("r_primal_ineq"); return k; }
inline QPInteriorPointIteration ip_iteration(Slots& s, bool probe) {
  QPInteriorPointIteration it;
  it.kkt_initial = kkt(s);
  it.kkt_final = kkt(s);
  it.ip_outputs.mu = s("mu");
  it.ip_outputs.alpha.primal = s("alpha primal");
  it.ip_outputs.alpha.dual = s("alpha dual");
  if (probe) {
    it.ip_outputs.alpha_probe.primal = s("probe primal");
    it.ip_outputs.alpha_probe.dual = s("probe dual");
    it.ip_outputs.mu_affine = s("mu_affine");
  }
  return it;
}
// Choices of one iteration.  `ch` picks among n alternatives with the given default first.
struct Shape { int state = 0, qp = 0, eig = 0, result = 0, steps = 0; };
constexpr int kQP = 2 + 2 * 4 * 2;  // null space states; IP: state x (0, 1, 2, 1 with probe) x multipliers
inline NLSIteration iteration(const Shape& h, int number, Slots& s) {
  std::variant<QPNullSpaceTerminationState, QPInteriorPointSolverOutputs> qp;
  const double lambda = s("lambda");
  Errors e0;
  e0.f = s("f");
  e0.equality = s("equality");
  if (h.qp < 2) qp = static_cast<QPNullSpaceTerminationState>(h.qp);
  else {
    const int q = h.qp - 2;
    QPInteriorPointSolverOutputs o;
    o.termination_state = static_cast<QPInteriorPointTerminationState>(q & 1);
    const int kind = (q >> 1) & 3;
    for (int i = 0; i < (kind == 3 ? 1 : kind); ++i) o.iterations.push_back(ip_iteration(s, kind == 3));
    if (q >> 3) { QPLagrangeMultipliers m; m.min = s("multiplier min"); m.l_infinity = s("multiplier max"); o.lagrange_multipliers = m; }
    qp = o;
  }
  std::optional<QPEigenvalues> eig;
  if (h.eig) { QPEigenvalues v; v.min = s("eig min"); v.max = s("eig max"); v.abs_min = s("eig abs"); eig = v; }
  DirectionalDerivatives d;
  d.d_f = s("d_f");
  d.d_equality = s("d_equality");
  const double penalty = s("penalty");
  std::vector<LineSearchStep> steps;
  for (int i = 0; i < h.steps; ++i) { LineSearchStep t; t.alpha = s("alpha"); t.errors.f = s("step f"); t.errors.equality = s("step equality"); steps.push_back(t); }
  return NLSIteration(number, static_cast<OptimizerState>(h.state), lambda, e0, qp, eig, d, penalty, static_cast<StepSizeSelectionResult>(h.result), steps);
}
inline const Shape kBase[] = {{0, 2 + 1 + 8 + 2, 1, 0, 2}, {1, 0, 0, 3, 1}, {0, 2 + 6, 0, 1, 0}, {1, 1, 1, 4, 3}};
inline Shape shape(int base, bool full, const char* what) {
  Shape h = kBase[base];
  auto ch = [&](int n, int d) { const int c = full ? X.choose(n, what) : X.deviate(n, what); return (d + c) % n; };
  h.qp = ch(kQP, h.qp);
  h.steps = ch(4, h.steps);
  h.eig = ch(2, h.eig);
  h.state = ch(2, h.state);
  h.result = ch(6, h.result);
  return h;
}
// Ends with a shard point: everything before it is cheap.
inline NLSSolverOutputs outputs(int structure_deviations, int value_deviations) {
  Slots s;
  static const int numbers[] = {0, 1, 41, -7, 2147483647};
  const int family = X.choose(3, "family");
  if (family == 2) {
    // long lists, around the limits of narrow counters
    g_values = false;
    static const int sizes[] = {100, 127, 128, 255, 256, 257, 300, 32767, 32768, 65535, 65536, 65537};
    const int kind = X.choose(4, "long list");
    const int n = sizes[X.choose(kind < 2 ? 12 : 7, "length")];
    X.shard_point();
    std::vector<NLSIteration> its;
    if (kind == 0) its.push_back(iteration({0, 0, 0, 1, 0}, 0, s)), its.back().line_search_steps.assign(n, LineSearchStep{0.5, Errors{}});
    else if (kind == 1) {
      its.push_back(iteration({0, 2 + 2, 0, 1, 1}, 0, s));
      auto& ip = std::get<QPInteriorPointSolverOutputs>(its.back().qp_outputs);
      ip.iterations.assign(n, ip.iterations.at(0));
    } else {
      for (int i = 0; i < n; ++i) { Slots t; its.push_back(iteration(kind == 2 ? Shape{0, 2 + 4, 0, 1, 3} : Shape{1, 0, 0, i % 6, 1}, i, t)); }
    }
    return NLSSolverOutputs(NLSTerminationState::MAX_ITERATIONS, its);
  }
  if (family == 0) {
    // structures: the first iteration in full, the others within deviations of a base shape
    g_values = false;
    X.deviations_left = structure_deviations;
    const int n = X.choose(4, "iterations");
    const int term = n < 2 ? X.choose(7, "termination") : X.deviate(7, "termination");
    std::vector<Shape> sh;
    for (int i = 0; i < n; ++i) sh.push_back(shape(i == 0 ? 0 : i, i == 0, "shape"));
    const int start = n ? X.deviate(5, "first number") : 0;
    X.shard_point();
    std::vector<NLSIteration> its;
    for (int i = 0; i < n; ++i) its.push_back(iteration(sh[i], i == 0 ? numbers[start] : i, s));
    return NLSSolverOutputs(static_cast<NLSTerminationState>(term), its);
  }
  g_values = true;
  X.deviations_left = value_deviations;
  const int b = X.choose(6, "base");
  static const std::vector<std::vector<Shape>> bases = {{kBase[0]}, {kBase[1]}, {kBase[2]}, {kBase[3]}, {kBase[1], kBase[2]}, {{0, 2 + 4 + 8, 1, 0, 1}}};
  std::vector<NLSIteration> its;
  for (std::size_t i = 0; i < bases[b].size(); ++i) {
    its.push_back(iteration(bases[b][i], static_cast<int>(i), s));
  }
  X.shard_point();
  return NLSSolverOutputs(static_cast<NLSTerminationState>(b), its);
}
}  // namespace gen
