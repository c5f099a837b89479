// Shared helpers for harnesses that drive ConstrainedNonlinearLeastSquares.
#pragma once
#include <mini_opt/nonlinear.hpp>
#include "mc.hpp"
namespace nls {
using namespace mini_opt;
using mc::cat;
using mc::same_bits;
using NLS = ConstrainedNonlinearLeastSquares;

inline bool same(const Eigen::VectorXd& a, const Eigen::VectorXd& b) {
  if (a.size() != b.size()) return false;
  for (long i = 0; i < a.size(); ++i) if (!same_bits(a[i], b[i])) return false;
  return true;
}
inline bool same(const Errors& a, const Errors& b) { return same_bits(a.f, b.f) && same_bits(a.equality, b.equality); }
inline bool same(const KKTError& a, const KKTError& b) {
  return same_bits(a.r_dual, b.r_dual) && same_bits(a.r_comp, b.r_comp) && same_bits(a.r_primal_eq, b.r_primal_eq) && same_bits(a.r_primal_ineq, b.r_primal_ineq);
}
inline bool same(const AlphaValues& a, const AlphaValues& b) { return same_bits(a.primal, b.primal) && same_bits(a.dual, b.dual); }
inline bool same(const QPInteriorPointIteration& a, const QPInteriorPointIteration& b) {
  return same(a.kkt_initial, b.kkt_initial) && same(a.kkt_final, b.kkt_final) && same_bits(a.ip_outputs.mu, b.ip_outputs.mu) &&
         same(a.ip_outputs.alpha, b.ip_outputs.alpha) && same(a.ip_outputs.alpha_probe, b.ip_outputs.alpha_probe) &&
         same_bits(a.ip_outputs.mu_affine, b.ip_outputs.mu_affine);
}
inline bool same(const QPInteriorPointSolverOutputs& a, const QPInteriorPointSolverOutputs& b) {
  if (a.termination_state != b.termination_state || a.iterations.size() != b.iterations.size() ||
      a.lagrange_multipliers.has_value() != b.lagrange_multipliers.has_value()) return false;
  if (a.lagrange_multipliers && !(same_bits(a.lagrange_multipliers->min, b.lagrange_multipliers->min) &&
                                  same_bits(a.lagrange_multipliers->l_infinity, b.lagrange_multipliers->l_infinity))) return false;
  for (std::size_t i = 0; i < a.iterations.size(); ++i) if (!same(a.iterations[i], b.iterations[i])) return false;
  return true;
}
// Empty string when identical, otherwise the name of the first differing field.
inline std::string diff(const NLSIteration& a, const NLSIteration& b) {
  if (a.iteration != b.iteration) return "iteration";
  if (a.optimizer_state != b.optimizer_state) return "optimizer_state";
  if (!same_bits(a.lambda, b.lambda)) return "lambda";
  if (!same(a.errors_initial, b.errors_initial)) return "errors_initial";
  if (a.qp_outputs.index() != b.qp_outputs.index()) return "qp_outputs kind";
  if (auto* x = std::get_if<QPNullSpaceTerminationState>(&a.qp_outputs)) {
    if (*x != std::get<QPNullSpaceTerminationState>(b.qp_outputs)) return "qp_outputs";
  } else if (!same(std::get<QPInteriorPointSolverOutputs>(a.qp_outputs), std::get<QPInteriorPointSolverOutputs>(b.qp_outputs))) return "qp_outputs";
  if (a.qp_eigenvalues.has_value() != b.qp_eigenvalues.has_value()) return "qp_eigenvalues presence";
  if (a.qp_eigenvalues && !(same_bits(a.qp_eigenvalues->min, b.qp_eigenvalues->min) && same_bits(a.qp_eigenvalues->max, b.qp_eigenvalues->max) &&
                            same_bits(a.qp_eigenvalues->abs_min, b.qp_eigenvalues->abs_min))) return "qp_eigenvalues";
  if (!same_bits(a.directional_derivatives.d_f, b.directional_derivatives.d_f) ||
      !same_bits(a.directional_derivatives.d_equality, b.directional_derivatives.d_equality)) return "directional_derivatives";
  if (!same_bits(a.penalty, b.penalty)) return "penalty";
  if (a.step_result != b.step_result) return "step_result";
  if (a.line_search_steps.size() != b.line_search_steps.size()) return "line_search_steps length";
  for (std::size_t i = 0; i < a.line_search_steps.size(); ++i)
    if (!same_bits(a.line_search_steps[i].alpha, b.line_search_steps[i].alpha) || !same(a.line_search_steps[i].errors, b.line_search_steps[i].errors))
      return "line_search_steps";
  return "";
}
inline std::string diff(const std::vector<NLSIteration>& a, const std::vector<NLSIteration>& b, std::size_t upto = ~std::size_t(0)) {
  if (upto == ~std::size_t(0) && a.size() != b.size()) return cat("number of iterations ", a.size(), " vs ", b.size());
  for (std::size_t i = 0; i < std::min({a.size(), b.size(), upto}); ++i) {
    auto d = diff(a[i], b[i]);
    if (!d.empty()) return cat("iteration ", i, " ", d);
  }
  return "";
}
template <class E>
std::string name(E e) { std::ostringstream s; s << e; return s.str(); }
inline std::string str(const Eigen::VectorXd& v) {
  std::ostringstream s;
  s.precision(17);
  s << "[";
  for (long i = 0; i < v.size(); ++i) s << (i ? "," : "") << v[i];
  s << "]";
  return s.str();
}
}  // namespace nls
