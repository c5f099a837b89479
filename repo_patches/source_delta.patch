From d7dc7d3ebb16e62d6ac36d713699455bd24dc2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:45 +0000
Subject: [PATCH 01/17] fix: escape event names when exporting the trace as
 JSON

A name containing a quote, a backslash or a control character (which
MINI_OPT_SCOPED_TRACE("literal") always produces, because it stringizes its
argument) made the exported document invalid JSON.
---
 source/tracing.cc | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/source/tracing.cc b/source/tracing.cc
index 5015fb7..b799074 100644
--- a/source/tracing.cc
+++ b/source/tracing.cc
@@ -25,6 +25,35 @@
 
 #include "mini_opt/assertions.hpp"
 
+namespace mini_opt {
+// Wrapper that indicates a string should be escaped when formatted into a JSON document.
+struct json_escaped {
+  std::string_view value;
+};
+}  // namespace mini_opt
+
+// Write out the characters of a JSON string, without the enclosing quotes.
+template <>
+struct fmt::formatter<mini_opt::json_escaped> {
+  constexpr auto parse(format_parse_context& ctx) -> decltype(ctx.begin()) { return ctx.begin(); }
+
+  template <typename FormatContext>
+  auto format(const mini_opt::json_escaped& str, FormatContext& ctx) const -> decltype(ctx.out()) {
+    auto out = ctx.out();
+    for (const char c : str.value) {
+      if (c == '"' || c == '\\') {
+        *out++ = '\\';
+        *out++ = c;
+      } else if (static_cast<unsigned char>(c) < 0x20) {
+        out = fmt::format_to(out, "\\u{:04x}", static_cast<unsigned int>(c));
+      } else {
+        *out++ = c;
+      }
+    }
+    return out;
+  }
+};
+
 // Format mini_opt::trace_event to JSON.
 template <>
 struct fmt::formatter<mini_opt::trace_event> {
@@ -35,7 +64,7 @@ struct fmt::formatter<mini_opt::trace_event> {
     constexpr std::string_view phase = "X";  //  Complete event.
     constexpr std::string_view fmt_template =
         R"json({{ "name": "{name}", "cat": "", "ph": "{ph}", "ts": {ts}, "pid": {pid}, "tid": {tid}, "dur": {dur} }})json";
-    return fmt::format_to(ctx.out(), fmt_template, fmt::arg("name", event.name),
+    return fmt::format_to(ctx.out(), fmt_template, fmt::arg("name", mini_opt::json_escaped{event.name}),
                           fmt::arg("ph", phase), fmt::arg("ts", event.ts),
                           fmt::arg("pid", event.pid), fmt::arg("tid", event.tid),
                           fmt::arg("dur", event.dur_ns / 1000));
-- 
2.43.0


From abf4d7fc6c095abce54cc16cf5624dfbf9721f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:18 +0000
Subject: [PATCH 02/17] fix: record traced scopes that end normally while an
 exception is in flight

A scope entered from a destructor during stack unwinding was dropped, because
any exception in flight suppressed its event. Compare with the number in flight
when the scope was entered.
---
 include/mini_opt/tracing.hpp | 7 ++++++-
 source/tracing.cc            | 2 +-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/mini_opt/tracing.hpp b/include/mini_opt/tracing.hpp
index d308f17..38d5b4a 100644
--- a/include/mini_opt/tracing.hpp
+++ b/include/mini_opt/tracing.hpp
@@ -2,6 +2,7 @@
 // I copy-pasta'd this from the wrenfold project.
 #pragma once
 #include <chrono>
+#include <exception>
 #include <memory>
 #include <string_view>
 
@@ -68,7 +69,9 @@ class scoped_trace {
  public:
   // Note we do not own `name`. It is assumed to be a global string literal.
   explicit scoped_trace(const std::string_view name) noexcept
-      : name_(name), start_(std::chrono::high_resolution_clock::now()) {}
+      : name_(name),
+        uncaught_exceptions_(std::uncaught_exceptions()),
+        start_(std::chrono::high_resolution_clock::now()) {}
   ~scoped_trace();
 
   // non-copyable and non-moveable
@@ -79,6 +82,8 @@ class scoped_trace {
 
  private:
   std::string_view name_;
+  // Number of exceptions in flight when the scope was entered.
+  int uncaught_exceptions_;
   std::chrono::high_resolution_clock::time_point start_;
 };
 
diff --git a/source/tracing.cc b/source/tracing.cc
index b799074..2ae8ed3 100644
--- a/source/tracing.cc
+++ b/source/tracing.cc
@@ -146,7 +146,7 @@ static auto cast_time(const T& dur) {
 
 scoped_trace::~scoped_trace() {
   const auto end = std::chrono::high_resolution_clock::now();
-  if (std::uncaught_exceptions() > 0) {
+  if (std::uncaught_exceptions() > uncaught_exceptions_) {
     return;
   }
   if (trace_collector* const collector = trace_collector::get_instance(); collector != nullptr) {
-- 
2.43.0


From 83b7caf796fb9fa12531d8816341ec555ffaef2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:42 +0000
Subject: [PATCH 03/17] fix: use the current complementarity in the
 predictor-corrector step

---
 source/qp.cc | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/source/qp.cc b/source/qp.cc
index 58efe5e..f090825 100644
--- a/source/qp.cc
+++ b/source/qp.cc
@@ -176,11 +176,13 @@ IPIterationOutputs QPInteriorPointSolver::Iterate(const double mu_input,
     // save the value of the affine step
     delta_affine_ = delta_;
 
-    // Compute complementarity had we applied this update we just solved.
-    outputs.mu_affine = ComputePredictorCorrectorMuAffine(outputs.mu, outputs.alpha_probe);
+    // Compute complementarity had we applied this update we just solved. Both this and sigma refer
+    // to the complementarity at the current iterate, which `mu_input` is not.
+    const double mu = ComputeMu();
+    outputs.mu_affine = ComputePredictorCorrectorMuAffine(mu, outputs.alpha_probe);
 
-    const double sigma = std::pow(outputs.mu_affine / outputs.mu, 3);  // equation (19.22)
-    outputs.mu = sigma * mu_input;
+    const double sigma = std::pow(outputs.mu_affine / mu, 3);  // equation (19.22)
+    outputs.mu = sigma * mu;
 
     // Solve again (alpha will be computed again below), input sigma is ignored.
     // This time, delta_affine_ will be incorporated to add the diag(dz)*ds term.
@@ -515,7 +517,7 @@ double QPInteriorPointSolver::ComputeMu() const {
   return s.dot(z) / static_cast<double>(dims_.M);
 }
 
-// We don't re-evaluate the s^T * z / M term, because it is already stored in mu.
+// We don't re-evaluate the s^T * z / M term, it is passed as `mu`.
 double QPInteriorPointSolver::ComputePredictorCorrectorMuAffine(
     const double mu, const AlphaValues& alpha_probe) const {
   const auto s = ConstSBlock(dims_, variables_);
-- 
2.43.0


From b8dc78a646692f65e0db2ef8bb4da90dc16ea79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:27 +0000
Subject: [PATCH 04/17] fix: reject a zero initial equality penalty before the
 run starts

---
 source/nonlinear.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/nonlinear.cc b/source/nonlinear.cc
index a72e6cc..de8d432 100644
--- a/source/nonlinear.cc
+++ b/source/nonlinear.cc
@@ -57,7 +57,7 @@ static void CheckParams(const ConstrainedNonlinearLeastSquares::Params& params)
   F_ASSERT_GE(params.absolute_first_derivative_tol, 0);
   F_ASSERT_GT(params.armijo_search_tau, 0);
   F_ASSERT_LT(params.armijo_search_tau, 1);
-  F_ASSERT_GE(params.equality_penalty_initial, 0);
+  F_ASSERT_GT(params.equality_penalty_initial, 0);
   F_ASSERT_GE(params.equality_penalty_scale_factor, 1.0);
   F_ASSERT_GE(params.equality_penalty_rho, 0);
   F_ASSERT_LT(params.equality_penalty_rho, 1);
-- 
2.43.0


From 4e78d95fc956eac1c0e150ffc002eeebc246618d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:54 +0000
Subject: [PATCH 05/17] fix: reject invalid problems in
 QPInteriorPointSolver::Setup before adopting them

---
 source/qp.cc | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/source/qp.cc b/source/qp.cc
index f090825..30591c2 100644
--- a/source/qp.cc
+++ b/source/qp.cc
@@ -18,20 +18,27 @@ QPEigenvalues QP::ComputeEigenvalueStats() const {
 QPInteriorPointSolver::QPInteriorPointSolver(const QP* const problem) { Setup(problem); }
 
 void QPInteriorPointSolver::Setup(const QP* const problem) {
+  // Until the new problem has been validated there is nothing that could be solved.
+  p_ = nullptr;
   F_ASSERT(problem != nullptr, "Must pass a non-null problem");
-
-  p_ = problem;
-  F_ASSERT_EQ(p_->G.rows(), p_->G.cols(), "G must be square");
-  F_ASSERT_EQ(p_->G.rows(), p_->c.rows(), "Dims of G and c must match");
-  F_ASSERT_EQ(p_->A_eq.rows(), p_->b_eq.rows(), "Rows of A_e and b_e must match");
+  F_ASSERT_EQ(problem->G.rows(), problem->G.cols(), "G must be square");
+  F_ASSERT_EQ(problem->G.rows(), problem->c.rows(), "Dims of G and c must match");
+  F_ASSERT_EQ(problem->A_eq.rows(), problem->b_eq.rows(), "Rows of A_e and b_e must match");
 
   // If equality constraints were specified, we must be able to multiply A*x
-  if (p_->A_eq.size() > 0) {
-    F_ASSERT_EQ(p_->A_eq.cols(), p_->G.rows());
+  if (problem->A_eq.size() > 0) {
+    F_ASSERT_EQ(problem->A_eq.cols(), problem->G.rows());
   } else {
-    F_ASSERT_EQ(p_->A_eq.rows(), 0);
-    F_ASSERT_EQ(p_->b_eq.rows(), 0);
+    F_ASSERT_EQ(problem->A_eq.rows(), 0);
+    F_ASSERT_EQ(problem->b_eq.rows(), 0);
+  }
+
+  // check indices up front
+  for (const LinearInequalityConstraint& c : problem->constraints) {
+    F_ASSERT_GE(c.variable, 0, "Constraint index is out of bounds");
+    F_ASSERT_LT(c.variable, static_cast<int>(problem->G.rows()), "Constraint index is out of bounds");
   }
+  p_ = problem;
 
   // Order is [slacks (s), equality multipliers(y), inequality multipliers (lambda)]
   dims_.N = static_cast<int>(p_->G.rows());
@@ -65,11 +72,6 @@ void QPInteriorPointSolver::Setup(const QP* const problem) {
   H_.setConstant(nan);
   H_inv_.setConstant(nan);
 #endif
-
-  // check indices up front
-  for (const LinearInequalityConstraint& c : p_->constraints) {
-    F_ASSERT_LT(c.variable, static_cast<int>(dims_.N), "Constraint index is out of bounds");
-  }
 }
 
 // Assert params are in valid range.
-- 
2.43.0


From cc4db2a15fbd25230614ba26134f87318d303154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:54 +0000
Subject: [PATCH 06/17] fix: reject negative variable indices when shifting
 inequality constraints

---
 include/mini_opt/qp.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/mini_opt/qp.hpp b/include/mini_opt/qp.hpp
index 6f3e06c..7b799aa 100644
--- a/include/mini_opt/qp.hpp
+++ b/include/mini_opt/qp.hpp
@@ -60,6 +60,7 @@ struct LinearInequalityConstraint {
 
   // Version of shift that takes vector.
   LinearInequalityConstraint ShiftTo(const Eigen::VectorXd& x) const {
+    F_ASSERT_GE(variable, 0);
     F_ASSERT_LT(variable, x.rows());
     return ShiftTo(x[variable]);
   }
-- 
2.43.0


From 58e54807fdcbfc4d06772b7a388ecd63335ded4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:54 +0000
Subject: [PATCH 07/17] fix: reject wrongly sized vectors in
 QPInteriorPointSolver::SetVariables

---
 source/qp.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/source/qp.cc b/source/qp.cc
index 30591c2..01c8db2 100644
--- a/source/qp.cc
+++ b/source/qp.cc
@@ -222,7 +222,10 @@ VectorBlock QPInteriorPointSolver::y_block() { return YBlock(dims_, variables_);
 
 VectorBlock QPInteriorPointSolver::z_block() { return ZBlock(dims_, variables_); }
 
-void QPInteriorPointSolver::SetVariables(const Eigen::VectorXd& v) { variables_ = v; }
+void QPInteriorPointSolver::SetVariables(const Eigen::VectorXd& v) {
+  F_ASSERT_EQ(v.rows(), dims_.N + dims_.M * 2 + dims_.K, "Wrong number of variables");
+  variables_ = v;
+}
 
 const QP& QPInteriorPointSolver::problem() const {
   F_ASSERT(p_, "Cannot call unless initialized");
-- 
2.43.0


From 5fe334fa191bedd6585a65d477f0642a8ee306de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:55 +0000
Subject: [PATCH 08/17] fix: check the dimensions of G and c in
 QPNullSpaceSolver::Solve

---
 source/qp.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/qp.cc b/source/qp.cc
index 01c8db2..2b53107 100644
--- a/source/qp.cc
+++ b/source/qp.cc
@@ -686,6 +686,10 @@ void QPInteriorPointSolver::BuildFullSystem(Eigen::MatrixXd* const H,
 QPNullSpaceTerminationState QPNullSpaceSolver::Solve(const QP& p) {
   F_ASSERT_GT(p.A_eq.rows(), 0, "Problem must have at least one equality constraint");
   F_ASSERT_EQ(p.A_eq.rows(), p.b_eq.rows());
+  F_ASSERT_GT(p.A_eq.cols(), 0, "Problem must have at least one variable");
+  F_ASSERT_EQ(p.G.rows(), p.G.cols(), "G must be square");
+  F_ASSERT_EQ(p.G.rows(), p.A_eq.cols(), "Dims of G and A_eq must match");
+  F_ASSERT_EQ(p.c.rows(), p.A_eq.cols(), "Dims of c and A_eq must match");
 
   const int num_equality_constraints = static_cast<int>(p.A_eq.rows());
   const int num_params = static_cast<int>(p.A_eq.cols());
-- 
2.43.0


From ff14f29830a50251a4cfd3f84f7674cff19b56a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:14 +0000
Subject: [PATCH 09/17] fix: solve only the independent rows in
 QPNullSpaceSolver::Solve

---
 source/qp.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/qp.cc b/source/qp.cc
index 2b53107..157f41e 100644
--- a/source/qp.cc
+++ b/source/qp.cc
@@ -709,12 +709,12 @@ QPNullSpaceTerminationState QPNullSpaceSolver::Solve(const QP& p) {
   const auto Q2 = Q_.rightCols(Q_.cols() - rank);
 
   // The non-zero rows of R:
-  const auto R_upper = R.topRows(num_equality_constraints).template triangularView<Eigen::Upper>();
+  const auto R_upper = R.topLeftCorner(rank, rank).template triangularView<Eigen::Upper>();
 
   // Compute u = Q1 * (R1^T)^-1 * (P^-1) * b_eq
   // `u` is a particular solution to the equality constrained system: A_eq * x + b = 0
   permuted_rhs_.noalias() = P.transpose() * -p.b_eq;
-  u_.noalias() = Q1 * R_upper.transpose().solve(permuted_rhs_);
+  u_.noalias() = Q1 * R_upper.transpose().solve(permuted_rhs_.head(rank));
   F_ASSERT_EQ(num_params, u_.rows());
 
   // Compute the reduced hessian by projecting `G` into null(A_eq)
-- 
2.43.0


From a3a711536425bbed180ee1d004e03bdd60c5c9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:14 +0000
Subject: [PATCH 10/17] fix: reject empty or non-square matrices in
 QP::ComputeEigenvalueStats

---
 source/qp.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/qp.cc b/source/qp.cc
index 157f41e..1166b48 100644
--- a/source/qp.cc
+++ b/source/qp.cc
@@ -10,6 +10,8 @@ namespace mini_opt {
 static const IOFormat kMatrixFmt(FullPrecision, 0, ", ", ",\n", "[", "]", "[", "]");
 
 QPEigenvalues QP::ComputeEigenvalueStats() const {
+  F_ASSERT_GT(G.rows(), 0, "G must not be empty");
+  F_ASSERT_EQ(G.rows(), G.cols(), "G must be square");
   const Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd> solver(G);
   return {solver.eigenvalues().minCoeff(), solver.eigenvalues().maxCoeff(),
           solver.eigenvalues().cwiseAbs().minCoeff()};
-- 
2.43.0


From 0ec3ee18de97150d3867d2c89ec14b5b1769374a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:14 +0000
Subject: [PATCH 11/17] fix: reject an initial guess of the wrong size in the
 nonlinear solver

---
 source/nonlinear.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/nonlinear.cc b/source/nonlinear.cc
index de8d432..624f609 100644
--- a/source/nonlinear.cc
+++ b/source/nonlinear.cc
@@ -77,6 +77,7 @@ NLSSolverOutputs ConstrainedNonlinearLeastSquares::Solve(const Params& params,
   MINI_OPT_FUNCTION_TRACE();
   F_ASSERT(p_ != nullptr, "Must have a valid problem");
   CheckParams(params);
+  F_ASSERT_EQ(variables.rows(), p_->dimension, "Wrong number of variables");
   variables_ = variables;
   state_ = OptimizerState::NOMINAL;
 
-- 
2.43.0


From a4da385e61ecc43c442273d9b03449c4c89572db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:14 +0000
Subject: [PATCH 12/17] fix: check that residuals fit into the error buffer of
 the nonlinear solver

---
 source/nonlinear.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/nonlinear.cc b/source/nonlinear.cc
index 624f609..aca17de 100644
--- a/source/nonlinear.cc
+++ b/source/nonlinear.cc
@@ -281,11 +281,13 @@ Errors ConstrainedNonlinearLeastSquares::EvaluateNonlinearErrors(const Eigen::Ve
   MINI_OPT_FUNCTION_TRACE();
   Errors output_errors{};
   for (const Residual& cost : p_->costs) {
+    F_ASSERT_LE(cost.Dimension(), error_buffer_.rows());
     const auto err_out = error_buffer_.head(cost.Dimension());
     cost.ErrorVector(vars, err_out);
     output_errors.f += 0.5 * err_out.squaredNorm();
   }
   for (const Residual& eq : p_->equality_constraints) {
+    F_ASSERT_LE(eq.Dimension(), error_buffer_.rows());
     const auto err_out = error_buffer_.head(eq.Dimension());
     eq.ErrorVector(vars, err_out);
     output_errors.equality += err_out.lpNorm<1>();
-- 
2.43.0


From d6980f698bc12e35f0f9140d75a80a03fcb3809e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:38 +0000
Subject: [PATCH 13/17] fix: hold the lock while exporting the trace

---
 source/tracing.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/tracing.cc b/source/tracing.cc
index 2ae8ed3..85642ae 100644
--- a/source/tracing.cc
+++ b/source/tracing.cc
@@ -136,7 +136,9 @@ void trace_collector::submit_event(trace_event event) {
 trace_collector_impl& trace_collector::impl() noexcept { return *impl_; }
 
 std::string trace_collector::get_trace_json() {
-  return fmt::format(json_object_template, fmt::join(impl_->events, ",\n    "));
+  auto& self = impl();
+  std::lock_guard guard{self.mutex};
+  return fmt::format(json_object_template, fmt::join(self.events, ",\n    "));
 }
 
 template <typename U, typename T>
-- 
2.43.0


From 4344bfba86f6fb1d0fe7af688d41eff9761c9133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:44 +0000
Subject: [PATCH 14/17] fix: read NaN back from the JSON text of solver outputs

---
 source/serialization.cc | 52 ++++++++++++++++++++++++++++++-----------
 1 file changed, 39 insertions(+), 13 deletions(-)

diff --git a/source/serialization.cc b/source/serialization.cc
index ba84351..975c066 100644
--- a/source/serialization.cc
+++ b/source/serialization.cc
@@ -3,12 +3,38 @@
 
 #ifdef MINI_OPT_SERIALIZATION
 
+#include <limits>
+#include <type_traits>
+
 #include <nlohmann/json.hpp>
 
 using json = nlohmann::json;
 
 namespace mini_opt {
 
+template <typename T>
+static T read_value(const json& j) {
+  if constexpr (std::is_same_v<T, double>) {
+    if (j.is_null()) {
+      // JSON has no representation for NaN and infinity, they are written to text as null.
+      return std::numeric_limits<double>::quiet_NaN();
+    }
+  }
+  return j.template get<T>();
+}
+
+// Like `NLOHMANN_DEFINE_TYPE_NON_INTRUSIVE`, but reads the members with `read_value`.
+#define MINI_OPT_JSON_READ(member) \
+  value.member = read_value<decltype(value.member)>(j.at(#member));
+#define MINI_OPT_JSON_WRITE(member) j[#member] = value.member;
+#define MINI_OPT_DEFINE_JSON(Type, ...)                                         \
+  static void to_json(json& j, const Type& value) {                             \
+    NLOHMANN_JSON_EXPAND(NLOHMANN_JSON_PASTE(MINI_OPT_JSON_WRITE, __VA_ARGS__)) \
+  }                                                                             \
+  static void from_json(const json& j, Type& value) {                           \
+    NLOHMANN_JSON_EXPAND(NLOHMANN_JSON_PASTE(MINI_OPT_JSON_READ, __VA_ARGS__))  \
+  }
+
 // Support optional types:
 // https://json.nlohmann.me/features/arbitrary_types/#how-do-i-convert-third-party-types
 template <typename T>
@@ -62,19 +88,19 @@ NLOHMANN_JSON_SERIALIZE_ENUM(QPNullSpaceTerminationState,
                               {QPNullSpaceTerminationState::NOT_POSITIVE_DEFINITE,
                                "NOT_POSITIVE_DEFINITE"}});
 
-NLOHMANN_DEFINE_TYPE_NON_INTRUSIVE(Errors, f, equality);
-NLOHMANN_DEFINE_TYPE_NON_INTRUSIVE(QPEigenvalues, min, max, abs_min);
-NLOHMANN_DEFINE_TYPE_NON_INTRUSIVE(DirectionalDerivatives, d_f, d_equality);
-NLOHMANN_DEFINE_TYPE_NON_INTRUSIVE(LineSearchStep, alpha, errors);
+MINI_OPT_DEFINE_JSON(Errors, f, equality);
+MINI_OPT_DEFINE_JSON(QPEigenvalues, min, max, abs_min);
+MINI_OPT_DEFINE_JSON(DirectionalDerivatives, d_f, d_equality);
+MINI_OPT_DEFINE_JSON(LineSearchStep, alpha, errors);
 
 // QP structs:
-NLOHMANN_DEFINE_TYPE_NON_INTRUSIVE(AlphaValues, primal, dual);
-NLOHMANN_DEFINE_TYPE_NON_INTRUSIVE(IPIterationOutputs, mu, alpha, alpha_probe, mu_affine);
-NLOHMANN_DEFINE_TYPE_NON_INTRUSIVE(KKTError, r_dual, r_comp, r_primal_eq, r_primal_ineq);
-NLOHMANN_DEFINE_TYPE_NON_INTRUSIVE(QPInteriorPointIteration, kkt_initial, kkt_final, ip_outputs);
-NLOHMANN_DEFINE_TYPE_NON_INTRUSIVE(QPLagrangeMultipliers, min, l_infinity);
-NLOHMANN_DEFINE_TYPE_NON_INTRUSIVE(QPInteriorPointSolverOutputs, termination_state, iterations,
-                                   lagrange_multipliers);
+MINI_OPT_DEFINE_JSON(AlphaValues, primal, dual);
+MINI_OPT_DEFINE_JSON(IPIterationOutputs, mu, alpha, alpha_probe, mu_affine);
+MINI_OPT_DEFINE_JSON(KKTError, r_dual, r_comp, r_primal_eq, r_primal_ineq);
+MINI_OPT_DEFINE_JSON(QPInteriorPointIteration, kkt_initial, kkt_final, ip_outputs);
+MINI_OPT_DEFINE_JSON(QPLagrangeMultipliers, min, l_infinity);
+MINI_OPT_DEFINE_JSON(QPInteriorPointSolverOutputs, termination_state, iterations,
+                     lagrange_multipliers);
 
 static void to_json(
     json& j, const std::variant<QPNullSpaceTerminationState, QPInteriorPointSolverOutputs>& var) {
@@ -100,11 +126,11 @@ struct adl_serializer<NLSIteration> {
   static NLSIteration from_json(const json& j) {
     return NLSIteration(
         j["iteration"].get<int>(), j["optimizer_state"].get<OptimizerState>(),
-        j["lambda"].get<double>(), j["errors_initial"].get<Errors>(),
+        read_value<double>(j["lambda"]), j["errors_initial"].get<Errors>(),
         j["qp_outputs"]
             .get<std::variant<QPNullSpaceTerminationState, QPInteriorPointSolverOutputs>>(),
         j["qp_eigenvalues"].get<std::optional<QPEigenvalues>>(),
-        j["directional_derivatives"].get<DirectionalDerivatives>(), j["penalty"].get<double>(),
+        j["directional_derivatives"].get<DirectionalDerivatives>(), read_value<double>(j["penalty"]),
         j["step_result"].get<StepSizeSelectionResult>(),
         j["line_search_steps"].get<std::vector<LineSearchStep>>());
   }
-- 
2.43.0


From 56c4f50e07f2925f651600ec2006c1ba4e6cb9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:52 +0000
Subject: [PATCH 15/17] fix: refuse solver-output JSON with missing fields

---
 source/serialization.cc | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/source/serialization.cc b/source/serialization.cc
index 975c066..50a0642 100644
--- a/source/serialization.cc
+++ b/source/serialization.cc
@@ -24,8 +24,7 @@ static T read_value(const json& j) {
 }
 
 // Like `NLOHMANN_DEFINE_TYPE_NON_INTRUSIVE`, but reads the members with `read_value`.
-#define MINI_OPT_JSON_READ(member) \
-  value.member = read_value<decltype(value.member)>(j.at(#member));
+#define MINI_OPT_JSON_READ(member) value.member = read_value<decltype(value.member)>(j.at(#member));
 #define MINI_OPT_JSON_WRITE(member) j[#member] = value.member;
 #define MINI_OPT_DEFINE_JSON(Type, ...)                                         \
   static void to_json(json& j, const Type& value) {                             \
@@ -109,7 +108,7 @@ static void to_json(
 
 static void from_json(
     const json& j, std::variant<QPNullSpaceTerminationState, QPInteriorPointSolverOutputs>& var) {
-  if (j.contains("termination_state") && j.contains("iterations")) {
+  if (j.is_object()) {
     var = j.get<QPInteriorPointSolverOutputs>();
   } else {
     var = j.get<QPNullSpaceTerminationState>();
@@ -125,14 +124,14 @@ template <>
 struct adl_serializer<NLSIteration> {
   static NLSIteration from_json(const json& j) {
     return NLSIteration(
-        j["iteration"].get<int>(), j["optimizer_state"].get<OptimizerState>(),
-        read_value<double>(j["lambda"]), j["errors_initial"].get<Errors>(),
-        j["qp_outputs"]
+        j.at("iteration").get<int>(), j.at("optimizer_state").get<OptimizerState>(),
+        read_value<double>(j.at("lambda")), j.at("errors_initial").get<Errors>(),
+        j.at("qp_outputs")
             .get<std::variant<QPNullSpaceTerminationState, QPInteriorPointSolverOutputs>>(),
-        j["qp_eigenvalues"].get<std::optional<QPEigenvalues>>(),
-        j["directional_derivatives"].get<DirectionalDerivatives>(), read_value<double>(j["penalty"]),
-        j["step_result"].get<StepSizeSelectionResult>(),
-        j["line_search_steps"].get<std::vector<LineSearchStep>>());
+        j.at("qp_eigenvalues").get<std::optional<QPEigenvalues>>(),
+        j.at("directional_derivatives").get<DirectionalDerivatives>(),
+        read_value<double>(j.at("penalty")), j.at("step_result").get<StepSizeSelectionResult>(),
+        j.at("line_search_steps").get<std::vector<LineSearchStep>>());
   }
 
   static void to_json(json& j, const NLSIteration& iter) {
@@ -150,8 +149,8 @@ struct adl_serializer<NLSIteration> {
 };
 
 NLSSolverOutputs adl_serializer<NLSSolverOutputs, void>::from_json(const json& j) {
-  return NLSSolverOutputs(j["termination_state"].get<NLSTerminationState>(),
-                          j["iterations"].get<std::vector<NLSIteration>>());
+  return NLSSolverOutputs(j.at("termination_state").get<NLSTerminationState>(),
+                          j.at("iterations").get<std::vector<NLSIteration>>());
 }
 
 void adl_serializer<NLSSolverOutputs, void>::to_json(json& j, const NLSSolverOutputs& outputs) {
-- 
2.43.0


From 7d037080bdbcc8eae65e270e44261b38dc12a83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:19 +0000
Subject: [PATCH 16/17] fix: refuse unknown names and out-of-range integers in
 solver-output JSON

---
 source/serialization.cc | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/source/serialization.cc b/source/serialization.cc
index 50a0642..77863d8 100644
--- a/source/serialization.cc
+++ b/source/serialization.cc
@@ -8,6 +8,8 @@
 
 #include <nlohmann/json.hpp>
 
+#include "mini_opt/assertions.hpp"
+
 using json = nlohmann::json;
 
 namespace mini_opt {
@@ -20,7 +22,17 @@ static T read_value(const json& j) {
       return std::numeric_limits<double>::quiet_NaN();
     }
   }
-  return j.template get<T>();
+  if constexpr (std::is_integral_v<T>) {
+    F_ASSERT(j.is_number_integer(), "Expected an integer, but got: {}", j.dump());
+  }
+  const T value = j.template get<T>();
+  // `get` converts numbers out of range and unknown enumerator names to other values.
+  if constexpr (std::is_integral_v<T>) {
+    F_ASSERT(j.template get<double>() == static_cast<double>(value), "Out of range: {}", j.dump());
+  } else if constexpr (std::is_enum_v<T>) {
+    F_ASSERT(json(value) == j, "Unknown value: {}", j.dump());
+  }
+  return value;
 }
 
 // Like `NLOHMANN_DEFINE_TYPE_NON_INTRUSIVE`, but reads the members with `read_value`.
@@ -111,7 +123,7 @@ static void from_json(
   if (j.is_object()) {
     var = j.get<QPInteriorPointSolverOutputs>();
   } else {
-    var = j.get<QPNullSpaceTerminationState>();
+    var = read_value<QPNullSpaceTerminationState>(j);
   }
 }
 }  // namespace mini_opt
@@ -124,13 +136,14 @@ template <>
 struct adl_serializer<NLSIteration> {
   static NLSIteration from_json(const json& j) {
     return NLSIteration(
-        j.at("iteration").get<int>(), j.at("optimizer_state").get<OptimizerState>(),
+        read_value<int>(j.at("iteration")), read_value<OptimizerState>(j.at("optimizer_state")),
         read_value<double>(j.at("lambda")), j.at("errors_initial").get<Errors>(),
         j.at("qp_outputs")
             .get<std::variant<QPNullSpaceTerminationState, QPInteriorPointSolverOutputs>>(),
         j.at("qp_eigenvalues").get<std::optional<QPEigenvalues>>(),
         j.at("directional_derivatives").get<DirectionalDerivatives>(),
-        read_value<double>(j.at("penalty")), j.at("step_result").get<StepSizeSelectionResult>(),
+        read_value<double>(j.at("penalty")),
+        read_value<StepSizeSelectionResult>(j.at("step_result")),
         j.at("line_search_steps").get<std::vector<LineSearchStep>>());
   }
 
@@ -149,7 +162,7 @@ struct adl_serializer<NLSIteration> {
 };
 
 NLSSolverOutputs adl_serializer<NLSSolverOutputs, void>::from_json(const json& j) {
-  return NLSSolverOutputs(j.at("termination_state").get<NLSTerminationState>(),
+  return NLSSolverOutputs(read_value<NLSTerminationState>(j.at("termination_state")),
                           j.at("iterations").get<std::vector<NLSIteration>>());
 }
 
-- 
2.43.0


From 51211aab0a4bace987cabfa48926f578e744e402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:59 +0000
Subject: [PATCH 17/17] fix: reject problems edited after Setup instead of
 solving them with stale dimensions

---
 source/qp.cc | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/source/qp.cc b/source/qp.cc
index 1166b48..fc5d7c2 100644
--- a/source/qp.cc
+++ b/source/qp.cc
@@ -19,9 +19,8 @@ QPEigenvalues QP::ComputeEigenvalueStats() const {
 
 QPInteriorPointSolver::QPInteriorPointSolver(const QP* const problem) { Setup(problem); }
 
-void QPInteriorPointSolver::Setup(const QP* const problem) {
-  // Until the new problem has been validated there is nothing that could be solved.
-  p_ = nullptr;
+// Assert that the dimensions and indices of the problem are consistent.
+static void CheckProblem(const QP* const problem) {
   F_ASSERT(problem != nullptr, "Must pass a non-null problem");
   F_ASSERT_EQ(problem->G.rows(), problem->G.cols(), "G must be square");
   F_ASSERT_EQ(problem->G.rows(), problem->c.rows(), "Dims of G and c must match");
@@ -40,6 +39,12 @@ void QPInteriorPointSolver::Setup(const QP* const problem) {
     F_ASSERT_GE(c.variable, 0, "Constraint index is out of bounds");
     F_ASSERT_LT(c.variable, static_cast<int>(problem->G.rows()), "Constraint index is out of bounds");
   }
+}
+
+void QPInteriorPointSolver::Setup(const QP* const problem) {
+  // Until the new problem has been validated there is nothing that could be solved.
+  p_ = nullptr;
+  CheckProblem(problem);
   p_ = problem;
 
   // Order is [slacks (s), equality multipliers(y), inequality multipliers (lambda)]
@@ -106,6 +111,13 @@ QPInteriorPointSolverOutputs QPInteriorPointSolver::Solve(
   F_ASSERT(p_, "Must have a valid problem");
   CheckParams(params);
 
+  // The problem is not copied, it may have been edited since the call to `Setup`.
+  CheckProblem(p_);
+  F_ASSERT_EQ(p_->G.rows(), dims_.N, "Number of variables changed since `Setup`");
+  F_ASSERT_EQ(p_->constraints.size(), static_cast<std::size_t>(dims_.M),
+              "Number of constraints changed since `Setup`");
+  F_ASSERT_EQ(p_->A_eq.rows(), dims_.K, "Number of equality constraints changed since `Setup`");
+
   // compute initial guess
   ComputeInitialGuess(params);
 
-- 
2.43.0

