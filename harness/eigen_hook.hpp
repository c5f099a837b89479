// Force-included when compiling with Eigen's own checks routed to the harness: a failed check is a
// malformed access that reached the linear algebra, reported with a type no library code catches.
#pragma once
struct McEigenHit { const char* what; const char* file; int line; };
[[noreturn]] inline void mc_eigen_hit(const char* w, const char* f, int l) { throw McEigenHit{w, f, l}; }
#define eigen_assert(x) do { if (!(x)) ::mc_eigen_hit(#x, __FILE__, __LINE__); } while (false)
