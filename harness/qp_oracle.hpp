// Extended-precision algebra and a brute-force active-set QP oracle shared by harnesses.
#pragma once
#include <algorithm>
#include <cmath>
#include <vector>
namespace qpo {
using LD = long double;
using Vec = std::vector<LD>;
using Mat = std::vector<Vec>;

// ---------------------------------------------------------------- tiny dense algebra, extended precision
inline bool lu_solve(Mat A, Vec b, Vec* x, LD* growth = nullptr) {
  const int n = static_cast<int>(b.size());
  LD amax = 0, pmin = HUGE_VALL;
  for (auto& r : A) for (LD v : r) amax = std::max(amax, fabsl(v));
  std::vector<int> cp(n);
  for (int i = 0; i < n; ++i) cp[i] = i;
  for (int k = 0; k < n; ++k) {
    int pi = k, pj = k;
    for (int i = k; i < n; ++i) for (int j = k; j < n; ++j) if (fabsl(A[i][j]) > fabsl(A[pi][pj])) { pi = i; pj = j; }
    if (!(fabsl(A[pi][pj]) > 1e-14L * amax)) return false;
    std::swap(A[k], A[pi]); std::swap(b[k], b[pi]);
    for (int i = 0; i < n; ++i) std::swap(A[i][k], A[i][pj]);
    std::swap(cp[k], cp[pj]);
    pmin = std::min(pmin, fabsl(A[k][k]));
    for (int i = k + 1; i < n; ++i) {
      const LD f = A[i][k] / A[k][k];
      if (f == 0) continue;
      for (int j = k; j < n; ++j) A[i][j] -= f * A[k][j];
      b[i] -= f * b[k];
    }
  }
  Vec y(n);
  for (int k = n - 1; k >= 0; --k) {
    LD t = b[k];
    for (int j = k + 1; j < n; ++j) t -= A[k][j] * y[j];
    y[k] = t / A[k][k];
  }
  x->assign(n, 0);
  for (int k = 0; k < n; ++k) (*x)[cp[k]] = y[k];
  if (growth) *growth = amax / pmin;
  return true;
}

struct P {  // the problem, in plain form
  int n = 1, K = 0;
  Mat G, A;
  Vec c, b;
  struct C { int v; LD a, b; };
  std::vector<C> cons;
};

// Brute-force minimiser over active sets.
// margin: smallest active multiplier or inactive slack at the minimiser (how far from degenerate).
inline bool brute(const P& p, Vec* xbest, LD tighten = 0, LD* margin = nullptr, LD* growth = nullptr) {
  const int M = static_cast<int>(p.cons.size()), n = p.n, K = p.K;
  for (int mask = 0; mask < (1 << M); ++mask) {
    std::vector<int> act;
    for (int i = 0; i < M; ++i) if (mask >> i & 1) act.push_back(i);
    const int na = static_cast<int>(act.size()), sz = n + K + na;
    if (K + na > n) continue;
    Mat S(sz, Vec(sz, 0));
    Vec r(sz, 0), sol;
    for (int i = 0; i < n; ++i) { for (int j = 0; j < n; ++j) S[i][j] = p.G[i][j]; r[i] = -p.c[i]; }
    for (int k = 0; k < K; ++k) { for (int j = 0; j < n; ++j) { S[n + k][j] = p.A[k][j]; S[j][n + k] = -p.A[k][j]; } r[n + k] = -p.b[k]; }
    for (int k = 0; k < na; ++k) { const auto& c = p.cons[act[k]]; S[n + K + k][c.v] = c.a; S[c.v][n + K + k] = -c.a; r[n + K + k] = -(c.b - tighten * fabsl(c.a)); }
    if (!lu_solve(S, r, &sol, growth)) continue;
    bool ok = true;
    for (int i = 0; i < M && ok; ++i) ok = p.cons[i].a * sol[p.cons[i].v] + p.cons[i].b - tighten * fabsl(p.cons[i].a) >= -1e-12L;
    for (int k = 0; k < na && ok; ++k) ok = sol[n + K + k] >= -1e-12L;
    if (!ok) continue;
    xbest->assign(sol.begin(), sol.begin() + n);
    if (margin) {
      *margin = HUGE_VALL;
      for (int i = 0; i < M; ++i) {
        int k = 0;
        while (k < na && act[k] != i) ++k;
        *margin = std::min(*margin, k < na ? sol[n + K + k] : p.cons[i].a * sol[p.cons[i].v] + p.cons[i].b);
      }
    }
    return true;
  }
  return false;
}

}  // namespace qpo
