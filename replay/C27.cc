#include "align_common.h"
int main() {
  for (int t = 0; t < rounds(4000); t++) {
    g_cases++;
    M a, b; make_pair_(a, b, t);
    if (t % 13 == 0) for (size_t i = 0; i < b.NumRows(); i++) b(i, 0) = 0;          // every lag ties
    long n = std::max(a.NumRows(), b.NumRows());
    auto x = [](const M& m, long i) { return i >= 0 && i < (long)m.NumRows() ? m(i, 0) : 0.; };
    double best = -INFINITY, scale = 0; long at = 0;
    std::vector<double> c(2 * n - 1);
    for (long L = -(n - 1); L < n; L++) {
      double s = 0, m = 0;
      for (long i = 0; i < n; i++) { s += x(a, i + L) * x(b, i); m += std::fabs(x(a, i + L) * x(b, i)); }
      c[L + n - 1] = s; scale = std::max(scale, m);
      if (s > best) { best = s; at = L; }
    }
    long L = XCorr::FindLowestLagIndex(a, b);
    CHECK(-n < L && L < n, "lag %ld of signals of %zu and %zu samples", L, a.NumRows(), b.NumRows());
    CHECK(c[L + n - 1] >= best - 1e-4 * scale, "signals of %zu and %zu samples: lag %ld has correlation %.9g, lag %ld has %.9g", a.NumRows(), b.NumRows(), L, c[L + n - 1], at, best);
    if (scale == 0) CHECK(L == -(n - 1), "all lags tie: lag %ld is not the most negative one (%ld samples)", L, n);
  }
}
