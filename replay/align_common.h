#pragma once
#include "common.h"
#include "alignment.h"
#include "amatrix.h"
#include "audio_signal.h"
#include "envelope.h"
#include "xcorr.h"
using namespace Visqol;
typedef AMatrix<double> M;
static inline M sub_signal(const M& m, long s, long n) {
  M r(n, 1);
  for (long i = 0; i < n; i++) r(i, 0) = s + i >= 0 && s + i < (long)m.NumRows() ? m(s + i, 0) : 0.;
  return r;
}
/** two versions of one recording: the degraded one is late (d > 0), early or cut, with some noise */
static inline void make_pair_(M& ref, M& deg, int t) {
  int n = t % 4 == 0 ? ri(1, 12) : ri(2, 400), extra = t % 3 == 0 ? 0 : ri(-n / 2, n), d = t % 5 == 0 ? 0 : ri(-n, n);
  std::vector<double> x(4 * n + 8);
  for (auto& v : x) v = rd(-1, 1) * (coin() ? 1 : .1);
  long m = std::max(1, n + extra);
  ref = M(n, 1); deg = M(m, 1);
  for (int i = 0; i < n; i++) ref(i, 0) = x[n + i];
  for (long i = 0; i < m; i++) { long k = n + i - d; deg(i, 0) = k >= 0 && k < (long)x.size() ? x[k] + (t % 2 ? 0 : rd(-.01, .01)) : 0.; }
  if (t % 11 == 0) for (int i = 0; i < n; i++) ref(i, 0) = 0;
}
static inline long detected(const M& ref, const M& deg) {
  long L = XCorr::FindLowestLagIndex(Envelope::CalcUpperEnv(ref), Envelope::CalcUpperEnv(deg));
  if (2 * std::labs(L) > (long)ref.NumRows() || -L >= (long)deg.NumRows()) L = 0;
  return L;
}
static inline M shifted(const M& deg, long L) { return sub_signal(deg, -L, (long)deg.NumRows() + L); }
static inline bool same(const M& a, const M& b) {
  if (a.NumRows() != b.NumRows() || a.NumCols() != 1) return false;
  for (size_t i = 0; i < a.NumRows(); i++) if (a(i, 0) != b(i, 0)) return false;
  return true;
}
