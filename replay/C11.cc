#include "common.h"
#include "amatrix.h"
#include "neurogram_similiarity_index_measure.h"
using namespace Visqol;
typedef AMatrix<double> M;
static double K[3][3] = {{0.0113033910173052, 0.0838251475442633, 0.0113033910173052}, {0.0838251475442633, 0.619485845753726, 0.0838251475442633}, {0.0113033910173052, 0.0838251475442633, 0.0113033910173052}};
template <class F> static double conv(F f, int R, int C, int r, int c) {
  double s = 0;
  for (int i = -1; i <= 1; i++) for (int j = -1; j <= 1; j++) {
    int a = std::min(std::max(r + i, 0), R - 1), b = std::min(std::max(c + j, 0), C - 1);
    s += K[i + 1][j + 1] * f(a, b);
  }
  return s;
}
int main() {
  NeurogramSimiliarityIndexMeasure N;
  for (int t = 0; t < rounds(1500); t++) {
    g_cases++;
    int R = ri(1, 8), C = ri(1, 8); if (t % 50 == 0) { R = 32; C = 30; }
    int kind = ri(0, 6);
    double hi = kind == 3 ? 1e-3 : kind == 4 ? 45 : 1, off = kind == 5 ? 1e4 : 0;
    M a(R, C), b(R, C);
    for (int r = 0; r < R; r++) for (int c = 0; c < C; c++) {
      a(r, c) = kind == 0 ? 0 : off + rd(0, hi);
      b(r, c) = kind == 1 ? a(r, c) : kind == 2 ? 0 : kind == 6 ? a(r, c) * rd(.9, 1.1) : off + rd(0, hi);
      if (ri(0, 6) == 0) b(r, c) = 0;
    }
    M a0 = a, b0 = b;
    auto o = N.MeasurePatchSimilarity(a, b);
    CHECK(a == a0 && b == b0, "a patch was modified");
    double c1 = pow(.01 * 1, 2), c3 = pow(.03 * 1, 2) / 2, tot = 0;
    CHECK(o.freq_band_means.NumRows() == (size_t)R && o.freq_band_means.NumCols() == 1 && o.freq_band_deg_energy.NumRows() == (size_t)R && o.freq_band_stddevs.NumRows() == (size_t)R, "shape of the band results");
    bool loose = false;
    std::vector<double> means;
    for (int r = 0; r < R; r++) {
      std::vector<double> row; double s = 0, en = 0;
      for (int c = 0; c < C; c++) {
        double mr = conv([&](int i, int j) { return a(i, j); }, R, C, r, c), md = conv([&](int i, int j) { return b(i, j); }, R, C, r, c);
        double rr = conv([&](int i, int j) { return a(i, j) * a(i, j); }, R, C, r, c) - mr * mr, dd = conv([&](int i, int j) { return b(i, j) * b(i, j); }, R, C, r, c) - md * md;
        double rv = conv([&](int i, int j) { return a(i, j) * b(i, j); }, R, C, r, c) - mr * md;
        double p = rr * dd; if (off) loose = true;
        row.push_back((2 * mr * md + c1) / (mr * mr + md * md + c1) * (rv + c3) / (p < 0 ? c3 : sqrt(p) + c3));
        s += row.back(); en += b(r, c);
      }
      double m = s / C, v = 0; for (double q : row) v += (q - m) * (q - m);
      means.push_back(m); tot += m;
      if (loose) continue;                      // cancellation: only compared below with a wide margin
      CHECK(close_to(o.freq_band_means(r, 0), m, 1e-6, 1e-7), "band %d of %dx%d (kind %d): similarity %.17g, formula gives %.17g", r, R, C, kind, o.freq_band_means(r, 0), m);
      if (C > 1) CHECK(close_to(o.freq_band_stddevs(r, 0), sqrt(v / (C - 1)), 1e-4, 1e-6), "band %d deviation %.17g, expected %.17g", r, o.freq_band_stddevs(r, 0), sqrt(v / (C - 1)));
      CHECK(close_to(o.freq_band_deg_energy(r, 0), en / C, 1e-9, 1e-12), "band %d degraded energy %.17g, mean is %.17g", r, o.freq_band_deg_energy(r, 0), en / C);
    }
    double mm = 0; for (int r = 0; r < R; r++) mm += o.freq_band_means(r, 0);
    CHECK(close_to(o.similarity, mm / R, 1e-9, 1e-12), "similarity %.17g is not the mean of the band similarities %.17g", o.similarity, mm / R);
  }
}
