#include "common.h"
#include "amatrix.h"
#include "visqol.h"
using namespace Visqol;
typedef AMatrix<double> M;
int main() {
  class Visqol V;
  for (int t = 0; t < rounds(4000); t++) {
    g_cases++;
    int P = ri(1, 12), B = ri(1, 33);
    if (t % 4 == 0) P = ri(1, 60);
    double fd = rd(.005, .1), q = coin() ? .1 : rd(.01, .99);
    bool wild = ri(0, 4) == 0, flat = ri(0, 4) == 0, same = coin();
    double L0 = fd * ri(2, 40) - fd * rd(.01, .99);
    std::vector<PatchSimilarityResult> v;
    for (int p = 0; p < P; p++) {
      PatchSimilarityResult r;
      r.freq_band_means = M(B, 1); r.freq_band_stddevs = M(B, 1); r.freq_band_deg_energy = M(B, 1);
      for (int b = 0; b < B; b++) {
        r.freq_band_means(b) = wild ? rd(-10, 10) : rd(0, 1); r.freq_band_stddevs(b) = flat ? 0 : rd(0, .5); r.freq_band_deg_energy(b) = rd(0, 45);
        if (flat && p) r.freq_band_means(b) = v[0].freq_band_means(b);
      }
      r.similarity = rd(0, 1);
      r.ref_patch_start_time = rd(0, 10); r.ref_patch_end_time = r.ref_patch_start_time + (same ? L0 : fd * ri(2, 40) - fd * rd(.01, .99));
      r.deg_patch_start_time = rd(0, 10); r.deg_patch_end_time = r.deg_patch_start_time + rd(0, 5);
      v.push_back(r);
    }
    M m = V.CalcPerPatchMeanFreqBandMeans(v), e = V.CalcPerPatchMeanFreqBandDegradedEnergy(v), k = V.CalcPerPatchFreqBandQuantile(v, q), s = V.CalcPerPatchMeanFreqBandStdDevs(v, fd);
    for (M* x : {&m, &e, &k, &s}) CHECK(x->NumRows() == (size_t)B && x->NumCols() == 1, "%d bands give a %zux%zu statistic", B, x->NumRows(), x->NumCols());
    for (int b = 0; b < B; b++) {
      double sm = 0, se = 0; std::vector<double> x;
      for (auto& r : v) { sm += r.freq_band_means(b); se += r.freq_band_deg_energy(b); x.push_back(r.freq_band_means(b)); }
      CHECK(close_to(m(b), sm / P, 1e-9, 1e-9), "mean of band %d over %d patches is %.17g, expected %.17g", b, P, m(b), sm / P);
      CHECK(close_to(e(b), se / P, 1e-9, 1e-9), "degraded energy of band %d over %d patches is %.17g, expected %.17g", b, P, e(b), se / P);
      std::sort(x.begin(), x.end());
      int n = std::max(1, (int)(P * q)); double sq = 0;
      for (int i = 0; i < n; i++) sq += x[i];
      CHECK(close_to(k(b), sq / n, 1e-9, 1e-9), "quantile %g of band %d over %d patches is %.17g, expected %.17g", q, b, P, k(b), sq / n);
      double con = 0; long tot = 0; double mx = 0;
      for (auto& r : v) {
        long f = (long)ceil((r.ref_patch_end_time - r.ref_patch_start_time) / fd); double sd = r.freq_band_stddevs(b), mu = r.freq_band_means(b);
        tot += f; con += (f - 1) * sd * sd + f * mu * mu; mx = std::max(mx, fabs(mu));
      }
      double d = (con - tot * (sm / P) * (sm / P)) / (tot - 1);
      if (tot < 2) continue;
      double tol = 1e-9 * (mx * mx + 1);
      CHECK(!std::isnan(s(b)) && s(b) >= 0, "pooled deviation of band %d is %.17g", b, s(b));
      CHECK(fabs(s(b) * s(b) - std::max(0., d)) <= tol, "pooled deviation of band %d over %d patches is %.17g, expected %.17g", b, P, s(b), sqrt(std::max(0., d)));
    }
    size_t fs = ri(1, 100000), sr = ri(1, 200000);
    CHECK(V.CalcFrameDuration(fs, sr) == (double)fs / (double)sr, "frame duration of %zu samples at %zu Hz", fs, sr);
  }
}
