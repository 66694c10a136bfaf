#include "common.h"
#include "vad_patch_creator.h"
#include "analysis_window.h"
#include "audio_signal.h"
#include "amatrix.h"
using namespace Visqol;
static bool loud(const AMatrix<double>& s, double mx, long from, long F) {
  double q = 0;
  for (long i = 0; i < F; i++) {
    double x = s(from + i, 0) / mx * 32768;
    x = x < 32767. ? x : 32767.; x = x > -32768. ? x : -32768.;
    double v = (int16_t)x; q += v * v;
  }
  return std::sqrt(q / F) >= 5000.;
}
int main() {
  for (int t = 0; t < rounds(3000); t++) {
    g_cases++;
    long P = t % 3 ? 20 : ri(2, 24), sr = t % 4 == 0 ? ri(500, 4000) : t % 4 == 1 ? 1102 : 800;
    AnalysisWindow w(sr, .25, .08);
    long F = (long)(w.size * w.overlap), W = w.size;
    if (F < 1) continue;
    long n = W + 1 + (t % 5 == 0 ? ri(0, 12 * F) : ri(0, 150 * F));
    if (t % 50 == 7) n = W + 1 + ri(0, 2500 * F);
    AMatrix<double> s(n, 1);
    double level = 1, peak = 0;
    for (long i = 0; i < n; i++) {
      if (i % (F * ri(1, 9)) == 0) level = coin() ? 0 : coin() ? rd(.1, .3) : rd(0, 1);
      s(i, 0) = rd(-1, 1) * level; peak = std::max(peak, s(i, 0));
    }
    if (peak <= 0) continue;
    long C = 1 + (n - W) / F, first = P / 2 - 1, cand = C < first ? 0 : (C - first) / P;
    VadPatchCreator v(P);
    AMatrix<double> spec(2, C);
    std::vector<size_t> want;
    std::vector<char> raw(cand * P), dec(cand * P);
    for (long k = 0; k < cand * P; k++) raw[k] = loud(s, peak, first + k * F, F);
    for (long k = 0; k < cand * P; k++) dec[k] = k < 2 || raw[k] || raw[k - 1] || raw[k - 2];
    for (long i = 0; i < cand; i++) { bool any = false; for (long k = 0; k < P; k++) any |= dec[i * P + k]; if (any) want.push_back(first + i * P); }
    try {
      auto r = v.CreateRefPatchIndices(spec, AudioSignal{s, (size_t)sr}, w);
      CHECK(r.ok() && r.value() == want, "%ld frames of %ld samples (patch %ld): %zu patches, expected %zu", C, F, P, r.ok() ? r.value().size() : (size_t)0, want.size());
    } catch (const std::exception& x) { FAIL("%ld samples at %ld Hz, patch of %ld frames: exception %s", n, sr, P, x.what()); }
  }
}
