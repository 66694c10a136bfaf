#include "common.h"
#include "equivalent_rectangular_bandwidth.h"
using namespace Visqol;
typedef std::complex<double> Z;
int main() {
  for (int t = 0; t < rounds(3000); t++) {
    g_cases++;
    size_t sr = ri(0, 3) ? (size_t)std::vector<long>{8000, 16000, 22050, 44100, 48000, 96000}[ri(0, 5)] : (size_t)ri(2000, 192000);
    size_t n = ri(0, 4) ? ri(1, 64) : (coin() ? 32 : 21);
    double lo = coin() ? 50 : rd(0, 900), hi;
    int k = ri(0, 4);
    if (k == 0) hi = sr / 2.0; else if (k == 1) hi = 8000; else if (k == 2) hi = sr; else hi = rd(lo + 1, sr / 2.0 * 1.2);
    double cap = std::min(hi, sr / 2.0);
    if (lo >= cap) continue;
    auto r = EquivalentRectangularBandwidth::MakeFilters(sr, n, lo, hi);
    CHECK(r.centerFreqs.size() == n, "%zu centre frequencies for %zu bands", r.centerFreqs.size(), n);
    CHECK(r.filterCoeffs.size() == 10, "%zu coefficient lists", r.filterCoeffs.size());
    for (auto& l : r.filterCoeffs) CHECK(l.size() == n, "coefficient list of %zu for %zu bands", l.size(), n);
    auto E = [](double f) { return std::log(1 + f / (24.7 * 9.26449)); };
    for (size_t i = 0; i < n; i++) {
      double f = r.centerFreqs[i];
      CHECK(std::isfinite(f), "centre frequency %zu not finite", i);
      CHECK(f <= cap, "centre frequency %zu is %.17g, above the limit %.17g (rate %zu, requested %.17g)", i, f, cap, sr, hi);
      if (i) CHECK(f < r.centerFreqs[i - 1], "centre frequencies %zu and %zu not decreasing: %.17g, %.17g", i - 1, i, r.centerFreqs[i - 1], f);
      double want = E(cap) - (i + 1.0) * (E(cap) - E(lo)) / n;
      CHECK(close_to(E(f), want, 1e-10, 1e-10), "band %zu of %zu between %.9g and %.9g Hz at %zu Hz: centre %.17g is not equally spaced on the ERB-rate scale", i, n, lo, cap, sr, f);
    }
    CHECK(close_to(r.centerFreqs[n - 1], lo, 1e-9, 1e-9), "lowest centre frequency %.17g, requested %.17g", r.centerFreqs[n - 1], lo);
    double T = 1.0 / sr;
    for (size_t i = 0; i < n; i++) {
      double f = r.centerFreqs[i], erb = f / 9.26449 + 24.7, B = 2 * M_PI * 1.019 * erb, e = std::exp(B * T), c = std::cos(2 * M_PI * f * T), s = std::sin(2 * M_PI * f * T);
      double hi_ = std::sqrt(3 + std::pow(2, 1.5)), lo_ = std::sqrt(3 - std::pow(2, 1.5));
      double w[9] = {T, -(2 * T * c + 2 * T * hi_ * s) / e / 2, -(2 * T * c - 2 * T * hi_ * s) / e / 2, -(2 * T * c + 2 * T * lo_ * s) / e / 2, -(2 * T * c - 2 * T * lo_ * s) / e / 2, 0, 1, -2 * c / e, std::exp(-2 * B * T)};
      for (int k = 0; k < 9; k++) CHECK(close_to(r.filterCoeffs[k][i], w[k], 1e-7, 1e-12), "coefficient %d of band %zu (%.9g Hz at %zu Hz) is %.17g, the design gives %.17g", k, i, f, sr, r.filterCoeffs[k][i], w[k]);
      // the gain makes the magnitude of the cascade one at the centre frequency
      Z z = std::exp(Z(0, -2 * M_PI * f * T)), h = 1;
      for (int k = 1; k <= 4; k++) h *= (w[0] + w[k] * z) / (1.0 + w[7] * z + w[8] * z * z);
      if (f < sr / 2.0 * 0.98 && f > 20) CHECK(close_to(std::abs(h) / r.filterCoeffs[9][i], 1, 1e-3, 0), "gain of band %zu (%.9g Hz at %zu Hz) is %.17g, the cascade's magnitude at the centre is %.17g", i, f, sr, r.filterCoeffs[9][i], std::abs(h));
    }
  }
}
