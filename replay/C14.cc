#include "common.h"
#include "amatrix.h"
#include "analysis_window.h"
#include "audio_signal.h"
#include "equivalent_rectangular_bandwidth.h"
#include "gammatone_filterbank.h"
#include "gammatone_spectrogram_builder.h"
#include "spectrogram.h"
using namespace Visqol;
typedef std::vector<double> D;
static const double PI = 3.14159265358979323846;
struct Ref { std::vector<D> cols; D cf; bool ok; };
static Ref build(const D& x, size_t sr, size_t W, double ov, int nb, double lo, bool speech) {
  Ref r; size_t H = W * ov; r.ok = H > 0 && x.size() > W;
  if (!r.ok) return r;
  auto e = EquivalentRectangularBandwidth::MakeFilters(sr, nb, lo, speech ? 8000.0 : sr / 2.0);
  for (int b = nb; b-- > 0;) r.cf.push_back(e.centerFreqs[b]);
  AMatrix<double> co(nb, 10);
  for (int b = 0; b < nb; b++) for (int k = 0; k < 10; k++) co(b, k) = e.filterCoeffs[k][nb - 1 - b];
  for (size_t i = 0; i * H + W <= x.size(); i++) {
    GammatoneFilterBank g(nb, lo); g.SetFilterCoefficients(co);
    std::valarray<double> fr(W);
    for (size_t j = 0; j < W; j++) fr[j] = x[i * H + j] * (.5 - .5 * cos(2 * PI * j / (W - 1.)));
    auto o = g.ApplyFilter(fr);
    D c; for (int b = 0; b < nb; b++) { double s = 0; for (size_t j = 0; j < W; j++) s += o(b, j) * o(b, j); c.push_back(sqrt(s / W)); }
    r.cols.push_back(c);
  }
  return r;
}
static AudioSignal sigof(const D& x, size_t sr, int ch) {
  AudioSignal s; s.sample_rate = sr; s.data_matrix = AMatrix<double>(x.size(), ch);
  for (size_t i = 0; i < x.size(); i++) for (int c = 0; c < ch; c++) s.data_matrix(i, c) = c ? 77. : x[i];
  return s;
}
int main() {
  const size_t rates[] = {48000, 44100, 16000, 8000, 7999, 22051, 1000, 50, 44, 40, 6, 1, 0};
  for (int t = 0; t < rounds(120); t++) {
    size_t sr = rates[t < 13 ? t : ri(0, 7)];
    double ov = ri(0, 3) ? .25 : ri(0, 1) ? .5 : rd(.1, 1);
    double dur = ri(0, 2) ? .08 : rd(.001, .02);
    AnalysisWindow w(sr, ov, dur);
    CHECK(w.size == (size_t)std::round(sr * dur) && w.overlap == ov && w.window_duration == dur, "window of rate %zu, %g s: size %zu", sr, dur, w.size);
    if (t % 3 == 0) { AnalysisWindow d(sr, ov); CHECK(d.size == (size_t)std::round(sr * .08), "default window of rate %zu: %zu", sr, d.size); }
    if (w.size > 0) {
      std::valarray<double> v(w.size); for (auto& q : v) q = rd(-1, 1);
      auto h = w.ApplyHannWindow(v);
      CHECK(h.size() == w.size, "windowed length");
      if (w.size > 1) for (size_t j = 0; j < w.size; j++) CHECK(close_to(h[j], v[j] * (.5 - .5 * cos(2 * PI * j / (w.size - 1.)))), "Hann window of %zu at %zu", w.size, j);
    }
    int nb = ri(1, 6); bool speech = coin(); double lo = sr > 400 ? 50 : sr / 10.0 + 1e-3;
    GammatoneFilterBank fb(nb, lo);
    GammatoneSpectrogramBuilder B(fb, speech);
    for (int rep = 0; rep < 3; rep++) {
      g_cases++;
      size_t H = w.size * ov;
      long n = ri(0, 6) == 0 ? ri(0, w.size) : w.size + (ri(0, 3) == 0 ? ri(0, 2) : H * ri(0, 3) + ri(0, 3)) - (ri(0, 7) == 0);
      if (n < 0) n = 0;
      D x(n); for (auto& q : x) q = ri(0, 20) ? rd(-1, 1) : 0;
      Ref r = build(x, sr, w.size, ov, nb, lo, speech);
      auto s = sigof(x, sr, ri(0, 3) ? 1 : 2);
      auto o = B.Build(s, w);
      CHECK(o.ok() == r.ok, "%ld samples, window %zu, hop %zu: %s", n, w.size, H, o.ok() ? "accepted" : "refused");
      if (!r.ok) { CHECK(o.status().code() == absl::StatusCode::kInvalidArgument, "refusal is not invalid-argument"); continue; }
      const auto& m = o.value().Data();
      CHECK(m.NumRows() == (size_t)nb && m.NumCols() == r.cols.size(), "%zux%zu spectrogram for %d bands, %ld samples, window %zu, hop %zu", m.NumRows(), m.NumCols(), nb, n, w.size, H);
      for (size_t i = 0; i < r.cols.size(); i++) for (int b = 0; b < nb; b++)
        CHECK(close_to(m(b, i), r.cols[i][b], 1e-7, 1e-12), "band %d frame %zu of call %d (rate %zu, window %zu): %.17g, expected %.17g", b, i, rep, sr, w.size, m(b, i), r.cols[i][b]);
      const auto& cf = o.value().GetCenterFreqBands();
      CHECK(cf.size() == r.cf.size(), "centre frequencies");
      for (int b = 0; b < nb; b++) CHECK(close_to(cf[b], r.cf[b]), "centre frequency %d", b);
    }
  }
}
