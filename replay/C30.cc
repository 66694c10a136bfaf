#include "common.h"
#include "misc_audio.h"
using namespace Visqol;
int main() {
  for (int t = 0; t < rounds(1500); t++) {
    g_cases++;
    int n[2] = {(int)ri(1, 400), (int)ri(1, 400)};
    int ch[2] = {1, 1};
    if (ri(0, 3) == 0) { ch[0] = ri(1, 3); ch[1] = ri(1, 3); }
    if (ri(0, 3) == 0) n[1] = n[0];
    AudioSignal s[2]; double ms[2];
    for (int k = 0; k < 2; k++) {
      AMatrix<double> m(n[k], ch[k]);
      double amp = std::pow(10, rd(-6, 2)), dc = ri(0, 3) == 0 ? rd(-1, 1) : 0;
      ms[k] = 0;
      for (int c = 0; c < ch[k]; c++) for (int i = 0; i < n[k]; i++) { double x = amp * (rd(-1, 1) + dc); if (ri(0, 9) == 0) x = 0; m(i, c) = x; }
      if (ri(0, 20) == 0) { for (int c = 0; c < ch[k]; c++) for (int i = 0; i < n[k]; i++) m(i, c) = 0; m(ri(0, n[k] - 1), 0) = amp; }
      for (int c = 0; c < ch[k]; c++) for (int i = 0; i < n[k]; i++) ms[k] += m(i, c) * m(i, c);
      ms[k] /= (double)n[k] * ch[k];
      s[k].data_matrix = m; s[k].sample_rate = ri(1, 96000);
    }
    if (ms[0] == 0 || ms[1] == 0) continue;
    const AudioSignal r0 = s[0], d0 = s[1];
    AudioSignal o = MiscAudio::ScaleToMatchSoundPressureLevel(s[0], s[1]);
    CHECK(o.sample_rate == d0.sample_rate, "sample rate %zu became %zu", d0.sample_rate, o.sample_rate);
    CHECK(o.data_matrix.NumRows() == d0.data_matrix.NumRows() && o.data_matrix.NumCols() == d0.data_matrix.NumCols(), "size changed");
    double g = std::sqrt(ms[0] / ms[1]);
    for (int c = 0; c < ch[1]; c++) for (int i = 0; i < n[1]; i++)
      CHECK(close_to(o.data_matrix(i, c), d0.data_matrix(i, c) * g, 1e-9, 1e-300), "sample %d of %d: %.17g scaled to %.17g, expected factor %.17g (reference rms %.9g, degraded rms %.9g, reference %d samples)", i, n[1], d0.data_matrix(i, c), o.data_matrix(i, c), g, std::sqrt(ms[0]), std::sqrt(ms[1]), n[0]);
    for (int c = 0; c < ch[0]; c++) for (int i = 0; i < n[0]; i++) CHECK(s[0].data_matrix(i, c) == r0.data_matrix(i, c), "reference modified");
    for (int c = 0; c < ch[1]; c++) for (int i = 0; i < n[1]; i++) CHECK(s[1].data_matrix(i, c) == d0.data_matrix(i, c), "degraded input modified");
    double spl = 20 * std::log10(std::sqrt(ms[0]) / 20e-6);
    CHECK(close_to(MiscAudio::CalcSoundPressureLevel(s[0]), spl, 1e-9, 1e-9), "level %.17g, expected %.17g", MiscAudio::CalcSoundPressureLevel(s[0]), spl);
  }
}
