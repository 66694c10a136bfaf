#include "align_common.h"
int main() {
  for (int t = 0; t < rounds(6000); t++) {
    g_cases++;
    M ref, deg; make_pair_(ref, deg, t);
    size_t sr = t % 2 ? 48000 : (size_t)ri(1, 96000);
    AudioSignal r{ref, sr}, d{deg, sr};
    auto out = Alignment::GloballyAlign(r, d);
    long L = detected(ref, deg);
    const AudioSignal& o = std::get<0>(out);
    CHECK(same(o.data_matrix, shifted(deg, L)), "lag %ld of %zu and %zu samples: aligned signal of %zu samples is not the shifted input", L, ref.NumRows(), deg.NumRows(), o.data_matrix.NumRows());
    CHECK(o.sample_rate == sr, "sample rate %zu became %zu", sr, o.sample_rate);
    CHECK(std::get<1>(out) == (double)L / sr, "lag %ld at %zu Hz reported as %.17g s", L, sr, std::get<1>(out));
  }
}
