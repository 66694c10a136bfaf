#include "align_common.h"
int main() {
  for (int t = 0; t < rounds(6000); t++) {
    g_cases++;
    M ref, deg; make_pair_(ref, deg, t);
    size_t sr = t % 2 ? 48000 : (size_t)ri(1, 96000);
    AudioSignal r{ref, sr}, d{deg, sr};
    auto out = Alignment::AlignAndTruncate(r, d);
    long L = detected(ref, deg), n = ref.NumRows();
    M al = shifted(deg, L);
    long m = al.NumRows(), s = n < m && L > 0 ? L : 0, e = std::min(n, m);
    const M &a = std::get<0>(out).data_matrix, &b = std::get<1>(out).data_matrix;
    CHECK(a.NumRows() == b.NumRows() && a.NumRows() > 0, "lengths %zu and %zu for lag %ld of %ld and %zu samples", a.NumRows(), b.NumRows(), L, n, deg.NumRows());
    CHECK(same(a, sub_signal(ref, s, e - s)), "reference is not samples %ld..%ld for lag %ld of %ld and %zu samples", s, e, L, n, deg.NumRows());
    CHECK(same(b, sub_signal(al, s, e - s)), "degraded is not samples %ld..%ld of the aligned signal for lag %ld of %ld and %zu samples", s, e, L, n, deg.NumRows());
    CHECK(std::get<0>(out).sample_rate == sr && std::get<1>(out).sample_rate == sr, "sample rates %zu %zu", std::get<0>(out).sample_rate, std::get<1>(out).sample_rate);
    CHECK(std::get<2>(out) == (double)L / sr, "lag %ld at %zu Hz reported as %.17g s", L, sr, std::get<2>(out));
  }
}
