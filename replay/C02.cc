#include "wav_common.h"
using namespace Visqol;
int main() {
  for (int t = 0; t < rounds(30000); t++) {
    Bytes b = make(ri(0, 2)); Wav w = oracle(b);
    if (!w.ok) continue;
    g_cases++;
    std::stringstream s(b);
    WavReader r(&s);
    uint64_t total = w.size / 2, have = std::min<uint64_t>(total, (b.size() - w.pcm) / 2), done = 0;
    for (int k = ri(1, 12); k > 0; k--) {
      size_t want = ri(0, 2) ? ri(0, 30) : ri(0, 4000);
      std::vector<int16_t> v(want + 8, 0x5a5a);
      size_t got = r.ReadSamples(want, v.data() + 4);
      size_t exp = std::min<uint64_t>(want, have - done);
      CHECK(got == exp, "asked for %zu samples after %llu of %llu (%llu in the stream): got %zu, expected %zu", want, (unsigned long long)done, (unsigned long long)total, (unsigned long long)have, got, exp);
      for (size_t i = 0; i < got; i++) CHECK(v[4 + i] == sample(b, w, done + i), "sample %llu read as %d, stored %d", (unsigned long long)(done + i), v[4 + i], sample(b, w, done + i));
      uint64_t lim = std::min<uint64_t>(want, total - done);
      for (size_t i = 0; i < v.size(); i++) if (i < 4 || i >= 4 + lim) CHECK(v[i] == 0x5a5a, "buffer written outside the samples of the data chunk, index %ld of %zu", (long)i - 4, want);
      done += got;
      if (done == have && have < total) break;      // the stream ended early
    }
  }
}
