#include "wav_common.h"
using namespace Visqol;
int main() {
  for (int t = 0; t < rounds(60000); t++) {
    g_cases++;
    Bytes b = make(ri(0, 3) ? 2 : ri(0, 1));
    if (t < 400) b = junk(ri(0, 60));
    Wav w = oracle(b);
    std::stringstream s(b);
    WavReader r(&s);
    CHECK(r.IsHeaderValid() == w.ok, "stream of %zu bytes %s, expected %s", b.size(), r.IsHeaderValid() ? "accepted" : "rejected", w.ok ? "accepted" : "rejected");
    if (!w.ok) continue;
    CHECK((uint32_t)r.GetNumChannels() == w.ch, "channels %d, header says %u", (int)r.GetNumChannels(), w.ch);
    CHECK((uint32_t)r.GetSampleRateHz() == w.rate, "rate %d, header says %u", (int)r.GetSampleRateHz(), w.rate);
    CHECK(r.GetNumTotalSamples() == w.size / 2, "%zu samples, header says %u", (size_t)r.GetNumTotalSamples(), w.size / 2);
  }
}
