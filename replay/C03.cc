#include "wav_common.h"
using namespace Visqol;
static void same(const Bytes& b, const AudioSignal& a, const char* how) {
  Wav w = oracle(b);
  uint64_t have = w.ok ? std::min<uint64_t>(w.size / 2, (b.size() - w.pcm) / 2) : 0;
  if (have == 0) { CHECK(a.data_matrix.NumElements() == 0, "%s: a stream without samples gave %zu samples", how, (size_t)a.data_matrix.NumElements()); return; }
  if (have < w.size / 2) return;
  uint64_t frames = have / w.ch;
  CHECK(a.data_matrix.NumCols() == 1 || frames == 0, "%s: %zu columns", how, (size_t)a.data_matrix.NumCols());
  CHECK(a.data_matrix.NumRows() == frames, "%s: %zu samples from %llu frames", how, (size_t)a.data_matrix.NumRows(), (unsigned long long)frames);
  CHECK(a.sample_rate == w.rate, "%s: rate %zu, header %u", how, (size_t)a.sample_rate, w.rate);
  for (uint64_t i = 0; i < frames; i++) {
    double x = 0; for (uint32_t c = 0; c < w.ch; c++) x += sample(b, w, i * w.ch + c) / 32768.0;
    CHECK(close_to(a.data_matrix(i, 0), x / w.ch, 1e-12, 1e-12), "%s: sample %llu of %llu is %.17g, expected %.17g (%u channels)", how, (unsigned long long)i, (unsigned long long)frames, a.data_matrix(i, 0), x / w.ch, w.ch);
  }
}
int main() {
  char dir[] = "/tmp/dvrXXXXXX"; std::string d = mkdtemp(dir), p = d + "/a.wav";
  for (int t = 0; t < rounds(4000); t++) {
    g_cases++;
    Bytes b = make(ri(0, 3) == 0 ? 2 : ri(0, 1));
    std::stringstream s(b);
    same(b, MiscAudio::LoadAsMono(&s), "stream");
    if (t % 8 == 0) { { std::ofstream f(p, std::ios::binary); f << b; } AudioSignal a = MiscAudio::LoadAsMono(FilePath(p)); unlink(p.c_str()); same(b, a, "file"); }
  }
  AudioSignal a = MiscAudio::LoadAsMono(FilePath(p));
  rmdir(d.c_str());
  CHECK(a.data_matrix.NumElements() == 0, "a missing file gave samples");
}
