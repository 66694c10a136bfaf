#include "engine.h"
int main() {
  Scratch sc;
  write_file(sc.d + "/broken.txt", "not a model\n"); write_file(sc.d + "/empty.txt", ""); write_file(sc.d + "/short.wav", "RIFF");
  std::filesystem::create_directories(sc.d + "/dir");
  for (int t = 0; t < rounds(25); t++) {
    VisqolManager m; bool usable = false; std::string log;
    for (int k = 0; k < 6; k++) {
      g_cases++;
      if (ri(0, 2) == 0) {
        bool sp = coin(), lat = coin(), good = coin();
        const char* bads[] = {"/none.txt", "/broken.txt", "/empty.txt", "/dir"};
        std::string mod = good ? (sp && lat ? speech_model() : audio_model()) : sc.d + bads[sp && lat ? (ri(0, 1) * 2) : ri(0, 3)];
        auto s = coin() ? m.Init(FilePath(mod), sp, coin(), 60, lat) : m.Init(absl::string_view(mod), sp, coin(), 60, lat);
        bool ok = good || (sp && !lat);
        log += " init(" + mod + (sp ? ",speech" : "") + (lat ? ",lattice)" : ")");
        CHECK(s.ok() == ok, "%s: status %d", log.c_str(), (int)s.code());
        usable = ok;
        CHECK(m.is_initialized_ == usable, "%s: engine usable: %d", log.c_str(), m.is_initialized_);
      } else {
        int kind = ri(0, 5);
        AudioSignal a = tone(16000, 16000, 300, .01), b = tone(16000, 16000, 300, .02);
        if (kind == 0) a.sample_rate = 8000;
        if (kind == 1) b.sample_rate = 48000;
        if (kind == 2) a = no_signal(16000, coin());
        if (kind == 3) b = no_signal(16000, coin());
        if (kind == 4) { a = no_signal(coin() ? 0 : 16000, coin()); b = no_signal(coin() ? 0 : 16000, coin()); }
        log += " run" + std::to_string(kind);
        absl::StatusOr<SimilarityResultMsg> r = kind == 5 ? m.Run(FilePath(sc.d + (coin() ? "/none.wav" : "/short.wav")), FilePath(sc.d + (coin() ? "/none.wav" : "/short.wav"))) : m.Run(a, b);
        CHECK(!r.ok(), "%s: a score was reported", log.c_str());
        if (!usable) CHECK(r.status().code() == absl::StatusCode::kAborted, "%s: status %d on an unusable engine", log.c_str(), (int)r.status().code());
        else CHECK(r.status().code() == absl::StatusCode::kInvalidArgument, "%s: status %d", log.c_str(), (int)r.status().code());
      }
    }
  }
}
