#include "engine.h"
int main() {
  for (int t = 0; t < rounds(3); t++) {
    bool sp = t % 3 != 2, lat = t % 3 == 1; size_t sr = 8000;
    std::string mod = sp && lat ? speech_model() : audio_model();
    VisqolManager e; (void)e.Init(FilePath(mod), sp, false, 40, lat);
    std::vector<std::pair<AudioSignal, AudioSignal>> in; std::vector<std::string> first;
    for (int k = 0; k < 4; k++) {
      size_t r = k == 2 ? 16000 : sr;
      in.push_back({tone(r * 3 / 2 + 777 * k, r, 180 + 90 * k, .02), tone(r * 3 / 2 + 500 * k, r, 180 + 90 * k, .05)});
    }
    in.push_back({tone(100, sr, 200, 0), tone(100, sr, 200, 0)}); in.push_back({no_signal(sr), in[0].second}); in.push_back({AudioSignal{in[0].first.data_matrix, 44100}, in[0].second});
    auto run = [&](VisqolManager& m, int k) { AudioSignal a = in[k].first, b = in[k].second; auto r = m.Run(a, b); return r.ok() ? r.value().SerializeAsString() : "status " + std::to_string((int)r.status().code()); };
    for (int k = 0; k < (int)in.size(); k++) { VisqolManager fresh; (void)fresh.Init(FilePath(mod), sp, false, 40, lat); first.push_back(run(fresh, k)); }
    std::string order;
    for (int j = 0; j < 9; j++) {
      g_cases++;
      int k = j < 4 ? j / 2 : ri(0, in.size() - 1); order += " " + std::to_string(k);
      CHECK(run(e, k) == first[k], "comparing pairs in the order%s: the last result differs from that of a fresh engine (speech %d lattice %d)", order.c_str(), sp, lat);
    }
  }
}
