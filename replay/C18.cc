#include "common.h"
#include "rms_vad.h"
using namespace Visqol;
int main() {
  for (int t = 0; t < rounds(3000); t++) {
    g_cases++;
    int n = ri(0, 12);
    RmsVad vad;
    std::vector<int> loud;
    std::string desc;
    for (int i = 0; i < n; i++) {
      int len = ri(1, 9);
      std::vector<int16_t> ch(len);
      int kind = ri(0, 4);
      double ss = 0;
      for (auto& x : ch) {
        x = kind == 0 ? 0 : kind == 1 ? 5000 : kind == 2 ? (coin() ? -5000 : 4999) : kind == 3 ? (int16_t)ri(-32768, 32767) : (int16_t)ri(-6500, 6500);
        ss += (double)x * x;
        desc += std::to_string(x) + " ";
      }
      desc += "| ";
      double rms = std::sqrt(ss / len);
      double got = vad.ProcessChunk(ch);
      CHECK(close_to(got, rms, 1e-12), "RMS %.17g, expected %.17g for %s", got, rms, desc.c_str());
      loud.push_back(std::sqrt(ss / len) >= 5000.0);
      if (ri(0, 5) == 0) vad.GetVadResults();
    }
    for (int rep = 0; rep < 2; rep++) {
      auto r = vad.GetVadResults();
      CHECK(r.size() == loud.size(), "%zu decisions for %zu frames (call %d): %s", r.size(), loud.size(), rep, desc.c_str());
      for (int i = 0; i < n; i++) {
        double want = i >= 2 && !loud[i] && !loud[i - 1] && !loud[i - 2] ? 0.0 : 1.0;
        CHECK(r[i] == want, "decision of frame %d is %g, expected %g (call %d): %s", i, r[i], want, rep, desc.c_str());
      }
    }
  }
}
