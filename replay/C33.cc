#include "common.h"
#include "sim_results_writer.h"
using namespace Visqol;
static std::string num(double x) { char b[64]; snprintf(b, sizeof b, "%.9g", x); return b; }
static double val() { switch (ri(0, 6)) { case 0: return 0; case 1: return 1; case 2: return rd(-1, 1) * 1e-9; case 3: return rd(0, 1e9); case 4: return NAN; default: return rd(-1, 6); } }
static std::string slurp(const std::string& p) { std::ifstream f(p, std::ios::binary); std::stringstream s; s << f.rdbuf(); return s.str(); }
int main() {
  char dir[] = "/tmp/dvrXXXXXX"; std::string d = mkdtemp(dir), p = d + "/r.csv";
  for (int t = 0; t < rounds(1500); t++) {
    unlink(p.c_str());
    std::string expect; bool exists = false;
    if (ri(0, 2) == 0) { expect = coin() ? "" : "something\nelse"; exists = true; std::ofstream f(p); f << expect; }
    for (int k = ri(1, 4); k > 0; k--) {
      g_cases++;
      SimilarityResultMsg m; m.set_reference_filepath(coin() ? "ref.wav" : "dir/my ref.wav"); m.set_degraded_filepath(coin() ? "deg.wav" : ""); m.set_moslqo(val());
      int n = ri(0, 3) ? ri(0, 32) : 0, n2 = coin() ? n : ri(0, 5);
      std::vector<double> c[4];
      for (int q = 0; q < 4; q++) for (int i = 0; i < (q == 1 ? n2 : n); i++) { double x = val(); c[q].push_back(x); q == 0 ? m.add_fvnsim(x) : q == 1 ? m.add_fvnsim10(x) : q == 2 ? m.add_fstdnsim(x) : m.add_fvdegenergy(x); }
      bool on[4] = {true, true, true, true}; if (ri(0, 3) == 0) for (auto& x : on) x = coin();
      int g[4] = {1, 1, 2, 3}; const char* nm[4] = {"fvnsim", "fvnsim10_", "fstdnsim", "fvdegenergy"};
      if (!exists) { expect += "reference,degraded"; if (on[0]) expect += ",moslqo"; for (int q = 0; q < 4; q++) if (on[g[q]]) for (size_t i = 0; i < c[q].size(); i++) expect += std::string(",") + nm[q] + std::to_string(i); expect += "\n"; }
      expect += m.reference_filepath() + "," + m.degraded_filepath(); if (on[0]) expect += "," + num(m.moslqo());
      for (int q = 0; q < 4; q++) if (on[g[q]]) for (double x : c[q]) expect += "," + num(x);
      expect += "\n"; exists = true;
      if (on[0] && on[1] && on[2] && on[3]) SimilarityResultsWriter::WriteResultsToCSV(FilePath(p), m);
      else SimilarityResultsWriter::WriteResultsToCSV(FilePath(p), m, on[0], on[1], on[2], on[3]);
      std::string got = slurp(p);
      size_t i = 0; while (i < got.size() && i < expect.size() && got[i] == expect[i]) i++;
      CHECK(got == expect, "file differs from byte %zu on: \"%.60s\", expected \"%.60s\"", i, got.substr(i).c_str(), expect.substr(i).c_str());
    }
  }
  unlink(p.c_str()); rmdir(d.c_str());
}
