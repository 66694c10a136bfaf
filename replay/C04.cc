#include "common.h"
#include "commandline_parser.h"
using namespace Visqol;
typedef std::pair<std::string, std::string> P;
int main() {
  char dir[] = "/tmp/dvrXXXXXX"; std::string d = mkdtemp(dir), p = d + "/b.csv", ex = d + "/exists.wav";
  { std::ofstream f(ex); f << "x"; }
  for (int t = 0; t < rounds(6000); t++) {
    g_cases++;
    std::vector<std::string> lines; int n = ri(0, 7);
    const char* words[] = {"a.wav", "b.wav", "", " ", "dir/c d.wav", "x", "\r", "reference", "\"q\"", "ref1.wav\r"};
    for (int i = 0; i < n; i++) {
      std::string l; int k = ri(0, 3) ? 2 : ri(0, 5);
      for (int j = 0; j < k; j++) { if (j) l += ','; l += words[ri(0, 3) ? ri(0, 1) : ri(0, 9)]; }
      if (coin()) l += '\r';
      lines.push_back(l);
    }
    std::string text; for (size_t i = 0; i < lines.size(); i++) text += lines[i] + (i + 1 < lines.size() || ri(0, 2) ? "\n" : "");
    { std::ofstream f(p, std::ios::binary); f << text; }
    std::vector<P> want;
    std::vector<std::string> ls; { std::string cur; for (char c : text) if (c == '\n') { ls.push_back(cur); cur = ""; } else cur += c; if (!cur.empty()) ls.push_back(cur); }
    for (size_t i = 1; i < ls.size(); i++) {
      std::string l = ls[i]; if (!l.empty() && l[l.size() - 1] == '\r') l.erase(l.size() - 1);
      std::vector<std::string> f; std::string cur; for (char c : l) if (c == ',') { f.push_back(cur); cur = ""; } else cur += c; if (!cur.empty()) f.push_back(cur);
      if (f.size() >= 2) want.push_back({f[0], f[1]});
    }
    CommandLineArgs a; a.batch_input_csv = FilePath(p);
    if (coin()) { a.reference_signal_path = FilePath(ex); a.degraded_signal_path = FilePath(ex); }
    for (int k = 0; k < 2; k++) {
      auto got = k ? VisqolCommandLineParser::ReadFilesToCompare(FilePath(p)) : VisqolCommandLineParser::BuildFilePairPaths(a);
      CHECK(got.size() == want.size(), "%zu pairs from a file with %zu usable rows of %zu lines", got.size(), want.size(), ls.size());
      for (size_t i = 0; i < want.size(); i++) CHECK(got[i].reference.Path() == want[i].first && got[i].degraded.Path() == want[i].second, "pair %zu is (%s, %s), row says (%s, %s)", i, got[i].reference.Path().c_str(), got[i].degraded.Path().c_str(), want[i].first.c_str(), want[i].second.c_str());
    }
  }
  unlink(p.c_str());
  CHECK(VisqolCommandLineParser::ReadFilesToCompare(FilePath(p)).empty(), "an unreadable batch file gave pairs");
  CommandLineArgs a; a.batch_input_csv = FilePath(p); a.reference_signal_path = FilePath(ex); a.degraded_signal_path = FilePath(ex);
  CHECK(VisqolCommandLineParser::BuildFilePairPaths(a).empty(), "an unreadable batch file gave pairs");
  a.batch_input_csv = FilePath();
  auto g = VisqolCommandLineParser::BuildFilePairPaths(a);
  CHECK(g.size() == 1 && g[0].reference.Path() == ex && g[0].degraded.Path() == ex, "a pair of existing files given directly");
  a.degraded_signal_path = FilePath(p);
  CHECK(VisqolCommandLineParser::BuildFilePairPaths(a).empty(), "a missing file given directly");
  unlink(ex.c_str()); rmdir(d.c_str());
}
