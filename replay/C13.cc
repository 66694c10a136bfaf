#include "common.h"
#include "spectrogram.h"
#include "misc_audio.h"
using namespace Visqol;
typedef std::vector<std::vector<double>> G;   // [col][row]
static double todb(double x) { double a = std::fabs(x); return 10 * std::log10(a == 0 ? std::numeric_limits<double>::epsilon() : a); }
static double up(double f, double d) { return f < d ? d : f; }
int main() {
  for (int t = 0; t < rounds(1500); t++) {
    g_cases++;
    int R = ri(1, 12), C[2] = {(int)ri(1, 12), (int)ri(1, 12)};
    if (coin()) C[1] = C[0];
    G v[2];
    AMatrix<double> m[2] = {AMatrix<double>(R, C[0]), AMatrix<double>(R, C[1])};
    int style = ri(0, 5);
    for (int s = 0; s < 2; s++) {
      v[s].assign(C[s], std::vector<double>(R));
      for (int c = 0; c < C[s]; c++) {
        double lvl = style == 0 ? 0 : style == 5 ? std::pow(10, rd(-12, 6)) : std::pow(10, rd(-9, 1));
        for (int r = 0; r < R; r++) {
          double x = lvl * rd(-1, 1);
          int k = ri(0, 20);
          if (k == 0) x = 0; else if (k == 1) x = lvl * 1e-9; else if (k == 2 && style == 2) x = std::nan(""); else if (k == 3) x = -x;
          else if (k == 4) x = coin() ? 5e-324 : 2.2250738585072014e-308;;
          v[s][c][r] = x; m[s](r, c) = x;
        }
      }
    }
    G w[2] = {v[0], v[1]};
    for (int s = 0; s < 2; s++) for (auto& c : w[s]) for (auto& x : c) x = up(-45., todb(x));
    for (int c = 0; c < std::min(C[0], C[1]); c++) {
      double mx = -1e300;
      for (int s = 0; s < 2; s++) for (double x : w[s][c]) mx = std::max(mx, x);
      for (int s = 0; s < 2; s++) for (double& x : w[s][c]) x = up(mx - 45., x);
    }
    double lo = 1e300;
    for (int s = 0; s < 2; s++) for (auto& c : w[s]) for (double x : c) lo = std::min(lo, x);
    for (int s = 0; s < 2; s++) for (auto& c : w[s]) for (double& x : c) x -= lo;
    Spectrogram a(std::move(m[0])), b(std::move(m[1]));
    MiscAudio::PrepareSpectrogramsForComparison(a, b);
    for (int s = 0; s < 2; s++) {
      const auto& d = s ? b.Data() : a.Data();
      CHECK(d.NumRows() == (size_t)R && d.NumCols() == (size_t)C[s], "shape changed to %zux%zu from %dx%d", d.NumRows(), d.NumCols(), R, C[s]);
      for (int c = 0; c < C[s]; c++) for (int r = 0; r < R; r++)
        CHECK(close_to(d(r, c), w[s][c][r], 1e-9, 1e-9), "%s value (%d,%d) is %.17g, expected %.17g (input %.17g; %dx%d and %dx%d)", s ? "degraded" : "reference", r, c, d(r, c), w[s][c][r], v[s][c][r], R, C[0], R, C[1]);
    }
  }
}
