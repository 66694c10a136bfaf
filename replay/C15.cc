#include "common.h"
#include "gammatone_filterbank.h"
#include "signal_filter.h"
using namespace Visqol;
typedef std::vector<double> D;
static D va(const std::valarray<double>& v) { return D(std::begin(v), std::end(v)); }
static std::valarray<double> av(const D& v) { return std::valarray<double>(v.data(), v.size()); }
static D df2t(const D& b, const D& a, const D& x, D& z) {
  D y; z.push_back(0);
  for (double s : x) {
    double o = b[0] * s + z[0];
    for (size_t k = 0; k + 1 < a.size(); k++) z[k] = b[k + 1] * s + z[k + 1] - a[k + 1] * o;
    y.push_back(o);
  }
  z.pop_back();
  return y;
}
static bool same(const D& p, const D& q) { if (p.size() != q.size()) return false; for (size_t i = 0; i < p.size(); i++) if (!close_to(p[i], q[i], 1e-9, 1e-12)) return false; return true; }
int main() {
  for (int t = 0; t < rounds(2000); t++) {
    g_cases++;
    int n = ri(1, 5), extra = coin() ? 0 : ri(0, 2), len = ri(0, 40);
    D a(n), b(n + extra), x(len), z(n - 1);
    for (auto& v : a) v = rd(-.7, .7); for (auto& v : b) v = rd(-1, 1); for (auto& v : x) v = rd(-1, 1); for (auto& v : z) v = coin() ? 0 : rd(-1, 1);
    auto r = SignalFilter::Filter(av(b), av(a), av(x), av(z));
    D z1 = z, y = df2t(b, a, x, z1);
    CHECK(same(va(r.filteredSignal), y), "Filter: output of order %d on %d samples differs from the recurrence", n - 1, len);
    CHECK(same(va(r.finalConditions), z1), "Filter: final state of order %d after %d samples differs", n - 1, len);
  }
  for (int t = 0; t < rounds(600); t++) {
    g_cases++;
    int n = ri(1, 8);
    GammatoneFilterBank g(n, 50);
    CHECK(g.GetNumBands() == (size_t)n && g.GetMinFreq() == 50, "configuration");
    std::vector<std::vector<D>> st(4, std::vector<D>(n, D(2, 0.0)));
    std::vector<D> co(10, D(n));
    for (int step = 0; step < 8; step++) {
      int op = step == 0 ? 0 : ri(0, 4);
      if (op == 0) {
        AMatrix<double> m(n, 10);
        for (int k = 0; k < 10; k++) for (int i = 0; i < n; i++) { co[k][i] = k == 9 ? rd(.2, 3) : rd(-.7, .7); m(i, k) = co[k][i]; }
        g.SetFilterCoefficients(m);
      } else if (op == 1) { g.ResetFilterConditions(); for (auto& s : st) for (auto& b : s) b = D(2, 0.0); }
      else {
        int len = ri(0, 30); D x(len); for (auto& v : x) v = ri(0, 5) ? rd(-1, 1) : 0;
        AMatrix<double> o = g.ApplyFilter(av(x));
        CHECK(o.NumRows() == (size_t)n && o.NumCols() == (size_t)len, "output is %zux%zu for %d bands and %d samples", o.NumRows(), o.NumCols(), n, len);
        for (int c = 0; c < n; c++) {
          D y = x;
          for (int k = 0; k < 4; k++) {
            double gn = k == 0 ? co[9][c] : 1;
            y = df2t({co[0][c] / gn, co[1 + k][c] / gn, co[5][c] / gn}, {co[6][c], co[7][c], co[8][c]}, y, st[k][c]);
          }
          for (int i = 0; i < len; i++) CHECK(close_to(o(c, i), y[i], 1e-8, 1e-11), "band %d of %d, sample %d of %d, step %d: %.17g, the cascade gives %.17g", c, n, i, len, step, o(c, i), y[i]);
        }
      }
    }
  }
}
