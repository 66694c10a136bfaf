#include "common.h"
#include "amatrix.h"
#include "comparison_patches_selector.h"
using namespace Visqol;
typedef AMatrix<double> M;
int main() {
  for (int t = 0; t < rounds(20000); t++) {
    g_cases++;
    int n = ri(1, 200), sr = t % 3 ? ri(1, 100) : 48000;
    if (sr == 48000) n = ri(1, 9000);
    M m(n, 1);
    for (int i = 0; i < n; i++) m(i, 0) = i + 1;
    double dur = (double)n / sr, t0 = rd(-.5, 1) * dur, t1 = rd(0, 1.6) * dur;
    if (t % 5 == 0) { t0 = (double)ri(0, n - 1) / sr; t1 = dur; }
    if (t % 7 == 0) { t0 = (double)ri(-n, n) / sr; t1 = (double)ri(0, 2 * n) / sr; }
    int a = (int)(t0 * sr), b = (int)(t1 * sr), i0 = std::max(0, a), i1 = std::min(n, b);
    if (i0 >= i1) continue;
    int pre = t0 < 0 ? (int)(-1 * t0 * sr) : 0, post = t1 * sr - n > 0 ? (int)(t1 * sr - n) : 0;
    AudioSignal s{m, (size_t)sr}, r = ComparisonPatchesSelector::Slice(s, t0, t1);
    std::vector<double> want(pre, 0.);
    for (int i = i0; i < i1; i++) want.push_back(i + 1);
    want.insert(want.end(), post, 0.);
    CHECK(r.sample_rate == (size_t)sr, "sample rate %zu", r.sample_rate);
    CHECK(r.data_matrix.NumCols() == 1 && r.data_matrix.NumRows() == want.size(), "slice %g..%g of %d samples at %d Hz has %zu samples, expected %zu", t0, t1, n, sr, r.data_matrix.NumRows(), want.size());
    for (size_t i = 0; i < want.size(); i++) CHECK(r.data_matrix(i, 0) == want[i], "slice %g..%g of %d samples at %d Hz: sample %zu is %g, expected %g", t0, t1, n, sr, i, r.data_matrix(i, 0), want[i]);
  }
}
