#include "common.h"
#include "amatrix.h"
#include "comparison_patches_selector.h"
using namespace Visqol;
typedef AMatrix<double> M;
int main() {
  ComparisonPatchesSelector sel(nullptr);
  for (int t = 0; t < rounds(20000); t++) {
    g_cases++;
    int B = ri(1, 5), L = ri(1, 40), w = ri(1, 45), b = ri(-w + 1, L - 1), e = b + w - 1;
    if (t % 4 == 0) b = L - w, e = L - 1;
    if (b + w - 1 < 0 || b >= L) continue;
    M s(B, L);
    for (int r = 0; r < B; r++) for (int c = 0; c < L; c++) s(r, c) = rd(.5, 1);
    M p = sel.BuildDegradedPatch(s, b, e, B, w);
    CHECK(p.NumRows() == (size_t)B && p.NumCols() == (size_t)w, "patch %zux%zu for window %d..%d", p.NumRows(), p.NumCols(), b, e);
    for (int r = 0; r < B; r++) for (int c = 0; c < w; c++) {
      int k = b + c; double x = k >= 0 && k < L ? s(r, k) : 0;
      CHECK(p(r, c) == x, "window %d..%d of %d frames: column %d of band %d is %g, expected %g", b, e, L, c, r, p(r, c), x);
    }
  }
}
