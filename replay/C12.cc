#include "common.h"
#include "convolution_2d.h"
#include "amatrix.h"
using namespace Visqol;
int main() {
  for (int t = 0; t < rounds(1500); t++) {
    g_cases++;
    int R = t < 40 ? 1 + t % 6 : (int)ri(1, 40), C = t < 40 ? 1 + t / 6 : (int)ri(1, 40);
    AMatrix<double> m(R, C), f(3, 3);
    for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) m(i, j) = coin() ? rd(-5, 5) : (double)ri(-3, 3);
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) f(i, j) = rd(-1, 1);
    AMatrix<double> keep(m);
    auto o = Convolution2D<double>::Valid2DConvWithBoundary(f, m);
    CHECK(o.NumRows() == (size_t)R && o.NumCols() == (size_t)C, "shape %zux%zu for input %dx%d", o.NumRows(), o.NumCols(), R, C);
    for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) CHECK(m(i, j) == keep(i, j), "input changed at (%d,%d)", i, j);
    auto cl = [](int x, int n) { return x < 0 ? 0 : x >= n ? n - 1 : x; };
    for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) {
      double s = 0;
      for (int q = 0; q < 3; q++) for (int p = 0; p < 3; p++) s += keep(cl(i + p - 1, R), cl(j + q - 1, C)) * f(2 - p, 2 - q);
      CHECK(close_to(o(i, j), s, 1e-9, 1e-10), "element (%d,%d) of a %dx%d convolution is %.17g, expected %.17g", i, j, R, C, o(i, j), s);
    }
  }
}
