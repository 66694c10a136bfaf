#include "common.h"
#include "../amatrix.cc"
using namespace Visqol;
typedef std::complex<double> C;
static double gen1() { long k = ri(0, 5); return k == 0 ? 0.0 : k == 1 ? (double)ri(-3, 3) : rd(-10, 10); }
template <class T> T gen();
template <> double gen<double>() { return gen1(); }
template <> C gen<C>() { return C(gen1(), gen1()); }
static bool same(double a, double b) { return close_to(a, b, 1e-12, 1e-13); }
static bool same(C a, C b) { return close_to(a.real(), b.real(), 1e-11, 1e-12) && close_to(a.imag(), b.imag(), 1e-11, 1e-12); }
static double cj(double x) { return x; }
static C cj(C x) { return std::conj(x); }
template <class T> struct M { size_t r, c; std::vector<T> v; T& at(size_t i, size_t j) { return v[i + j * r]; } const T& at(size_t i, size_t j) const { return v[i + j * r]; } };
template <class T> M<T> gm(size_t r, size_t c) { M<T> m{r, c, std::vector<T>(r * c)}; for (auto& x : m.v) x = gen<T>(); return m; }
template <class T> AMatrix<T> am(const M<T>& m) { AMatrix<T> a(m.r, m.c); for (size_t j = 0; j < m.c; j++) for (size_t i = 0; i < m.r; i++) a(i, j) = m.at(i, j); return a; }
template <class T, class F> void expect(const AMatrix<T>& a, size_t r, size_t c, F f, const char* what) {
  CHECK(a.NumRows() == r && a.NumCols() == c && a.NumElements() == r * c, "%s: shape %zux%zu (%zu elements), expected %zux%zu", what, a.NumRows(), a.NumCols(), a.NumElements(), r, c);
  for (size_t j = 0; j < c; j++) for (size_t i = 0; i < r; i++) {
    CHECK(same(a(i, j), f(i, j)), "%s: element (%zu,%zu) wrong in %zux%zu", what, i, j, r, c);
    CHECK(same(a(i + j * r), f(i, j)), "%s: element number %zu wrong in %zux%zu", what, i + j * r, r, c);
  }
}
template <class T> void vexpect(const std::vector<T>& v, size_t n, std::function<T(size_t)> f, const char* what) {
  CHECK(v.size() == n, "%s: %zu elements, expected %zu", what, v.size(), n);
  for (size_t i = 0; i < n; i++) CHECK(same(v[i], f(i)), "%s: element %zu wrong of %zu", what, i, n);
}
template <class T> void run() {
  g_cases++;
  size_t r = ri(1, 7), c = ri(1, 7);
  M<T> m = gm<T>(r, c), n = gm<T>(r, c);
  if (ri(0, 3) == 0) { n = m; if (coin()) n.v[ri(0, r * c - 1)] += T(1.0); }
  const AMatrix<T> a = am(m), b = am(n);
  auto ma = [&](size_t i, size_t j) { return m.at(i, j); };
  expect<T>(a, r, c, ma, "element access");
  // construction
  { std::vector<T> d = m.v; AMatrix<T> x(r, c, d); expect<T>(x, r, c, ma, "from vector"); CHECK(d == m.v, "source vector changed"); }
  { AMatrix<T>* x; { std::vector<T> d = m.v; x = new AMatrix<T>(r, c, std::move(d)); std::vector<T> junk(r * c); for (auto& y : junk) y = T(77.0); } expect<T>(*x, r, c, ma, "from moved vector"); delete x; }
  { std::vector<T> d(m.v.begin(), m.v.begin() + r); AMatrix<T> x(d); expect<T>(x, r, 1, ma, "column vector"); }
  { std::vector<T> d(m.v.begin(), m.v.begin() + r); AMatrix<T> x(absl::Span<T>(d.data(), d.size())); expect<T>(x, r, 1, ma, "span"); }
  { std::valarray<T> d(m.v.data(), r); AMatrix<T> x(d); expect<T>(x, r, 1, ma, "valarray"); auto va = x.ToValArray(); CHECK(va.size() == r, "ToValArray size"); for (size_t i = 0; i < r; i++) CHECK(same(va[i], m.at(i, 0)), "ToValArray"); }
  { std::vector<std::vector<T>> vc; for (size_t j = 0; j < c; j++) vc.push_back(std::vector<T>(m.v.begin() + j * r, m.v.begin() + (j + 1) * r)); AMatrix<T> x(vc); expect<T>(x, r, c, ma, "vector of columns"); }
  { AMatrix<T> x(r, c); expect<T>(x, r, c, [&](size_t, size_t) { return T(0.0); }, "sized"); T v = gen<T>(); expect<T>(AMatrix<T>::Filled(r, c, v), r, c, [&](size_t, size_t) { return v; }, "Filled"); }
  { AMatrix<T> x(a); expect<T>(x, r, c, ma, "copy"); x(0, 0) = T(5.0); expect<T>(a, r, c, ma, "copy is deep"); AMatrix<T> y; y = a; expect<T>(y, r, c, ma, "assignment"); y(r - 1, c - 1) = T(9.0); expect<T>(a, r, c, ma, "assignment is deep"); }
  // arithmetic
  T s = gen<T>(); T d = s == T(0.0) ? T(2.0) : s;
  expect<T>(a + b, r, c, [&](size_t i, size_t j) { return m.at(i, j) + n.at(i, j); }, "matrix +");
  expect<T>(a - b, r, c, [&](size_t i, size_t j) { return m.at(i, j) - n.at(i, j); }, "matrix -");
  expect<T>(a.PointWiseProduct(b), r, c, [&](size_t i, size_t j) { return m.at(i, j) * n.at(i, j); }, "PointWiseProduct");
  { M<T> q = n; for (auto& x : q.v) if (x == T(0.0)) x = T(3.0); expect<T>(a.PointWiseDivide(am(q)), r, c, [&](size_t i, size_t j) { return m.at(i, j) / q.at(i, j); }, "PointWiseDivide"); }
  expect<T>(a + s, r, c, [&](size_t i, size_t j) { return m.at(i, j) + s; }, "scalar +");
  expect<T>(a - s, r, c, [&](size_t i, size_t j) { return m.at(i, j) - s; }, "scalar -");
  expect<T>(a * s, r, c, [&](size_t i, size_t j) { return m.at(i, j) * s; }, "scalar *");
  expect<T>(a / d, r, c, [&](size_t i, size_t j) { return m.at(i, j) / d; }, "scalar /");
  expect<T>(a.Transpose(), c, r, [&](size_t i, size_t j) { return cj(m.at(j, i)); }, "Transpose");
  expect<double>(a.Abs(), r, c, [&](size_t i, size_t j) { return std::abs(m.at(i, j)); }, "Abs");
  // comparison
  bool eqv = m.v == n.v;
  CHECK((a == b) == eqv, "operator== is %d, expected %d for %zux%zu", a == b, eqv, r, c);
  CHECK(a == am(m), "a matrix differs from its copy");
  { size_t r2 = ri(1, 7), c2 = ri(1, 7); if (ri(0, 2) == 0) r2 = r; if (r2 != r || c2 != c) { auto o = gm<T>(r2, c2); for (size_t i = 0; i < o.v.size() && i < m.v.size(); i++) o.v[i] = m.v[i]; CHECK(!(a == am(o)), "%zux%zu equals %zux%zu", r, c, r2, c2); } }
  // ranges
  size_t r0 = ri(0, r - 1), r1 = ri(r0, r - 1), c0 = ri(0, c - 1), c1 = ri(c0, c - 1);
  vexpect<T>(a.RowSubset(r0, c0, c1), c1 - c0 + 1, [&](size_t i) { return m.at(r0, c0 + i); }, "RowSubset");
  vexpect<T>(a.GetRow(r0), c, [&](size_t i) { return m.at(r0, i); }, "GetRow");
  expect<T>(a.GetRows(r0, r1), r1 - r0 + 1, c, [&](size_t i, size_t j) { return m.at(r0 + i, j); }, "GetRows");
  expect<T>(a.GetColumn(c0), r, 1, [&](size_t i, size_t) { return m.at(i, c0); }, "GetColumn");
  expect<T>(a.GetColumns(c0, c1), r, c1 - c0 + 1, [&](size_t i, size_t j) { return m.at(i, c0 + j); }, "GetColumns");
  expect<T>(a.GetSpan(r0, r1, c0, c1), r1 - r0 + 1, c1 - c0 + 1, [&](size_t i, size_t j) { return m.at(r0 + i, c0 + j); }, "GetSpan");
  { std::vector<T> w(c); for (auto& x : w) x = gen<T>(); auto f = [&](size_t i, size_t j) { return i == r0 ? w[j] : m.at(i, j); };
    AMatrix<T> x(a); x.SetRow(r0, w); expect<T>(x, r, c, f, "SetRow(vector)"); AMatrix<T> y(a); y.SetRow(r0, std::valarray<T>(w.data(), c)); expect<T>(y, r, c, f, "SetRow(valarray)"); }
  { std::vector<T> w(r); for (auto& x : w) x = gen<T>(); auto f = [&](size_t i, size_t j) { return j == c0 ? w[i] : m.at(i, j); };
    AMatrix<T> x(a); x.SetColumn(c0, std::vector<T>(w)); expect<T>(x, r, c, f, "SetColumn(vector)"); AMatrix<T> y(a); y.SetColumn(c0, std::valarray<T>(w.data(), r)); expect<T>(y, r, c, f, "SetColumn(valarray)");
    AMatrix<T> z(a); z.SetColumn(c0, AMatrix<T>(w)); expect<T>(z, r, c, f, "SetColumn(matrix)"); }
  { AMatrix<T> x(a); T v = gen<T>(); x(r0, c0) = v; expect<T>(x, r, c, [&](size_t i, size_t j) { return i == r0 && j == c0 ? v : m.at(i, j); }, "element write");
    AMatrix<T> y(a); y(r1 + c1 * r) = v; expect<T>(y, r, c, [&](size_t i, size_t j) { return i == r1 && j == c1 ? v : m.at(i, j); }, "element number write");
    size_t k = 0; AMatrix<T> z(a); for (auto it = z.begin(); it != z.end(); ++it, ++k) CHECK(same(*it, m.v[k]), "iteration order"); CHECK(k == r * c, "iteration count");
    k = 0; for (auto it = a.cbegin(); it != a.cend(); ++it, ++k) CHECK(same(*it, m.v[k]), "const iteration order"); CHECK(k == r * c, "const iteration count");
    for (k = 0; k < r * c; k++) CHECK(same(a.data()[k], m.v[k]) && same(a.MemPtr()[k], m.v[k]), "raw data order"); }
  // shape
  { size_t r2 = ri(1, 8), c2 = ri(1, 8); AMatrix<T> x(a); x.Resize(r2, c2); expect<T>(x, r2, c2, [&](size_t i, size_t j) { return i < r && j < c ? m.at(i, j) : T(0.0); }, "Resize"); }
  { size_t r2 = ri(1, 6); auto o = gm<T>(r2, c); expect<T>(a.JoinVertically(am(o)), r + r2, c, [&](size_t i, size_t j) { return i < r ? m.at(i, j) : o.at(i - r, j); }, "JoinVertically"); }
  expect<T>(a.FlipUpDown(), r, c, [&](size_t i, size_t j) { return m.at(r - 1 - i, j); }, "FlipUpDown");
  vexpect<T>(a.ToVector(), r, [&](size_t i) { return m.at(i, 0); }, "ToVector");
  CHECK(a.LongestDimensionLength() == std::max(r, c), "LongestDimensionLength");
  // statistics
  auto rowm = [&](size_t i) { T s(0.0); for (size_t j = 0; j < c; j++) s += m.at(i, j); return s / T((double)c); };
  auto colm = [&](size_t j) { T s(0.0); for (size_t i = 0; i < r; i++) s += m.at(i, j); return s / T((double)r); };
  expect<T>(a.Mean(kDimension::ROW), r, 1, [&](size_t i, size_t) { return rowm(i); }, "Mean over a row");
  expect<T>(a.Mean(kDimension::COLUMN), 1, c, [&](size_t, size_t j) { return colm(j); }, "Mean over a column");
  auto sq = [](T x) { return std::abs(x) * std::abs(x); };
  if (c > 1) expect<double>(a.StdDev(kDimension::ROW), r, 1, [&](size_t i, size_t) { double s = 0; T mu = rowm(i); for (size_t j = 0; j < c; j++) s += sq(m.at(i, j) - mu); return std::sqrt(s / (c - 1)); }, "StdDev over a row");
  if (r > 1) expect<double>(a.StdDev(kDimension::COLUMN), 1, c, [&](size_t, size_t j) { double s = 0; T mu = colm(j); for (size_t i = 0; i < r; i++) s += sq(m.at(i, j) - mu); return std::sqrt(s / (r - 1)); }, "StdDev over a column");
  expect<T>(a, r, c, ma, "operands are not modified");
}
int main() {
  for (int t = 0; t < rounds(400); t++) { run<double>(); run<C>(); }
}
