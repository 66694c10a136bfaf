#include "pffft.h"
#include <complex>
#include <cmath>
#include <cstdlib>
#include <cstring>
#include <vector>
struct PFFFT_Setup { int n; };
typedef std::complex<double> C;
static void fft(std::vector<C>& a, bool inv) {
  size_t n = a.size();
  for (size_t i = 1, j = 0; i < n; i++) {
    size_t bit = n >> 1;
    for (; j & bit; bit >>= 1) j ^= bit;
    j ^= bit;
    if (i < j) std::swap(a[i], a[j]);
  }
  for (size_t len = 2; len <= n; len <<= 1) {
    double ang = 2 * M_PI / len * (inv ? 1 : -1);
    for (size_t i = 0; i < n; i += len)
      for (size_t k = 0; k < len / 2; k++) {
        C w(std::cos(ang * k), std::sin(ang * k));
        C u = a[i + k], v = a[i + k + len / 2] * w;
        a[i + k] = u + v; a[i + k + len / 2] = u - v;
      }
  }
}
extern "C" {
PFFFT_Setup* pffft_new_setup(int N, pffft_transform_t) {
  if (N < 32 || (N & (N - 1))) return nullptr;
  PFFFT_Setup* s = (PFFFT_Setup*)malloc(sizeof(PFFFT_Setup)); s->n = N; return s;
}
void pffft_destroy_setup(PFFFT_Setup* s) { free(s); }
// canonical real ordering: [X0.re, X(n/2).re, X1.re, X1.im, ...]
static void run(PFFFT_Setup* s, const float* in, float* out, pffft_direction_t d) {
  int n = s->n; std::vector<C> a(n);
  if (d == PFFFT_FORWARD) {
    for (int i = 0; i < n; i++) a[i] = in[i];
    fft(a, false);
    std::vector<float> o(n);
    o[0] = a[0].real(); o[1] = a[n / 2].real();
    for (int k = 1; k < n / 2; k++) { o[2 * k] = a[k].real(); o[2 * k + 1] = a[k].imag(); }
    memcpy(out, o.data(), n * sizeof(float));
  } else {
    a[0] = in[0]; a[n / 2] = in[1];
    for (int k = 1; k < n / 2; k++) { a[k] = C(in[2 * k], in[2 * k + 1]); a[n - k] = std::conj(a[k]); }
    fft(a, true);
    std::vector<float> o(n);
    for (int i = 0; i < n; i++) o[i] = a[i].real();
    memcpy(out, o.data(), n * sizeof(float));
  }
}
// internal ("z") ordering of this stand-in: canonical ordering with every pair
// position rotated by one, so that skipping the reorder step is observable.
static void z(PFFFT_Setup* s, const float* in, float* out, bool toz) {
  int h = s->n / 2; std::vector<float> o(s->n);
  for (int k = 0; k < h; k++) {
    int j = (k + 1) % h;
    if (toz) { o[2 * j] = in[2 * k]; o[2 * j + 1] = in[2 * k + 1]; }
    else { o[2 * k] = in[2 * j]; o[2 * k + 1] = in[2 * j + 1]; }
  }
  memcpy(out, o.data(), s->n * sizeof(float));
}
void pffft_transform_ordered(PFFFT_Setup* s, const float* in, float* out, float*, pffft_direction_t d) { run(s, in, out, d); }
void pffft_transform(PFFFT_Setup* s, const float* in, float* out, float*, pffft_direction_t d) {
  std::vector<float> t(s->n);
  if (d == PFFFT_FORWARD) { run(s, in, t.data(), d); z(s, t.data(), out, true); }
  else { z(s, in, t.data(), false); run(s, t.data(), out, d); }
}
// PFFFT_FORWARD: z-domain -> canonical ; PFFFT_BACKWARD: canonical -> z-domain
void pffft_zreorder(PFFFT_Setup* s, const float* in, float* out, pffft_direction_t d) { z(s, in, out, d == PFFFT_BACKWARD); }
void* pffft_aligned_malloc(size_t n) { void* p = nullptr; if (posix_memalign(&p, 64, n ? n : 64)) return nullptr; return p; }
void pffft_aligned_free(void* p) { free(p); }
}
