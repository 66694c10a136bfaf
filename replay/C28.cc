#include "align_common.h"
#include "fast_fourier_transform.h"
#include "fft_manager.h"
#include "misc_math.h"
typedef AMatrix<std::complex<double>> CM;
static void next_pow(uint64_t n) {
  g_cases++;
  uint64_t p = 1; while (p < n) p *= 2;
  CHECK(MiscMath::NextPowTwo(n) == p, "NextPowTwo(%llu) = %llu", (unsigned long long)n, (unsigned long long)MiscMath::NextPowTwo(n));
}
int main() {
  for (uint64_t p = 1; p <= (1ull << 31); p *= 2) for (long d = -3; d <= 3; d++) if ((long)p + d >= 1 && p + d <= (1ull << 31)) next_pow(p + d);
  for (int t = 0; t < rounds(20000); t++) next_pow(ri(1, 1ll << ri(1, 31)));
  for (int t = 0; t < rounds(900); t++) {
    g_cases++;
    int n = t < 70 ? t + 1 : ri(1, 300), N = 32;
    while (N < n) N *= 2;
    M x(n, 1); double scale = 1e-3;
    for (int i = 0; i < n; i++) { x(i, 0) = rd(-1, 1) * (t % 3 ? 1 : 30000); scale += std::fabs(x(i, 0)); }
    auto m = std::make_unique<FftManager>(n);
    CM X = t % 2 ? FastFourierTransform::Forward1d(m, x) : FastFourierTransform::Forward1d(m, x, n);
    CHECK((int)X.NumRows() == N && X.NumCols() == 1, "%d samples: %zu bins, expected %d", n, X.NumRows(), N);
    for (int k = 0; k < N; k++) {
      std::complex<double> z = 0;
      for (int i = 0; i < n; i++) z += x(i, 0) * std::polar(1., -2 * M_PI * ((long)i * k % N) / N);
      CHECK(std::abs(X(k, 0) - z) <= 1e-5 * scale, "%d samples: bin %d is (%g,%g), expected (%g,%g)", n, k, X(k, 0).real(), X(k, 0).imag(), z.real(), z.imag());
      if (k > N / 2) CHECK(X(k, 0) == std::conj(X(N - k, 0)), "%d samples: bin %d is not the conjugate of bin %d", n, k, N - k);
    }
    CHECK(X(0, 0).imag() == 0 && X(N / 2, 0).imag() == 0, "%d samples: 0 Hz or Nyquist bin not real", n);
    CM y = FastFourierTransform::Inverse1d(m, X);
    M yr = FastFourierTransform::Inverse1dConjSym(m, X);
    CHECK((int)y.NumRows() == n && (int)yr.NumRows() == n, "%d samples: inverse has %zu / %zu", n, y.NumRows(), yr.NumRows());
    for (int i = 0; i < n; i++) CHECK(std::abs(y(i, 0) - x(i, 0)) <= 1e-5 * scale && yr(i, 0) == y(i, 0).real() && y(i, 0).imag() == 0, "%d samples: sample %d comes back as %g, was %g", n, i, y(i, 0).real(), x(i, 0));
    for (int k = N / 2 + 1; k < N; k++) X(k, 0) = {rd(-9, 9), rd(-9, 9)};
    CM w = FastFourierTransform::Inverse1d(m, X);
    for (int i = 0; i < n; i++) CHECK(w(i, 0) == y(i, 0), "%d samples: bins above Nyquist change the inverse", n);
  }
}
