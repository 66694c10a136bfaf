#include "align_common.h"
int main() {
  for (int t = 0; t < rounds(700); t++) {
    g_cases++;
    int n = t < 70 ? t + 1 : ri(1, 260), N = 32;
    while (N < n) N *= 2;
    M x(n, 1); double scale = 1e-3, mean = 0, off = t % 3 ? 0 : rd(-2, 2);
    for (int i = 0; i < n; i++) { x(i, 0) = off + (t % 5 ? rd(-1, 1) : std::sin(i * .37)); mean += x(i, 0); }
    mean /= n;
    for (int i = 0; i < n; i++) scale += std::fabs(x(i, 0) - mean);
    std::vector<double> h(N, 0.);
    h[0] = 1;
    if (n % 2) h[n / 2] = n / 2 ? 2 : 2; else h[n / 2] = 1;
    for (int k = 1; k < (n % 2 ? (N + 1) / 2 : N / 2); k++) h[k] = 2;
    std::vector<std::complex<double>> X(N);
    for (int k = 0; k < N; k++) { for (int i = 0; i < n; i++) X[k] += (x(i, 0) - mean) * std::polar(1., -2 * M_PI * ((long)i * k % N) / N); X[k] *= h[k]; }
    M e = Envelope::CalcUpperEnv(x);
    CHECK((int)e.NumRows() == n && e.NumCols() == 1, "envelope of %d samples has %zu", n, e.NumRows());
    for (int i = 0; i < n; i++) {
      // the wrapper's inverse takes the bins up to Nyquist and mirrors them
      double y = X[0].real() + X[N / 2].real() * (i % 2 ? -1 : 1);
      for (int k = 1; k < N / 2; k++) y += 2 * (X[k] * std::polar(1., 2 * M_PI * ((long)i * k % N) / N)).real();
      y = std::fabs(y / N) + mean;
      CHECK(std::fabs(y - e(i, 0)) <= 1e-5 * scale + 1e-6 * std::fabs(mean), "%d samples: envelope sample %d is %.9g, expected %.9g", n, i, e(i, 0), y);
    }
  }
}
