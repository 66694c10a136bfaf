#include "common.h"
#include "amatrix.h"
#include "comparison_patches_selector.h"
using namespace Visqol;
typedef AMatrix<double> M;
struct Table : PatchSimilarityComparator {
  std::vector<std::vector<double>> s;
  PatchSimilarityResult MeasurePatchSimilarity(const ImagePatch& r, const ImagePatch& d) const override {
    PatchSimilarityResult q;
    q.freq_band_means = M::Filled(r.NumRows(), 1, 7.0);
    q.freq_band_stddevs = M::Filled(r.NumRows(), 1, 3.0); q.freq_band_deg_energy = M::Filled(r.NumRows(), 1, 2.0);
    q.similarity = s[(size_t)r(0, 0)][(size_t)d(0, 0) - 1];
    q.ref_patch_start_time = q.ref_patch_end_time = q.deg_patch_start_time = q.deg_patch_end_time = -99;
    return q;
  }
};
int main() {
  for (int t = 0; t < rounds(6000); t++) {
    g_cases++;
    int P = ri(1, 5), C = ri(1, 24), K = ri(1, 5), radius = coin() ? ri(0, 3) : ri(0, 40), B = ri(1, 3);
    if (t % 7 == 0) { C = ri(1, 7); K = ri(1, 3); P = ri(1, 3); }
    std::vector<size_t> idx; int x = ri(0, 4);
    for (int k = 0; k < K; k++) { idx.push_back(x); x += std::max(1, coin() ? P : (int)ri(1, 6)); }
    auto* tab = new Table; int style = ri(0, 3);
    for (int k = 0; k < K; k++) { tab->s.push_back({}); for (int c = 0; c < C; c++) tab->s[k].push_back(style == 0 ? ri(-4, 4) / 4.0 : style == 1 ? rd(-.2, 1) : style == 2 ? (ri(0, 3) ? .5 : -.5) : t % 11 == 0 ? std::nan("") : -rd(0, 1)); }
    auto S = tab->s;
    ComparisonPatchesSelector sel{std::unique_ptr<PatchSimilarityComparator>(tab)};
    std::vector<M> refs; for (int k = 0; k < K; k++) refs.push_back(M::Filled(B, P, (double)k));
    M sp(B, C); for (int r = 0; r < B; r++) for (int c = 0; c < C; c++) sp(r, c) = c + 1;
    double fd = rd(.01, .1); int w = radius * P, n = K;
    while (n && ((long)idx[n - 1] - P / 2 > C || (long)idx[n - 1] - w >= C)) n--;
    auto res = sel.FindMostOptimalDegPatches(refs, idx, sp, fd, radius);
    if (!n) { CHECK(res.status().code() == absl::StatusCode::kCancelled, "no patch can be scored but the status is %d", (int)res.status().code()); continue; }
    CHECK(res.ok(), "%d patches can be scored but the status is %s", n, res.status().ToString().c_str());
    auto& v = res.value();
    CHECK((int)v.size() == n, "%zu results, expected %d of %d (patch %d, %d frames)", v.size(), n, K, P, C);
    bool nan = S[0][0] != S[0][0];
    // the table, by the definition
    std::vector<std::vector<double>> D(n, std::vector<double>(C, -INFINITY)); std::vector<std::vector<int>> A(n, std::vector<int>(C, -2));
    for (int k = 0; k < n && !nan; k++) for (int o = std::max(0, (int)idx[k] - w); o <= std::min(C - 1, (int)idx[k] + w); o++) {
      D[k][o] = S[k][o]; A[k][o] = -1;
      if (!k) continue;
      int b = -1; for (int q = o - 1; q >= std::max(0, (int)idx[k - 1] - w); q--) if (D[k - 1][q] > -INFINITY && (b < 0 || D[k - 1][q] > D[k - 1][b])) b = q;
      double cum = b < 0 ? -INFINITY : S[k][o] + D[k - 1][b];
      if (D[k - 1][o] > cum) cum = D[k - 1][o], b = o;
      D[k][o] = cum; A[k][o] = b;
    }
    std::vector<int> off(n);
    if (!nan) {
      int L = n - 1, o = -1; for (int q = 0; q < C; q++) if (D[L][q] > -INFINITY && (o < 0 || D[L][q] > D[L][o])) o = q;
      CHECK(o >= 0, "no final offset");
      for (int k = L; k >= 0; k--) { off[k] = o; o = A[k][o]; }
    }
    double lastm = -1; int lasto = -1; double cum = 0;
    for (int k = 0; k < n; k++) {
      auto& r = v[k];
      CHECK(r.ref_patch_start_time == idx[k] * fd && r.ref_patch_end_time == r.ref_patch_start_time + fd * P, "patch %d: reference times %g..%g", k, r.ref_patch_start_time, r.ref_patch_end_time);
      if (nan) continue;
      int o = off[k]; bool miss = k > 0 && o == off[k - 1];
      CHECK(o >= 0 && o < C && abs(o - (int)idx[k]) <= w || miss, "patch %d at %d matched at %d, radius %d of %d frames", k, (int)idx[k], o, w, C);
      if (miss) {
        CHECK(r.similarity == 0 && r.deg_patch_start_time == 0 && r.deg_patch_end_time == 0, "dropped patch %d reports %g at %g..%g", k, r.similarity, r.deg_patch_start_time, r.deg_patch_end_time);
        CHECK(r.freq_band_means.NumRows() == (size_t)B, "dropped patch: bands");
        for (int b = 0; b < B; b++) CHECK(r.freq_band_means(b, 0) == 0, "dropped patch %d reports band similarity %g", k, r.freq_band_means(b, 0));
        continue;
      }
      CHECK(o > lasto, "patch %d matched at %d after %d", k, o, lasto); lasto = o;
      CHECK(r.similarity == S[k][o], "patch %d: similarity %g, that of offset %d is %g", k, r.similarity, o, S[k][o]);
      CHECK(r.freq_band_means(B - 1, 0) == 7 && r.freq_band_stddevs(0, 0) == 3 && r.freq_band_deg_energy(0, 0) == 2, "patch %d: band values", k);
      CHECK(r.deg_patch_start_time == o * fd && r.deg_patch_end_time == r.deg_patch_start_time + fd * P, "patch %d: degraded times %g..%g, offset %d", k, r.deg_patch_start_time, r.deg_patch_end_time, o);
    }
    // one table row, against the real row
    if (!nan) {
      std::vector<std::vector<double>> dp(K, std::vector<double>(C, std::numeric_limits<double>::lowest())); std::vector<std::vector<int>> bt(K, std::vector<int>(C));
      std::vector<M> deg; for (int c = 0; c < C; c++) deg.push_back(M::Filled(B, P, c + 1.0));
      for (int k = 0; k < n; k++) sel.FindMostOptimalDegPatch(sp, refs[k], deg, dp, bt, idx, k, w);
      for (int k = 0; k < n; k++) for (int o = 0; o < C; o++) {
        if (A[k][o] == -2) { CHECK(dp[k][o] == std::numeric_limits<double>::lowest(), "entry (%d,%d) outside the window is %g", k, o, dp[k][o]); continue; }
        CHECK(dp[k][o] == D[k][o], "entry (%d,%d) is %.17g, expected %.17g", k, o, dp[k][o], D[k][o]);
        CHECK(bt[k][o] == A[k][o], "entry (%d,%d) comes from %d, expected %d", k, o, bt[k][o], A[k][o]);
      }
    }
  }
}
