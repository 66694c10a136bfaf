#include "align_common.h"
#include "comparison_patches_selector.h"
#include "misc_audio.h"
#include "spectrogram.h"
#include "spectrogram_builder.h"
/** a stand-in analysis: rows of samples; fails on signals whose checksum says so */
static double checksum(const M& m) { double s = 0; for (size_t i = 0; i < m.NumRows(); i++) s += (i % 7 + 1) * m(i, 0); return s; }
static int g_fail, g_builds;
struct Rows : SpectrogramBuilder {
  absl::StatusOr<Spectrogram> Build(const AudioSignal& s, const AnalysisWindow& w) override {
    int id = g_builds++;
    if (id == g_fail) return absl::Status(absl::StatusCode::kInternal, "refused " + std::to_string(id));
    size_t n = s.data_matrix.NumRows(), c = n / 5 + 1;
    M m(3, c);
    for (size_t i = 0; i < 3 * c; i++) m(i % 3, i / 3) = std::fabs(s.data_matrix(i % n, 0)) + .01 + w.size * 1e-6;
    return Spectrogram(std::move(m));
  }
};
struct Any : PatchSimilarityComparator {
  double bias;
  PatchSimilarityResult MeasurePatchSimilarity(const ImagePatch& r, const ImagePatch& d) const override {
    PatchSimilarityResult q;
    double a = 0, b = 0;
    for (size_t i = 0; i < r.NumRows(); i++) for (size_t j = 0; j < r.NumCols(); j++) a += r(i, j) * (1 + i + 3 * j), b += j < d.NumCols() ? d(i, j) * (2 + i + j) : 0;
    q.similarity = std::fmod(std::fabs(a + 2 * b), 1.) + bias;
    q.freq_band_means = M::Filled(3, 1, a); q.freq_band_stddevs = M::Filled(3, 1, b); q.freq_band_deg_energy = M::Filled(3, 1, a - b);
    q.ref_patch_start_time = q.ref_patch_end_time = q.deg_patch_start_time = q.deg_patch_end_time = -99;
    return q;
  }
};
static bool same_result(const PatchSimilarityResult& a, const PatchSimilarityResult& b) {
  return a.similarity == b.similarity && same(a.freq_band_means, b.freq_band_means) && same(a.freq_band_stddevs, b.freq_band_stddevs) && same(a.freq_band_deg_energy, b.freq_band_deg_energy) &&
    a.ref_patch_start_time == b.ref_patch_start_time && a.ref_patch_end_time == b.ref_patch_end_time && a.deg_patch_start_time == b.deg_patch_start_time && a.deg_patch_end_time == b.deg_patch_end_time;
}
int main() {
  for (int t = 0; t < rounds(7000); t++) {
    g_cases++;
    size_t sr = t % 2 ? 1000 : (size_t)ri(50, 2000);
    int n = ri(40, 400), m = coin() ? n : ri(40, 400), d = ri(-20, 20);
    M ref(n, 1), deg(m, 1);
    std::vector<double> x(2000); for (auto& v : x) v = rd(-1, 1) * (coin() ? 1 : .1);
    for (int i = 0; i < n; i++) ref(i, 0) = x[500 + i];
    for (int i = 0; i < m; i++) deg(i, 0) = x[500 + i - d];
    AudioSignal R{ref, sr}, D{deg, sr};
    auto* cmp = new Any; cmp->bias = t % 4 == 0 ? rd(-.5, .5) : 0;
    ComparisonPatchesSelector sel{std::unique_ptr<PatchSimilarityComparator>(cmp)};
    std::vector<PatchSimilarityResult> in;
    for (int k = 0, K = ri(0, 5); k < K; k++) {
      PatchSimilarityResult q;
      int len = ri(8, 30), a = ri(0, n - len), b = std::max(0, std::min(m - 9, a + (int)ri(-9, 9)));
      q.similarity = coin() ? rd(0, 1) : ri(0, 1);
      q.freq_band_means = M::Filled(3, 1, k); q.freq_band_stddevs = M::Filled(3, 1, -k); q.freq_band_deg_energy = M::Filled(3, 1, 7 + k);
      q.ref_patch_start_time = (double)a / sr; q.ref_patch_end_time = (double)(a + len) / sr;
      q.deg_patch_start_time = (double)b / sr; q.deg_patch_end_time = (double)(b + len) / sr;
      if (ri(0, 4) == 0) { q.similarity = 0; q.deg_patch_start_time = q.deg_patch_end_time = 0; }
      in.push_back(q);
    }
    AnalysisWindow win{sr, .25, .08};
    Rows rows;
    g_builds = 0; g_fail = -1;
    // what the definition gives
    std::vector<PatchSimilarityResult> want; int order = 0, fail = t % 5 == 0 ? ri(0, 6) : -1; bool bad = false;
    for (size_t k = 0; k < in.size() && !bad; k++) {
      const auto& s = in[k];
      if (s.deg_patch_start_time == 0 && s.deg_patch_end_time == 0) { want.push_back(s); continue; }
      auto pa = ComparisonPatchesSelector::Slice(R, s.ref_patch_start_time, s.ref_patch_end_time);
      auto pb = ComparisonPatchesSelector::Slice(D, s.deg_patch_start_time, s.deg_patch_end_time);
      auto al = Alignment::AlignAndTruncate(pa, pb);
      auto &aa = std::get<0>(al), &bb = std::get<1>(al); double lag = std::get<2>(al);
      if (fail == order || fail == order + 1) { bad = true; break; }
      order += 2;
      auto A = rows.Build(aa, win), B = rows.Build(bb, win);
      Spectrogram sa = A.value(), sb = B.value();
      MiscAudio::PrepareSpectrogramsForComparison(sa, sb);
      auto q = cmp->MeasurePatchSimilarity(sa.Data(), sb.Data());
      if (q.similarity < s.similarity) { want.push_back(s); continue; }
      q.ref_patch_start_time = s.ref_patch_start_time + (lag > 0 ? lag : 0);
      q.deg_patch_start_time = s.deg_patch_start_time + (lag > 0 ? 0 : -lag);
      q.ref_patch_end_time = q.ref_patch_start_time + (double)aa.data_matrix.NumRows() / sr;
      q.deg_patch_end_time = q.deg_patch_start_time + (double)bb.data_matrix.NumRows() / sr;
      want.push_back(q);
    }
    g_builds = 0; g_fail = fail;
    auto out = sel.FinelyAlignAndRecreatePatches(in, R, D, &rows, win);
    if (bad) { CHECK(!out.ok() && out.status().code() == absl::StatusCode::kInternal && out.status().message() == "refused " + std::to_string(fail), "analysis %d of %zu patches fails but the status is %s", fail, in.size(), out.status().ToString().c_str()); continue; }
    CHECK(out.ok(), "status %s", out.status().ToString().c_str());
    auto& v = out.value();
    CHECK(v.size() == in.size(), "%zu results for %zu patches", v.size(), in.size());
    for (size_t k = 0; k < v.size(); k++) {
      CHECK(v[k].similarity >= in[k].similarity, "patch %zu: similarity %.17g lowered to %.17g", k, in[k].similarity, v[k].similarity);
      CHECK(same_result(v[k], want[k]), "patch %zu of %zu (%d and %d samples at %zu Hz): similarity %.17g times %g..%g %g..%g, expected %.17g, %g..%g %g..%g", k, v.size(), n, m, sr, v[k].similarity, v[k].ref_patch_start_time, v[k].ref_patch_end_time,
            v[k].deg_patch_start_time, v[k].deg_patch_end_time, want[k].similarity, want[k].ref_patch_start_time, want[k].ref_patch_end_time, want[k].deg_patch_start_time, want[k].deg_patch_end_time);
    }
  }
}
