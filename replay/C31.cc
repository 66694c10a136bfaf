#include "align_common.h"
#include "visqol.h"
#include "misc_audio.h"
#include "spectrogram.h"
#include "spectrogram_builder.h"
/** stand-in stages that fail on demand and remember what they were given */
static int g_fail, g_stage;
static double checksum(const M& m) { double s = 0; for (size_t i = 0; i < m.NumRows(); i++) for (size_t j = 0; j < m.NumCols(); j++) s += m(i, j) * ((3 * i + j) % 11 + 1); return s; }
struct Rows : SpectrogramBuilder {
  absl::StatusOr<Spectrogram> Build(const AudioSignal& s, const AnalysisWindow& w) override {
    int id = g_stage++;
    if (id == g_fail) return absl::Status(absl::StatusCode::kInternal, "builder");
    size_t n = s.data_matrix.NumRows(), hop = w.size * w.overlap, c = n > w.size ? 1 + (n - w.size) / hop : 1;
    M m(3, c);
    for (size_t i = 0; i < 3 * c; i++) m(i % 3, i / 3) = std::fabs(s.data_matrix((i / 3 * hop + i % 3) % n, 0)) + .01;
    Spectrogram r(std::move(m));
    std::vector<double> f{10. + id, 20., 30. + n};
    r.SetCenterFreqBands(f);
    return r;
  }
};
struct Any : PatchSimilarityComparator {
  PatchSimilarityResult MeasurePatchSimilarity(const ImagePatch& r, const ImagePatch& d) const override {
    PatchSimilarityResult q{};
    double a = checksum(r), b = checksum(d);
    q.similarity = 1 / (1 + std::fabs(a - b));
    q.freq_band_means = M(3, 1); q.freq_band_stddevs = M(3, 1); q.freq_band_deg_energy = M(3, 1);
    for (int i = 0; i < 3; i++) q.freq_band_means(i, 0) = q.similarity / (i + 1), q.freq_band_stddevs(i, 0) = std::fmod(std::fabs(a), 1. + i), q.freq_band_deg_energy(i, 0) = b - i;
    return q;
  }
};
struct Creator : ImagePatchCreator {
  Creator() : ImagePatchCreator(4) {}
  mutable double seen = 0;
  absl::StatusOr<std::vector<size_t>> CreateRefPatchIndices(const M& s, const AudioSignal& r, const AnalysisWindow& w) const override {
    if (g_fail == 2) return absl::Status(absl::StatusCode::kOutOfRange, "creator");
    seen = checksum(s) + 7 * checksum(r.data_matrix) + w.size;
    std::vector<size_t> v;
    if (g_fail != 3) for (size_t i = 1; i + 4 <= s.NumCols(); i += 4) v.push_back(i);
    return v;
  }
};
struct Map : SimilarityToQualityMapper {
  mutable std::vector<std::vector<double>> got;
  absl::Status Init() override { return absl::Status(); }
  double PredictQuality(const std::vector<double>& a, const std::vector<double>& b, const std::vector<double>& c, const std::vector<double>& d) const override {
    got = {a, b, c, d};
    return 2.25 + a[0];
  }
};
static bool same_result(const PatchSimilarityResult& a, const PatchSimilarityResult& b) {
  return a.similarity == b.similarity && same(a.freq_band_means, b.freq_band_means) && same(a.freq_band_stddevs, b.freq_band_stddevs) && same(a.freq_band_deg_energy, b.freq_band_deg_energy) &&
    a.ref_patch_start_time == b.ref_patch_start_time && a.ref_patch_end_time == b.ref_patch_end_time && a.deg_patch_start_time == b.deg_patch_start_time && a.deg_patch_end_time == b.deg_patch_end_time;
}
static bool eqv(const std::vector<double>& a, const std::vector<double>& b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); i++) if (!(a[i] == b[i] || (a[i] != a[i] && b[i] != b[i]) || close_to(a[i], b[i], 1e-12, 1e-12))) return false;
  return true;
}
int main() {
  for (int t = 0; t < rounds(3000); t++) {
    g_cases++;
    size_t sr = coin() ? 1000 : 500;
    AnalysisWindow win{sr, .25, sr == 500 ? .04 : .02};
    int n = ri(150, 500), m = ri(150, 500), d = ri(-10, 10);
    M ref(n, 1), deg(m, 1);
    std::vector<double> x(2000); for (auto& v : x) v = rd(-1, 1);
    double g = coin() ? 1 : rd(.01, 50);
    for (int i = 0; i < n; i++) ref(i, 0) = x[500 + i];
    for (int i = 0; i < m; i++) deg(i, 0) = g * (x[500 + i - d] + (t % 3 ? 0 : rd(-.2, .2)));
    AudioSignal R{ref, sr}, D{deg, sr}, D0 = D;
    Creator pc; Map mp; Rows rows; Visqol::Visqol vq;
    ComparisonPatchesSelector sel{std::unique_ptr<PatchSimilarityComparator>(new Any)};
    bool coarse = coin(); int radius = ri(1, 6);
    int fail = t % 3 == 0 ? ri(0, 8) : -1;   // 0,1: spectrograms, 2: indices, 3: no patch, >= 4: (stage number) a re-analysis
    g_fail = fail; g_stage = 0; if (fail >= 4) g_fail = fail - 2;
    if (fail == 2) g_fail = 2; 
    // what the definition gives
    int want = 0; std::vector<PatchSimilarityResult> sims; std::vector<double> freqs; double seen = 0;
    AudioSignal S = MiscAudio::ScaleToMatchSoundPressureLevel(R, D);
    auto A = rows.Build(R, win);
    auto B = rows.Build(S, win);
    if (!A.ok()) want = (int)A.status().code();
    else if (!B.ok()) want = (int)B.status().code();
    else {
      Spectrogram a = A.value(), b = B.value();
      MiscAudio::PrepareSpectrogramsForComparison(a, b);
      freqs = a.GetCenterFreqBands();
      auto ix = pc.CreateRefPatchIndices(a.Data(), R, win); seen = pc.seen;
      if (!ix.ok()) want = (int)ix.status().code();
      else {
        auto ps = pc.CreatePatchesFromIndices(a.Data(), ix.value());
        double fd = (size_t)(win.size * win.overlap) / (double)sr;
        auto f = sel.FindMostOptimalDegPatches(ps, ix.value(), b.Data(), fd, radius);
        if (!f.ok()) want = (int)f.status().code();
        else {
          sims = f.value();
          if (!coarse) { auto h = sel.FinelyAlignAndRecreatePatches(f.value(), R, S, &rows, win); if (!h.ok()) want = (int)h.status().code(); else sims = h.value(); }
        }
      }
    }
    double fd = (size_t)(win.size * win.overlap) / (double)sr;
    g_stage = 0; pc.seen = 0;
    AudioSignal R0 = R;
    auto r = vq.CalculateSimilarity(R, D, &rows, win, &pc, &sel, &mp, radius, coarse);
    CHECK(same(R.data_matrix, R0.data_matrix) && R.sample_rate == sr, "case %d: the reference signal was modified", t);
    CHECK((int)r.status().code() == want, "case %d (failing stage %d): status %d instead of %d", t, fail, (int)r.status().code(), want);
    if (want) continue;
    CHECK(pc.seen == seen, "case %d: the patch creator did not see the prepared reference spectrogram, the reference signal and the window", t);
    const auto& q = r.value();
    auto mean = vq.CalcPerPatchMeanFreqBandMeans(sims), lo = vq.CalcPerPatchFreqBandQuantile(sims, .10), sd = vq.CalcPerPatchMeanFreqBandStdDevs(sims, fd), en = vq.CalcPerPatchMeanFreqBandDegradedEnergy(sims);
    CHECK(q.debug_info.patch_sims.size() == sims.size(), "case %d: %zu patches instead of %zu", t, q.debug_info.patch_sims.size(), sims.size());
    for (size_t i = 0; i < sims.size(); i++) CHECK(same_result(q.debug_info.patch_sims[i], sims[i]), "case %d: patch %zu differs from the %s match", t, i, coarse ? "coarse" : "fine");
    CHECK(eqv(q.fvnsim, mean.ToVector()), "case %d: band similarities", t);
    CHECK(eqv(q.fvnsim10, lo.ToVector()), "case %d: band quantiles", t);
    CHECK(eqv(q.fstdnsim, sd.ToVector()), "case %d: band deviations", t);
    CHECK(eqv(q.fvdegenergy, en.ToVector()), "case %d: band energies", t);
    CHECK(eqv(q.center_freq_bands, freqs), "case %d: centre frequencies", t);
    CHECK(mp.got.size() == 4 && eqv(mp.got[0], q.fvnsim) && eqv(mp.got[1], q.fvnsim10) && eqv(mp.got[2], q.fstdnsim) && eqv(mp.got[3], q.fvdegenergy), "case %d: the mapper did not get means, quantiles, deviations, energies", t);
    double v = 0; for (double z : q.fvnsim) v += z; v /= q.fvnsim.size();
    CHECK(close_to(q.vnsim, v, 1e-12, 1e-12), "case %d: similarity %g instead of %g", t, q.vnsim, v);
    if (std::fabs(v - .15) > 1e-9) { double mos = v < .15 ? 1 : 2.25 + q.fvnsim[0]; CHECK(close_to(q.moslqo, mos, 1e-12, 1e-12), "case %d: score %g instead of %g (similarity %g)", t, q.moslqo, mos, v); }
  }
}
