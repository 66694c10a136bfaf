#include "engine.h"
#include "misc_audio.h"
static std::vector<double> some(int n) { std::vector<double> v(n); for (auto& x : v) x = coin() ? rd(-5, 5) : rd(-1e-3, 1e-3); return v; }
template <class A, class B> static bool equal(const A& a, const B& b) { if ((int)a.size() != (int)b.size()) return false; for (int i = 0; i < (int)a.size(); i++) if (!(a[i] == b[i])) return false; return true; }
static std::string wav(const AudioSignal& s) {
  std::string d; auto u = [&](long v, int n) { for (int i = 0; i < n; i++) d += (char)(v >> 8 * i); };
  long n = s.data_matrix.NumRows(), sr = s.sample_rate;
  d += "RIFF"; u(36 + 2 * n, 4); d += "WAVEfmt "; u(16, 4); u(1, 2); u(1, 2); u(sr, 4); u(2 * sr, 4); u(2, 2); u(16, 2); d += "data"; u(2 * n, 4);
  for (long i = 0; i < n; i++) u(std::lround(32767 * std::max(-1., std::min(1., s.data_matrix(i, 0)))), 2);
  return d;
}
int main() {
  Scratch sc;
  VisqolManager m;
  for (int t = 0; t < rounds(2000); t++) {
    g_cases++;
    int nb = ri(0, 33), np = ri(0, 6);
    SimilarityResult r;
    r.moslqo = rd(1, 5); r.vnsim = rd(0, 1); r.fvnsim = some(nb); r.fvnsim10 = some(nb); r.fstdnsim = some(nb); r.fvdegenergy = some(nb); r.center_freq_bands = some(t % 4 ? nb : ri(0, 9));
    for (int i = 0; i < np; i++) {
      PatchSimilarityResult p{}; p.similarity = rd(0, 1); p.ref_patch_start_time = rd(0, 9); p.ref_patch_end_time = rd(0, 9); p.deg_patch_start_time = rd(0, 9); p.deg_patch_end_time = rd(0, 9); p.freq_band_means = M(some(nb + 1)); p.freq_band_stddevs = M(some(nb + 1)); p.freq_band_deg_energy = M(some(nb + 1));
      r.debug_info.patch_sims.push_back(p);
    }
    auto q = m.PopulateSimResultMsg(r);
    CHECK(q.moslqo() == r.moslqo && q.vnsim() == r.vnsim, "case %d: score %g, similarity %g reported as %g, %g", t, r.moslqo, r.vnsim, q.moslqo(), q.vnsim());
    CHECK(equal(q.fvnsim(), r.fvnsim), "case %d: band similarities", t); CHECK(equal(q.fvnsim10(), r.fvnsim10), "case %d: band quantiles", t); CHECK(equal(q.fstdnsim(), r.fstdnsim), "case %d: band deviations", t);
    CHECK(equal(q.fvdegenergy(), r.fvdegenergy), "case %d: band energies", t); CHECK(equal(q.center_freq_bands(), r.center_freq_bands), "case %d: centre frequencies", t);
    CHECK(q.patch_sims_size() == np, "case %d: %d patches reported of %d", t, q.patch_sims_size(), np);
    CHECK(q.alignment_lag_s() == 0 && q.reference_filepath().empty() && q.degraded_filepath().empty(), "case %d: lag or paths made up", t);
    for (int i = 0; i < np; i++) {
      auto& a = q.patch_sims(i); auto& b = r.debug_info.patch_sims[i];
      CHECK(a.similarity() == b.similarity && a.ref_patch_start_time() == b.ref_patch_start_time && a.ref_patch_end_time() == b.ref_patch_end_time && a.deg_patch_start_time() == b.deg_patch_start_time && a.deg_patch_end_time() == b.deg_patch_end_time, "case %d: patch %d", t, i);
      CHECK(equal(a.freq_band_means(), b.freq_band_means.ToVector()), "case %d: band similarities of patch %d", t, i);
    }
  }
  for (int t = 0; t < rounds(4); t++) {
    g_cases++;
    bool off = t & 1; size_t sr = 16000;
    VisqolManager e; CHECK(e.Init(FilePath(speech_model()), true, false, 60, false, off).ok(), "init");
    AudioSignal a = tone(sr * 2, sr, 250, .01), b = a; int lag = 160 * (t / 2 + 1);
    for (long i = sr * 2 - 1; i >= 0; i--) b.data_matrix(i, 0) = i >= lag ? a.data_matrix(i - lag, 0) : 0.;
    std::string p = sc.d + "/ref.wav", q = sc.d + "/deg.wav"; write_file(p, wav(a)); write_file(q, wav(b));
    auto r = e.Run(FilePath(p), FilePath(q)); CHECK(r.ok(), "comparison of files failed: %s", std::string(r.status().message()).c_str());
    CHECK(r.value().reference_filepath() == p && r.value().degraded_filepath() == q, "paths %s, %s", r.value().reference_filepath().c_str(), r.value().degraded_filepath().c_str());
    AudioSignal A = MiscAudio::LoadAsMono(FilePath(p)), B = MiscAudio::LoadAsMono(FilePath(q));
    double want = off ? 0 : std::get<1>(Alignment::GloballyAlign(A, B));
    CHECK(r.value().alignment_lag_s() == want, "lag %g instead of %g (alignment %s)", r.value().alignment_lag_s(), want, off ? "off" : "on");
  }
}
