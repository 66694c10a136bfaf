#include "engine.h"
int main() {
  for (int t = 0; t < 64; t++) {
    g_cases++;
    bool sp = t & 1, un = t & 2, lat = t & 4, dg = t & 8, dr = t & 16, str = t & 32; int w = ri(1, 80);
    std::string mod = sp && lat ? speech_model() : audio_model();
    VisqolManager m;
    if (t % 3 == 0) (void)m.Init(FilePath(audio_model()), !sp, un, 5, lat);      // an earlier configuration leaves no trace
    auto s = str ? m.Init(absl::string_view(mod), sp, un, w, lat, dg, dr) : m.Init(FilePath(mod), sp, un, w, lat, dg, dr);
    char d[200]; snprintf(d, sizeof d, "speech %d unscaled %d lattice %d noglobal %d norealign %d radius %d", sp, un, lat, dg, dr, w);
    CHECK(s.ok(), "%s: not initialised", d);
    CHECK(m.patch_creator_->patch_size_ == (sp ? 20u : 30u) && !!dynamic_cast<VadPatchCreator*>(m.patch_creator_.get()) == sp, "%s: %zu frame patches", d, (size_t)m.patch_creator_->patch_size_);
    auto* b = dynamic_cast<GammatoneSpectrogramBuilder*>(m.spectrogram_builder_.get());
    CHECK(b && b->speech_mode_ == sp && b->filter_bank_.GetNumBands() == (sp ? 21 : 32) && b->filter_bank_.GetMinFreq() == 50, "%s: spectrogram of %zu bands from %g Hz", d, b ? (size_t)b->filter_bank_.GetNumBands() : 0, b ? b->filter_bank_.GetMinFreq() : 0.);
    CHECK(dynamic_cast<NeurogramSimiliarityIndexMeasure*>(m.patch_selector_->sim_comparator_.get()), "%s: comparator", d);
    auto* q = m.sim_to_qual_.get();
    if (!sp) { auto* x = dynamic_cast<SvrSimilarityToQualityMapper*>(q); CHECK(x && x->model_path_.Path() == mod, "%s: mapper", d); }
    else if (lat) { auto* x = dynamic_cast<TFLiteQualityMapper*>(q); CHECK(x && x->num_frequency_bands_ == 21 && g_tfl_path == mod, "%s: mapper", d); }
    else { auto* x = dynamic_cast<SpeechSimilarityToQualityMapper*>(q); CHECK(x && x->scale_to_max_mos_ == !un, "%s: mapper", d); }
    // what a comparison is run with
    size_t sr = t % 2 ? 16000 : 8000;
    AudioSignal ref = tone(sr * 2, sr, 300, .01), all = tone(sr * 2 + 400, sr, 300, .01); int lag = t % 3 ? 0 : 200;
    M dm(sr * 2, 1); for (size_t i = 0; i < sr * 2; i++) dm(i, 0) = (long)i < lag ? 0. : ref.data_matrix(i - lag, 0);
    AudioSignal deg{dm, sr};
    M whole = dm;
    if (!dg) whole = shifted(dm, detected(ref.data_matrix, dm));
    m.spectrogram_builder_.reset(new RecBuilder); g_rec = Recorded();
    struct Sel : PatchSimilarityComparator { NeurogramSimiliarityIndexMeasure n; PatchSimilarityResult MeasurePatchSimilarity(const ImagePatch& a, const ImagePatch& c) const override { return n.MeasurePatchSimilarity(a, c); } };
    m.patch_creator_.reset(new ImagePatchCreator(5));
    m.sim_to_qual_.reset(new SpeechSimilarityToQualityMapper(true));
    auto r = m.Run(ref, deg);
    CHECK(g_rec.win == (size_t)std::round(.08 * sr) && g_rec.overlap == .25, "%s: window of %zu samples at %zu Hz, hop %g", d, g_rec.win, sr, g_rec.overlap);
    CHECK(g_rec.heard.size() >= 2 && g_rec.heard[1].data_matrix.NumRows() == whole.NumRows(), "%s: compared with %zu degraded samples, not %zu", d, g_rec.heard.size() > 1 ? g_rec.heard[1].data_matrix.NumRows() : 0, whole.NumRows());
    CHECK(!r.ok() || (g_rec.builds == 2) == dr, "%s: %d spectrograms were built", d, g_rec.builds);
    AudioSignal D{whole, sr};
    VisqolManager n; (void)n.Init(FilePath(mod), sp, un, 60, lat, true, true);
    class ::Visqol::Visqol vq; RecBuilder rb; ImagePatchCreator pc(5); SpeechSimilarityToQualityMapper mp(true);
    auto want = vq.CalculateSimilarity(ref, D, &rb, AnalysisWindow{sr, .25}, &pc, m.patch_selector_.get(), &mp, w, dr);
    CHECK(want.status().code() == r.status().code(), "%s: status %d instead of %d", d, (int)r.status().code(), (int)want.status().code());
    if (!r.ok()) continue;
    CHECK(want.value().moslqo == r.value().moslqo() && (int)want.value().debug_info.patch_sims.size() == r.value().patch_sims_size(), "%s: result differs from the comparison with that radius and realignment", d);
    for (int i = 0; i < r.value().patch_sims_size(); i++) CHECK(r.value().patch_sims(i).deg_patch_start_time() == want.value().debug_info.patch_sims[i].deg_patch_start_time, "%s: patch %d matched at %g", d, i, r.value().patch_sims(i).deg_patch_start_time());
  }
  for (size_t sr : {8000, 16000, 22050, 44100, 48000, 11025, 96000, 44099}) { g_cases++; AnalysisWindow w{sr, .25}; CHECK(w.size == (size_t)std::round(.08 * sr) && w.overlap == .25 && w.window_duration == .08, "window of %zu samples at %zu Hz", w.size, sr); }
}
