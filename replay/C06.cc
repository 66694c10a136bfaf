#include "engine.h"
int main() {
  Scratch sc;
  std::filesystem::create_directories(sc.d + "/model");
  write_file(sc.d + "/broken.txt", "not a model\n");
  for (auto& p : {audio_model(), speech_model()}) std::filesystem::copy_file(p, sc.d + "/model/" + std::filesystem::path(p).filename().string());
  std::string cwd = std::filesystem::current_path().string();
  for (int t = 0; t < rounds(700); t++) {
    g_cases++;
    VisqolConfig g;
    bool audio = ri(0, 9), opts = ri(0, 4);
    long rates[] = {0, 48000, 48000, 16000, 44100, 8000, 48001, 192000}; long sr = rates[ri(0, 7)];
    if (audio) g.mutable_audio()->set_sample_rate(sr); else sr = 0;
    bool sp = false, ov = false, un = false, lat = true; int w = 0; std::string m;
    if (opts) {
      auto* o = g.mutable_options(); lat = false;
      if (coin()) o->set_use_speech_scoring(sp = coin());
      if (coin()) o->set_allow_unsupported_sample_rates(ov = coin());
      if (coin()) o->set_use_unscaled_speech_mos_mapping(un = coin());
      if (coin()) o->set_use_lattice_model(lat = coin());
      if (coin()) o->set_search_window_radius(w = ri(-3, 200));
      if (coin()) o->set_svr_model_path(m = ri(0, 3) == 0 ? sc.d + "/none.txt" : sp && lat ? speech_model() : audio_model());
    }
    std::string d = g.ShortDebugString();
    VisqolApi api;
    g_tfl_path.clear();
    auto s = api.Create(g);
    bool bad = !audio || sr == 0 || (sr != 48000 && !sp && !ov);
    if (bad) { CHECK(s.code() == absl::StatusCode::kInvalidArgument, "{%s}: status %d for an unusable configuration", d.c_str(), (int)s.code()); continue; }
    auto& v = api.visqol_;
    CHECK((long)api.sample_rate_ == sr, "{%s}: rate %zu", d.c_str(), api.sample_rate_);
    CHECK(v.use_speech_mode_ == sp && v.use_lattice_model_ == lat && v.use_unscaled_speech_mos_mapping_ == un && v.search_window_ == (w ? w : 60) && !v.disable_global_alignment_ && !v.disable_realignment_,
          "{%s}: engine has speech %d lattice %d unscaled %d radius %d nogl %d nore %d", d.c_str(), v.use_speech_mode_, v.use_lattice_model_, v.use_unscaled_speech_mos_mapping_, v.search_window_, v.disable_global_alignment_, v.disable_realignment_);
    VisqolManager own; std::string model = m.empty() ? cwd + (sp ? "/model/lattice_tcditugenmeetpackhref_ls2_nl60_lr12_bs2048_learn.005_ep2400_train1_7_raw.tflite" : "/model/libsvm_nu_svr_model.txt") : m;
    std::string asked = g_tfl_path;
    auto q = own.Init(FilePath(model), sp, un, w ? w : 60, lat);
    CHECK(s.code() == q.code() && v.is_initialized_ == own.is_initialized_, "{%s}: status %d, the engine itself gives %d", d.c_str(), (int)s.code(), (int)q.code());
    CHECK(asked == g_tfl_path || !(sp && lat), "{%s}: model %s instead of %s", d.c_str(), asked.c_str(), g_tfl_path.c_str());
    if (auto* x = dynamic_cast<SvrSimilarityToQualityMapper*>(v.sim_to_qual_.get())) CHECK(x->model_path_.Path() == model, "{%s}: model %s instead of %s", d.c_str(), x->model_path_.Path().c_str(), model.c_str());
  }
  // a comparison through the session is the engine's comparison of the two signals at the configured rate
  for (int t = 0; t < rounds(2); t++) {
    g_cases++;
    VisqolConfig g; g.mutable_audio()->set_sample_rate(16000); g.mutable_options()->set_use_speech_scoring(true);
    VisqolApi api; CHECK(api.Create(g).ok(), "creating a speech session");
    AudioSignal a = tone(16000 * 2, 16000, 200 + 50 * t, .02), b = tone(16000 * 2, 16000, 200 + 50 * t, .05);
    std::vector<double> x = a.data_matrix.ToVector(), y = b.data_matrix.ToVector();
    absl::Span<double> sx(x.data(), x.size()), sy(y.data(), y.size());
    auto r = api.Measure(sx, sy); auto q = api.visqol_.Run(a, b);
    CHECK(r.ok() == q.ok() && (!r.ok() || r.value().SerializeAsString() == q.value().SerializeAsString()), "measuring through the session differs from the engine's result");
    absl::Span<double> e;
    CHECK(!api.Measure(e, sy).ok(), "an empty reference was measured");
  }
}
