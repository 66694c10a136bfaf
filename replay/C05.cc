#include <sys/wait.h>
#include "engine.h"
struct Fl { const char* name; std::string v; };
int main() {
  Scratch sc;
  std::filesystem::create_directories(sc.d + "/with/model"); std::filesystem::create_directories(sc.d + "/without");
  std::string am = "/model/libsvm_nu_svr_model.txt", sm = "/model/lattice_tcditugenmeetpackhref_ls2_nl60_lr12_bs2048_learn.005_ep2400_train1_7_raw.tflite";
  auto present = [](const std::string& p) { return access(p.c_str(), F_OK) == 0; };
  write_file(sc.d + "/a.wav", "x"); write_file(sc.d + "/b.wav", "y"); write_file(sc.d + "/list.csv", "reference,degraded\n"); write_file(sc.d + "/m.txt", "m");
  for (int t = 0; t < rounds(2500); t++) {
    g_cases++;
    std::string cwd = sc.d + (t % 3 ? "/with" : "/without");
    chdir(cwd.c_str());
    cwd = std::filesystem::current_path().string();
    for (auto& k : {am, sm}) { if (t % 3 && coin()) write_file(cwd + k, "m"); else std::filesystem::remove(cwd + k); }
    auto pick = [&](std::initializer_list<std::string> l) { auto i = l.begin(); std::advance(i, ri(0, l.size() - 1)); return *i; };
    std::string ref = pick({"", sc.d + "/a.wav", sc.d + "/no.wav", sc.d + "/a.wav"}), deg = pick({"", sc.d + "/b.wav", sc.d + "/none.wav", sc.d + "/b.wav"}), csv = pick({"", "", "", sc.d + "/list.csv", sc.d + "/nolist.csv"});
    std::string mod = pick({"", "", sc.d + "/m.txt", sc.d + "/nom.txt"}), out = pick({"", "res.csv"}), dbg = pick({"", "dbg.json"});
    bool sp = coin(), lat = coin(), un = coin(), vb = coin(), dg = coin(), dr = coin(); int w = ri(-5, 300);
    auto b = [](bool x) { return std::string(x ? "true" : "false"); };
    std::vector<std::string> a{"visqol", "--reference_file=" + ref, "--degraded_file=" + deg, "--batch_input_csv=" + csv, "--similarity_to_quality_model=" + mod, "--results_csv=" + out, "--output_debug=" + dbg, "--use_speech_mode=" + b(sp), "--use_lattice_model=" + b(lat),
      "--use_unscaled_speech_mos_mapping=" + b(un), "--verbose=" + b(vb), "--search_window_radius=" + std::to_string(w), "--disable_global_alignment=" + b(dg), "--disable_realignment=" + b(dr)};
    std::string desc; for (auto& s : a) desc += s + " ";
    std::vector<char*> av; for (auto& s : a) av.push_back(&s[0]); av.push_back(nullptr);
    fflush(stdout);
    pid_t child = fork();      // the usage text can be set once per process
    if (child) { int st = 0; waitpid(child, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) { if (WIFSIGNALED(st)) printf("FAIL: %s: signal %d\n", desc.c_str(), WTERMSIG(st)); fflush(stdout); sc.~Scratch(); _exit(1); } continue; }
    auto r = VisqolCommandLineParser::Parse(a.size(), av.data());
    std::string used = mod.empty() ? cwd + (sp ? sm : am) : mod;
    bool ok = (csv.empty() ? present(ref) && present(deg) : present(csv)) && (mod.empty() || !sp ? present(used) : true);
    CHECK(r.ok() == ok, "%s in %s: %s", desc.c_str(), cwd.c_str(), ok ? "refused" : "accepted");
    if (!ok) { CHECK(r.status().code() == absl::StatusCode::kInvalidArgument, "%s: status %d", desc.c_str(), (int)r.status().code()); _exit(0); }
    const auto& v = r.value();
    CHECK(v.similarity_to_quality_mapper_model.Path() == used, "%s: model %s", desc.c_str(), v.similarity_to_quality_mapper_model.Path().c_str());
    CHECK(v.reference_signal_path.Path() == (csv.empty() ? ref : "") && v.degraded_signal_path.Path() == (csv.empty() ? deg : ""), "%s: reference %s, degraded %s", desc.c_str(), v.reference_signal_path.Path().c_str(), v.degraded_signal_path.Path().c_str());
    CHECK(v.batch_input_csv.Path() == csv && v.results_output_csv.Path() == out && v.debug_output_path.Path() == dbg, "%s: batch, results or debug path altered", desc.c_str());
    CHECK(v.verbose == vb && v.use_speech_mode == sp && v.use_lattice_model == lat && v.use_unscaled_speech_mos_mapping == un && v.disable_global_alignment == dg && v.disable_realignment == dr && v.search_window_radius == w,
          "%s: got verbose %d speech %d lattice %d unscaled %d noglobal %d norealign %d radius %d", desc.c_str(), v.verbose, v.use_speech_mode, v.use_lattice_model, v.use_unscaled_speech_mos_mapping, v.disable_global_alignment, v.disable_realignment, v.search_window_radius);
    _exit(0);
  }
}
