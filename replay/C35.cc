#include "common.h"
#include "tflite_quality_mapper.h"
using namespace Visqol;
extern std::map<std::string, float> g_tfl_inputs; extern int g_tfl_invokes; extern float (*g_tfl_model)(const std::map<std::string, float>&);
extern bool g_tfl_fail_build, g_tfl_fail_alloc; extern std::string g_tfl_path, g_tfl_signature;
static float g_out = 0;
int main() {
  const char* rp = getenv("DV_REPO"); std::string repo = rp ? rp : "/repo";
  std::string f = repo + "/model/lattice_tcditugenmeetpackhref_ls2_nl60_lr12_bs2048_learn.005_ep2400_train1_7_raw.tflite";
  g_tfl_model = [](const std::map<std::string, float>&) { return g_out; };
  for (int t = 0; t < rounds(60); t++) {
    int n = t % 2 ? 21 : ri(1, 40);
    TFLiteQualityMapper m(f, n);
    CHECK(m.Init().ok() && g_tfl_path == f, "loading the model (asked for %s)", g_tfl_path.c_str());
    for (int rep = 0; rep < 3; rep++) {
      g_cases++;
      std::vector<double> v[4]; const char* nm[4] = {"fvnsim", "fvnsim10_", "fstdnsim", "fvdegenergy"};
      for (auto& x : v) { x.resize(n); for (auto& y : x) y = rd(-2, 2); }
      g_out = (float)rd(1, 5); g_tfl_inputs.clear();
      double q = m.PredictQuality(v[0], v[1], v[2], v[3]);
      CHECK(q == g_out, "score %g, the model's output is %g", q, g_out);
      CHECK(g_tfl_signature == "predict", "signature %s", g_tfl_signature.c_str());
      for (int k = 0; k < 4; k++) for (int b = 0; b < n; b++) {
        auto s = nm[k] + std::to_string(b); auto i = g_tfl_inputs.find(s);
        CHECK(i != g_tfl_inputs.end() && i->second == (float)v[k][b], "input %s of %d bands is %g, expected %g", s.c_str(), n, i == g_tfl_inputs.end() ? NAN : i->second, v[k][b]);
      }
      CHECK(g_tfl_inputs.count("tau") && g_tfl_inputs["tau"] == 0.5f, "tau");
      CHECK((int)g_tfl_inputs.size() == 4 * n + 1, "%zu inputs set for %d bands", g_tfl_inputs.size(), n);
    }
  }
  { TFLiteQualityMapper m("/nonexistent.tflite", 21); CHECK(m.Init().code() == absl::StatusCode::kInvalidArgument, "status for a model that cannot be loaded"); }
  for (int k = 0; k < 2; k++) { TFLiteQualityMapper m(f, 21); (k ? g_tfl_fail_alloc : g_tfl_fail_build) = true; CHECK(!m.Init().ok(), "initialised although the interpreter could not be set up"); g_tfl_fail_alloc = g_tfl_fail_build = false; }
}
