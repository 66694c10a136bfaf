#include "common.h"
#include <atomic>
#include <dlfcn.h>
#include "svm.h"
// The library's load entry point, interposed: it must never be entered by two threads at once.
static std::atomic<int> g_in{0}, g_clash{0}, g_slow{0};
extern "C" svm_model* svm_load_model(const char* f) {
  if (g_in.fetch_add(1) != 0) g_clash = 1;
  if (g_slow) usleep(2000);
  auto real = (svm_model * (*)(const char*)) dlsym(RTLD_NEXT, "svm_load_model");
  svm_model* m = real(f);
  g_in.fetch_sub(1);
  return m;
}
#include "support_vector_regression_model.h"
#include "libsvm_target_observation_convertor.h"
#include "svr_similarity_to_quality_mapper.h"
using namespace Visqol;
struct Ref { double gamma = 0, rho = 0; std::vector<std::pair<double, std::map<int, double>>> sv; };
static Ref load(const std::string& f) {
  Ref r; std::ifstream in(f); std::string l; bool sv = false;
  while (std::getline(in, l)) {
    std::istringstream s(l);
    if (sv) { double c; if (!(s >> c)) continue; std::map<int, double> m; std::string t; while (s >> t) { size_t k = t.find(':'); m[atoi(t.c_str())] = atof(t.c_str() + k + 1); } r.sv.push_back({c, m}); continue; }
    std::string k; s >> k;
    if (k == "gamma") s >> r.gamma; else if (k == "rho") s >> r.rho; else if (k == "SV") sv = true;
  }
  return r;
}
static double expect(const Ref& r, const std::vector<double>& x) {
  double y = -r.rho;
  for (auto& [c, m] : r.sv) {
    double d = 0; std::map<int, double> z = m;
    for (size_t i = 0; i < x.size(); i++) z[i + 1] -= x[i];
    for (auto& [k, v] : z) d += v * v;
    y += c * std::exp(-r.gamma * d);
  }
  return y;
}
int main() {
  const char* rp = getenv("DV_REPO"); std::string repo = rp ? rp : "/repo";
  std::string files[] = {repo + "/model/libsvm_nu_svr_model.txt", repo + "/model/tcdvoip_nu.568_c5.31474325639_g3.17773760038_model.txt"};
  for (auto& f : files) {
    Ref r = load(f);
    SupportVectorRegressionModel m;
    CHECK(m.Init(FilePath(f)).ok(), "loading %s failed", f.c_str());
    CHECK(m.model_->l == (int)r.sv.size(), "%d support vectors", m.model_->l);
    for (int t = 0; t < rounds(40); t++) {
      g_cases++;
      int n = coin() ? 32 : ri(1, 40);
      std::vector<double> x(n);
      for (auto& v : x) v = ri(0, 3) ? rd(0.5, 1) : rd(-1, 1);
      double got = m.Predict(x), want = expect(r, x);
      CHECK(close_to(got, want, 1e-7, 1e-8), "prediction %.12g for %d features, the model's is %.12g", got, n, want);
      if (n == 32) {
        SvrSimilarityToQualityMapper q{FilePath(f)};
        if (t < 3) { CHECK(q.Init().ok(), "mapper init"); double s = q.PredictQuality(x, {}, {}, {}); CHECK(close_to(s, std::max(1.0, std::min(5.0, want)), 1e-7), "score %g, the model's clamped prediction is %g", s, want); }
      }
    }
    LibSvmTargetObservationConvertor conv;
    for (int t = 0; t < rounds(50); t++) {
      g_cases++;
      int n = ri(0, 20); std::vector<double> x(n); for (auto& v : x) v = rd(-5, 5);
      svm_node* p = conv.ConvertObservation(x);
      for (int i = 0; i < n; i++) CHECK(p[i].index == i + 1 && p[i].value == x[i], "node %d of %d", i, n);
      CHECK(p[n].index == -1, "no terminator after %d features", n);
      free(p);
      int rows = ri(1, 4); std::vector<MlObservation> xs(rows, x); for (auto& r : xs) for (auto& v : r) v = rd(-5, 5);
      svm_node** a = conv.ConvertObservations(xs, n);
      for (int k = 0; k < rows; k++) {
        for (int i = 0; i < n; i++) CHECK(a[k][i].index == i + 1 && a[k][i].value == xs[k][i], "row %d node %d", k, i);
        CHECK(a[k][n].index == -1, "no terminator in row %d", k);
        free(a[k]);
      }
      free(a);
    }
  }
  { // a file that cannot be loaded; a model never initialised
    SupportVectorRegressionModel a, b;
    auto s = a.Init(FilePath("/nonexistent/model.txt"));
    CHECK(s.code() == absl::StatusCode::kInvalidArgument, "status %d for an unreadable model", (int)s.code());
    SvrSimilarityToQualityMapper q{FilePath("/nonexistent/model.txt")};
    CHECK(!q.Init().ok(), "the mapper accepted an unreadable model");
  }
  { // training keeps its observations until the model is gone
    std::vector<MlObservation> xs; std::vector<MlTarget> ys;
    for (int i = 0; i < 12; i++) { xs.push_back({rd(0, 1), rd(0, 1), rd(0, 1)}); ys.push_back(1 + 4 * xs.back()[0]); }
    SupportVectorRegressionModel m; m.Init(xs, ys);
    double p = m.Predict(xs[0]); g_cases++;
    CHECK(std::isfinite(p) && p > -5 && p < 10, "prediction of a trained model %g", p);
  }
  { // concurrent loading through separate objects
    g_slow = 1; std::vector<std::thread> th;
    for (int i = 0; i < 6; i++) th.emplace_back([&] { SupportVectorRegressionModel m; (void)m.Init(FilePath(files[0])); });
    for (auto& t : th) t.join();
    g_cases++;
    CHECK(!g_clash, "two threads were inside svm_load_model at once");
  }
}
