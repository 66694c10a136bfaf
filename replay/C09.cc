#include "common.h"
#include "svm.h"
#include "amatrix.h"
#include "file_path.h"
#include "visqol.h"
#include "misc_math.h"
#include "speech_similarity_to_quality_mapper.h"
#include "svr_similarity_to_quality_mapper.h"
using namespace Visqol;
typedef std::vector<double> D;
int main() {
  const std::string path = "/repo/model/libsvm_nu_svr_model.txt";
  svm_model* m = svm_load_model(path.c_str());
  SvrSimilarityToQualityMapper S{FilePath(path)};
  CHECK(S.Init().ok(), "the shipped model does not load");
  class Visqol V;
  for (int t = 0; t < rounds(4000); t++) {
    g_cases++;
    int n = ri(1, 40); if (t % 3 == 0) n = 32; if (t % 3 == 1) n = 21;
    int kind = ri(0, 5);
    D a(n), b(n), c(n), d(n);
    for (int i = 0; i < n; i++) { a[i] = kind == 0 ? 1 : kind == 1 ? rd(.9, 1) : kind == 2 ? rd(-50, 50) : kind == 3 ? rd(-1e300, 1e300) / n : rd(0, 1); b[i] = rd(0, 1); c[i] = rd(0, 1); d[i] = rd(0, 100); }
    if (kind == 3 && coin()) for (auto& x : a) x = fabs(x);
    double mean = 0; for (double x : a) mean += x; mean /= n;
    for (int s = 0; s < 2; s++) {
      SpeechSimilarityToQualityMapper M(s);
      if (coin()) CHECK(M.Init().ok(), "Init");
      double q = M.PredictQuality(a, b, c, d);
      double raw = (s ? (double)1.245063f : 1.0) * (-262.847869 + exp(0.0154302525 * (mean - -361.063949)));
      double e = std::min(5., std::max(1., raw));
      if (std::isnan(raw)) continue;
      CHECK(q >= 1 && q <= 5, "exponential mapper (scaled=%d) returns %.17g for mean similarity %.17g", s, q, mean);
      CHECK(close_to(q, e, 1e-7, 1e-7) , "exponential mapper (scaled=%d) returns %.17g for mean similarity %.17g, the formula gives %.17g", s, q, mean, e);
    }
    std::vector<svm_node> nodes;
    for (int i = 0; i < n; i++) nodes.push_back({i + 1, a[i]});
    nodes.push_back({-1, 0});
    double raw = svm_predict(m, nodes.data()), q = S.PredictQuality(a, b, c, d);
    if (!std::isnan(raw)) {
      CHECK(close_to(q, std::min(5., std::max(1., raw)), 1e-9, 1e-12), "support-vector mapper returns %.17g, the model predicts %.17g", q, raw);
      CHECK(q >= 1 && q <= 5, "support-vector score %.17g", q);
    }
    double v = ri(0, 4) == 0 ? .15 : ri(0, 3) == 0 ? .15 + rd(-1e-9, 1e-9) : rd(-.5, 1.2), mos = rd(1, 5);
    double o = V.AlterForSimilarityExtremes(v, mos);
    CHECK(o == (v < .15 ? 1 : mos), "similarity %.17g and mapper score %.17g are reported as %.17g", v, mos, o);
  }
}
