#include "common.h"
#include "amatrix.h"
#include "image_patch_creator.h"
using namespace Visqol;
typedef AMatrix<double> M;
int main() {
  for (int t = 0; t < rounds(6000); t++) {
    g_cases++;
    size_t P = t % 3 == 0 ? 30 : t % 3 == 1 ? 20 : ri(2, 60), B = ri(1, 4), L = ri(0, 3 * P);
    if (t % 5 == 0) L = P + P / 2 + ri(-1, 1);
    if (t % 7 == 0) L = ri(1, 12) * P + P / 2 + ri(-2, 2);
    M s(B, L);
    for (size_t r = 0; r < B; r++) for (size_t c = 0; c < L; c++) s(r, c) = rd(-1, 1);
    ImagePatchCreator ip(P);
    AudioSignal a; AnalysisWindow w(48000, .25, .08);
    for (int k = 0; k < 2; k++) {
      auto res = k ? ip.CreateRefPatchIndices(s, a, w) : ip.CreateRefPatchIndices(s);
      if (L < P + P / 2) { CHECK(!res.ok() && res.status().code() == absl::StatusCode::kInvalidArgument, "%zu frames, patch size %zu: status %d", L, P, (int)res.status().code()); continue; }
      CHECK(res.ok(), "%zu frames, patch size %zu refused", L, P);
      std::vector<size_t> want; size_t h = P / 2;
      want.push_back(h - 1);
      for (size_t i = h + P; i + P < L; i += P) want.push_back(i - 1);
      CHECK(*res == want, "%zu frames, patch size %zu: %zu patches (expected %zu)", L, P, res->size(), want.size());
      for (size_t i : *res) CHECK(i + P <= L, "patch at %zu of %zu frames leaves the spectrogram of %zu", i, P, L);
      if (L - P == 0) continue;
      std::vector<size_t> ix = *res;
      if (k) { ix.clear(); for (int q = ri(0, 5); q > 0; q--) ix.push_back(ri(0, L - P)); }
      auto ps = ip.CreatePatchesFromIndices(s, ix);
      CHECK(ps.size() == ix.size(), "%zu patches for %zu indices", ps.size(), ix.size());
      for (size_t q = 0; q < ix.size(); q++) {
        CHECK(ps[q].NumRows() == B && ps[q].NumCols() == P, "patch of %zux%zu", ps[q].NumRows(), ps[q].NumCols());
        for (size_t r = 0; r < B; r++) for (size_t c = 0; c < P; c++) CHECK(ps[q](r, c) == s(r, ix[q] + c), "patch %zu differs from frame %zu of the spectrogram", q, ix[q] + c);
      }
    }
  }
}
