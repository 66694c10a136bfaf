#include "common.h"
#include "visqol_api.h"
#include "align_common.h"
#include "misc_audio.h"
#include "analysis_window.h"
#include "commandline_parser.h"
#include "comparison_patches_selector.h"
#include "file_path.h"
#include "gammatone_spectrogram_builder.h"
#include "image_patch_creator.h"
#include "neurogram_similiarity_index_measure.h"
#include "speech_similarity_to_quality_mapper.h"
#include "svr_similarity_to_quality_mapper.h"
#include "tflite_quality_mapper.h"
#include "vad_patch_creator.h"
#include "visqol_manager.h"
#include "visqol.h"
extern std::string g_tfl_path;
static std::string repo() { const char* r = getenv("DV_REPO"); return r ? r : "/repo"; }
static std::string audio_model() { return repo() + "/model/libsvm_nu_svr_model.txt"; }
static std::string speech_model() { return repo() + "/model/lattice_tcditugenmeetpackhref_ls2_nl60_lr12_bs2048_learn.005_ep2400_train1_7_raw.tflite"; }
/** a scratch directory, made the working directory and removed at exit */
struct Scratch {
  std::string d; pid_t owner;
  Scratch() : owner(getpid()) { char t[] = "/tmp/dvrXXXXXX"; d = mkdtemp(t); chdir(d.c_str()); }
  ~Scratch() { if (getpid() == owner && d.rfind("/tmp/dvr", 0) == 0) { chdir("/"); std::filesystem::remove_all(d); } }
};
static inline void write_file(const std::string& p, const std::string& s) { std::ofstream f(p, std::ios::binary); f << s; }
static inline AudioSignal tone(long n, size_t sr, double f0, double noise) {
  M m(n, 1);
  for (long i = 0; i < n; i++) m(i, 0) = (0.3 * sin(2 * M_PI * f0 * i / sr) + .1 * sin(2 * M_PI * 3.1 * f0 * i / sr)) * (.6 + .4 * sin(2 * M_PI * 4 * i / sr)) + noise * rd(-1, 1);
  return AudioSignal{m, sr};
}
static inline AudioSignal no_signal(size_t sr, int k = 0) { return AudioSignal{k ? M(0, 1) : M(), sr}; }
/** stand-in components that record what a comparison hands to them */
struct Recorded { int builds = 0; size_t win = 0; double overlap = 0; std::vector<AudioSignal> heard; int predictions = 0; };
static Recorded g_rec;
struct RecBuilder : SpectrogramBuilder {
  absl::StatusOr<Spectrogram> Build(const AudioSignal& s, const AnalysisWindow& w) override {
    g_rec.builds++; g_rec.win = w.size; g_rec.overlap = w.overlap; g_rec.heard.push_back(s);
    size_t hop = std::max<size_t>(1, w.size * w.overlap), n = s.data_matrix.NumRows(), c = n > w.size ? 1 + (n - w.size) / hop : 0;
    if (!c) return absl::Status(absl::StatusCode::kInternal, "short");
    M m(3, c);
    for (size_t i = 0; i < 3 * c; i++) m(i % 3, i / 3) = std::fabs(s.data_matrix((i / 3 * hop + 7 * (i % 3)) % n, 0)) + .01;
    Spectrogram r(std::move(m)); std::vector<double> f{10, 20, 30}; r.SetCenterFreqBands(f);
    return r;
  }
};
