From 6654a4a8cbd70f00a4e3a01f0cf3bdcb90bf3f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:51 +0000
Subject: [PATCH 01/23] fix: RmsVad::GetVadResults gives one decision per frame
 on every call

---
 src/rms_vad.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/rms_vad.cc b/src/rms_vad.cc
index a662815..a9da2f9 100644
--- a/src/rms_vad.cc
+++ b/src/rms_vad.cc
@@ -14,6 +14,7 @@
 
 #include "rms_vad.h"
 
+#include <algorithm>
 #include <cmath>
 #include <cstdint>
 #include <vector>
@@ -44,6 +45,11 @@ double RmsVad::ProcessChunk(const std::vector<int16_t>& chunk) {
 }
 
 std::vector<double> RmsVad::GetVadResults() {
+  // One result per chunk; the first ones are always set. Drop the results of
+  // any earlier call.
+  vad_results_.resize(
+      std::min(kSilentChunkCount - 1, each_chunk_result_.size()),
+      kVoiceActivityPresent);
   for (std::size_t i = kSilentChunkCount - 1; i < each_chunk_result_.size();
        i++) {
     // If this chunk is below the RMS threshold and the previous
-- 
2.43.0


From eaecd7e8343d98e5d252ee08df6f9d32b86ad68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:20 +0000
Subject: [PATCH 02/23] fix: AMatrix built from a temporary vector owns its
 elements

---
 src/amatrix.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/amatrix.cc b/src/amatrix.cc
index 5697821..6741a27 100644
--- a/src/amatrix.cc
+++ b/src/amatrix.cc
@@ -62,7 +62,7 @@ inline AMatrix<T>::AMatrix(const std::vector<std::vector<T>>& vecOfCols) {
 
 template <typename T>
 inline AMatrix<T>::AMatrix(size_t rows, size_t cols, std::vector<T>&& data) {
-  matrix_ = arma::Mat<T>(&data[0], (arma::uword)rows, (arma::uword)cols, false);
+  matrix_ = arma::Mat<T>(&data[0], (arma::uword)rows, (arma::uword)cols);
 }
 
 template <typename T>
-- 
2.43.0


From 54dc16ffa4bd104f9231dbb022d99d2a30ef405b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:20 +0000
Subject: [PATCH 03/23] fix: AMatrix::operator== compares the number of columns

---
 src/amatrix.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/amatrix.cc b/src/amatrix.cc
index 6741a27..8754efc 100644
--- a/src/amatrix.cc
+++ b/src/amatrix.cc
@@ -125,7 +125,7 @@ inline AMatrix<T>& AMatrix<T>::operator=(const AMatrix<T>& other) {
 template <typename T>
 inline bool AMatrix<T>::operator==(const AMatrix<T>& other) const {
   if (matrix_.n_rows != other.matrix_.n_rows) return false;
-  if (matrix_.n_cols != other.matrix_.n_cols) return true;
+  if (matrix_.n_cols != other.matrix_.n_cols) return false;
   return std::equal(matrix_.cbegin(), matrix_.cend(), other.matrix_.cbegin());
   // Why doesn't == work when documentation says it does? matrix_ ==
   // other.matrix_;
-- 
2.43.0


From 1ce623e40ada9cc73617bbad710d55cc9c206d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:43 +0000
Subject: [PATCH 04/23] fix: refuse sample rates too low for a spectrogram hop
 instead of dividing by zero

---
 src/gammatone_spectrogram_builder.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/gammatone_spectrogram_builder.cc b/src/gammatone_spectrogram_builder.cc
index 6314f8e..6ffb2e5 100644
--- a/src/gammatone_spectrogram_builder.cc
+++ b/src/gammatone_spectrogram_builder.cc
@@ -54,6 +54,10 @@ absl::StatusOr<Spectrogram> GammatoneSpectrogramBuilder::Build(
 
   // Set up the windowing.
   size_t hop_size = window.size * window.overlap;
+  if (hop_size == 0) {
+    return absl::InvalidArgumentError(absl::StrCat(
+        "Sample rate ", sample_rate, " is too low to build a spectrogram."));
+  }
 
   // Ensure that the signal is large enough.
   if (sig.NumRows() <= window.size) {
-- 
2.43.0


From 850fc11730063720d85fff12d5a5dc35263bb52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:26 +0000
Subject: [PATCH 05/23] fix: Slice keeps the last sample and appends the
 silence after the signal

---
 src/comparison_patches_selector.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/comparison_patches_selector.cc b/src/comparison_patches_selector.cc
index 5b5e5f0..a0929f6 100644
--- a/src/comparison_patches_selector.cc
+++ b/src/comparison_patches_selector.cc
@@ -274,8 +274,8 @@ AudioSignal ComparisonPatchesSelector::Slice(const AudioSignal& in_signal,
                                              double start_time,
                                              double end_time) {
   int start_index = std::max(0, (int)(start_time * in_signal.sample_rate));
-  // The end_index is inclusive for GetRows().
-  int end_index = std::min((int)(in_signal.data_matrix.NumRows() - 1),
+  // The end_index is one past the last sample of the slice.
+  int end_index = std::min((int)in_signal.data_matrix.NumRows(),
                            (int)(end_time * in_signal.sample_rate));
 
   // Note that the underlying armadillo rows() uses an unconventional inclusive
@@ -287,7 +287,7 @@ AudioSignal ComparisonPatchesSelector::Slice(const AudioSignal& in_signal,
       end_time * in_signal.sample_rate - in_signal.data_matrix.NumRows();
   if (end_time_diff > 0) {
     auto postsilence_matrix = AMatrix<double>::Filled(end_time_diff, 1, 0.0);
-    sliced_matrix = postsilence_matrix.JoinVertically(sliced_matrix);
+    sliced_matrix = sliced_matrix.JoinVertically(postsilence_matrix);
   }
   if (start_time < 0) {
     auto presilence_matrix = AMatrix<double>::Filled(
-- 
2.43.0


From b55d52a80773a981a848914ebf1ce7d4b28ad919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:39 +0000
Subject: [PATCH 06/23] fix: CalcMaxNumPatches stops when every reference patch
 has been dropped

---
 src/comparison_patches_selector.cc | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/comparison_patches_selector.cc b/src/comparison_patches_selector.cc
index a0929f6..66d5069 100644
--- a/src/comparison_patches_selector.cc
+++ b/src/comparison_patches_selector.cc
@@ -119,13 +119,11 @@ size_t ComparisonPatchesSelector::CalcMaxNumPatches(
     size_t num_frames_in_deg_spectro, size_t num_frames_per_patch) const {
   size_t num_patches = ref_patch_indices.size();
 
-  if (num_patches) {
-    // The last patch can start up to half a patch away.
-    while (ref_patch_indices[num_patches - 1] -
-               floor(num_frames_per_patch / 2) >
-           num_frames_in_deg_spectro) {
-      num_patches--;
-    }
+  // The last patch can start up to half a patch away.
+  while (num_patches && ref_patch_indices[num_patches - 1] -
+                                floor(num_frames_per_patch / 2) >
+                            num_frames_in_deg_spectro) {
+    num_patches--;
   }
 
   return num_patches;
-- 
2.43.0


From 242fd756d8443207b0d81a11128f67ff7fc7b09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:52 +0000
Subject: [PATCH 07/23] fix: patch matching reports 'cancelled' instead of
 reading past empty patch lists or windows

---
 src/comparison_patches_selector.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/comparison_patches_selector.cc b/src/comparison_patches_selector.cc
index 66d5069..95248d2 100644
--- a/src/comparison_patches_selector.cc
+++ b/src/comparison_patches_selector.cc
@@ -135,12 +135,20 @@ ComparisonPatchesSelector::FindMostOptimalDegPatches(
     const std::vector<size_t>& ref_patch_indices,
     const AMatrix<double>& spectrogram_data, const double frame_duration,
     const int search_window_radius) const {
-  const size_t num_frames_per_patch = ref_patches[0].NumCols();
+  const size_t num_frames_per_patch =
+      ref_patches.empty() ? 0 : ref_patches[0].NumCols();
   const size_t num_frames_in_deg_spectro = spectrogram_data.NumCols();
   const double patch_duration = frame_duration * num_frames_per_patch;
   const int search_window = search_window_radius * num_frames_per_patch;
-  const size_t num_patches = CalcMaxNumPatches(
+  size_t num_patches = CalcMaxNumPatches(
       ref_patch_indices, num_frames_in_deg_spectro, num_frames_per_patch);
+  // A patch whose whole search window lies past the end of the degraded
+  // spectrogram cannot be scored either.
+  while (num_patches &&
+         static_cast<int>(ref_patch_indices[num_patches - 1]) - search_window >=
+             static_cast<int>(num_frames_in_deg_spectro)) {
+    num_patches--;
+  }
 
   if (!num_patches) {
     return absl::Status(
-- 
2.43.0


From 4ac98f389fab7d51c9199bb5f6104813dc2bad8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:52 +0000
Subject: [PATCH 08/23] fix: offsets outside the search window never win the
 patch matching

---
 src/comparison_patches_selector.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/comparison_patches_selector.cc b/src/comparison_patches_selector.cc
index 95248d2..15735de 100644
--- a/src/comparison_patches_selector.cc
+++ b/src/comparison_patches_selector.cc
@@ -167,7 +167,8 @@ ComparisonPatchesSelector::FindMostOptimalDegPatches(
   std::vector<PatchSimilarityResult> bestDegPatches(num_patches);
   std::vector<std::vector<double>> cumulative_similarity_dp(
       ref_patch_indices.size(),
-      std::vector<double>(spectrogram_data.NumCols()));
+      std::vector<double>(spectrogram_data.NumCols(),
+                          std::numeric_limits<double>::lowest()));
   std::vector<std::vector<int>> backtrace(
       ref_patch_indices.size(), std::vector<int>(spectrogram_data.NumCols()));
   std::vector<ImagePatch> deg_patches(spectrogram_data.NumCols());
-- 
2.43.0


From 8719d6969fd6814f22cf83f9fe48c646f14b95cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:00 +0000
Subject: [PATCH 09/23] fix: AlignAndTruncate cuts off the whole padding and
 accepts a negative lag with a longer degraded signal

---
 src/alignment.cc | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/alignment.cc b/src/alignment.cc
index 388d236..dd299aa 100644
--- a/src/alignment.cc
+++ b/src/alignment.cc
@@ -14,6 +14,7 @@
 
 #include "alignment.h"
 
+#include <cmath>
 #include <memory>
 #include <utility>
 
@@ -43,14 +44,16 @@ std::tuple<AudioSignal, AudioSignal, double> Alignment::AlignAndTruncate(
         reference_matrix.GetRows(0, degraded_matrix.NumRows() - 1);
   } else if (reference_matrix.NumRows() < degraded_matrix.NumRows()) {
     // For positive lag, the beginning of ref is now aligned with zeros, so
-    // that amount should be truncated.
-    new_reference_matrix = reference_matrix.GetRows(
-        static_cast<int>(lag * reference_signal.sample_rate),
-        reference_matrix.NumRows() - 1);
+    // that amount should be truncated. A negative lag has padded nothing.
+    const int num_padded =
+        lag > 0.0
+            ? static_cast<int>(std::round(lag * degraded_signal.sample_rate))
+            : 0;
+    new_reference_matrix =
+        reference_matrix.GetRows(num_padded, reference_matrix.NumRows() - 1);
     // Truncate the zeros off the deg matrix as well.
-    new_degraded_matrix = degraded_matrix.GetRows(
-        static_cast<int>(lag * degraded_signal.sample_rate),
-        reference_matrix.NumRows() - 1);
+    new_degraded_matrix =
+        degraded_matrix.GetRows(num_padded, reference_matrix.NumRows() - 1);
   }
 
   AudioSignal new_degraded_signal{new_degraded_matrix,
-- 
2.43.0


From 1f47eabf9e28ae1e9be9f98a164a0af2d6278d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:00 +0000
Subject: [PATCH 10/23] fix: GloballyAlign leaves the degraded signal alone
 when the lag would remove all of it

---
 src/alignment.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/alignment.cc b/src/alignment.cc
index dd299aa..a7f1bfa 100644
--- a/src/alignment.cc
+++ b/src/alignment.cc
@@ -73,10 +73,11 @@ std::tuple<AudioSignal, double> Alignment::GloballyAlign(
   int64_t best_lag =
       XCorr::FindLowestLagIndex(reference_upper_env, degraded_upper_env);
 
-  // Limit the lag to half a patch.
+  // Limit the lag to half a patch. A shift may not remove the whole signal.
   if (best_lag == 0 ||
       std::abs(best_lag) >
-          static_cast<double>(reference_matrix.NumRows()) / 2.0) {
+          static_cast<double>(reference_matrix.NumRows()) / 2.0 ||
+      -best_lag >= static_cast<int64_t>(degraded_matrix.NumRows())) {
     return std::make_tuple(degraded_signal, 0);
   } else {
     // align degraded matrix
-- 
2.43.0


From 743d82aeda284805dea9efe86b7b0e5afa2f59d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:08 +0000
Subject: [PATCH 11/23] fix: cross-correlation of short signals finds negative
 lags

---
 src/xcorr.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/xcorr.cc b/src/xcorr.cc
index f6745cd..38a1a28 100644
--- a/src/xcorr.cc
+++ b/src/xcorr.cc
@@ -73,7 +73,10 @@ std::vector<double> XCorr::InverseFFTPointwiseProduct(
   // Calculate how many points in FFT (next ^2 elements)
   int exponent;
   frexp(std::abs((int64_t)signal_1_vec.size() * 2 - 1), &exponent);
-  const size_t fft_points = pow(2, exponent);
+  // and at least the smallest transform of the FFT library, so that negative
+  // lags are found at the end of the inverse transform.
+  const size_t fft_points = std::max<size_t>(pow(2, exponent),
+                                             FftManager::kMinFftSize);
 
   // Calculate the pointwise product of the forward fft of both signals.
   auto fft_manager = std::make_unique<FftManager>(fft_points);
-- 
2.43.0


From a0fa43ba6ecb761fd7f2cad607f61d6b7805ee14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:38 +0000
Subject: [PATCH 12/23] fix: voice activity frames are whole samples, like the
 spectrogram hop

With a fractional hop (e.g. 220.5 samples at 11025 Hz) the range handed to
the voice activity detector grew faster than the spectrogram and left long
signals (GetRows threw).
---
 src/vad_patch_creator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vad_patch_creator.cc b/src/vad_patch_creator.cc
index 2f8ba5f..9c98616 100644
--- a/src/vad_patch_creator.cc
+++ b/src/vad_patch_creator.cc
@@ -59,7 +59,7 @@ absl::StatusOr<std::vector<size_t>> VadPatchCreator::CreateRefPatchIndices(
     const AnalysisWindow& window) const {
   const auto norm_mat = MiscMath::Normalize(ref_signal.data_matrix);
   const AudioSignal norm_sig{norm_mat, ref_signal.sample_rate};
-  const double frame_size = window.size * window.overlap;
+  const size_t frame_size = window.size * window.overlap;
   const size_t patch_sample_len = patch_size_ * frame_size;
   const size_t spectrum_length = spectrogram.NumCols();
   const size_t first_patch_idx = patch_size_ / 2 - 1;
-- 
2.43.0


From 1b66fc210910452d8064012ba12ce5defd3c449a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:38 +0000
Subject: [PATCH 13/23] fix: no voice activity patches for a spectrogram
 shorter than a patch

The patch count underflowed, or an empty sample range was requested, and an
exception escaped.
---
 src/vad_patch_creator.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/vad_patch_creator.cc b/src/vad_patch_creator.cc
index 9c98616..441ae52 100644
--- a/src/vad_patch_creator.cc
+++ b/src/vad_patch_creator.cc
@@ -63,9 +63,15 @@ absl::StatusOr<std::vector<size_t>> VadPatchCreator::CreateRefPatchIndices(
   const size_t patch_sample_len = patch_size_ * frame_size;
   const size_t spectrum_length = spectrogram.NumCols();
   const size_t first_patch_idx = patch_size_ / 2 - 1;
-  const size_t patch_count = (spectrum_length - first_patch_idx) / patch_size_;
+  const size_t patch_count =
+      spectrum_length < first_patch_idx
+          ? 0
+          : (spectrum_length - first_patch_idx) / patch_size_;
   const size_t total_sample_count = patch_count * patch_sample_len;
   std::vector<size_t> refPatchIndices;
+  if (patch_count == 0) {
+    return refPatchIndices;
+  }
   refPatchIndices.reserve(patch_count);
 
   // Pass the reference signal to the VAD to determine which frames have voice
-- 
2.43.0


From ad78f58c9e1e7edb88c5889cbb32247b5530d8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:24 +0000
Subject: [PATCH 14/23] fix: patch matching no longer indexes its tables with
 an unset or negative offset

When no table entry of the previous patch is admissible (similarities that
are not numbers), the back-pointer stayed -1 and last_offset uninitialised,
and both were then used as indices. Such a patch now counts as not matched.
---
 src/comparison_patches_selector.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/comparison_patches_selector.cc b/src/comparison_patches_selector.cc
index 15735de..f59597a 100644
--- a/src/comparison_patches_selector.cc
+++ b/src/comparison_patches_selector.cc
@@ -70,7 +70,8 @@ void ComparisonPatchesSelector::FindMostOptimalDegPatch(
     deg_patch = deg_patches[slide_offset];
     sim_result = sim_comparator_->MeasurePatchSimilarity(ref_patch, deg_patch);
 
-    int past_slide_offset = -1;
+    // A patch without any admissible earlier match counts as not matched.
+    int past_slide_offset = patch_index > 0 ? slide_offset : -1;
     double highest_sim = std::numeric_limits<double>::lowest();
     // There's no need to backtrace for the first patch index.
     if (patch_index > 0) {
@@ -192,9 +193,9 @@ ComparisonPatchesSelector::FindMostOptimalDegPatches(
   int last_index = num_patches - 1;
   // The last_offset stores the offset at which the last reference patch got the
   // maximal similarity score over all the reference patches.
-  int last_offset;
   int lower_limit = std::max(
       0, static_cast<int>(ref_patch_indices[last_index] - search_window));
+  int last_offset = lower_limit;
   // The for loop is used to find the offset which maximizes the similarity
   // score across all the patches.
   for (int slide_offset = lower_limit;
-- 
2.43.0


From c5278e6d30f087ada296c2b991dcaf3af4839f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:34 +0000
Subject: [PATCH 15/23] fix: an engine whose re-initialisation failed is no
 longer usable

---
 src/visqol_manager.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/visqol_manager.cc b/src/visqol_manager.cc
index 08627b1..71c41f5 100644
--- a/src/visqol_manager.cc
+++ b/src/visqol_manager.cc
@@ -66,9 +66,8 @@ absl::Status VisqolManager::Init(
   auto status =
       InitSimilarityToQualityMapper(similarity_to_quality_mapper_model);
 
-  if (status.ok()) {
-    is_initialized_ = true;
-  } else {
+  is_initialized_ = status.ok();
+  if (!is_initialized_) {
     ABSL_RAW_LOG(ERROR, "%s", status.ToString().c_str());
   }
 
-- 
2.43.0


From 98b393caa15b468a568730a18de798dcbfaeedd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:12 +0000
Subject: [PATCH 16/23] fix: comparing an empty signal (unreadable file) is
 refused instead of crashing

---
 src/include/audio_signal.h | 2 +-
 src/visqol_manager.cc      | 7 +++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/include/audio_signal.h b/src/include/audio_signal.h
index aafec49..a3c86d1 100644
--- a/src/include/audio_signal.h
+++ b/src/include/audio_signal.h
@@ -34,7 +34,7 @@ struct AudioSignal {
   /**
    * The sample rate of the audio signal.
    */
-  size_t sample_rate;
+  size_t sample_rate = 0;
 
   /**
    * Get the duration (in seconds) of the signal.
diff --git a/src/visqol_manager.cc b/src/visqol_manager.cc
index 71c41f5..0dee88f 100644
--- a/src/visqol_manager.cc
+++ b/src/visqol_manager.cc
@@ -238,6 +238,13 @@ absl::Status VisqolManager::ErrorIfNotInitialized() {
 
 absl::Status VisqolManager::ValidateInputAudio(const AudioSignal& ref_signal,
                                                const AudioSignal& deg_signal) {
+  // Error if there is nothing to compare, e.g. as a file could not be read.
+  if (ref_signal.data_matrix.NumElements() == 0 ||
+      deg_signal.data_matrix.NumElements() == 0) {
+    return absl::InvalidArgumentError(
+        "Input audio signals must not be empty.");
+  }
+
   // Warn if there is an excessive difference in durations.
   double ref_duration = ref_signal.GetDuration();
   double deg_duration = deg_signal.GetDuration();
-- 
2.43.0


From c057e5cb90d46d3d31800b1b9bbf17fd52788f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:27 +0000
Subject: [PATCH 17/23] fix: a support vector model that was never initialised
 holds no pointer

---
 src/support_vector_regression_model.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/support_vector_regression_model.cc b/src/support_vector_regression_model.cc
index aba8435..b1ae265 100644
--- a/src/support_vector_regression_model.cc
+++ b/src/support_vector_regression_model.cc
@@ -28,7 +28,7 @@ namespace Visqol {
 absl::Mutex SupportVectorRegressionModel::load_model_mutex_{};
 
 SupportVectorRegressionModel::SupportVectorRegressionModel()
-    : observations_ptr_{nullptr}, num_observations_{0} {}
+    : model_{nullptr}, observations_ptr_{nullptr}, num_observations_{0} {}
 
 SupportVectorRegressionModel::~SupportVectorRegressionModel() {
   if (model_) {
-- 
2.43.0


From 992e34a55fd43ebe73677a1eb514f8cb593f4c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:25:34 +0000
Subject: [PATCH 18/23] fix: ReadSamples must not read past the end of the data
 chunk

---
 src/wav_reader.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wav_reader.cc b/src/wav_reader.cc
index 1d1b36c..da9672f 100644
--- a/src/wav_reader.cc
+++ b/src/wav_reader.cc
@@ -239,7 +239,8 @@ size_t WavReader::ReadSamples(size_t num_samples, int16_t* target_buffer) {
     return 0;
   }
   const size_t num_bytes_read =
-      ReadBinaryDataFromStream(target_buffer, num_samples * sizeof(int16_t));
+      ReadBinaryDataFromStream(target_buffer,
+                               num_samples_to_read * sizeof(int16_t));
   const size_t num_samples_read = num_bytes_read / bytes_per_sample_;
 
   num_remaining_samples_ -= num_samples_read;
-- 
2.43.0


From ae536c2ab9d2f07a2913dd626d3e32b623b038f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:25:34 +0000
Subject: [PATCH 19/23] fix: the size of the fmt extension is unsigned

---
 src/wav_reader.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wav_reader.cc b/src/wav_reader.cc
index da9672f..579f1ed 100644
--- a/src/wav_reader.cc
+++ b/src/wav_reader.cc
@@ -121,7 +121,7 @@ bool WavReader::ParseHeader() {
   }
   if (format_size != kFormatSubChunkHeader) {
     // Parse optional extension fields.
-    int16_t extension_size;
+    uint16_t extension_size;
     if (ReadBinaryDataFromStream(&extension_size, sizeof(extension_size)) !=
         sizeof(extension_size)) {
       ABSL_RAW_LOG(ERROR,
-- 
2.43.0


From 59e80073573aa15799cb972b8cd0be6dd03c92cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:25:34 +0000
Subject: [PATCH 20/23] fix: accept 16-bit samples only, not 17 to 23 bits

---
 src/wav_reader.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wav_reader.cc b/src/wav_reader.cc
index 579f1ed..5c3112e 100644
--- a/src/wav_reader.cc
+++ b/src/wav_reader.cc
@@ -173,7 +173,7 @@ bool WavReader::ParseHeader() {
   sample_rate_hz_ = header.format.samples_rate;
 
   bytes_per_sample_ = header.format.bits_per_sample / 8;
-  if (bytes_per_sample_ == 0 || bytes_per_sample_ != sizeof(int16_t)) {
+  if (header.format.bits_per_sample != 8 * sizeof(int16_t)) {
     ABSL_RAW_LOG(ERROR, "Error parsing WAV Header - Expected 16bit samples.");
     return false;
   }
-- 
2.43.0


From 8e99e80a9b9291e73844260e7232f50215987e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:25:34 +0000
Subject: [PATCH 21/23] fix: an incomplete last frame must not abort loading

---
 src/misc_audio.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/misc_audio.cc b/src/misc_audio.cc
index 9fb14a6..9df5413 100644
--- a/src/misc_audio.cc
+++ b/src/misc_audio.cc
@@ -149,7 +149,6 @@ AudioSignal MiscAudio::LoadAsMono(std::stringstream* string_stream,
 
 std::vector<std::vector<double>> MiscAudio::ExtractMultiChannel(
     const int num_channels, const std::vector<double>& interleaved_vector) {
-  assert(interleaved_vector.size() % num_channels == 0);
   const size_t sub_vector_size = interleaved_vector.size() / num_channels;
   std::vector<std::vector<double>> multi_channel_vec(
       num_channels, std::vector<double>(sub_vector_size));
-- 
2.43.0


From b61574ca1c8fe808c578b107eb79d6044ce4fa01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:38 +0000
Subject: [PATCH 22/23] fix: a blank line in a batch file must not read the
 last character of an empty string

---
 src/commandline_parser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/commandline_parser.cc b/src/commandline_parser.cc
index 9daa875..a2966fe 100644
--- a/src/commandline_parser.cc
+++ b/src/commandline_parser.cc
@@ -200,7 +200,7 @@ VisqolCommandLineParser::ReadFilesToCompare(const FilePath& batch_input_path) {
     while (getline(fin, line)) {
       // getline will read up to \n, so in cases where the line ending is \r\n,
       // we need to manually strip the \r.
-      if (line.back() == '\r') {
+      if (!line.empty() && line.back() == '\r') {
         line.pop_back();
       }
       std::istringstream in(line);
-- 
2.43.0


From 0d7192a8a9c72c5bc965e1ae40f5ade294f72e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:38 +0000
Subject: [PATCH 23/23] fix: skip lines of a batch file that do not name two
 files

---
 src/commandline_parser.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/commandline_parser.cc b/src/commandline_parser.cc
index a2966fe..eb437cf 100644
--- a/src/commandline_parser.cc
+++ b/src/commandline_parser.cc
@@ -208,7 +208,9 @@ VisqolCommandLineParser::ReadFilesToCompare(const FilePath& batch_input_path) {
       while (std::getline(in, item, delimiter)) {
         line_file_paths.push_back(FilePath(item));
       }
-      file_paths.push_back({line_file_paths[0], line_file_paths[1]});
+      if (line_file_paths.size() >= 2) {
+        file_paths.push_back({line_file_paths[0], line_file_paths[1]});
+      }
       line_file_paths.clear();
     }
     fin.close();
-- 
2.43.0

