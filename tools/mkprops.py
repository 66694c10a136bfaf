#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    assert len(title) <= 80, title
    P.append(d)

p("C01", "WAV headers: exactly the supported files are accepted, and described right",
  "A byte stream is accepted as audio exactly when it is a RIFF/WAVE container with a 'fmt ' chunk of at least 16 bytes, 16-bit samples, at least one channel, PCM or extensible format (the latter followed by a 'fact' chunk), and, after skipping any other chunks that lie inside the stream, a 'data' chunk with a non-empty whole number of samples; a 'fmt ' chunk of another size than 16 carries an extension whose length is the 16-bit number after the chunk's 16 bytes, and it is skipped. For an accepted stream the reported channel count, sample rate (as a signed 32-bit number) and total sample count are those of the header (payload bytes / 2). Parsing any byte stream whatever terminates, reads no undefined value and never divides by zero.",
  ["inputs"], "all byte streams of any length and content",
  "wav_reader_test opens a handful of fixture files; malformed, truncated, extensible and multi-chunk headers form an unbounded input space.",
  ["src/wav_reader.cc", "src/include/wav_reader.h"],
  [("header parser with chunk skipping", "WavReader::ParseHeader"), ("short-read detection", "WavReader::ReadBinaryDataFromStream")],
  observe=["IsHeaderValid/GetNumChannels/GetSampleRateHz/GetNumTotalSamples after construction"])
p("C02", "Reading WAV samples returns successive PCM samples of the data chunk only",
  "For an accepted WAV stream, any sequence of read requests returns the samples of the data chunk in order, each exactly once, little-endian signed 16 bit. No request returns more samples than were asked for or than remain in the data chunk, bytes after the data chunk are never delivered as samples, and once the chunk is exhausted every further request returns zero samples.",
  ["inputs", "histories"], "all accepted streams and all sequences of request sizes",
  "The tests read each fixture once, in full; partial reads, trailing chunks and truncated payloads are not sampled.",
  ["src/wav_reader.cc"], [("remaining-sample accounting", "WavReader::ReadSamples")],
  state=[("num_remaining_samples_", "samples of the data chunk not yet delivered", "WavReader")])
p("C03", "Loading audio: mono sample = mean over channels of int16/32768",
  "For a WAV stream with C channels whose payload is complete, the loaded mono signal has one sample per complete frame; sample i is the arithmetic mean over c of (16-bit sample number i*C+c)/32768, and the sample rate is the header's (below 2^31). A mono stream is passed through unmixed, and a stream that cannot be parsed or holds no sample gives an empty signal, never garbage.",
  ["inputs"], "all channel counts, lengths and sample values",
  "misc_audio_test compares a few stereo fixtures; other channel counts, lengths and extreme sample values are unsampled.",
  ["src/misc_audio.cc", "src/misc_math.cc", "src/wav_reader.cc", "src/amatrix.cc"],
  [("de-interleaving", "MiscAudio::ExtractMultiChannel"), ("scaling", "MiscMath::NormalizeInt16ToDouble"), ("down-mix", "MiscAudio::ToMono")])
p("C04", "Batch CSV: each data row becomes one reference/degraded pair, in order",
  "Reading a batch file skips the header line and yields, in file order, exactly one pair per remaining line that has at least two comma-separated fields: the first field is the reference path and the second the degraded path, with a trailing carriage return removed. A line with fewer fields (including a blank line) never makes the program misbehave and never produces a made-up path, and an unreadable file yields no pairs.",
  ["inputs"], "all text files, any number and shape of lines, LF or CRLF",
  "commandline_parser_test uses one well-formed CSV; blank, short and CRLF-only lines are unsampled.",
  ["src/commandline_parser.cc", "src/include/file_path.h"], [("row splitting", "VisqolCommandLineParser::ReadFilesToCompare"), ("source selection", "VisqolCommandLineParser::BuildFilePairPaths")])
p("C05", "Command line: options arrive unaltered, bad files are refused",
  "Parsing succeeds exactly when the batch file exists (if one is given) or else both the reference and the degraded file exist, and the quality model that will be used exists (an explicit model is only checked in audio mode; otherwise the default for the mode under the working directory). On success every option equals the value given on the command line, the reference and degraded paths are empty when a batch file is given, and otherwise an invalid-argument error is returned.",
  ["inputs", "configurations"], "all combinations of flags and of present/absent files",
  "Tests check five command lines; the 2^n flag and file combinations are not covered.",
  ["src/commandline_parser.cc"], [("flag reading and file checks", "VisqolCommandLineParser::Parse")])
p("C06", "API configuration: validation, defaults and hand-over to the engine",
  "Creating a comparison session fails with invalid-argument if audio info is missing, the sample rate is zero, or the rate is not 48 kHz while neither speech mode nor the override is on. Otherwise the engine is initialised with exactly the configured options, with the documented defaults: search radius 60 when unset or zero, and the default model of the selected mode when no model path is given. The outcome is the engine's own status.",
  ["configurations"], "all configuration messages",
  "visqol_api_test cannot even run without TensorFlow here, and samples a few configurations at best.",
  ["src/visqol_api.cc", "src/include/visqol_api.h"], [("configuration checks", "VisqolApi::Create")])
p("C07", "Engine guards: unusable sessions and inputs give an error status, not a score",
  "A comparison on an engine that was never successfully initialised returns 'aborted'; a comparison of signals with different sample rates, or of a pair in which either signal is empty (for example because its file could not be read), returns an error status and neither crashes nor reports a score. Initialising with a model that cannot be loaded returns an error and leaves the engine unusable.",
  ["inputs", "histories"], "all orders of initialise and compare calls, all signal pairs including empty ones",
  "The manager tests cannot be linked in this build and sample single call orders; empty signals are never tried.",
  ["src/visqol_manager.cc", "src/include/visqol_manager.h", "src/misc_audio.cc", "src/support_vector_regression_model.cc"],
  [("initialisation flag", "VisqolManager::Init/ErrorIfNotInitialized"), ("input validation", "VisqolManager::ValidateInputAudio")],
  state=[("is_initialized_", "a mapper was loaded successfully", "VisqolManager")])
p("C08", "Mode selection: 32-band audio or 21-band speech pipeline, options honoured",
  "An initialised engine uses, in audio mode, 30-frame evenly spaced patches, 32 bands from 50 Hz up to half the sample rate and the support-vector mapper (whatever the lattice option says); in speech mode 20-frame voice-activity patches, 21 bands from 50 Hz to 8 kHz and the lattice mapper if requested, otherwise the exponential mapper scaled unless unscaled mapping was requested. Analysis windows are 80 ms (rounded to samples) with 25% hop, and the search radius and the two alignment switches are used as given.",
  ["configurations"], "all combinations of mode and option flags",
  "Mode-specific wiring is only exercised by conformance runs that this build cannot link; most flag combinations are never sampled.",
  ["src/visqol_manager.cc", "src/analysis_window.cc", "src/include/analysis_window.h"], [("component factories", "VisqolManager::Init*"), ("window sizing", "AnalysisWindow::AnalysisWindow")])
p("C09", "MOS-LQO stays in [1,5]; mapping formulas as documented; NSIM below 0.15 gives 1",
  "For any finite similarity data with at least one band the support-vector and exponential mappers return a score in [1,5]. The exponential mapper returns clamp(scale*(a+exp(b*(mean-x0)))) of the mean band similarity, with scale 1 in unscaled mode, and the support-vector mapper clamps the model's prediction for exactly the band-similarity vector. When the mean similarity is below 0.15 the reported score is exactly 1, and otherwise it is the mapper's score.",
  ["inputs"], "all finite feature vectors and model predictions",
  "Tests evaluate the mapping at two or three points; range and threshold must hold for every vector and every model output.",
  ["src/speech_similarity_to_quality_mapper.cc", "src/svr_similarity_to_quality_mapper.cc", "src/misc_math.cc", "src/visqol.cc"],
  [("clamps", "*SimilarityToQualityMapper::PredictQuality"), ("dissimilarity cut-off", "Visqol::AlterForSimilarityExtremes")])
p("C10", "Per-band statistics are the defined mean, low quantile, pooled deviation, energy",
  "Over the matched patches, each band's reported similarity is the mean over patches; its low-quantile value is the mean of the max(1, floor(0.1*n)) smallest patch values; its degraded energy is the mean over patches; and its standard deviation is the pooled deviation sqrt(max(0,(sum (n_i-1)s_i^2 + n_i*m_i^2 - N*m^2)/(N-1))) with n_i = ceil(patch duration / frame duration). No value of another band or patch enters.",
  ["inputs"], "any number of patches and bands and all values",
  "visqol_test checks single hand-made examples; the definitions must hold for every patch count and band count.",
  ["src/visqol.cc"], [("aggregation", "Visqol::CalcPerPatch*")])
p("C11", "NSIM: patch similarity follows the published formula, per pixel and per band",
  "For two patches of equal shape, every pixel of the similarity map is ((2*mr*md+c1)/(mr^2+md^2+c1)) * ((srd+c3)/(sqrt(max(0,sr2*sd2))+c3)), with local moments taken over the 3x3 Gaussian window and c1=(0.01*L)^2, c3=(0.03*L)^2/2 for intensity range L. Band similarity is the row mean of the map, the band deviation is the unbiased standard deviation of that row, the patch similarity is the mean over bands, and degraded energy is the row mean of the degraded patch.",
  ["inputs"], "all patch shapes and contents",
  "The test compares one patch pair with stored numbers; it cannot quantify over shapes and contents.",
  ["src/neurogram_similiarity_index_measure.cc", "src/convolution_2d.cc", "src/amatrix.cc"], [("NSIM formula", "NeurogramSimiliarityIndexMeasure::MeasurePatchSimilarity")])
p("C12", "Smoothing: same-size 2-D convolution with replicated borders",
  "Convolving a non-empty matrix with a 3x3 filter returns a matrix of the same shape whose element (r,c) is the sum over the window of the filter (flipped in both dimensions) times the input, where positions outside the input take the value of the nearest edge element. The input is not modified and no element outside it is read.",
  ["inputs"], "all matrix shapes and contents, all 3x3 filters",
  "convolution_2d_test uses one matrix; non-square shapes, asymmetric filters and corner cases are unsampled.",
  ["src/convolution_2d.cc", "src/include/convolution_2d.h"], [("border padding", "Convolution2D::AddMatrixBoundary"), ("valid convolution", "Convolution2D::Valid2DConvWithBoundary")])
p("C13", "Spectrogram preparation: finite, floored at 0 dB, per-frame range at most 45 dB",
  "Preparing two spectrograms replaces every value by 10*log10 of its magnitude (silence by the machine-epsilon level), raises it to at least -45 dB and, in frames both have, to at least 45 dB below the louder peak of the two; the common minimum of both is then subtracted. Shapes are unchanged, each value depends only on its own frame and that common minimum, and a not-a-number input value ends at the floor.",
  ["inputs"], "all pairs of non-empty spectrograms with the same band count, including different frame counts, zeros and NaN",
  "spectrogram tests check one transformation at a time on a few numbers; the composition over unequal lengths and special values is unsampled.",
  ["src/spectrogram.cc", "src/misc_audio.cc"], [("dB conversion and floors", "Spectrogram::*"), ("composition", "MiscAudio::PrepareSpectrogramsForComparison")])
p("C14", "Spectrogram framing: right frames, Hann window, RMS, independent of history",
  "A spectrogram has one row per band and 1+floor((N-W)/H) frames for N samples, window W and hop H; frame i is the per-band RMS of the band-filtered, Hann-windowed samples i*H..i*H+W-1, filtered from zero state. The result depends only on the signal, window and configuration, never on earlier frames or earlier calls. A signal of at most W samples, or a rate so low that the hop has no whole sample, is refused with invalid-argument.",
  ["inputs", "histories"], "all signals, sample rates and windows, all earlier uses of the builder",
  "Tests compare sums of one spectrogram; dependence on builder history and boundary lengths is not sampled.",
  ["src/gammatone_spectrogram_builder.cc", "src/analysis_window.cc", "src/gammatone_filterbank.cc"], [("framing loop", "GammatoneSpectrogramBuilder::Build"), ("window", "AnalysisWindow::ApplyHannWindow"), ("state reset", "GammatoneFilterBank::ResetFilterConditions")])
p("C15", "Filter bank: four cascaded second-order sections per band, exact recurrence",
  "Filtering a signal evaluates the direct-form-II-transposed recurrence y[n]=b0*x[n]+z0, z_k=b_{k+1}*x[n]+z_{k+1}-a_{k+1}*y[n] from the given initial state and returns the output with the final state. The filter bank applies four such sections in series to every band with that band's own coefficients (the first divided by the band's gain) and state, and output row b belongs to band b.",
  ["inputs", "histories"], "all signals, coefficients and carried states",
  "gammatone tests compare one impulse-like signal with stored numbers; band mix-ups and state carrying are not covered.",
  ["src/signal_filter.cc", "src/gammatone_filterbank.cc"], [("IIR recurrence", "SignalFilter::Filter"), ("cascade", "GammatoneFilterBank::ApplyFilter"), ("coefficient columns", "GammatoneFilterBank::SetFilterCoefficients")])
p("C16", "Band centre frequencies: ERB-spaced, strictly ordered, within the audible range",
  "For a low frequency below the high frequency, the centre frequencies are finite, strictly decreasing in the order generated, never above the high frequency, and end exactly at the low frequency; consecutive bands are equally spaced on the ERB-rate scale. The coefficients and gain of each band follow Slaney's fourth-order ERB gammatone design for its centre frequency. A requested upper limit above half the sample rate is replaced by half the sample rate.",
  ["inputs"], "all frequency ranges, band counts and sample rates",
  "The repository has no test of the band design at all; orderings, gains and caps must hold for every range, band count and rate.",
  ["src/equivalent_rectangular_bandwidth.cc"], [("spacing formula", "EquivalentRectangularBandwidth::CalcUniformCenterFreqs"), ("Nyquist cap", "EquivalentRectangularBandwidth::MakeFilters")])
p("C17", "Reference patches: evenly spaced, inside the spectrogram, exact copies",
  "For patches of P frames, the reference patches start at P/2-1 and follow each other every P frames as long as at least two frames remain behind the patch; the first one is always there when the spectrogram has at least P+P/2 frames, and a shorter spectrogram is refused with invalid-argument. Every patch lies wholly inside the spectrogram and its content is an exact copy of those frames.",
  ["inputs"], "all spectrogram lengths and patch sizes",
  "The patch tests use a couple of fixed sizes; off-by-one errors at exact multiples are easy to miss.",
  ["src/image_patch_creator.cc"], [("index generation", "ImagePatchCreator::CreateRefPatchIndices"), ("extraction", "ImagePatchCreator::CreatePatchesFromIndices")])
p("C18", "Voice activity: frame decision rule and run-of-silence rule",
  "A frame is loud when the RMS of its 16-bit samples is at least 5000. The voice decision of frame i is 'silent' exactly when i>=2 and frames i, i-1 and i-2 are all not loud, and 'voiced' otherwise; there is one decision per frame (the first two always voiced), and asking for the decisions twice gives the same answer.",
  ["inputs", "histories"], "all frame sequences",
  "rms_vad_test feeds one file; rule boundaries and repeated queries are unsampled.",
  ["src/rms_vad.cc"], [("thresholding", "RmsVad::ProcessChunk"), ("run rule", "RmsVad::GetVadResults")], state=[("each_chunk_result_", "loudness of each frame so far", "RmsVad")])
p("C19", "Speech patches: exactly the patches with a voiced frame, all inside the signal",
  "In speech mode the candidate patches of P frames start at P/2-1 and follow each other every P frames while they fit the spectrogram; a candidate is used exactly when the voice-activity decision is 'voiced' for at least one of its P hop-long chunks of the reference signal (candidate i has chunks i*P to i*P+P-1, counted from sample P/2-1), the signal being normalised by its maximum, scaled by 32768 and clipped to 16 bit. A spectrogram too short for a patch gives no patches, and no sample outside the signal is read.",
  ["inputs"], "all signals, rates and spectrogram lengths",
  "vad_patch_creator_test uses one recording; clipping, short signals and odd sizes are unsampled.",
  ["src/vad_patch_creator.cc", "src/rms_vad.cc", "src/misc_math.cc"], [("index selection", "VadPatchCreator::CreateRefPatchIndices"), ("quantisation to 16 bit", "VadPatchCreator::GetVoiceActivity")])
p("C20", "Patch matching: ordered, in-window matches, right times, dropped patches zeroed",
  "Every reference patch that is scored is matched to a degraded patch whose start lies within the search radius of its own start and inside the degraded spectrogram, and successive matched patches have strictly increasing starts; its times are its start frame times the frame duration, plus the patch duration. A reference patch without a match is reported with similarity 0, zero band similarities and zero degraded times. If no reference patch can be scored the result is a 'cancelled' status, never a crash.",
  ["inputs"], "all patch counts, radii, spectrogram lengths and similarity measures",
  "comparison_patches_selector_test uses a handful of toy spectrograms; the DP invariants must hold for all tables.",
  ["src/comparison_patches_selector.cc"], [("dynamic programme", "ComparisonPatchesSelector::FindMostOptimalDegPatch"), ("backtrace", "ComparisonPatchesSelector::FindMostOptimalDegPatches"), ("patch count", "ComparisonPatchesSelector::CalcMaxNumPatches")])
p("C21", "Patch matching maximises the cumulative similarity",
  "Each entry of the matching table is the similarity of the reference patch with the degraded patch at that offset plus the best earlier entry of the previous patch's window, or the previous patch's entry at the same offset if that is larger (a dropped patch). The chosen final offset has the largest entry of the last row within the window and the lowest offset among ties.",
  ["inputs"], "all similarity values, offsets and window sizes",
  "Tests compare final matches on toy data; optimality over all tables cannot be sampled.",
  ["src/comparison_patches_selector.cc"], [("recurrence", "ComparisonPatchesSelector::FindMostOptimalDegPatch")])
p("C22", "Degraded patches: exact copy inside the spectrogram, silence outside",
  "The degraded patch for frames first..last has one row per band and last-first+1 columns; column j equals the spectrogram's frame first+j when that frame exists and is zero otherwise, for negative starts as well as for ends beyond the spectrogram.",
  ["inputs"], "all spectrogram sizes and frame ranges that overlap the spectrogram",
  "Tests check one in-range and one out-of-range example.",
  ["src/comparison_patches_selector.cc"], [("zero padding", "ComparisonPatchesSelector::BuildDegradedPatch")])
p("C23", "Time slicing: the samples of the interval, zeros where the signal has none",
  "Slicing a signal between two times returns the samples from the start time up to (not including) the end time at the signal's own rate. If the start is negative that much silence is put in front, if the end is past the end of the signal the result is filled up with silence of that length, and every sample of the signal inside the interval appears exactly once and in order.",
  ["inputs"], "all signals, rates and intervals that overlap the signal",
  "The only test slices an in-range second.",
  ["src/comparison_patches_selector.cc"], [("slice and pad", "ComparisonPatchesSelector::Slice")])
p("C24", "Fine realignment never lowers a patch score and keeps times consistent",
  "After fine realignment there is one result per patch, in order; each result's similarity is the larger of the coarse one and the re-measured one, and unmatched patches are passed through unchanged. A replaced result's start is moved by the measured lag (reference when the degraded is late, degraded when it is early) and its ends are start plus the duration of the realigned audio; if any re-analysis fails, the error is returned.",
  ["inputs"], "all patch lists, lags and similarities",
  "The test realigns one file pair; the never-worse guarantee and the error path are not sampled.",
  ["src/comparison_patches_selector.cc"], [("take-the-better rule", "ComparisonPatchesSelector::FinelyAlignAndRecreatePatches")])
p("C25", "Global alignment: shift by the detected lag, only when it is at most half",
  "With detected lag L samples (positive: degraded starts too early), the aligned degraded signal is the original with L zero samples in front, or with its first -L samples removed; if L is zero or larger in magnitude than half the reference length it is returned unchanged with lag 0. The reported lag is L divided by the sample rate, and the sample rate is preserved.",
  ["inputs"], "all signal pairs and lags",
  "alignment_test cannot be built here and samples two lags.",
  ["src/alignment.cc"], [("shift", "Alignment::GloballyAlign")])
p("C26", "Align-and-truncate returns two signals of equal length, starts aligned",
  "Aligning and truncating a pair returns a reference and a degraded signal of the same, non-zero length. Sample i of both results comes from the same aligned instant, only samples of the inputs appear, and zero padding introduced by the alignment is cut off whenever the padded degraded signal is longer than the reference.",
  ["inputs"], "all signal pairs, rates and lags within half the reference",
  "The test aligns one pair of equal length; rounding of lag*rate and unequal lengths are unsampled.",
  ["src/alignment.cc"], [("truncation", "Alignment::AlignAndTruncate")])
p("C27", "Lag search: the earliest lag with the largest cross-correlation",
  "The detected lag is the one, among all lags whose magnitude is below the longer signal's length, with the largest circular cross-correlation value of the two zero-padded signals, the most negative one among ties; the transform is long enough that no lag wraps around.",
  ["inputs"], "all pairs of non-empty signals",
  "xcorr_test cannot be built here and checks one pair.",
  ["src/xcorr.cc"], [("lag window and arg-max", "XCorr::FindLowestLagIndex"), ("padding and transform size", "XCorr::InverseFFTPointwiseProduct")])
p("C28", "Fourier wrapper: full conjugate-symmetric spectrum, exact packing round trip",
  "The forward transform of n real samples, zero-padded to the smallest power of two that is at least n and at least 32, is delivered as a full spectrum whose bins above Nyquist mirror those below conjugated; the inverse uses exactly the bins up to Nyquist, scales by one over the transform size and returns n samples. The power-of-two rounding is right for every size from 1 to 2^31.",
  ["inputs"], "all sample counts and contents, given a correct FFT kernel",
  "fast_fourier_transform_test cannot be built here and checks one size.",
  ["src/fast_fourier_transform.cc", "src/fft_manager.cc", "src/include/fft_manager.h", "src/include/audio_channel.h", "src/misc_math.cc"], [("bin packing", "FastFourierTransform::Forward1d/Inverse1d"), ("padding", "FftManager::*"), ("size", "MiscMath::NextPowTwo")])
p("C29", "Signal envelope: analytic-signal magnitude around the mean",
  "The upper envelope of a signal has the signal's length and equals mean + |inverse transform of (spectrum of the mean-removed signal times the analytic scaling)|, where the scaling keeps the 0 Hz bin, doubles the bins below the middle and zeroes the rest as defined for the signal's parity.",
  ["inputs"], "all non-empty signals",
  "envelope_test needs the FFT library and checks one signal.",
  ["src/envelope.cc", "src/misc_vector.cc"], [("envelope", "Envelope::CalcUpperEnv"), ("scaling vector", "Envelope::Hilbert")])
p("C30", "Level matching: the degraded signal is scaled to the reference's sound level",
  "Before comparison every degraded sample is multiplied by one common factor 10^((Lref-Ldeg)/20), where L is 20*log10(RMS/20e-6) over all samples of the signal, so that non-silent signals end up with equal RMS. Length and sample rate are unchanged and the reference is not modified.",
  ["inputs"], "all non-silent signal pairs",
  "misc_audio_test checks one pair of files.",
  ["src/misc_audio.cc"], [("gain", "MiscAudio::ScaleToMatchSoundPressureLevel"), ("level", "MiscAudio::CalcSoundPressureLevel")])
p("C31", "One comparison: stages run in order on the right data and errors are passed on",
  "A comparison scales the degraded signal, builds both spectrograms, prepares them, cuts reference patches from the prepared reference, matches them in the prepared degraded spectrogram, realigns unless disabled, and derives every reported vector from those final matches; similarity is the mean of the band similarities and the mapper receives means, quantiles, deviations and energies in that order. The first stage that fails determines the returned status.",
  ["inputs", "configurations"], "all signals, component outcomes and option settings",
  "Conformance runs exercise a few files with all stages succeeding; error propagation and stage wiring are not quantified over.",
  ["src/visqol.cc"], [("pipeline", "Visqol::CalculateSimilarity")])
p("C32", "Result message: every computed value is reported once, unaltered, in order",
  "The result message carries the comparison's score, similarity, the four per-band vectors, the centre frequencies and one entry per patch with its similarity, its four times and its band similarities, each equal to the computed value and in the same order; file comparisons also carry both paths, and the lag is the alignment's lag (0 when alignment is disabled).",
  ["inputs"], "all results, any number of bands and patches",
  "Only end-to-end tests, which this build cannot link, look at a few fields.",
  ["src/visqol_manager.cc"], [("message population", "VisqolManager::PopulateSimResultMsg"), ("run", "VisqolManager::Run")])
p("C33", "CSV results: one header for a new file, one complete row per comparison",
  "Writing a result to a CSV path appends exactly one row: both paths, the score and then the band similarities, quantiles, deviations and energies, each preceded by a comma; a header row with one name per column in the same order is written first exactly when the file did not exist. Earlier content is never altered.",
  ["inputs", "histories"], "all results, with and without an existing file",
  "No test covers the writer.",
  ["src/include/sim_results_writer.h"], [("CSV writer", "SimilarityResultsWriter::WriteResultsToCSV")])
p("C34", "Support-vector bridge: complete sparse vectors, safe load and clean-up",
  "Every observation handed to the support-vector library is the list of its features in order, numbered from 1 and terminated by index -1, in memory of sufficient size that is released after prediction. Loading a model is serialised across engines, reports an error when the library cannot load the file, and a model object that was never initialised is destroyed without touching undefined memory.",
  ["inputs", "histories"], "all feature counts and values, all life cycles of a model object",
  "Tests train one tiny model; object life cycles and terminators for other sizes are unsampled.",
  ["src/support_vector_regression_model.cc", "src/libsvm_target_observation_convertor.cc", "src/include/support_vector_regression_model.h"], [("conversion", "LibSvmTargetObservationConvertor::*"), ("life cycle", "SupportVectorRegressionModel::*")],
  state=[("model_", "the loaded model or null", "SupportVectorRegressionModel")])
p("C35", "Lattice mapper: each feature goes to the input of its own name and band",
  "For every band b the lattice model receives the band's mean, quantile, deviation and energy in the inputs named fvnsim<b>, fvnsim10_<b>, fstdnsim<b> and fvdegenergy<b>, and 0.5 in the input named tau, before it is evaluated once; the returned score is its output named predictions. A model file that cannot be loaded gives an invalid-argument status.",
  ["inputs"], "all feature vectors and band counts",
  "The test needs TensorFlow and evaluates one vector.",
  ["src/tflite_quality_mapper.cc"], [("feature naming", "TFLiteQualityMapper::PredictQuality"), ("loading", "TFLiteQualityMapper::Init")])
p("C36", "Matrix container: arithmetic, slicing, joining and comparison are element-exact",
  "Matrix operations have their mathematical meaning element by element: +,-,*,/ and pointwise product/quotient, inclusive row/column ranges, row and column replacement touching nothing else, vertical joining, flipping, filling, row means and unbiased row deviations, column-major element numbering. Two matrices are equal exactly when they have the same number of rows, the same number of columns and equal elements.",
  ["inputs"], "all shapes and contents for which the operation is defined",
  "amatrix_test samples small fixed matrices; e.g. equality of matrices with different column counts is never tried.",
  ["src/amatrix.cc", "src/include/amatrix.h"], [("operations", "AMatrix<T>::*")])
p("C37", "Same inputs give the same result whatever ran before",
  "Comparing a pair of signals twice on one engine, or on a fresh engine with the same configuration, or after comparing any other pairs, gives identical results; a comparison changes nothing in the engine that a later comparison can observe.",
  ["histories"], "all sequences of comparisons on one engine",
  "A test can only try particular sequences; multithreading_test is not linked here.",
  ["src/gammatone_spectrogram_builder.cc", "src/gammatone_filterbank.cc", "src/visqol_manager.cc"], [("state reset before use", "GammatoneSpectrogramBuilder::Build"), ("const components", "VisqolManager::Run")])
p("C38", "Concurrent engines do not influence each other's results",
  "Comparisons that run at the same time on separate engines in different threads produce the results they would produce alone.",
  ["schedules"], "all interleavings of comparisons on separate engine objects",
  "A threaded test samples a few schedules.",
  ["src/support_vector_regression_model.cc", "src/visqol_manager.cc"], [("model loading mutex", "SupportVectorRegressionModel::Init")])
p("C39", "Published conformance scores are reproduced",
  "With the shipped models, the comparison of the published reference/degraded recordings gives the published scores for the conformance version, within tolerance.",
  ["inputs"], "the published conformance recordings",
  "The conformance tests need TensorFlow Lite and the PFFFT library, which this build lacks.",
  ["src/include/conformance.h", "tests/conformance_test.cc"], [("whole pipeline", "src/")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P), "properties")
