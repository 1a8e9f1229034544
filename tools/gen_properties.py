#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (keeps the JSON valid)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": " ".join(statement.split()),
              "quantifier": {"over": over, "text": " ".join(text.split())},
              "why_tests_cant": " ".join(why.split()),
              "anchors": {"files": files,
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe or [], "hook_needed": None}})

p("C01", "Complex FFT equals the DFT and its inverse undoes it, at every size",
  """For every transform size (power of two, composite or prime) and every complex input, the forward transform
  equals the discrete Fourier transform to floating-point accuracy and the inverse transform, scaled by 1/n, returns
  the original data. Leaving out the imaginary input is the same as supplying zeros, for both directions, and a transform object gives
  the same answer whatever it processed before.""",
  ["inputs", "configurations", "histories"],
  "All sizes >= 1, all finite complex inputs, both directions, any sequence of calls on one object.",
  """The unit tests use fixed vectors of a handful of sizes; the radix-2/3/4/5/generic kernels combine differently at
  every factorisation, so only sampling many sizes against a naive DFT reaches them.""",
  ["dsp/transforms/FFT.cpp", "ext/kissfft/kiss_fft.c"],
  [("complex transform wrapper", "FFT::D::process in dsp/transforms/FFT.cpp"), ("butterflies", "kf_work/kf_bfly* in ext/kissfft/kiss_fft.c")],
  ["FFT::process"])

p("C02", "Real FFT agrees with the complex DFT, with exact conjugate symmetry",
  """For every even size and real input, the real-input forward transform returns all n bins of the discrete Fourier
  transform with the upper half the conjugate mirror of the lower, and the magnitude variant returns their moduli.
  The inverse reads only the first n/2+1 bins (whatever lies beyond them has no effect), is scaled by 1/n and restores
  the signal. Constructing a real transform of odd size raises an invalid-argument exception.""",
  ["inputs", "configurations", "histories"],
  "All even sizes >= 2, all finite real inputs, arbitrary junk beyond bin n/2 for the inverse, any sequence of forward/magnitude/inverse calls on one object; all odd sizes for the rejection.",
  "The tests use sizes 2 to 16 with fixed data; packing/unpacking of half-spectra differs by size and junk in the redundant half is hardly varied.",
  ["dsp/transforms/FFT.cpp", "ext/kissfft/tools/kiss_fftr.c"],
  [("real transform wrapper", "FFTReal::D in dsp/transforms/FFT.cpp"), ("real packing", "kiss_fftr/kiss_fftri in ext/kissfft/tools/kiss_fftr.c")],
  ["FFTReal::forward", "FFTReal::forwardMagnitude", "FFTReal::inverse"])

p("C03", "DCT-II and DCT-III match their definitions and invert each other",
  """For every size n >= 1 the forward cosine transform equals the type-II DCT of the input, twice the plain cosine sum,
  and the inverse transform recovers the input; the unitary forward transform is the orthonormal type-II DCT (it preserves
  energy) and the unitary inverse undoes it. Results depend only on the current input, not on earlier calls of any of the four operations on the same object.""",
  ["inputs", "configurations", "histories"],
  "All n >= 1, all finite inputs, any interleaving of forward, unitary forward, inverse and unitary inverse on one object.",
  "Tests hold a few fixed vectors of sizes up to 5 or so; the internal buffers are shared between operations, so call histories matter.",
  ["dsp/transforms/DCT.cpp"],
  [("4n-point FFT embedding", "DCT::forward/inverse"), ("scaling", "DCT::forwardUnitary/inverseUnitary")],
  ["DCT::forward", "DCT::inverse", "DCT::forwardUnitary", "DCT::inverseUnitary"])

p("C04", "Phase vocoder: magnitudes, phases and unwrapped phases of each frame",
  """For every frame the reported magnitudes and phases are the moduli and arguments of the n/2+1 non-redundant bins of
  the transform of the half-rotated frame, and giving the frame in the frequency domain yields the same three results as giving
  it in the time domain. Each unwrapped phase is congruent modulo 2*pi to the phase and lies within pi of the previous
  unwrapped phase advanced by the hop at the bin's centre frequency. On a new object, and again after every reset, the first frame is
  unwrapped from a zero previous phase, so that a reset object behaves exactly as a new one.""",
  ["inputs", "histories", "configurations"],
  "All even frame sizes, all hops (including hop = size and larger), all frame sequences mixing time-domain, frequency-domain and reset calls.",
  "Tests run two or three frames of a sinusoid with one size and hop; the phase accumulator is stateful and errors surface only for particular sequences.",
  ["dsp/phasevocoder/PhaseVocoder.cpp", "maths/MathUtilities.cpp"],
  [("rotation", "PhaseVocoder::FFTShift"), ("unwrapping", "PhaseVocoder::unwrapPhases"), ("princarg", "MathUtilities::princarg")],
  ["PhaseVocoder::processTimeDomain", "PhaseVocoder::processFrequencyDomain", "PhaseVocoder::reset"])

p("C05", "Window functions have their defined shape and scale samples by it",
  """For every window type and size the window values are those of its definition: the Hamming, Hann, Blackman and
  Blackman-Harris windows are the periodic cosine windows, the triangular window rises linearly from zero to its peak at the middle and falls back,
  and the rectangular window is constant (0.5). Applying a window multiplies sample i by value i, in place or to
  another buffer, for exactly its size, and copied or assigned windows behave as the original with its type and size.""",
  ["inputs", "configurations", "histories"],
  "All six types, all sizes >= 1, float and double, in-place and out-of-place, any chain of copies and assignments between windows of different types and sizes.",
  "Tests compare six types at a couple of fixed sizes; odd/even sizes and assignment chains are not covered.",
  ["base/Window.h"],
  [("table generation", "Window::encache"), ("application", "Window::cut"), ("copy/assign", "Window::operator=")],
  ["Window::cut", "Window::getWindowData"])

p("C06", "Kaiser and sinc windows match their formulas and stated parameters",
  """A Kaiser window of any length and beta equals I0(beta*sqrt(1-t^2))/I0(beta) over its span: symmetric, peaking at
  the middle; the length and beta derived from an attenuation and a transition width or bandwidth are those of Kaiser's design formulas.
  A sinc window of any length and period holds sin(x)/x, with 1 at the documented centre and zeros every half period, and applying either window multiplies each sample
  by its value.""",
  ["inputs", "configurations"],
  "All lengths >= 1, beta from 0 to about 30, all sinc periods > 0, attenuations on both sides of 21 and 50 dB, any bandwidth and rate.",
  "There are no direct tests of either window; they are only exercised with the resampler's few parameter sets.",
  ["base/KaiserWindow.cpp", "base/KaiserWindow.h", "base/SincWindow.cpp", "base/SincWindow.h"],
  [("Bessel series", "KaiserWindow::init"), ("design formulas", "KaiserWindow::parametersForTransitionWidth"), ("sinc", "SincWindow::init")],
  ["KaiserWindow::getWindow", "SincWindow::getWindow", "KaiserWindow::byBandwidth"])

p("C07", "Digital filter output is its difference equation over the whole stream",
  """For every numerator and denominator coefficient set (first denominator coefficient 1) of any order, IIR or FIR, the output of a
  filter equals the direct evaluation of its difference equation over the whole input stream since construction or the last
  reset, starting from zero history. How the stream is cut into process calls has no effect, and a reset makes the filter
  behave as new.""",
  ["inputs", "histories", "configurations"],
  "All orders >= 0 (also above the internal buffer stride), stable and mildly unstable coefficients, any partition of the stream into blocks of any lengths including 0, resets at any point.",
  "Tests filter a few short vectors with order <= 2; the circular history buffers wrap only after specific numbers of samples.",
  ["dsp/signalconditioning/Filter.cpp"],
  [("history buffers and their wrap", "Filter::process"), ("state clearing", "Filter::reset")],
  ["Filter::process", "Filter::reset", "Filter::getOrder"])

p("C08", "Forward-backward filtering matches its reference and is repeatable",
  """For every filter and input longer than three times the filter's coefficient count, forward-backward filtering equals the
  reference procedure: extend the signal at both ends by its reflection about the end points, filter forwards, filter the reverse, and
  keep the original span. The result for a signal, however short, does not depend on what the same object processed before.""",
  ["inputs", "histories", "configurations"],
  "All stable filters of order >= 1, all signals of length > 3*(order+1), any sequence of signals of differing lengths on one object.",
  "Tests apply one or two filters to one short vector each on a fresh object, never twice on one object.",
  ["dsp/signalconditioning/FiltFilt.cpp", "dsp/signalconditioning/Filter.cpp"],
  [("edge reflection", "FiltFilt::process"), ("filter reuse", "FiltFilt::process / Filter::reset")],
  ["FiltFilt::process"])

p("C09", "Decimators lowpass then keep every Nth sample, independent of blocking",
  """For every supported power-of-two factor, a decimator's output is its fixed anti-alias filter applied to the whole stream since construction
  or filter reset, keeping every factor-th sample beginning with the first; splitting the same stream into blocks of a different size,
  single or double precision input, or overlapping input and output buffers does not change it. Low frequencies pass at
  unit gain and frequencies that would alias are strongly attenuated; factor one passes data through unchanged.""",
  ["inputs", "histories", "configurations"],
  "Decimator factors 1, 2, 4, 8 and DecimatorB factors 2 to 64, all block lengths that are a multiple of the factor, all signals, block sequences, float and double entry points, resets at any block boundary.",
  "Neither decimator has any test in the suite.",
  ["dsp/rateconversion/Decimator.cpp", "dsp/rateconversion/DecimatorB.cpp"],
  [("anti-alias recursion and its state", "Decimator::doAntiAlias"), ("cascade", "DecimatorB::doProcess"), ("state clearing", "Decimator::resetFilter")],
  ["Decimator::process", "Decimator::resetFilter", "DecimatorB::process"])

p("C10", "Streaming resampling is independent of how the input is blocked",
  """For every pair of sample rates and every way of cutting a stream into calls, the concatenated output of a resampler
  is one and the same sequence: the output of a blocked stream and of a single call over the same samples are equal as far as both
  reach, and their lengths differ by at most one sample. No call returns more than ceil(n*target/source) samples for n input samples
  (one sample more at most in the running total) and the total never falls behind input*target/source by more than a sample, and the
  one-off resample of n samples returns exactly ceil(n*target/source) of them.""",
  ["inputs", "histories", "configurations"],
  "All positive integer source and target rates (up, down, coprime, equal, extreme ratios), all input lengths including 0 and 1, all partitions of the stream, default and explicit filter parameters.",
  "Tests use a few rate pairs and two or three block sizes; buffer compaction and phase hand-over depend on the exact partition.",
  ["dsp/rateconversion/Resampler.cpp"],
  [("polyphase stepping", "Resampler::reconstructOne"), ("buffer hand-over", "Resampler::process"), ("one-off latency compensation", "Resampler::resample")],
  ["Resampler::process", "Resampler::resample"])

p("C11", "Resampling preserves band-limited signals in level, frequency and time",
  """A sinusoid comfortably below both Nyquist limits resamples to the sinusoid of the same frequency, amplitude and
  (after the reported latency) time alignment, and a constant stays at its level, for every rate pair; content above the target Nyquist is
  attenuated by roughly the configured signal-to-noise ratio. Resampling is linear: its output is the input convolved with the
  Kaiser-windowed sinc of the stated attenuation and bandwidth, sampled at the target rate. The one-off resample is time-aligned with its input.""",
  ["inputs", "configurations"],
  "All rate pairs with moderate ratios, frequencies in the passband or stopband, amplitudes and phases; default and explicit SNR/bandwidth settings.",
  "Tests check a few frequencies at a few rate pairs; filter construction differs for every rate pair and SNR setting.",
  ["dsp/rateconversion/Resampler.cpp", "base/KaiserWindow.cpp", "base/SincWindow.cpp"],
  [("filter design and phase split", "Resampler::initialise"), ("latency", "Resampler::getLatency")],
  ["Resampler::process", "Resampler::resample", "Resampler::getLatency"])

p("C12", "Moving median filter returns the stated percentile of the last n values",
  """At every moment a moving percentile filter of size n holds exactly the last n values pushed (zeros before that, NaN
  counted as zero) and reports the sorted value at index floor(n*p/100), clamped to the ends, for its own percentile or any
  percentile asked for. Percentile changes take effect at once and a reset returns it to all zeros; the whole-vector
  median filter returns as many values as its input, aligned so that each is the median of the window centred on it, zeros beyond the ends.""",
  ["inputs", "histories", "configurations"],
  "All sizes >= 1, percentiles inside and outside 0..100, float/double/int values with duplicates, negatives, infinities and NaNs, any history of push/get/getAt/setPercentile/reset.",
  "Tests push fewer than ten fixed values with sizes 1 to 4; the incremental sorted array can be corrupted only by particular duplicate/negative/drop sequences.",
  ["maths/MedianFilter.h"],
  [("incremental sorted insert/remove", "MedianFilter::put / MedianFilter::drop"), ("whole-vector filter", "MedianFilter::filter")],
  ["MedianFilter::push", "MedianFilter::get", "MedianFilter::getAt", "MedianFilter::filter"])

p("C13", "Array statistics: mean, sum, median, extremes, norms match definitions",
  """Sum, mean (of an array or a sub-range of a vector), median, minimum and maximum, position of the maximum (the first
  one, with its value), alpha norm (alpha-th root of the mean alpha-th power of the magnitudes) and L^p norm equal their
  mathematical definitions for every array. The input arrays are left unmodified, and the pointer and vector forms agree.""",
  ["inputs"],
  "All array lengths >= 1 (and 0 where a value is defined), all finite values including negatives and duplicates, all p/alpha >= 1, all valid sub-ranges.",
  "Tests use a few fixed arrays of at most five elements, mostly positive.",
  ["maths/MathUtilities.cpp"],
  [("statistics", "MathUtilities::mean/median/sum/getFrameMinMax/getMax"), ("norms", "MathUtilities::getAlphaNorm/getLpNorm")],
  ["MathUtilities static functions"])

p("C14", "Rounding, modulus, phase wrapping and integer helpers are exact",
  """For every argument: rounding returns the nearest integer, halves away from zero; floored modulus and principal argument
  differ from their argument by an integer multiple of the modulus or 2*pi and lie in the principal interval; power-of-two predicates and the
  next, previous and nearest power of two (ties upward; as far as representable), greatest common divisor and factorial equal their integer definitions.
  Conversion between MIDI pitch with cents offset and frequency follows equal temperament, for any concert pitch, and converting back gives the same pitch and offset.""",
  ["inputs"],
  "All doubles of moderate size including exact halves, negative values and multiples of pi; all ints in 1..2^30; factorial 0..170; all audible pitches and concert-A references.",
  "Tests check a dozen fixed arguments; boundary values (halves, exact powers, ties) dominate the failures.",
  ["maths/MathUtilities.cpp", "base/Pitch.cpp"],
  [("scalar helpers", "MathUtilities::round/mod/princarg/isPowerOfTwo/nextPowerOfTwo/previousPowerOfTwo/nearestPowerOfTwo/factorial/gcd"), ("pitch", "Pitch::getFrequencyForPitch/getPitchForFrequency")],
  ["MathUtilities static functions", "Pitch static functions"])

p("C15", "Vector conditioning: normalise, adaptive threshold, circular shift",
  """Unit-sum, unit-maximum and L^p normalisation divide every element by the array's sum, largest magnitude or L^p norm, leave an
  all-zero (or, for L^p, below-threshold) vector finite as documented, and never change an array when normalisation is off; array and vector forms agree.
  Adaptive thresholding subtracts from each element the mean of the documented neighbourhood (8 before to 7 after,
  shortened at the ends) and clips at zero, and a circular shift by k >= 0 places moves element i to (i+k) mod n.""",
  ["inputs", "configurations"],
  "All lengths >= 1 (also shorter than the averaging neighbourhood), all finite values, p in 0..6, thresholds, shifts of 0 up to several times the length.",
  "Tests normalise two or three short vectors; adaptive threshold and circular shift are not tested.",
  ["maths/MathUtilities.cpp"],
  [("normalisation", "MathUtilities::normalise/normaliseLp"), ("thresholding", "MathUtilities::adaptiveThreshold"), ("shift", "MathUtilities::circShift")],
  ["MathUtilities static functions"])

p("C16", "Framing a signal yields every overlapping frame, zero-padded at the end",
  """For every signal, frame length and hop, the framer delivers successive frames: the first begins at the first sample,
  each later one is advanced by the hop, and every frame is filled with zeros beyond the end of the signal. The announced
  number of frames is ceil(length/hop), and after the counters are reset framing begins again identically, with a newly set source too.""",
  ["inputs", "histories", "configurations"],
  "All signal lengths >= 1, frame lengths and hops (smaller than, equal to or larger than the frame), all histories of frame reads, resets, reconfigurations and source changes.",
  "There is no test of framing.",
  ["dsp/signalconditioning/Framer.cpp"],
  [("frame indexing", "Framer::getFrame"), ("frame count", "Framer::setSource")],
  ["Framer::getFrame", "Framer::getMaxNoFrames"])

p("C17", "Detection-function smoothing equals DC removal, filtering and thresholding",
  """For every configuration and input of its configured length, post-processing a detection function yields the reference pipeline: remove the
  minimum and divide by the alpha norm, filter forwards and backwards with the configured lowpass, subtract at each point the
  median of its surrounding window (plus the delta offset), and, when only the positive part is wanted, clip the rest to zero. An all-zero
  input gives a finite result, the input is unchanged, and repeated processing with one object gives repeatable results. Settings left alone mean no window, no offset and both signs.""",
  ["inputs", "configurations", "histories"],
  "All lengths that the lowpass allows, pre/post window sizes (including windows as long as the data), alpha norms, deltas, both positivity modes, stable lowpass coefficients, any sequence of inputs.",
  "There is no test of this stage.",
  ["dsp/signalconditioning/DFProcess.cpp", "dsp/signalconditioning/FiltFilt.cpp"],
  [("normalisation", "DFProcess::removeDCNormalize"), ("median thresholding", "DFProcess::medianFilter")],
  ["DFProcess::process"])

p("C18", "Picked onsets are exactly the qualifying peaks of the smoothed function",
  """For every detection function and parameter set, the reported onsets are, in strictly increasing order, exactly those indices at least
  two from either end where the smoothed function is positive and greater than both its neighbours and where the parabola fitted to
  the five surrounding points is curved more sharply than the curvature threshold allows or stands higher than the height threshold. The given function
  is replaced by its smoothed version, and nothing is reported for a function too short to hold a peak. Thresholds, windows and offset left alone are zero.""",
  ["inputs", "configurations"],
  "All lengths, threshold triples, smoothing parameters and detection-function shapes, including constants, ramps, single impulses and noisy peaks.",
  "There is no test of peak picking.",
  ["dsp/onsets/PeakPicking.cpp", "maths/Polyfit.h"],
  [("maxima and quadratic fit", "PeakPicking::quadEval"), ("smoothing", "PeakPicking::process")],
  ["PeakPicking::process"])

p("C19", "Onset detection functions follow their definitions frame by frame",
  """For every frame sequence each detection function type (high-frequency content, spectral difference, phase deviation, complex
  spectral difference, broadband energy rise) returns the value of its published definition over the windowed frame's magnitude and phase and the preceding one or two frames,
  starting from silence. Giving frames in the frequency domain gives the same values as giving the same frames in the time domain, and
  adaptive whitening divides each bin by its decaying peak, bounded below by the floor, before anything else.""",
  ["inputs", "histories", "configurations"],
  "All five types, even frame lengths, step sizes, whitening on and off with default and explicit coefficients, dB-rise thresholds, all frame sequences including silence and repeated frames.",
  "There is no test of the detection functions.",
  ["dsp/onsets/DetectionFunction.cpp", "dsp/phasevocoder/PhaseVocoder.cpp"],
  [("per-type formulas", "DetectionFunction::HFC/specDiff/phaseDev/complexSD/broadband"), ("whitening", "DetectionFunction::whiten"), ("histories", "DetectionFunction::runDF")],
  ["DetectionFunction::processTimeDomain", "DetectionFunction::processFrequencyDomain", "DetectionFunction::getSpectrumMagnitude"])

p("C20", "Constant-Q transform measures energy at its bins' frequencies",
  """For every configuration, the constant-Q transform of a spectrum equals, up to the stated kernel threshold, correlating the frame with a Hamming-windowed complex
  exponential at each bin's geometrically spaced centre frequency with constant Q; a sinusoid at a bin's centre gives
  its maximum there. The transform is linear, its two calling forms agree, and the number of bins, quality factor, transform length and hop follow from
  the configuration.""",
  ["inputs", "configurations"],
  "All sample rates, frequency ranges below Nyquist, bins per octave, thresholds >= 0 and spectra; repeated calls on one object.",
  "The transform itself has no test; it is exercised only through a few chromagram cases.",
  ["dsp/chromagram/ConstantQ.cpp"],
  [("kernel construction", "ConstantQ::sparsekernel"), ("sparse product", "ConstantQ::process")],
  ["ConstantQ::process", "ConstantQ::getK", "ConstantQ::getFFTLength", "ConstantQ::getHop", "ConstantQ::getQ"])

p("C21", "Chromagram folds constant-Q magnitudes into one normalised octave",
  """For every configuration and frame, chroma bin b is the sum over whole octaves of the constant-Q magnitudes of bin b in each octave,
  normalised to unit sum, unit maximum or not at all as configured; time-domain input gives the same result as the windowed, half-rotated
  frame's spectrum. A sinusoid at a bin's frequency, in any octave covered, makes that pitch class the largest, scaling
  the input scales the unnormalised chroma, silence gives finite values, and earlier frames have no influence.""",
  ["inputs", "configurations", "histories"],
  "All sample rates, ranges of one or more octaves, bins per octave, normalisation modes, signals, levels, octaves and frame sequences on one object.",
  "Tests play single sinusoids through two or three configurations; folding, normalisation and reuse are sampled at few points.",
  ["dsp/chromagram/Chromagram.cpp", "dsp/chromagram/ConstantQ.cpp"],
  [("octave folding and normalisation", "Chromagram::process"), ("windowing and rotation", "Chromagram::process (time domain)")],
  ["Chromagram::process"])

p("C22", "Key detection is transposition-consistent, bounded and median-smoothed",
  """Every processed frame returns a key from 0 (none) to 24 and 24 strengths that are, for each major and minor key, the greatest correlation in [-1, 1] of the recent average chroma with
  that key's profile over the sub-semitone rotations; a clear tonal cadence in a key is recognised as that key, in whatever transposition and
  tuning frequency. The returned key is the median of the best key per frame over the recent frames, the average runs over the configured number of most recent frames,
  and the result depends only on the frames processed by that object. Settings left alone are 10 s for both averages, no overlap and decimation by 8.""",
  ["inputs", "histories", "configurations"],
  "All transpositions and modes, tuning frequencies, sample rates, overlap factors, decimation factors and averaging lengths; all frame sequences incl. silence and key changes.",
  "Tests feed a few synthesised scales at one sample rate with default settings.",
  ["dsp/keydetection/GetKeyMode.cpp", "dsp/chromagram/Chromagram.cpp", "dsp/rateconversion/Decimator.cpp"],
  [("profile correlation", "GetKeyMode::krumCorr"), ("averaging and median history", "GetKeyMode::process")],
  ["GetKeyMode::process", "GetKeyMode::getKeyStrengths", "GetKeyMode::getBlockSize", "GetKeyMode::getHopSize"])

p("C23", "MFCCs equal mel filterbank, log and cosine transform of the frame",
  """For every configuration and frame the coefficients are the orthonormal cosine transform of the log of the magnitude spectrum collected
  by the 13 linear and 27 logarithmic triangular filters (Slaney's auditory toolbox), of the windowed frame, with the zeroth
  included only on request. Time-domain and frequency-domain entry points agree, scaling a frame that has energy in every filter changes only the zeroth
  coefficient (for unit log power), and frames do not influence one another. Settings left alone are a length of 2048, 19 coefficients and the zeroth, log power 1 and a Hamming window.""",
  ["inputs", "configurations", "histories"],
  "All sample rates and FFT sizes, numbers of coefficients up to 40, window types, integer log powers, all frames including silence and repeated calls.",
  "There is no test of MFCCs.",
  ["dsp/mfcc/MFCC.cpp"],
  [("filterbank and DCT tables", "MFCC constructor"), ("processing", "MFCC::process")],
  ["MFCC::process"])

p("C24", "Beat tracker emits ordered, in-range beats at the tempo it hears",
  """For every detection function of any length, the onset-driven tempo tracker terminates, reads and writes only its own data, and returns
  beats that increase strictly within the analysed span, with one tempo value per analysis step that is zero (none found) or from 30 to 180 beats per minute;
  the same input gives the same beats whether or not tempi are requested. A clean periodic pulse train yields beats spaced at that period, or a simple
  multiple or fraction of it, and a tracker used again gives what a new one would. In
  each step the period and tempo come from the pair of comb-filter lags that is strong and nearest an octave apart, or
  from a Gaussian around the settled period, and the phase from the weighted alignment with the input.""",
  ["inputs", "configurations"],
  "All detection-function lengths including shorter than one analysis window, all non-negative shapes including zeros and constants, periods across the lag range, repeated use of one tracker.",
  "There is no test of beat tracking.",
  ["dsp/tempotracking/TempoTrack.cpp", "dsp/signalconditioning/DFProcess.cpp", "dsp/signalconditioning/Framer.cpp", "maths/Correlation.cpp"],
  [("tempo induction", "TempoTrack::tempoMM"), ("phase alignment", "TempoTrack::phaseMM"), ("beat placement", "TempoTrack::beatPredict")],
  ["TempoTrack::process"])

p("C25", "Tempo path and beat chain are the optimum of the dynamic programme",
  """The beat positions the second tempo tracker returns for a detection function and beat periods are strictly increasing, inside the function,
  and are the back-traced chain of the stated recursion (score = alpha * best weighted predecessor + (1-alpha) * local onset strength, predecessors
  half to two periods back) from the strongest recent point; beat periods come from the best Viterbi path over comb-filtered autocorrelations,
  one per 128-step hop, and each tempo is 60*rate/(increment*period). Periodic input gives that period and beats
  on the pulses; input too short for two analysis frames leaves the periods unchanged and no tempi.""",
  ["inputs", "configurations", "histories"],
  "All detection functions (lengths 0 to thousands, zeros, constants, pulse trains with noise), input tempi, constrained or not, alphas, tightnesses, rates and increments.",
  "There is no test of beat tracking.",
  ["dsp/tempotracking/TempoTrackV2.cpp", "maths/MathUtilities.cpp"],
  [("period path", "TempoTrackV2::viterbi_decode / get_rcf"), ("beat chain", "TempoTrackV2::calculateBeats")],
  ["TempoTrackV2::calculateBeatPeriod", "TempoTrackV2::calculateBeats"])

p("C26", "Downbeat finder picks one bar phase from spectral change between beats",
  """The spectral difference reported for each pair of successive beat intervals is the Jensen-Shannon divergence between their adaptively thresholded, normalised magnitude spectra
  (two fewer values than beats), and the downbeats are exactly the beats of the one phase modulo the bar length with the greatest mean
  difference. Audio pushed in blocks is buffered as the decimated stream, however many blocks are pushed, and clearing the buffer restarts it empty.""",
  ["inputs", "histories", "configurations"],
  "All supported decimation factors 1 to 64, increments, beats per bar, beat sequences (none, one, past the end of the audio), audio content and block counts, resets.",
  "There is no test of downbeat finding.",
  ["dsp/tempotracking/DownBeat.cpp", "dsp/rateconversion/Decimator.cpp"],
  [("buffering", "DownBeat::pushAudioBlock"), ("difference", "DownBeat::measureSpecDiff"), ("phase choice", "DownBeat::findDownBeats")],
  ["DownBeat::findDownBeats", "DownBeat::getBeatSD", "DownBeat::getBufferedAudio"])

p("C27", "Distances, divergences, autocorrelation and beat spectrum are correct",
  """Cosine distance, Kullback-Leibler divergence of Gaussians (symmetrised) and of distributions (one-way or symmetrised, in base-10 logarithms), unbiased autocorrelation and the
  beat spectrum (normalised mean cosine distance at each lag) equal their definitions for every input, non-positive autocorrelations coming out tiny and positive. The symmetrised measures are symmetric and
  non-negative, zero for identical non-zero arguments and finite for zeros, vectors of unequal size have cosine distance 1, and no input is modified.""",
  ["inputs"],
  "All equal-length vectors of any dimension including zeros and proportional vectors, all variance > 0, distributions with zero entries, feature matrices of any number of rows, signals of any length.",
  "None of these has a test.",
  ["maths/CosineDistance.cpp", "maths/KLDivergence.cpp", "maths/Correlation.cpp", "dsp/rhythm/BeatSpectrum.cpp"],
  [("formulas", "the respective functions")],
  ["CosineDistance::distance", "KLDivergence::distanceGaussian/distanceDistribution", "Correlation::doAutoUnBiased", "BeatSpectrum::process"])

p("C28", "Polynomial fit is the least-squares optimum; singular systems are refused",
  """For every set of points and degree with a well-conditioned system, polynomial fitting returns the coefficients (constant first) minimising the sum of squared
  residuals, so that points on a polynomial are reproduced, and the returned value is the correlation coefficient of the fit, between 0 and 1. Fits with fewer than two points, unequal vectors, no terms
  or all points at one abscissa are reported as failed (non-positive result) without touching memory outside the arguments.""",
  ["inputs"],
  "All point counts >= 0, degrees 0 to 6, abscissae with and without repetitions, exact and noisy ordinates.",
  "There is no test of polynomial fitting.",
  ["maths/Polyfit.h"],
  [("normal equations", "TPolyFit::Square"), ("solver", "TPolyFit::GaussJordan")],
  ["TPolyFit::PolyFit2"])

p("C29", "Principal component projection yields the leading principal scores",
  """For every data matrix, projecting onto k principal components replaces each row's first k values with its coordinates, after mean
  removal, along the k directions of greatest variance in decreasing order: columns uncorrelated, sums of squares the k largest eigenvalues of the scatter matrix.
  The signs of the components are free, and each row's remaining values are the mean-removed data.""",
  ["inputs", "configurations"],
  "All row counts >= 2, dimensions >= 2, component counts up to the dimension, including rank-deficient, constant-column, unsorted-variance and correlated data.",
  "There is no test of PCA.",
  ["maths/pca/pca.c"],
  [("covariance", "covcol"), ("eigensolver", "tred2/tqli"), ("projection", "pca_project")],
  ["pca_project"])

p("C30", "Tonal centroids and harmonic change function follow their definitions",
  """The tonal centroid of a chroma vector is its projection onto the circles of fifths, minor thirds and major thirds with their stated radii, and
  transposing the chroma rotates each circle accordingly; L1 normalisation makes the magnitudes sum to one or gives zeros for silence. A tonal centroid
  sequence keeps every vector in order with times at multiples of the frame duration. The change function is, at each position, the Euclidean distance between the Gaussian-smoothed
  vectors before and after it.""",
  ["inputs", "histories", "configurations"],
  "All chroma vectors, rotations, sequence lengths including 0 and 1, smoothing widths, frame durations, histories of add/clear/normalise.",
  "There is no test of the tonal code.",
  ["dsp/tonal/TonalEstimator.cpp", "dsp/tonal/TonalEstimator.h", "dsp/tonal/TCSgram.cpp", "dsp/tonal/ChangeDetectionFunction.cpp"],
  [("basis", "TonalEstimator constructor"), ("sequence", "TCSGram"), ("smoothing and distance", "ChangeDetectionFunction::process")],
  ["TonalEstimator::transform2TCS", "TCSGram", "ChangeDetectionFunction::process"])

p("C31", "HMM training never loses likelihood and decoding finds the best path",
  """For every observation sequence, an initialised or trained hidden Markov model is a valid one (initial and transition probabilities non-negative and summing to
  one, finite means, symmetric covariance; the transitions out of a state that is never occupied may be all zero); forward-backward posteriors and log-likelihood equal the sum over all state paths; and each
  re-estimation step yields the expectation-maximisation estimates from those posteriors and does not decrease the likelihood. Viterbi decoding returns a state path whose joint probability is the maximum over all paths, and
  Gaussian (log-)densities and matrix inverse with determinant equal their definitions.""",
  ["inputs", "configurations"],
  "All observation sequences with non-singular covariance, state counts 1 to 6, dimensions 1 to 6, models with zero transition probabilities; brute force over all paths for small lengths, an independent log-domain recursion for longer.",
  "There is no test of the HMM.",
  ["hmm/hmm.c", "ext/clapack/src", "ext/cblas/src"],
  [("forward-backward", "forward_backwards"), ("re-estimation", "baum_welch / hmm_train"), ("decoding", "viterbi_decode"), ("density", "invert/gauss/loggauss")],
  ["hmm_init", "hmm_train", "forward_backwards", "baum_welch", "viterbi_decode", "invert", "gauss", "loggauss"])

p("C32", "Histogram clustering pipeline: histograms, chroma fold, cluster labels",
  """State histograms at each position count the states in the surrounding odd window divided by the squared norm, the end positions repeating the
  first and last full window; chroma folding sums magnitudes over complete octaves; MPEG-7 normalisation gives unit-norm decibel vectors with an envelope of maximum one.
  Clustering follows the annealed soft-assignment procedure with its neighbourhood duration prior and labels every histogram with a cluster from 1 to k;
  features, scaled by ten, are clustered by training a hidden Markov model on them, decoding it, and clustering the histograms of its states by the fixed annealing schedule.""",
  ["inputs", "configurations"],
  "All state sequences at least as long as the window, state counts, odd window lengths, feature matrices, cluster counts and neighbourhood limits.",
  "There is no test of segmentation.",
  ["dsp/segmentation/cluster_segmenter.c", "dsp/segmentation/cluster_melt.c"],
  [("histograms", "create_histograms"), ("folding", "cq2chroma"), ("normalisation", "mpeg7_constq"), ("annealed clustering", "cluster_melt")],
  ["create_histograms", "cq2chroma", "mpeg7_constq", "cluster_melt", "cluster_segment"])

p("C33", "Segmentation tiles the recording with contiguous typed segments",
  """Whatever features are extracted or supplied, in every feature mode, a segmentation begins at sample zero, its segments follow one another without gap or overlap in
  increasing order with adjacent types different, it ends at number-of-frames times hop, boundaries are multiples of the hop, and at most the requested number
  of segment types occurs, numbered from 1. Too few frames leave the segmentation as it was rather than failing, and a segmenter can be used again after
  re-initialising. Settings left alone have the documented defaults (constant-Q features, hop 0.2 s, window 0.6 s, 62 to 16000 Hz with 8 bins per octave, 40 states, 10 types, histograms of 15, limit 20).""",
  ["inputs", "histories", "configurations"],
  "All feature modes, sample rates, frame counts (below and above the histogram length), numbers of types, audio content including silence, repeated segment and initialise calls.",
  "There is no test of segmentation.",
  ["dsp/segmentation/ClusterMeltSegmenter.cpp", "dsp/segmentation/cluster_segmenter.c"],
  [("feature extraction", "ClusterMeltSegmenter::extractFeatures*"), ("segment list", "ClusterMeltSegmenter::makeSegmentation")],
  ["ClusterMeltSegmenter::segment", "Segmenter::getSegmentation"])

p("C34", "Every wavelet's filters form a perfect-reconstruction pair",
  """For every wavelet the low- and high-pass decomposition filters have equal even length (bar Meyer), the low-pass
  sums to sqrt(2) and the high-pass to zero, and the orthogonal families are orthonormal to their even shifts with the high-pass the
  alternating mirror of the low-pass; the biorthogonal ones admit a perfect-reconstruction dual. The high-pass filters have the vanishing moments the wavelet's name states
  (Daubechies and Symlet N: N, Coiflet N: 2N, biorthogonal Nr.Nd) and the Daubechies filters have extremal phase. Requesting filters
  replaces whatever the vectors held, every time, and every type has its own name.""",
  ["inputs", "configurations"],
  "All wavelet types (enumerated), all signals pushed through decomposition and reconstruction, any sequence of requests into reused vectors.",
  "There is no test of the tables; each of some 1500 constants can be wrong on its own.",
  ["dsp/wavelet/Wavelet.cpp"],
  [("coefficient tables", "Wavelet::createDecompositionFilters")],
  ["Wavelet::createDecompositionFilters", "Wavelet::getWaveletName"])

p("C35", "Bundled linear algebra kernels compute what BLAS and LAPACK specify",
  """For every shape, leading dimension, stride, transposition, scaling factor and finite data, the bundled matrix multiply and dot product equal the textbook result
  and write only their output; LU factorisation satisfies P*A = L*U with partial pivoting and reports an exactly singular matrix, and
  inversion after it yields the inverse, for every matrix size including those larger than the blocking size.""",
  ["inputs", "configurations"],
  "All row/column orders, transpositions, m, n, k from 0 up to well above the block size of 64, negative strides, alpha/beta including 0 and 1, random, ill-scaled and exactly singular matrices.",
  "There is no test of these kernels.",
  ["ext/cblas/src", "ext/clapack/src"],
  [("multiply/dot", "cblas_dgemm, cblas_ddot"), ("factorise/invert", "dgetrf_, dgetri_")],
  ["cblas_dgemm", "cblas_ddot", "dgetrf_", "dgetri_"])

p("C36", "Threads, locks, conditions and tasks synchronise without loss or deadlock",
  """However threads are scheduled, at most one thread holds a mutex, trying a held mutex from another thread fails without blocking, a thread that does not hold a mutex cannot release it, a locked section sees all writes of
  earlier ones, and a waiter on a condition wakes after a signal sent under its lock (or after its timeout) holding the lock again. An asynchronous task performs each requested
  piece of work exactly once, waiting for it returns only after it is complete, and destroying an idle task or finished thread terminates.""",
  ["schedules", "histories"],
  "Sampled schedules of 2 to 8 threads with generated operation sequences and delays, under ThreadSanitizer as well; any number of successive requests per task and of tasks in parallel.",
  "There is no test of threading; a single test run shows one schedule.",
  ["thread/Thread.cpp", "thread/Thread.h", "thread/AsynchronousTask.h"],
  [("mutex and condition wrappers", "Mutex, Condition"), ("request/await handshake", "AsynchronousTask::startTask/awaitTask/run")],
  ["Mutex", "MutexLocker", "Condition", "AsynchronousTask"])

p("C37", "Block allocator hands out disjoint, writable, persistent elements",
  """For every element size and every sequence of allocations and releases, an allocated element is aligned for a pointer, writable over its whole size, overlaps no other live
  element, and keeps its contents until released, however many are live at once. Releasing null does nothing and released space is reused
  rather than growing without bound.""",
  ["histories", "inputs", "configurations"],
  "All element sizes >= 1, all allocate/release histories including full and emptied blocks and more blocks than initially reserved.",
  "There is no test of the allocator.",
  ["thread/BlockAllocator.h"],
  [("free lists and blocks", "BlockAllocator::allocate/deallocate")],
  ["BlockAllocator::allocate", "BlockAllocator::deallocate"])

p("C38", "Objects are independent and results depend only on inputs and history",
  """Two processing objects never influence each other: interleaving their calls, creating or destroying others in between, or running them in different threads gives each the results it would give
  alone, and the same history always gives the same results, whatever was in memory before (HMM and clustering initialisation, random by design, given the same random numbers). Input buffers declared as read-only are not modified.""",
  ["histories", "configurations", "schedules"],
  "All processing classes, random configurations, random interleavings of two objects' call histories, different heap contents (allocator fill patterns), two threads on separate objects.",
  "Every test uses one object at a time in a fresh process.",
  ["dsp", "maths", "base", "hmm", "ext/kissfft"],
  [("no shared mutable state", "all classes"), ("complete initialisation of state", "all constructors")],
  ["all public processing entry points"])

p("C39", "In-contract use never corrupts or leaks memory or has undefined behaviour",
  """No sequence of calls that respects the documented preconditions, on any class, reads or writes outside the buffers it was given or owns, uses freed or uninitialised memory,
  overflows or divides in an undefined way, leaks memory over the object's lifetime, exits the process or fails to terminate. This holds for silence, constants, extremes, and shortest
  legal inputs as for ordinary audio.""",
  ["inputs", "histories", "configurations"],
  "All public classes with generated in-contract configurations and call histories, run under address, leak and undefined-behaviour sanitizers with exactly sized buffers.",
  "The tests run without sanitizers and with oversized or fixed buffers; most modules are not touched at all.",
  ["base", "dsp", "maths", "hmm", "thread", "ext"],
  [("buffer sizing and ownership", "all classes")],
  ["all public entry points"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for r in P:
        f.write(json.dumps(r) + "\n")
print(len(P), "properties")
