N_RANGE = "TLC checks the specification exhaustively within the stated bounds; the real code is bound to it by every generated behaviour and by seeded random ones, each logged event being validated by TLC. Trusted: TLC, the FReal arithmetic override, the harness. Not covered: inputs outside the generators' ranges."

prop("P01", "Ring buffers behave as bounded double-ended queues",
     "A ring buffer (run-time sized, compile-time sized, or a view over user storage) of capacity N always holds exactly the sequence produced by the insertions, removals, clears, resizes and element writes applied to it: inserting at one end of a full buffer drops the element at the other end, and nothing else is ever lost, duplicated, reordered or written outside its storage. Size, capacity, empty/full, both iteration directions, indexed, checked (which throws out_of_range outside the size), front and back access all show that same sequence. Copies are independent of their source, and moves and assignments carry the contents over.",
     ["histories", "inputs"], "every sequence of operations on buffers of every capacity >= 1, including copies and moves",
     "The tests never touch these classes directly; wrap-around positions, full/empty transitions and aliasing after copies depend on the whole history.",
     ["types/ring_buffer.hpp", "types/fixed_ring_buffer.hpp", "thirdparty/nonstd/ring_span.hpp"],
     [("circular index arithmetic and end insertion/removal", "thirdparty/nonstd/ring_span.hpp ring_span"), ("ownership of the storage", "types/ring_buffer.hpp ring_buffer")],
     N_RANGE, state=[("size, front index, capacity", "the live part of the circular array", "thirdparty/nonstd/ring_span.hpp")])

prop("P02", "Moving-window filters report the mean, RMS or median of the last N samples",
     "After any sequence of samples, block filtering, resets and resizes, each output of a moving average, moving RMS or moving median filter is the mean, root mean square or median of the most recent N samples, samples before the first one (or before the last reset or resize) counting as zero. The reported window length is the N last set, and filtering a block, also in place, gives the same outputs as feeding its samples one by one. No finite input makes an output NaN.",
     ["histories", "inputs"], "every interleaving of single samples, blocks, resets, resizes and copies, for every window length >= 1 and finite samples",
     "The tests only call the methods once on one signal; a wrong accumulator after a reset or after wrap-around shows up only in longer histories.",
     ["filter/moving_average_filter.hpp", "filter/moving_rms_filter.hpp", "filter/moving_median_filter.hpp", "statistics/median.hpp"],
     [("running accumulator and circular window", "filter/moving_average_filter.hpp operator()"), ("median by selection", "statistics/median.hpp median")],
     N_RANGE, state=[("window_, accumulated_", "last N samples and their sum", "filter/moving_average_filter.hpp")])

prop("P03", "A second-order section computes its difference equation for every history",
     "Whatever sequence of samples, blocks, coefficient changes, resets and copies is applied to a biquad section, each output is a0*(b0 x[n] + b1 x[n-1] + b2 x[n-2]) - a1 y[n-1] - a2 y[n-2] with the coefficients in force, where the past inputs and outputs are those since the last reset (zero before), up to rounding. Filtering a block, also in place, equals feeding its samples one by one. A section built from a pole and a zero, or from pole/zero pairs, has its poles and zeros there, and the stability test agrees with the poles lying inside the unit circle.",
     ["histories", "inputs"], "every interleaving of samples, blocks, coefficient setters, resets and copies, for finite coefficients",
     "Tests filter one signal with a handful of coefficient sets and never change coefficients, reset or copy in the middle of a stream.",
     ["filter/biquad.hpp", "filter/biquad_cascade.hpp"],
     [("state update of the section", "filter/biquad.hpp tick"), ("pole/zero to coefficients", "filter/biquad.hpp constructors")],
     N_RANGE, state=[("w_/x/y delay lines", "past inputs and outputs", "filter/biquad.hpp")])

prop("P04", "A cascade is the composition of its sections in order",
     "A biquad cascade, at every moment of its history, gives for each sample what its sections would give one after the other in the order they were pushed; pushing, clearing, resetting and copying change exactly the sections concerned, the size is the number of sections, and copies do not share state.",
     ["histories", "inputs"], "every history of pushes (up to the capacity), clears, resets, copies, samples and blocks",
     "Tests only run a cascade built by a designer from start to end.",
     ["filter/biquad_cascade.hpp", "filter/biquad.hpp"],
     [("chaining of sections", "filter/biquad_cascade.hpp filter")],
     N_RANGE + " Pushing beyond the capacity is outside the contract.", state=[("cascade_, num_stage_", "list of sections with their delay lines", "filter/biquad_cascade.hpp")])

prop("P05", "Designed filters are stable and meet their frequency-response specification",
     "Every filter made by the designers (RBJ, Zoelzer, Butterworth, Chebyshev I and II; low-pass, high-pass, band-pass, band-stop, shelves, peak, notch, all-pass) is stable and has the response its kind promises: the pass band at unit gain (or the specified gain or ripple), the stop band attenuated (to the specified level), the gain at the cut-off or band edges that the design fixes, shelves at the specified gain on their side, and the order decides how fast the response falls.",
     ["inputs"], "every order, sample rate, cut-off, bandwidth, gain, ripple and Q in the documented ranges",
     "The tests check a few designs against a recorded reference at fixed parameters; the specification of the response must hold for every parameter set.",
     ["filter/internal/butterworth_designer.hpp", "filter/internal/chebyshev_I_designer.hpp", "filter/internal/chebyshev_II_designer.hpp", "filter/internal/rbj_designer.hpp", "filter/internal/zoelzer_designer.hpp", "filter/internal/abstract_designer.hpp", "filter/internal/bilinear/lowpass_transformer.hpp", "filter/internal/bilinear/highpass_transformer.hpp", "filter/internal/bilinear/bandpass_transformer.hpp", "filter/internal/bilinear/bandstop_transformer.hpp"],
     [("bilinear transformation of the analog prototype", "filter/internal/bilinear/lowpass_transformer.hpp"), ("cookbook coefficients", "filter/internal/rbj_designer.hpp")],
     "The specification states the response; TLC evaluates the transfer function of the coefficients the code produced and checks stability and each promise. Trusted: TLC, the FReal arithmetic override, the harness. Not covered: inputs outside the generators' ranges.")

prop("P06", "Oscillators follow their phase for every parameter history",
     "After any history of samples, blocks, copies, changes of frequency, sample rate, amplitude, phase, duty or width, time settings and resets, each sample of a sinusoidal, square, sawtooth or triangular oscillator is the defined waveform at the phase frequency*time modulo one period, scaled by the amplitude. Every sample advances the time by one sampling period; a setting takes effect at once and changes nothing else, and reset returns to time 0.",
     ["histories", "inputs"], "every interleaving of samples and parameter changes in the documented ranges",
     "Tests generate one signal with fixed parameters; wrap-around and the effect of settings depend on the history.",
     ["oscillators/square.hpp", "oscillators/sinusoidal.hpp", "oscillators/sawtooth.hpp", "oscillators/triangular.hpp"],
     [("time accumulator and waveform", "oscillators/square.hpp")],
     N_RANGE, state=[("timestamp", "elapsed time", "oscillators/sinusoidal.hpp")])

prop("P07", "Envelopes obey their state machine and time constants",
     "An ADSR envelope rises at the attack rate to its target, moves at the decay rate to the sustain level, holds it, and after the key is released falls to zero and stays there, through any history of gates, parameter changes and samples; a release time makes the fall from the current level last that long; getters report the set parameters. An attack-release follower moves towards the (optionally rectified) input with the gain of its attack time while rising and of its release time while falling.",
     ["histories", "inputs"], "every interleaving of gates, parameter changes, resets and samples",
     "The tests do not exercise gate changes in every state nor parameter changes while running.",
     ["experimental/envelope/adsr.hpp", "experimental/envelope/ar.hpp"],
     [("ADSR state machine", "experimental/envelope/adsr.hpp"), ("one-pole follower", "experimental/envelope/ar.hpp")],
     N_RANGE, state=[("state, output level", "phase of the envelope and its level", "experimental/envelope/adsr.hpp")])

prop("P08", "Fourier and cosine transforms compute their definition and invert each other",
     "The complex, real and cosine transforms return the values of their defining sums for every size and content, in and out of place; the inverse transform recovers the input; and a transform engine serves any interleaving of kinds, directions, alignments and copies with the same values as a fresh engine.",
     ["inputs", "histories"], "every size, content and interleaving of calls on one engine or copies of it",
     "Tests compare against one random signal of one size; sizes 1, odd and prime, aliasing of the buffers and the reuse of an engine's plan depend on inputs and history they do not sample.",
     ["spectral/dft.hpp", "spectral/dct.hpp", "spectral/fft_engine.hpp", "spectral/internal/libfftw_impl.hpp"],
     [("plan caching and execution", "spectral/internal/libfftw_impl.hpp"), ("transform wrappers", "spectral/dft.hpp")],
     N_RANGE, state=[("cached plan", "which transform kind, size and buffers the plan was made for", "spectral/internal/libfftw_impl.hpp")])

prop("P09", "Convolution, correlation, Hartley, Hilbert, spectrum and cepstrum are correct",
     "Convolution and correlation of any two signals, with every scaling, equal their defining sums; the Hartley transform equals its defining sum and is its own inverse up to N; the Hilbert transform gives the analytic signal, whose real part is the input; the power spectrum and the cepstrum equal their definitions on the discrete Fourier transform.",
     ["inputs"], "every length and content, in and out of place",
     "Tests compare single random signals of one length; scaling per lag, odd lengths and short signals are not sampled.",
     ["spectral/convolution.hpp", "spectral/correlation.hpp", "spectral/hartley.hpp", "spectral/hilbert.hpp", "spectral/spectrum.hpp", "spectral/cepstrum.hpp"],
     [("products in the frequency domain", "spectral/convolution.hpp"), ("scaling of the correlation", "spectral/correlation.hpp")],
     N_RANGE)

prop("P10", "Statistics equal their definitions on every sample",
     "For every non-empty sequence of finite numbers the means (arithmetic, geometric, harmonic, generalized, also weighted), variance, standard deviation, raw and central moments, skewness, kurtosis, median, minimum, maximum, their absolute and positional variants, peak and norms equal their definitions up to rounding, whatever the element type, the order of the elements or the kind of iterator, and do not modify the sequence.",
     ["inputs"], "every finite sequence of length >= 1 in the domain of the statistic, in single and double precision",
     "Tests compare one random vector; ties, negative values, short and even lengths and sequences with an extreme at an end are not sampled.",
     ["statistics/mean.hpp", "statistics/geometric_mean.hpp", "statistics/harmonic_mean.hpp", "statistics/generalized_mean.hpp", "statistics/variance.hpp", "statistics/moment.hpp", "statistics/skewness.hpp", "statistics/kurtosis.hpp", "statistics/median.hpp", "statistics/min.hpp", "statistics/max.hpp", "statistics/peak.hpp", "statistics/norm.hpp"],
     [("central moments", "statistics/moment.hpp"), ("extremes", "statistics/max.hpp")], N_RANGE)

prop("P11", "Temporal features equal their definitions",
     "Energy, power, RMS, root sum of squares, zero-crossing rate, duration and effective duration, equivalent levels (of a block and continuous), signal-to-noise ratio, the average magnitude and squared difference functions and the specific and total loudness of every finite signal equal their definitions up to rounding, in and out of place, without modifying their input.",
     ["inputs"], "every finite signal of length >= 1, every threshold, lag, sample rate and reference in their domains",
     "Tests compare one random signal; thresholds met exactly, crossings at the ends, lags near the length and weights are not sampled.",
     ["feature/temporal/energy.hpp", "feature/temporal/power.hpp", "feature/temporal/rms.hpp", "feature/temporal/rssq.hpp", "feature/temporal/azcr.hpp", "feature/temporal/duration.hpp", "feature/temporal/leq.hpp", "feature/temporal/snr.hpp", "feature/temporal/amdf.hpp", "feature/temporal/asdf.hpp", "feature/perceptual/loudness.hpp"],
     [("threshold search", "feature/temporal/duration.hpp effective_duration"), ("sign changes", "feature/temporal/azcr.hpp")], N_RANGE)

prop("P12", "Statistical and spectral features equal their definitions",
     "Centroid, spread, skewness, kurtosis (weighted or not), crest, flatness, entropy, flux, roll-off, slope, decrease, variation and irregularity of every non-negative spectrum equal their definitions up to rounding, for any frequency axis and weighting, without modifying their input; normalised features do not depend on the scale of the spectrum.",
     ["inputs"], "every non-empty spectrum with some energy, with zeros anywhere, and every increasing frequency axis",
     "Tests compare one random spectrum without zeros; zeros, single bins, offsets of the axis and roll-off ties are not sampled.",
     ["feature/statistics/centroid.hpp", "feature/statistics/spread.hpp", "feature/statistics/crest.hpp", "feature/statistics/flatness.hpp", "feature/statistics/entropy.hpp", "feature/statistics/flux.hpp", "feature/statistics/rolloff.hpp", "feature/statistics/slope.hpp", "feature/statistics/decrease.hpp", "feature/statistics/variation.hpp", "feature/spectral/spectral_centroid.hpp", "feature/spectral/spectral_spread.hpp", "feature/spectral/spectral_skewness.hpp", "feature/spectral/spectral_kurtosis.hpp", "feature/spectral/spectral_irregularity.hpp"],
     [("weighted sums", "feature/statistics/centroid.hpp"), ("cumulative search", "feature/statistics/rolloff.hpp")], N_RANGE)

prop("P13", "Element-wise and reshaping operations map every range as defined",
     "Amplify, clip, amplify-and-clip, rectify, ceil, floor, round, truncate, normalize, derivative, concatenate, pad and silence write for each element of the range the value their definition gives, keep the order, write exactly the promised number of elements and nothing outside, leave the source unchanged, and give the same values in place and through any kind of iterator.",
     ["inputs"], "every finite range including the empty one where it has a meaning, every factor, bounds and pad length",
     "Tests compare one random vector; halves and signs, equal bounds, values outside the bounds and the memory next to the output are not observed.",
     ["algorithm/amplifier.hpp", "algorithm/clipper.hpp", "algorithm/rectify.hpp", "algorithm/ceil.hpp", "algorithm/floor.hpp", "algorithm/round.hpp", "algorithm/fix.hpp", "algorithm/normalize.hpp", "algorithm/derivative.hpp", "algorithm/concatenate.hpp", "algorithm/padder.hpp", "algorithm/silence.hpp"],
     [("element transforms", "algorithm/clipper.hpp"), ("length bookkeeping", "algorithm/padder.hpp")], N_RANGE)

prop("P14", "Searching, comparing and spacing ranges give the defined result",
     "Linear search, binary search and index_of find an element exactly when the range holds it, at a position where it is (the first one where the definition says so), and report absence otherwise; equal is true exactly for ranges equal element by element; linspace and logspace yield exactly the requested number of points, evenly spaced (in value or exponent), starting at the first bound and ending at the last.",
     ["inputs"], "every range (sorted for binary search), every key, every pair of bounds and number of points",
     "Tests look up one existing element; absence, duplicates, the first and last positions, single elements and the exact end points are not sampled.",
     ["algorithm/linear_search.hpp", "algorithm/binary_search.hpp", "algorithm/indexof.hpp", "algorithm/equal.hpp", "algorithm/linspace.hpp", "algorithm/logspace.hpp"],
     [("bisection", "algorithm/binary_search.hpp"), ("step", "algorithm/linspace.hpp")], N_RANGE)

prop("P15", "Unit, auditory-scale and companding conversions are correct and invertible",
     "Decibel/magnitude/power, degree/radian, mel, bark, erb and cent conversions, complex/real conversions, mu-law companding, peak-to-peak and peak-to-RMS equal their defining formulas for every value of their domain, the inverse conversions return the original value, scales rise with frequency, and the auditory spaces have the requested number of points between the requested frequencies.",
     ["inputs"], "every value in the domain of each conversion and every number of points",
     "Tests compare a few values in one direction; both branches of the piecewise scales, signs and end points are not sampled.",
     ["converter/db2mag.hpp", "converter/db2pow.hpp", "converter/mag2db.hpp", "converter/pow2db.hpp", "converter/deg2rad.hpp", "converter/rad2deg.hpp", "converter/peak2peak.hpp", "converter/peak2rms.hpp", "converter/complex2real.hpp", "converter/real2complex.hpp", "auditory/converter/hertz2mel.hpp", "auditory/converter/mel2hertz.hpp", "auditory/converter/hertz2bark.hpp", "auditory/converter/bark2hertz.hpp", "auditory/converter/hertz2erb.hpp", "auditory/converter/erb2hertz.hpp", "auditory/converter/hertz2cent.hpp", "auditory/converter/cent2hertz.hpp", "auditory/audspace.hpp", "experimental/quantizer/mu_law_compressor.hpp"],
     [("piecewise bark scale", "auditory/converter/hertz2bark.hpp"), ("companding law", "experimental/quantizer/mu_law_compressor.hpp")], N_RANGE)

prop("P16", "Windows of every length have their closed form",
     "Hamming, Hanning, Blackman, Blackman-Harris, Blackman-Nuttall, flat-top, Bartlett, triangular, Welch, boxcar and rectangular windows of every length have at each position the value of their closed form, are symmetric, write exactly the range given, and never contain a value that is not a finite number.",
     ["inputs"], "every length >= 1, in single and double precision, through any kind of iterator",
     "Tests compare windows of one length; odd, even and one-sample windows take different branches.",
     ["windowing/hamming.hpp", "windowing/hanning.hpp", "windowing/blackman.hpp", "windowing/blackman_harris.hpp", "windowing/blackman_nuttall.hpp", "windowing/flattop.hpp", "windowing/bartlett.hpp", "windowing/triangular.hpp", "windowing/welch.hpp", "windowing/boxcar.hpp", "windowing/rectangular.hpp"],
     [("cosine terms", "windowing/blackman.hpp"), ("triangles", "windowing/triangular.hpp")], N_RANGE)

prop("P17", "Audio files hold the frames written and decoders read them back in order",
     "An encoder writes exactly the frames handed to it, in order, in any division into blocks, and reports how many it wrote; a decoder opened on a file reports its sample rate, channels and number of frames, reads successive frames from the current position into exactly the requested buffer, reports how many samples it delivered (fewer only at the end of the file), seeks to any frame, and agrees with every other decoder of the file. Opening a missing or invalid file fails without a crash; a closed or never opened decoder or encoder reads and writes nothing until it is opened again, and no file stays held once it is closed or another is opened.",
     ["histories", "inputs", "fault_sequences"], "every sequence of open, read, write, seek, tell and close with every block size, for every supported format and number of channels",
     "The tests read one file from start to end; positions after seeks, blocks crossing the end, several channels, reopening and use after close are not sampled.",
     ["io/decoder.hpp", "io/encoder.hpp", "io/internal/decoder/libsndfile_decoder_impl.hpp", "io/internal/encoder/libsndfile_encoder_impl.hpp"],
     [("frame accounting of reads", "io/decoder.hpp read"), ("open and close", "io/internal/decoder/libsndfile_decoder_impl.hpp open")],
     N_RANGE, state=[("file_, info_", "open file, its parameters and position", "io/internal/decoder/libsndfile_decoder_impl.hpp")])

prop("P18", "Resampling changes the rate and nothing else",
     "Resampling by a ratio gives output whose length is the input length times the ratio (within the delay of the converter), for each channel separately and in the order of the frames: a constant stays that constant, the linear and zero-order converters give the interpolated or held samples, the sinc converters keep every sinusoid below their pass band at its amplitude and remove what the lower rate cannot carry. Processing a signal in blocks gives what processing it at once gives; the ratio and quality are those last set, reset forgets the past, and an invalid ratio or number of channels reports an error.",
     ["histories", "inputs"], "every ratio in the supported range, every quality, number of channels and division into blocks",
     "Tests do not run the resampler on signals whose result is known, nor in several blocks or after a change of ratio.",
     ["io/resampler.hpp", "io/internal/resampler/libsamplerate_impl.hpp", "io/internal/resampler/resampler_impl.hpp"],
     [("block processing", "io/resampler.hpp process"), ("ratio validation", "io/internal/resampler/libsamplerate_impl.hpp")],
     N_RANGE, state=[("state_, ratio, error", "converter history and settings", "io/internal/resampler/libsamplerate_impl.hpp")])

prop("P19", "Environment access and build information tell the truth",
     "The environment seen through the library is exactly the environment of the process: a variable exists exactly when it was set, has exactly the value last set (with overwriting as asked), names and values given as views end where the view ends, and assignments to invalid names and missing variables are reported as errors with their reason. Threads may use it at the same time: each operation takes effect at one moment between its call and its return, and none disturbs another. The version numbers, version string, transform and codec libraries, operating system, compiler, architecture and build type reported are those of the build.",
     ["histories", "inputs", "configurations", "schedules"], "every history of set, get and exist with every name and value, every schedule of threads doing so, and every configured platform and library",
     "Tests set and read one variable; overwriting, empty values, views into longer texts, invalid names, concurrent use and the other platforms are not sampled.",
     ["core/system.hpp", "core/library_info.hpp", "core/internal/config.hpp"],
     [("environment calls", "core/system.hpp system_env"), ("platform detection", "core/system.hpp system_info"), ("version", "core/library_info.hpp library_info")],
     N_RANGE, state=[("environ", "environment of the process", "core/system.hpp")])

prop("P20", "Log messages are delivered once, whole, to their destination, at their level",
     "A logger collects exactly the pieces streamed into it, in order, each followed by a space, with the requested control sequences, and on destruction delivers that text once, at the end of its destination: the console or the file given to it or configured by default. Messages whose level is below the minimum level, or off, are not delivered; changing defaults affects only loggers made later (the minimum level: deliveries made later).",
     ["histories", "inputs"], "every history of defaults, loggers, levels, texts of any bytes, numbers of every integer type and manipulators",
     "The tests do not look at what a logger outputs.",
     ["core/logger.hpp", "thirdparty/termcolor/termcolor.hpp"],
     [("composition of the text", "core/logger.hpp operator<<"), ("delivery", "core/logger.hpp ~logger")],
     N_RANGE, state=[("msg_, type_, name_, file_, global level/name/path", "message under way and defaults", "core/logger.hpp")])

prop("P21", "String operations keep every other character",
     "Trimming removes exactly the leading and trailing white space and nothing else; splitting gives exactly the pieces between delimiters, in order, and joining is its inverse; changing case changes exactly the letters that have the other case and leaves the length and every other character, for narrow and wide characters of any value, for empty texts, texts of delimiters or of white space only.",
     ["inputs"], "every text of every character type, every delimiter and every sequence of pieces",
     "Tests use printable ASCII; empty pieces, delimiters at the ends, bytes above 127 and wide characters are not sampled.",
     ["string/trim.hpp", "string/split.hpp", "string/join.hpp", "string/to_lower.hpp", "string/to_upper.hpp"],
     [("trimming", "string/trim.hpp"), ("splitting and joining", "string/split.hpp, string/join.hpp"), ("case", "string/to_lower.hpp, string/to_upper.hpp")],
     N_RANGE)

prop("P22", "The C library computes what the C++ library defines",
     "Every function of the C interface, in double and in single precision, gives the result the operation of that name has by definition: arrays of the size the header asks for are written entirely and nothing else is, inputs are left alone, in-place calls work, places are indices or -1, truth values and error codes tell the truth, calls do not influence one another, and the only memory is the environment of the process.",
     ["inputs", "histories", "configurations"], "every function, every input and size, both precisions, every order of calls",
     "Tests reach the C functions in double precision through Python only, on random vectors: ties, empty ranges, in-place use, single precision and values written beyond the output are not sampled.",
     ["bindings/c/src/algorithm.c", "bindings/c/src/statistics.c", "bindings/c/src/spectral.c", "bindings/c/src/windowing.c", "bindings/c/src/core.c", "bindings/c/src/converter.cpp"],
     [("forwarding to the library", "bindings/c/src/statistics.c"), ("complex arrays as pairs", "bindings/c/src/spectral.c"), ("error codes", "bindings/c/src/core.c get_environment")],
     N_RANGE, state=[("environ", "environment of the process", "bindings/c/src/core.c")])

prop("P23", "The Python module computes what the library defines",
     "Every function of the Python module gives the result the operation of that name has by definition, for arrays of any element type, layout, byte order and alignment, and every object of the module (moving filters, oscillators, encoders, decoders, tag readers, resamplers) behaves like the one of the library it stands for, undisturbed by other calls. Arguments are left alone and results own their memory; arrays of more or fewer dimensions, complex arrays for real ones, arrays that should be of one size and are not, and negative sizes are refused with an exception and change nothing.",
     ["inputs", "histories", "fault_sequences"], "every function and object, every array of any layout, every session of calls, accepted and refused",
     "Tests pass contiguous arrays of doubles of equal sizes to single calls; strided, reversed, unaligned or integer arrays, mismatched sizes, several channels and interleaved objects are not sampled.",
     ["bindings/python/include/boost_numpy_dependencies.hpp", "bindings/python/src/algorithm.cpp", "bindings/python/src/auditory.cpp", "bindings/python/src/converter.cpp", "bindings/python/src/core.cpp", "bindings/python/src/feature_spectral.cpp", "bindings/python/src/feature_statistics.cpp", "bindings/python/src/feature_temporal.cpp", "bindings/python/src/filter.cpp", "bindings/python/src/io.cpp", "bindings/python/src/oscillator.cpp", "bindings/python/src/spectral.cpp", "bindings/python/src/statistics.cpp", "bindings/python/src/string.cpp", "bindings/python/src/windowing.cpp"],
     [("access to arrays", "bindings/python/include/boost_numpy_dependencies.hpp"), ("refusals", "bindings/python/src/feature_statistics.cpp execute_two_inputs"), ("blocks of samples", "bindings/python/src/io.cpp")],
     N_RANGE, state=[("objects of the session", "filters, oscillators, files, resamplers", "bindings/python/src/filter.cpp")])

prop("P24", "The tag reader shows what the file's tags say",
     "A reader made for an audio file shows the title, artist, album and genre the file's tag has, as UTF-8 whatever the language and the encoding used in the file, and its year and track number; it keeps showing what the file held when the reader was made, leaves the file alone, and shows empty texts and zeros when the file has no tag, is not an audio file, or does not exist.",
     ["histories", "inputs", "fault_sequences"], "every history of files made, tagged, replaced and removed, and of readers made, with texts of any characters, in every supported format",
     "Tests read the files of a directory that may be empty and compare ASCII fields; missing tags, missing files and other alphabets are not sampled.",
     ["io/metadata.hpp", "io/internal/metadata/libtag_impl.hpp", "io/internal/metadata/metadata_impl.hpp"],
     [("fields of the tag", "io/internal/metadata/libtag_impl.hpp")], N_RANGE,
     state=[("ref_", "the tag as it was when the reader was made", "io/internal/metadata/libtag_impl.hpp")])

prop("P25", "Numeric predicates, helpers and constants are exact",
     "Parity, sign, power-of-two and prime tests and the next power of two are right for every integer of every type up to 64 bits, negative ones included; floating-point numbers are classified (zero, denormal, normal, infinite, not a number) as IEEE 754 says; square, half, inverse, fractional part, the distances and the parts of complex numbers equal their formulas; and each named constant is the number it names.",
     ["inputs"], "every number of every arithmetic type for which the result is representable",
     "No test touches these helpers except through sums in which a wrong branch does not show.",
     ["math/numeric.hpp", "math/complex.hpp", "math/constant.hpp"],
     [("trial division", "math/numeric.hpp is_prime"), ("bit smearing", "math/numeric.hpp next_power_two"), ("table of constants", "math/constant.hpp constants")], N_RANGE)

prop("P26", "Random generators follow their distributions, and noise its filter",
     "Every generator gives draws of the distribution it names with the parameters it was given: at every point the share of draws which do not pass it is the distribution function's value, nothing falls outside the support, whole-number generators give whole numbers, successive draws are independent, and a copy behaves as the original. Brown and pink noise are the stated filters of white noise in the asked range, starting from silence, whatever was drawn before; Perlin noise is the stated continuous function of a random position, zero at whole positions and within one.",
     ["inputs", "histories"], "every distribution, parameter set, number type, engine and number of draws",
     "What is drawn differs from run to run: the tests only instantiate a few generators, and a wrong branch of a distribution shows only in the shape of thousands of draws.",
     ["random/random_generator.hpp", "random/binary_generator.hpp", "random/constant_generator.hpp", "random/noise/white_noise_generator.hpp",
      "random/noise/brown_noise_generator.hpp", "random/noise/pink_noise_generator.hpp", "random/noise/perlin_noise_generator.hpp", "math/numeric.hpp"],
     [("engine seeded by the clock and a distribution", "random/random_generator.hpp RandomGeneratorImpl"), ("leaky integrator", "random/noise/brown_noise_generator.hpp operator()"),
      ("sum of one-pole filters", "random/noise/pink_noise_generator.hpp operator()"), ("gradient noise", "random/noise/perlin_noise_generator.hpp operator()")], N_RANGE,
     state=[("last_output_", "the integrator of brown noise", "random/noise/brown_noise_generator.hpp"), ("b0..b6", "the six poles and the delay of pink noise", "random/noise/pink_noise_generator.hpp")])

prop("P27", "Headers can be included alone, together, in any order, in several units",
     "Every public header of the library compiles as the only header of a unit, under each supported compiler and dialect, and so does a unit which includes any of them in any order; a program of several such units links; the headers of the C library compile as C and as C++. After the include the names which the header declares, and those of the headers it gathers, are known. What a unit means does not depend on the order of its includes.",
     ["configurations", "histories"], "every sequence of public headers, in every supported dialect and compiler, and every program of such units",
     "A header-only library is used by including it; the tests include each header after the same others, and in one unit per suite, which hides missing includes, ambiguous names and double definitions.",
     ["filter.hpp", "windowing.hpp", "statistics.hpp", "types/span.hpp", "thirdparty/nonstd/ring_span.hpp", "feature/temporal/snr.hpp", "filter/moving_average_filter.hpp"],
     [("gathering header", "filter.hpp"), ("vendored span", "thirdparty/nonstd/span.hpp"), ("lookup of statistics", "feature/temporal/snr.hpp snr")], N_RANGE)

prop("P28", "Access helpers, type traits and condition checks agree on every kind of object",
     "data, size, empty, contains, advance and is_null mean the same for vectors, lists, strings, arrays, initializer lists and pointers, constant or not: data gives the very elements of the object, so that what is written through it is seen by every other helper, and asking changes nothing. Equality of real numbers holds within the precision of their type and for every number with itself; the traits say of each type what it is, and the transformations of types (arrays, constness, references, pointers, signs, conditionals) give the type they name; a broken condition is reported once at the critical level and ends the program where assertions are on, and a kept one does nothing.",
     ["inputs", "histories", "configurations"], "every history of writes and questions on every kind of object, every pair of numbers, and conditions under every log level with and without assertions",
     "The helpers are used by the tests with vectors only, through other functions; conditions of the tests are never broken.",
     ["meta/data.hpp", "meta/size.hpp", "meta/empty.hpp", "meta/contains.hpp", "meta/advance.hpp", "meta/is_null.hpp", "meta/equal.hpp", "meta/cast.hpp", "meta/is_iterator.hpp", "meta/is_char.hpp", "meta/is_signed.hpp", "meta/is_unsigned.hpp", "meta/expects.hpp", "meta/ensure.hpp", "meta/type_traits.hpp"],
     [("overloads by kind", "meta/data.hpp data"), ("tolerance", "meta/equal.hpp _equal"), ("detection of iterators", "meta/is_iterator.hpp is_iterator"), ("report and assertion", "meta/expects.hpp expects")], N_RANGE,
     state=[("object", "the container the helpers look at", "meta/data.hpp")])
prop("P29", "Optional, expected, any and variant hold exactly the value last given to them",
     "An optional, expected, any or variant holds the value last assigned to it, emplaced in it or moved or copied into it, whatever it held before and however the value was given; giving a variable leaves the variable alone, and giving a temporary needs no copy. What is held is reported by every question in the same way, asking for another type is refused with the exception of the class, copies are independent, swapping exchanges, and comparisons follow the values and which of them is there. A copy that fails reports its failure to the caller and leaves a proper object; every held value is constructed once and ended once.",
     ["histories", "inputs"], "every short history of two objects of each class with values that can and cannot be copied, in the standards with and without their own such types",
     "No test uses these types except as ready-made results; none assigns over a value, fails a copy or compares errors.",
     ["types/optional.hpp", "types/expected.hpp", "types/any.hpp", "types/variant.hpp", "thirdparty/nonstd/optional.hpp", "thirdparty/nonstd/expected.hpp", "thirdparty/nonstd/any.hpp", "thirdparty/nonstd/variant.hpp"],
     [("assignment of values and objects", "thirdparty/nonstd/variant.hpp copy_assign"), ("swap of value and error", "thirdparty/nonstd/expected.hpp swap"), ("access by type", "thirdparty/nonstd/any.hpp any_cast"), ("comparisons", "thirdparty/nonstd/optional.hpp operator==")], N_RANGE,
     state=[("held value", "the type and value an object holds, if any", "thirdparty/nonstd/variant.hpp type_index"), ("storage", "where the value lives", "thirdparty/nonstd/optional.hpp contained")])
prop("P30", "Text and element views answer from exactly the elements they view",
     "A string_view or span shows exactly the elements from where it begins to where it ends, forwards, backwards and by index, follows every removal, substring, subspan, copy and swap, and reads or writes no element outside. Searching forwards and backwards for a text, a character or any or none of several characters from any position, comparing whole or part, copying and writing to a stream with a width give what the standard defines for strings, including for empty views, empty needles and characters above 127; positions beyond the end are refused with out_of_range where the standard does. Writing through a span changes that one element.",
     ["inputs", "histories"], "every view of every short text and every search, comparison and copy on it from every position; random long texts of three character types; spans of every source",
     "The tests view whole texts only and never search, compare or cut them.",
     ["types/string_view.hpp", "types/span.hpp", "thirdparty/nonstd/string_view.hpp", "thirdparty/nonstd/span.hpp"],
     [("searches", "thirdparty/nonstd/string_view.hpp find_last_of"), ("comparison", "thirdparty/nonstd/string_view.hpp compare"), ("padding", "thirdparty/nonstd/string_view.hpp write_to_stream"), ("parts of a span", "thirdparty/nonstd/span.hpp subspan")], N_RANGE,
     state=[("view", "where the view begins and its length", "thirdparty/nonstd/string_view.hpp data_"), ("elements", "the elements viewed", "thirdparty/nonstd/span.hpp")])
prop("P31", "Objects and calls do not influence each other",
     "What an object gives depends only on how that object was made and on the calls made on it, and what a free function gives only on its arguments: other objects of the same or another kind, earlier calls, objects made, copied, assigned or destroyed in between, and threads that work with other objects at the same time change none of it. A copy, made or assigned, continues exactly where its original was and from then on neither follows the other. This holds for filters, designers, oscillators, envelopes, buffers, transforms and their engines, windows, statistics, features, conversions, resamplers, files, loggers and text functions. (Objects are not shared between threads; the environment and the default settings of the logger are shared by design and are described by P19 and P20; random generators by P26.)",
     ["schedules", "histories", "inputs"], "every history of up to six operations on three objects that makes, uses, copies, assigns and drops them, cast with pairs out of 87 kinds of object and function; threads with kinds of their own, under a race detector",
     "The tests use one object at a time in one thread.",
     ["spectral/internal/libfftw_impl.hpp", "spectral/fft_engine.hpp", "spectral/convolution.hpp", "spectral/correlation.hpp", "spectral/dft.hpp", "statistics/median.hpp", "filter/biquad.hpp", "filter/biquad_cascade.hpp",
      "filter/moving_average_filter.hpp", "filter/moving_median_filter.hpp", "oscillators/sinusoidal.hpp", "experimental/envelope/adsr.hpp", "types/ring_buffer.hpp", "io/resampler.hpp", "io/encoder.hpp", "io/decoder.hpp"],
     [("planning guarded", "spectral/internal/libfftw_impl.hpp fftw_planner"), ("own working memory", "spectral/convolution.hpp conv"), ("copied state", "filter/moving_average_filter.hpp buffer"), ("values copied before ordering", "statistics/median.hpp median")],
     "objects of 87 kinds with four steps and three settings each, up to three at a time; threads run machines of their own; results compared within 1e-9 (single precision 1e-5)",
     state=[("alone", "the answers of each machine in a fresh process", "harness of P31"), ("at", "which step of its machine an object is at", "filter/biquad.hpp w0_")])
