---------------------------------- MODULE Headers ----------------------------------
(***************************************************************************)
(* What including a header gives.  A unit of a program is the sequence of  *)
(* headers it includes; a header is read once per unit, after the headers  *)
(* which it includes itself.  Every header stands on its own: whatever it  *)
(* uses it includes, so a unit compiles whichever headers it includes, in  *)
(* whichever order, and a program of several such units links.  After the  *)
(* include the names of the header, and of those that it gathers, are      *)
(* known.                                                                  *)
(* State: the units of the program.                                        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

\* names a header declares itself
Declares == {
    <<"cedsp/algorithm.h", "array_abs">>, <<"cedsp/algorithm.h", "array_ceil">>, <<"cedsp/algorithm.h", "array_clip">>,
    <<"cedsp/algorithm.h", "array_concatenate">>, <<"cedsp/algorithm.h", "array_floor">>, <<"cedsp/algorithm.h", "array_linspace">>,
    <<"cedsp/algorithm.h", "array_logspace">>, <<"cedsp/algorithm.h", "array_normalize">>, <<"cedsp/algorithm.h", "array_padder">>,
    <<"cedsp/algorithm.h", "array_round">>, <<"cedsp/algorithm.h", "array_scale">>, <<"cedsp/algorithm.h", "array_scale_clip">>,
    <<"cedsp/algorithm.h", "array_trunc">>, <<"cedsp/algorithm.h", "binary_search">>, <<"cedsp/algorithm.h", "contains">>,
    <<"cedsp/algorithm.h", "equal">>, <<"cedsp/algorithm.h", "index_of">>, <<"cedsp/algorithm.h", "linear_search">>,
    <<"cedsp/converter.h", "complex2real">>, <<"cedsp/converter.h", "db2mag">>, <<"cedsp/converter.h", "db2pow">>, <<"cedsp/converter.h", "deg2rad">>,
    <<"cedsp/converter.h", "mag2db">>, <<"cedsp/converter.h", "peak2peak">>, <<"cedsp/converter.h", "peak2rms">>, <<"cedsp/converter.h", "pow2db">>,
    <<"cedsp/converter.h", "rad2deg">>, <<"cedsp/converter.h", "real2complex">>, <<"cedsp/converter.h", "ri2complex">>,
    <<"cedsp/core.h", "exist_environment">>, <<"cedsp/core.h", "get_build_date">>, <<"cedsp/core.h", "get_build_time">>,
    <<"cedsp/core.h", "get_codec_library">>, <<"cedsp/core.h", "get_environment">>, <<"cedsp/core.h", "get_fft_library">>,
    <<"cedsp/core.h", "get_major_version">>, <<"cedsp/core.h", "get_minor_version">>, <<"cedsp/core.h", "get_patch_version">>,
    <<"cedsp/core.h", "get_resample_library">>, <<"cedsp/core.h", "get_version">>, <<"cedsp/core.h", "set_environment">>,
    <<"cedsp/spectral.h", "cepstrum">>, <<"cedsp/spectral.h", "complex_fft">>, <<"cedsp/spectral.h", "complex_ifft">>, <<"cedsp/spectral.h", "conv">>,
    <<"cedsp/spectral.h", "dct">>, <<"cedsp/spectral.h", "fft">>, <<"cedsp/spectral.h", "get_fft_size">>, <<"cedsp/spectral.h", "get_ifft_size">>,
    <<"cedsp/spectral.h", "hartley">>, <<"cedsp/spectral.h", "hilbert">>, <<"cedsp/spectral.h", "idct">>, <<"cedsp/spectral.h", "ifft">>,
    <<"cedsp/spectral.h", "spectrum">>, <<"cedsp/spectral.h", "xcorr">>, <<"cedsp/statistics.h", "generalized_mean">>,
    <<"cedsp/statistics.h", "geometric_mean">>, <<"cedsp/statistics.h", "harmonic_mean">>, <<"cedsp/statistics.h", "kurtosis">>,
    <<"cedsp/statistics.h", "max">>, <<"cedsp/statistics.h", "max_abs">>, <<"cedsp/statistics.h", "mean">>, <<"cedsp/statistics.h", "median">>,
    <<"cedsp/statistics.h", "min">>, <<"cedsp/statistics.h", "min_abs">>, <<"cedsp/statistics.h", "moment">>, <<"cedsp/statistics.h", "norm">>,
    <<"cedsp/statistics.h", "peak">>, <<"cedsp/statistics.h", "peak_abs">>, <<"cedsp/statistics.h", "skewness">>,
    <<"cedsp/statistics.h", "standard_deviation">>, <<"cedsp/statistics.h", "variance">>, <<"cedsp/windowing.h", "bartlett">>,
    <<"cedsp/windowing.h", "blackman">>, <<"cedsp/windowing.h", "blackman_harris">>, <<"cedsp/windowing.h", "blackman_nutall">>,
    <<"cedsp/windowing.h", "boxcar">>, <<"cedsp/windowing.h", "flattop">>, <<"cedsp/windowing.h", "hamming">>, <<"cedsp/windowing.h", "hanning">>,
    <<"cedsp/windowing.h", "rectangular">>, <<"cedsp/windowing.h", "triangular">>, <<"cedsp/windowing.h", "welch">>,
    <<"edsp/algorithm/amplifier.hpp", "edsp::algorithm::amplifier">>, <<"edsp/algorithm/binary_search.hpp", "edsp::algorithm::binary_search">>,
    <<"edsp/algorithm/ceil.hpp", "edsp::algorithm::ceil">>, <<"edsp/algorithm/ceil.hpp", "edsp::ceil">>,
    <<"edsp/algorithm/clipper.hpp", "edsp::algorithm::clipper">>, <<"edsp/algorithm/concatenate.hpp", "edsp::algorithm::concatenate">>,
    <<"edsp/algorithm/derivative.hpp", "edsp::algorithm::derivative">>, <<"edsp/algorithm/equal.hpp", "edsp::algorithm::equal">>,
    <<"edsp/algorithm/fix.hpp", "edsp::algorithm::fix">>, <<"edsp/algorithm/floor.hpp", "edsp::algorithm::floor">>,
    <<"edsp/algorithm/indexof.hpp", "edsp::algorithm::index_of">>, <<"edsp/algorithm/linear_search.hpp", "edsp::algorithm::linear_search">>,
    <<"edsp/algorithm/linspace.hpp", "edsp::algorithm::linspace">>, <<"edsp/algorithm/logspace.hpp", "edsp::algorithm::logspace">>,
    <<"edsp/algorithm/normalize.hpp", "edsp::algorithm::normalize">>, <<"edsp/algorithm/normalize.hpp", "edsp::algorithm::normalize_rms">>,
    <<"edsp/algorithm/padder.hpp", "edsp::algorithm::padder">>, <<"edsp/algorithm/rectify.hpp", "edsp::algorithm::rectify">>,
    <<"edsp/algorithm/round.hpp", "edsp::algorithm::round">>, <<"edsp/algorithm/silence.hpp", "edsp::algorithm::silence">>,
    <<"edsp/auditory/audspace.hpp", "edsp::auditory::auditory_scale">>, <<"edsp/auditory/audspace.hpp", "edsp::auditory::audspace">>,
    <<"edsp/auditory/barkspace.hpp", "edsp::auditory::barkspace">>, <<"edsp/auditory/centspace.hpp", "edsp::auditory::centspace">>,
    <<"edsp/auditory/converter/bark2hertz.hpp", "edsp::auditory::converter::bark2hertz">>,
    <<"edsp/auditory/converter/cent2hertz.hpp", "edsp::auditory::converter::cent2hertz">>,
    <<"edsp/auditory/converter/erb2hertz.hpp", "edsp::auditory::converter::erb2hertz">>,
    <<"edsp/auditory/converter/hertz2bark.hpp", "edsp::auditory::converter::hertz2bark">>,
    <<"edsp/auditory/converter/hertz2cent.hpp", "edsp::auditory::converter::hertz2cent">>,
    <<"edsp/auditory/converter/hertz2erb.hpp", "edsp::auditory::converter::hertz2erb">>,
    <<"edsp/auditory/converter/hertz2mel.hpp", "edsp::auditory::converter::hertz2mel">>,
    <<"edsp/auditory/converter/hertz2mel.hpp", "edsp::auditory::hertz2mel">>,
    <<"edsp/auditory/converter/mel2hertz.hpp", "edsp::auditory::converter::mel2hertz">>, <<"edsp/auditory/erbspace.hpp", "edsp::auditory::erbspace">>,
    <<"edsp/auditory/melspace.hpp", "edsp::auditory::melspace">>, <<"edsp/converter/complex2real.hpp", "edsp::converter::complex2real">>,
    <<"edsp/converter/db2mag.hpp", "edsp::converter::db2mag">>, <<"edsp/converter/db2pow.hpp", "edsp::converter::db2pow">>,
    <<"edsp/converter/deg2rad.hpp", "edsp::converter::deg2rad">>, <<"edsp/converter/mag2db.hpp", "edsp::converter::mag2db">>,
    <<"edsp/converter/mag2db.hpp", "edsp::mag2db">>, <<"edsp/converter/peak2peak.hpp", "edsp::converter::peak2peak">>,
    <<"edsp/converter/peak2rms.hpp", "edsp::converter::peak2rms">>, <<"edsp/converter/pow2db.hpp", "edsp::converter::pow2db">>,
    <<"edsp/converter/rad2deg.hpp", "edsp::converter::rad2deg">>, <<"edsp/converter/real2complex.hpp", "edsp::converter::real2complex">>,
    <<"edsp/core/library_info.hpp", "edsp::core::codec_lib">>, <<"edsp/core/library_info.hpp", "edsp::core::fft_lib">>,
    <<"edsp/core/library_info.hpp", "edsp::core::library_info">>, <<"edsp/core/library_info.hpp", "edsp::core::resample_lib">>,
    <<"edsp/core/logger.hpp", "edsp::core::endl">>, <<"edsp/core/logger.hpp", "edsp::core::logger">>, <<"edsp/core/logger.hpp", "edsp::logger">>,
    <<"edsp/core/system.hpp", "edsp::core::compilers">>, <<"edsp/core/system.hpp", "edsp::core::processors">>,
    <<"edsp/core/system.hpp", "edsp::core::system_env">>, <<"edsp/core/system.hpp", "edsp::core::system_info">>,
    <<"edsp/core/system.hpp", "edsp::core::systems">>, <<"edsp/experimental/envelope/adsr.hpp", "edsp::envelope::adsr">>,
    <<"edsp/experimental/envelope/ar.hpp", "edsp::envelope::ar">>,
    <<"edsp/experimental/quantizer/mu_law_compressor.hpp", "edsp::quantizer::inverse_mu_law_compression">>,
    <<"edsp/experimental/quantizer/mu_law_compressor.hpp", "edsp::quantizer::mu_law_compression">>,
    <<"edsp/feature/perceptual/loudness.hpp", "edsp::feature::perceptual::loudness">>,
    <<"edsp/feature/spectral/spectral_centroid.hpp", "edsp::feature::spectral::spectral_centroid">>,
    <<"edsp/feature/spectral/spectral_crest.hpp", "edsp::feature::spectral::spectral_crest">>,
    <<"edsp/feature/spectral/spectral_decrease.hpp", "edsp::feature::spectral::spectral_decrease">>,
    <<"edsp/feature/spectral/spectral_entropy.hpp", "edsp::feature::spectral::spectral_entropy">>,
    <<"edsp/feature/spectral/spectral_flatness.hpp", "edsp::feature::spectral::spectral_flatness">>,
    <<"edsp/feature/spectral/spectral_flux.hpp", "edsp::feature::spectral::spectral_flux">>,
    <<"edsp/feature/spectral/spectral_irregularity.hpp", "edsp::feature::spectral::spectral_irregularity">>,
    <<"edsp/feature/spectral/spectral_kurtosis.hpp", "edsp::feature::spectral::spectral_kurtosis">>,
    <<"edsp/feature/spectral/spectral_rolloff.hpp", "edsp::feature::spectral::spectral_rolloff">>,
    <<"edsp/feature/spectral/spectral_skewness.hpp", "edsp::feature::spectral::spectral_skewness">>,
    <<"edsp/feature/spectral/spectral_slope.hpp", "edsp::feature::spectral::spectral_slope">>,
    <<"edsp/feature/spectral/spectral_spread.hpp", "edsp::feature::spectral::spectral_spread">>,
    <<"edsp/feature/spectral/spectral_variation.hpp", "edsp::feature::spectral::spectral_variation">>,
    <<"edsp/feature/statistics/centroid.hpp", "edsp::feature::statistics::centroid">>,
    <<"edsp/feature/statistics/centroid.hpp", "edsp::feature::statistics::weighted_centroid">>,
    <<"edsp/feature/statistics/crest.hpp", "edsp::feature::statistics::crest">>,
    <<"edsp/feature/statistics/decrease.hpp", "edsp::feature::statistics::decrease">>,
    <<"edsp/feature/statistics/entropy.hpp", "edsp::feature::statistics::entropy">>,
    <<"edsp/feature/statistics/flatness.hpp", "edsp::feature::statistics::flatness">>,
    <<"edsp/feature/statistics/flux.hpp", "edsp::feature::statistics::flux">>,
    <<"edsp/feature/statistics/rolloff.hpp", "edsp::feature::statistics::rolloff">>,
    <<"edsp/feature/statistics/slope.hpp", "edsp::feature::statistics::slope">>,
    <<"edsp/feature/statistics/spread.hpp", "edsp::feature::statistics::spread">>,
    <<"edsp/feature/statistics/spread.hpp", "edsp::feature::statistics::weighted_spread">>,
    <<"edsp/feature/statistics/variation.hpp", "edsp::feature::statistics::variation">>,
    <<"edsp/feature/temporal/amdf.hpp", "edsp::feature::temporal::amdf">>, <<"edsp/feature/temporal/asdf.hpp", "edsp::feature::temporal::asdf">>,
    <<"edsp/feature/temporal/azcr.hpp", "edsp::feature::temporal::azcr">>, <<"edsp/feature/temporal/duration.hpp", "edsp::feature::temporal::duration">>,
    <<"edsp/feature/temporal/duration.hpp", "edsp::feature::temporal::effective_duration">>,
    <<"edsp/feature/temporal/energy.hpp", "edsp::feature::temporal::energy">>,
    <<"edsp/feature/temporal/leq.hpp", "edsp::feature::temporal::continuous_leq">>, <<"edsp/feature/temporal/leq.hpp", "edsp::feature::temporal::leq">>,
    <<"edsp/feature/temporal/power.hpp", "edsp::feature::temporal::power">>, <<"edsp/feature/temporal/rms.hpp", "edsp::feature::temporal::rms">>,
    <<"edsp/feature/temporal/rssq.hpp", "edsp::feature::temporal::rssq">>, <<"edsp/feature/temporal/snr.hpp", "edsp::feature::temporal::snr">>,
    <<"edsp/filter.hpp", "edsp::filter::designer_type">>, <<"edsp/filter.hpp", "edsp::filter::make_filter">>,
    <<"edsp/filter/biquad.hpp", "edsp::filter::biquad">>, <<"edsp/filter/biquad.hpp", "edsp::filter::filter_type">>,
    <<"edsp/filter/biquad_cascade.hpp", "edsp::filter::biquad_cascade">>, <<"edsp/filter/moving_average_filter.hpp", "edsp::filter::moving_average">>,
    <<"edsp/filter/moving_median_filter.hpp", "edsp::filter::moving_median">>, <<"edsp/filter/moving_rms_filter.hpp", "edsp::filter::moving_rms">>,
    <<"edsp/io/decoder.hpp", "edsp::io::decoder">>, <<"edsp/io/encoder.hpp", "edsp::io::encoder">>, <<"edsp/io/metadata.hpp", "edsp::io::metadata">>,
    <<"edsp/io/resampler.hpp", "edsp::io::resample_quality">>, <<"edsp/io/resampler.hpp", "edsp::io::resampler">>,
    <<"edsp/math/complex.hpp", "edsp::math::conj">>, <<"edsp/math/complex.hpp", "edsp::math::imag">>,
    <<"edsp/math/complex.hpp", "edsp::math::infinity">>, <<"edsp/math/complex.hpp", "edsp::math::is_inf">>,
    <<"edsp/math/complex.hpp", "edsp::math::is_nan">>, <<"edsp/math/complex.hpp", "edsp::math::magnitude">>,
    <<"edsp/math/complex.hpp", "edsp::math::phase">>, <<"edsp/math/complex.hpp", "edsp::math::real">>, <<"edsp/math/constant.hpp", "edsp::constants">>,
    <<"edsp/math/constant.hpp", "edsp::math::constants">>, <<"edsp/math/numeric.hpp", "edsp::math::distance">>,
    <<"edsp/math/numeric.hpp", "edsp::math::distances">>, <<"edsp/math/numeric.hpp", "edsp::math::fract">>,
    <<"edsp/math/numeric.hpp", "edsp::math::half">>, <<"edsp/math/numeric.hpp", "edsp::math::inv">>,
    <<"edsp/math/numeric.hpp", "edsp::math::is_denormal">>, <<"edsp/math/numeric.hpp", "edsp::math::is_even">>,
    <<"edsp/math/numeric.hpp", "edsp::math::is_inf">>, <<"edsp/math/numeric.hpp", "edsp::math::is_nan">>,
    <<"edsp/math/numeric.hpp", "edsp::math::is_negative">>, <<"edsp/math/numeric.hpp", "edsp::math::is_normal">>,
    <<"edsp/math/numeric.hpp", "edsp::math::is_odd">>, <<"edsp/math/numeric.hpp", "edsp::math::is_power_two">>,
    <<"edsp/math/numeric.hpp", "edsp::math::is_prime">>, <<"edsp/math/numeric.hpp", "edsp::math::is_zero">>,
    <<"edsp/math/numeric.hpp", "edsp::math::next_power_two">>, <<"edsp/math/numeric.hpp", "edsp::math::rand">>,
    <<"edsp/math/numeric.hpp", "edsp::math::sign">>, <<"edsp/math/numeric.hpp", "edsp::math::square">>,
    <<"edsp/meta/advance.hpp", "edsp::meta::advance">>, <<"edsp/meta/cast.hpp", "edsp::meta::sc">>, <<"edsp/meta/contains.hpp", "edsp::meta::contains">>,
    <<"edsp/meta/data.hpp", "edsp::meta::data">>, <<"edsp/meta/empty.hpp", "edsp::meta::empty">>, <<"edsp/meta/ensure.hpp", "edsp::meta::ensure">>,
    <<"edsp/meta/equal.hpp", "edsp::meta::equal">>, <<"edsp/meta/expects.hpp", "edsp::meta::expects">>,
    <<"edsp/meta/is_char.hpp", "edsp::meta::is_char">>, <<"edsp/meta/is_iterator.hpp", "edsp::meta::is_bidirectional_iterator">>,
    <<"edsp/meta/is_iterator.hpp", "edsp::meta::is_forward_iterator">>, <<"edsp/meta/is_iterator.hpp", "edsp::meta::is_input_iterator">>,
    <<"edsp/meta/is_iterator.hpp", "edsp::meta::is_iterator">>, <<"edsp/meta/is_iterator.hpp", "edsp::meta::is_output_iterator">>,
    <<"edsp/meta/is_iterator.hpp", "edsp::meta::is_random_access_iterator">>, <<"edsp/meta/is_null.hpp", "edsp::meta::is_null">>,
    <<"edsp/meta/is_signed.hpp", "edsp::meta::is_signed">>, <<"edsp/meta/is_unsigned.hpp", "edsp::meta::is_unsigned">>,
    <<"edsp/meta/iterator.hpp", "edsp::meta::diff_type_t">>, <<"edsp/meta/iterator.hpp", "edsp::meta::value_type_t">>,
    <<"edsp/meta/size.hpp", "edsp::meta::size">>, <<"edsp/meta/type_traits.hpp", "edsp::meta::add_const_t">>,
    <<"edsp/meta/type_traits.hpp", "edsp::meta::add_cv_t">>, <<"edsp/meta/type_traits.hpp", "edsp::meta::add_lvalue_reference_t">>,
    <<"edsp/meta/type_traits.hpp", "edsp::meta::add_pointer_t">>, <<"edsp/meta/type_traits.hpp", "edsp::meta::add_rvalue_reference_t">>,
    <<"edsp/meta/type_traits.hpp", "edsp::meta::add_volatile_t">>, <<"edsp/meta/type_traits.hpp", "edsp::meta::common_type_t">>,
    <<"edsp/meta/type_traits.hpp", "edsp::meta::conditional_t">>, <<"edsp/meta/type_traits.hpp", "edsp::meta::decay_t">>,
    <<"edsp/meta/type_traits.hpp", "edsp::meta::enable_if_t">>, <<"edsp/meta/type_traits.hpp", "edsp::meta::make_signed_t">>,
    <<"edsp/meta/type_traits.hpp", "edsp::meta::make_unsigned_t">>, <<"edsp/meta/type_traits.hpp", "edsp::meta::remove_all_extents_t">>,
    <<"edsp/meta/type_traits.hpp", "edsp::meta::remove_const_t">>, <<"edsp/meta/type_traits.hpp", "edsp::meta::remove_cv_t">>,
    <<"edsp/meta/type_traits.hpp", "edsp::meta::remove_extent_t">>, <<"edsp/meta/type_traits.hpp", "edsp::meta::remove_pointer_t">>,
    <<"edsp/meta/type_traits.hpp", "edsp::meta::remove_reference_t">>, <<"edsp/meta/type_traits.hpp", "edsp::meta::remove_volatile_t">>,
    <<"edsp/meta/type_traits.hpp", "edsp::meta::result_of_t">>, <<"edsp/meta/type_traits.hpp", "edsp::meta::underlying_type_t">>,
    <<"edsp/meta/unused.hpp", "edsp::meta::unused">>, <<"edsp/oscillator.hpp", "edsp::oscillators::make_oscillator">>,
    <<"edsp/oscillators/sawtooth.hpp", "edsp::oscillators::sawtooth_oscillator">>,
    <<"edsp/oscillators/sinusoidal.hpp", "edsp::oscillators::oscillator">>, <<"edsp/oscillators/sinusoidal.hpp", "edsp::oscillators::sin_oscillator">>,
    <<"edsp/oscillators/square.hpp", "edsp::oscillators::square_oscillator">>,
    <<"edsp/oscillators/triangular.hpp", "edsp::oscillators::triangular_oscillator">>,
    <<"edsp/random/binary_generator.hpp", "edsp::random::binary_generator">>,
    <<"edsp/random/constant_generator.hpp", "edsp::random::constant_generator">>,
    <<"edsp/random/noise/brown_noise_generator.hpp", "edsp::random::brown_noise_generator">>,
    <<"edsp/random/noise/perlin_noise_generator.hpp", "edsp::random::perlin_noise_generator">>,
    <<"edsp/random/noise/pink_noise_generator.hpp", "edsp::random::pink_noise_generator">>,
    <<"edsp/random/noise/white_noise_generator.hpp", "edsp::random::white_noise_generator">>,
    <<"edsp/random/random_generator.hpp", "edsp::random::DistributionType">>, <<"edsp/random/random_generator.hpp", "edsp::random::random_generator">>,
    <<"edsp/spectral/cepstrum.hpp", "edsp::spectral::cepstrum">>, <<"edsp/spectral/convolution.hpp", "edsp::spectral::conv">>,
    <<"edsp/spectral/correlation.hpp", "edsp::spectral::CorrelationScale">>, <<"edsp/spectral/correlation.hpp", "edsp::spectral::xcorr">>,
    <<"edsp/spectral/dct.hpp", "edsp::spectral::dct">>, <<"edsp/spectral/dct.hpp", "edsp::spectral::idct">>, <<"edsp/spectral/dft.hpp", "edsp::dft">>,
    <<"edsp/spectral/dft.hpp", "edsp::spectral::cdft">>, <<"edsp/spectral/dft.hpp", "edsp::spectral::cidft">>,
    <<"edsp/spectral/dft.hpp", "edsp::spectral::dft">>, <<"edsp/spectral/dft.hpp", "edsp::spectral::idft">>,
    <<"edsp/spectral/fft_engine.hpp", "edsp::spectral::fft_engine">>, <<"edsp/spectral/fft_engine.hpp", "edsp::spectral::make_fft_size">>,
    <<"edsp/spectral/fft_engine.hpp", "edsp::spectral::make_ifft_size">>, <<"edsp/spectral/hartley.hpp", "edsp::spectral::hartley">>,
    <<"edsp/spectral/hilbert.hpp", "edsp::spectral::hilbert">>, <<"edsp/spectral/spectrum.hpp", "edsp::spectral::spectrum">>,
    <<"edsp/statistics/generalized_mean.hpp", "edsp::statistics::generalized_mean">>,
    <<"edsp/statistics/geometric_mean.hpp", "edsp::statistics::geometric_mean">>,
    <<"edsp/statistics/harmonic_mean.hpp", "edsp::statistics::harmonic_mean">>, <<"edsp/statistics/histogram.hpp", "edsp::statistics::histogram">>,
    <<"edsp/statistics/kurtosis.hpp", "edsp::statistics::kurtosis">>, <<"edsp/statistics/max.hpp", "edsp::statistics::max">>,
    <<"edsp/statistics/max.hpp", "edsp::statistics::maxabs">>, <<"edsp/statistics/mean.hpp", "edsp::statistics::mean">>,
    <<"edsp/statistics/median.hpp", "edsp::statistics::median">>, <<"edsp/statistics/min.hpp", "edsp::statistics::min">>,
    <<"edsp/statistics/min.hpp", "edsp::statistics::minabs">>, <<"edsp/statistics/moment.hpp", "edsp::statistics::moment">>,
    <<"edsp/statistics/norm.hpp", "edsp::statistics::norm">>, <<"edsp/statistics/peak.hpp", "edsp::statistics::peak">>,
    <<"edsp/statistics/peak.hpp", "edsp::statistics::peakabs">>, <<"edsp/statistics/skewness.hpp", "edsp::statistics::skewness">>,
    <<"edsp/statistics/variance.hpp", "edsp::statistics::standard_deviation">>, <<"edsp/statistics/variance.hpp", "edsp::statistics::variance">>,
    <<"edsp/string/join.hpp", "edsp::string::join">>, <<"edsp/string/split.hpp", "edsp::string::split">>,
    <<"edsp/string/to_lower.hpp", "edsp::string::tolower">>, <<"edsp/string/to_upper.hpp", "edsp::string::toupper">>,
    <<"edsp/string/trim.hpp", "edsp::string::ltrim">>, <<"edsp/string/trim.hpp", "edsp::string::rtrim">>,
    <<"edsp/string/trim.hpp", "edsp::string::trim">>, <<"edsp/types/any.hpp", "edsp::any">>, <<"edsp/types/expected.hpp", "edsp::expected">>,
    <<"edsp/types/fixed_ring_buffer.hpp", "edsp::types::fixed_ring_buffer">>, <<"edsp/types/optional.hpp", "edsp::optional">>,
    <<"edsp/types/ring_buffer.hpp", "edsp::ring_buffer">>, <<"edsp/types/ring_buffer.hpp", "edsp::types::ring_buffer">>,
    <<"edsp/types/ring_span.hpp", "edsp::ring_span">>, <<"edsp/types/span.hpp", "edsp::span">>, <<"edsp/types/string_view.hpp", "edsp::string_view">>,
    <<"edsp/types/timestamp.hpp", "edsp::types::timestamp">>, <<"edsp/types/variant.hpp", "edsp::variant">>,
    <<"edsp/windowing.hpp", "edsp::windowing::WindowType">>, <<"edsp/windowing.hpp", "edsp::windowing::make_window">>,
    <<"edsp/windowing/bartlett.hpp", "edsp::windowing::bartlett">>, <<"edsp/windowing/blackman.hpp", "edsp::windowing::blackman">>,
    <<"edsp/windowing/blackman_harris.hpp", "edsp::windowing::blackman_harris">>,
    <<"edsp/windowing/blackman_nuttall.hpp", "edsp::windowing::blackman_nutall">>, <<"edsp/windowing/boxcar.hpp", "edsp::windowing::boxcar">>,
    <<"edsp/windowing/flattop.hpp", "edsp::windowing::flattop">>, <<"edsp/windowing/hamming.hpp", "edsp::windowing::hamming">>,
    <<"edsp/windowing/hanning.hpp", "edsp::windowing::hanning">>, <<"edsp/windowing/rectangular.hpp", "edsp::windowing::rectangular">>,
    <<"edsp/windowing/triangular.hpp", "edsp::windowing::triangular">>, <<"edsp/windowing/welch.hpp", "edsp::windowing::welch">>}

\* headers which gather others
Gathers == {
    <<"edsp/algorithm.hpp", "edsp/algorithm/amplifier.hpp">>, <<"edsp/algorithm.hpp", "edsp/algorithm/binary_search.hpp">>,
    <<"edsp/algorithm.hpp", "edsp/algorithm/ceil.hpp">>, <<"edsp/algorithm.hpp", "edsp/algorithm/clipper.hpp">>,
    <<"edsp/algorithm.hpp", "edsp/algorithm/concatenate.hpp">>, <<"edsp/algorithm.hpp", "edsp/algorithm/equal.hpp">>,
    <<"edsp/algorithm.hpp", "edsp/algorithm/fix.hpp">>, <<"edsp/algorithm.hpp", "edsp/algorithm/floor.hpp">>,
    <<"edsp/algorithm.hpp", "edsp/algorithm/indexof.hpp">>, <<"edsp/algorithm.hpp", "edsp/algorithm/linear_search.hpp">>,
    <<"edsp/algorithm.hpp", "edsp/algorithm/linspace.hpp">>, <<"edsp/algorithm.hpp", "edsp/algorithm/logspace.hpp">>,
    <<"edsp/algorithm.hpp", "edsp/algorithm/normalize.hpp">>, <<"edsp/algorithm.hpp", "edsp/algorithm/padder.hpp">>,
    <<"edsp/algorithm.hpp", "edsp/algorithm/rectify.hpp">>, <<"edsp/algorithm.hpp", "edsp/algorithm/round.hpp">>,
    <<"edsp/converter.hpp", "edsp/converter/complex2real.hpp">>, <<"edsp/converter.hpp", "edsp/converter/db2mag.hpp">>,
    <<"edsp/converter.hpp", "edsp/converter/db2pow.hpp">>, <<"edsp/converter.hpp", "edsp/converter/deg2rad.hpp">>,
    <<"edsp/converter.hpp", "edsp/converter/mag2db.hpp">>, <<"edsp/converter.hpp", "edsp/converter/peak2peak.hpp">>,
    <<"edsp/converter.hpp", "edsp/converter/peak2rms.hpp">>, <<"edsp/converter.hpp", "edsp/converter/pow2db.hpp">>,
    <<"edsp/converter.hpp", "edsp/converter/rad2deg.hpp">>, <<"edsp/converter.hpp", "edsp/converter/real2complex.hpp">>,
    <<"edsp/filter.hpp", "edsp/filter/biquad.hpp">>, <<"edsp/filter.hpp", "edsp/filter/biquad_cascade.hpp">>,
    <<"edsp/filter.hpp", "edsp/filter/moving_average_filter.hpp">>, <<"edsp/filter.hpp", "edsp/filter/moving_median_filter.hpp">>,
    <<"edsp/filter.hpp", "edsp/filter/moving_rms_filter.hpp">>, <<"edsp/io.hpp", "edsp/io/decoder.hpp">>, <<"edsp/io.hpp", "edsp/io/encoder.hpp">>,
    <<"edsp/io.hpp", "edsp/io/resampler.hpp">>, <<"edsp/math.hpp", "edsp/math/complex.hpp">>, <<"edsp/math.hpp", "edsp/math/constant.hpp">>,
    <<"edsp/math.hpp", "edsp/math/numeric.hpp">>, <<"edsp/oscillator.hpp", "edsp/oscillators/sawtooth.hpp">>,
    <<"edsp/oscillator.hpp", "edsp/oscillators/sinusoidal.hpp">>, <<"edsp/oscillator.hpp", "edsp/oscillators/square.hpp">>,
    <<"edsp/oscillator.hpp", "edsp/oscillators/triangular.hpp">>, <<"edsp/random.hpp", "edsp/math/numeric.hpp">>,
    <<"edsp/random.hpp", "edsp/random/binary_generator.hpp">>, <<"edsp/random.hpp", "edsp/random/constant_generator.hpp">>,
    <<"edsp/random.hpp", "edsp/random/noise/brown_noise_generator.hpp">>, <<"edsp/random.hpp", "edsp/random/noise/perlin_noise_generator.hpp">>,
    <<"edsp/random.hpp", "edsp/random/noise/pink_noise_generator.hpp">>, <<"edsp/random.hpp", "edsp/random/noise/white_noise_generator.hpp">>,
    <<"edsp/random.hpp", "edsp/random/random_generator.hpp">>, <<"edsp/statistics.hpp", "edsp/statistics/generalized_mean.hpp">>,
    <<"edsp/statistics.hpp", "edsp/statistics/geometric_mean.hpp">>, <<"edsp/statistics.hpp", "edsp/statistics/harmonic_mean.hpp">>,
    <<"edsp/statistics.hpp", "edsp/statistics/histogram.hpp">>, <<"edsp/statistics.hpp", "edsp/statistics/kurtosis.hpp">>,
    <<"edsp/statistics.hpp", "edsp/statistics/max.hpp">>, <<"edsp/statistics.hpp", "edsp/statistics/mean.hpp">>,
    <<"edsp/statistics.hpp", "edsp/statistics/median.hpp">>, <<"edsp/statistics.hpp", "edsp/statistics/min.hpp">>,
    <<"edsp/statistics.hpp", "edsp/statistics/moment.hpp">>, <<"edsp/statistics.hpp", "edsp/statistics/norm.hpp">>,
    <<"edsp/statistics.hpp", "edsp/statistics/peak.hpp">>, <<"edsp/statistics.hpp", "edsp/statistics/skewness.hpp">>,
    <<"edsp/statistics.hpp", "edsp/statistics/variance.hpp">>, <<"edsp/windowing.hpp", "edsp/windowing/bartlett.hpp">>,
    <<"edsp/windowing.hpp", "edsp/windowing/blackman.hpp">>, <<"edsp/windowing.hpp", "edsp/windowing/blackman_harris.hpp">>,
    <<"edsp/windowing.hpp", "edsp/windowing/blackman_nuttall.hpp">>, <<"edsp/windowing.hpp", "edsp/windowing/boxcar.hpp">>,
    <<"edsp/windowing.hpp", "edsp/windowing/flattop.hpp">>, <<"edsp/windowing.hpp", "edsp/windowing/hamming.hpp">>,
    <<"edsp/windowing.hpp", "edsp/windowing/hanning.hpp">>, <<"edsp/windowing.hpp", "edsp/windowing/rectangular.hpp">>,
    <<"edsp/windowing.hpp", "edsp/windowing/triangular.hpp">>, <<"edsp/windowing.hpp", "edsp/windowing/welch.hpp">>}

Known(h) == {p[2] : p \in {q \in Declares : q[1] = h \/ <<h, q[1]>> \in Gathers}}

HeadersStart == <<>>
HeadersEval(st, e) ==
  CASE e.op = "unit" -> [st |-> Append(st, e.h), ok |-> e.ok]
    [] e.op = "link" -> [st |-> st, ok |-> Len(st) > 0 /\ e.ok]
    [] e.op = "name" -> [st |-> st, ok |-> e.ok = (e.n \in Known(e.h[1]))]
=====================================================================================
