// Many kinds of objects and functions, side by side.  A "machine" is an object with a fixed program of steps (or a function
// called with a fixed sequence of arguments); whatever else runs in the process, its answers are those it gives alone, in a
// fresh process.
#include "common.hpp"
#include <algorithm>
#include <atomic>
#include <limits>
#include <numeric>
#include <functional>
#include <list>
#include <mutex>
#include <thread>
#include <condition_variable>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <edsp/math/constant.hpp>
#include <edsp/math/complex.hpp>
#include <edsp/math/numeric.hpp>
#include <edsp/meta/ensure.hpp>
#include <edsp/meta/expects.hpp>
#include <edsp/filter.hpp>
#include <edsp/filter/moving_average_filter.hpp>
#include <edsp/filter/moving_rms_filter.hpp>
#include <edsp/filter/moving_median_filter.hpp>
#include <edsp/oscillator.hpp>
#include <edsp/experimental/envelope/adsr.hpp>
#include <edsp/experimental/envelope/ar.hpp>
#include <edsp/experimental/quantizer/mu_law_compressor.hpp>
#include <edsp/types/ring_buffer.hpp>
#include <edsp/types/fixed_ring_buffer.hpp>
#include <edsp/spectral/fft_engine.hpp>
#include <edsp/spectral/dft.hpp>
#include <edsp/spectral/dct.hpp>
#include <edsp/spectral/hartley.hpp>
#include <edsp/spectral/hilbert.hpp>
#include <edsp/spectral/spectrum.hpp>
#include <edsp/spectral/cepstrum.hpp>
#include <edsp/spectral/convolution.hpp>
#include <edsp/spectral/correlation.hpp>
#include <edsp/statistics.hpp>
#include <edsp/statistics/median.hpp>
#include <edsp/statistics/kurtosis.hpp>
#include <edsp/statistics/skewness.hpp>
#include <edsp/statistics/variance.hpp>
#include <edsp/feature/temporal/amdf.hpp>
#include <edsp/feature/temporal/asdf.hpp>
#include <edsp/feature/temporal/azcr.hpp>
#include <edsp/feature/temporal/duration.hpp>
#include <edsp/feature/temporal/energy.hpp>
#include <edsp/feature/temporal/leq.hpp>
#include <edsp/feature/temporal/power.hpp>
#include <edsp/feature/temporal/rms.hpp>
#include <edsp/feature/temporal/rssq.hpp>
#include <edsp/feature/temporal/snr.hpp>
#include <edsp/feature/perceptual/loudness.hpp>
#include <edsp/feature/spectral/spectral_centroid.hpp>
#include <edsp/feature/spectral/spectral_crest.hpp>
#include <edsp/feature/spectral/spectral_decrease.hpp>
#include <edsp/feature/spectral/spectral_entropy.hpp>
#include <edsp/feature/spectral/spectral_flatness.hpp>
#include <edsp/feature/spectral/spectral_flux.hpp>
#include <edsp/feature/spectral/spectral_irregularity.hpp>
#include <edsp/feature/spectral/spectral_kurtosis.hpp>
#include <edsp/feature/spectral/spectral_rolloff.hpp>
#include <edsp/feature/spectral/spectral_skewness.hpp>
#include <edsp/feature/spectral/spectral_slope.hpp>
#include <edsp/feature/spectral/spectral_spread.hpp>
#include <edsp/feature/spectral/spectral_variation.hpp>
#include <edsp/algorithm.hpp>
#include <edsp/algorithm/derivative.hpp>
#include <edsp/auditory/audspace.hpp>
#include <edsp/windowing.hpp>
#include <edsp/io/resampler.hpp>
#include <edsp/io/encoder.hpp>
#include <edsp/io/decoder.hpp>
#include <edsp/string/join.hpp>
#include <edsp/string/split.hpp>
#include <edsp/string/to_lower.hpp>
#include <edsp/string/to_upper.hpp>
#include <edsp/string/trim.hpp>
#include <edsp/core/logger.hpp>

// The planner of FFTW is one object shared by the whole process, and only its execute functions may
// run at the same time.  The library itself is not instrumented, so these stand before it and touch a
// plain variable: whoever calls them unguarded is seen by the race detector, whatever the timing.
#include <dlfcn.h>
static volatile long planner_of_doubles = 0, planner_of_floats = 0;
template <typename F>
static F behind(const char* name) {
    auto f = reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
    if (!f) {
        std::fprintf(stderr, "no %s\n", name);
        std::_Exit(3);
    }
    return f;
}
#define BEFORE(P, C, R, STATE)                                                                                                  \
    extern "C" P##plan P##plan_dft_1d(int n, C* a, C* b, int s, unsigned g) {                                                    \
        STATE = STATE + 1;                                                                                                       \
        static const auto f = behind<P##plan (*)(int, C*, C*, int, unsigned)>(#P "plan_dft_1d");                                 \
        return f(n, a, b, s, g);                                                                                                 \
    }                                                                                                                            \
    extern "C" P##plan P##plan_dft_r2c_1d(int n, R* a, C* b, unsigned g) {                                                       \
        STATE = STATE + 1;                                                                                                       \
        static const auto f = behind<P##plan (*)(int, R*, C*, unsigned)>(#P "plan_dft_r2c_1d");                                  \
        return f(n, a, b, g);                                                                                                    \
    }                                                                                                                            \
    extern "C" P##plan P##plan_dft_c2r_1d(int n, C* a, R* b, unsigned g) {                                                       \
        STATE = STATE + 1;                                                                                                       \
        static const auto f = behind<P##plan (*)(int, C*, R*, unsigned)>(#P "plan_dft_c2r_1d");                                  \
        return f(n, a, b, g);                                                                                                    \
    }                                                                                                                            \
    extern "C" P##plan P##plan_r2r_1d(int n, R* a, R* b, fftw_r2r_kind k, unsigned g) {                                          \
        STATE = STATE + 1;                                                                                                       \
        static const auto f = behind<P##plan (*)(int, R*, R*, fftw_r2r_kind, unsigned)>(#P "plan_r2r_1d");                       \
        return f(n, a, b, k, g);                                                                                                 \
    }                                                                                                                            \
    extern "C" void P##destroy_plan(P##plan p) {                                                                                 \
        STATE = STATE + 1;                                                                                                       \
        static const auto f = behind<void (*)(P##plan)>(#P "destroy_plan");                                                      \
        f(p);                                                                                                                    \
    }
BEFORE(fftw_, fftw_complex, double, planner_of_doubles)
BEFORE(fftwf_, fftwf_complex, float, planner_of_floats)
using namespace vh;
using Nums = std::vector<double>;
using C = std::complex<double>;
namespace al = edsp::algorithm;
namespace ft = edsp::feature;
namespace st = edsp::statistics;
namespace wi = edsp::windowing;
namespace flt = edsp::filter;
namespace osc = edsp::oscillators;
namespace io = edsp::io;

static std::string dir;
static std::atomic<int> serial{0};

static int size_of(int f, int k) {
    static const int n[3][4] = {{8, 5, 8, 12}, {8, 12, 3, 8}, {5, 8, 16, 4}};
    return n[f][k % 4];
}
static Nums signal(int f, int k, int n = 0) {
    Nums x(n ? n : size_of(f, k));
    for (std::size_t i = 0; i < x.size(); ++i) x[i] = std::sin(.7 * (f + 1) * i + k + .3) + .4 * std::cos(1.9 * i * (k + 1) + f);
    return x;
}
static Nums positive(int f, int k, int n = 0) {
    auto x = signal(f, k, n);
    for (double& v : x) v = std::abs(v) + .1 + .01 * f;
    return x;
}
static Nums flat(const std::vector<C>& c) {
    Nums r;
    for (const C& x : c) { r.push_back(x.real()); r.push_back(x.imag()); }
    return r;
}
static Nums codes(const std::string& s) {
    Nums r;
    for (unsigned char c : s) r.push_back(c);
    return r;
}

struct Machine {
    virtual ~Machine() = default;
    virtual Nums step(int k) = 0;
    virtual Machine* copy() const { return nullptr; }
    virtual bool assign(const Machine&) { return false; }
};
// an object and how it is used
template <typename O, typename F>
struct Object : Machine {
    O o;
    F f;
    Object(const O& x, F g) : o(x), f(g) {}
    Nums step(int k) override { return f(o, k); }
    Machine* copy() const override { return new Object(*this); }
    bool assign(const Machine& m) override {
        if constexpr (std::is_copy_assignable<O>::value) { o = static_cast<const Object&>(m).o; return true; }
        return false;
    }
};
template <typename O, typename F>
Machine* object(const O& o, F f) { return new Object<O, F>(o, f); }
// an object that cannot be copied
template <typename O, typename F>
struct Unique : Machine {
    std::unique_ptr<O> o;
    F f;
    Unique(O* x, F g) : o(x), f(g) {}
    Nums step(int k) override { return f(*o, k); }
};
template <typename O, typename F>
Machine* unique(O* o, F f) { return new Unique<O, F>(o, f); }
template <typename F>
Machine* function(F f) {
    return object(0, [f](int&, int k) { return f(k); });
}
template <typename O>
Machine* filter_of(const O& o, int f) {
    return object(o, [f](O& x, int k) {
        if (k == 2) x.reset();
        auto s = signal(f, k);
        Nums y(s.size());
        x.filter(s.begin(), s.end(), y.begin());
        return y;
    });
}
template <typename O>
Machine* osc_of(const O& o, int f) {
    return object(o, [f](O& x, int k) {
        if (k == 2) x.set_frequency(70 + 30 * f);
        if (k == 3) x.reset();
        Nums y(size_of(f, k));
        std::generate(y.begin(), y.end(), std::ref(x));
        return y;
    });
}
template <typename F>
Machine* scalar(int f, bool pos, F g) {
    return function([=](int k) {
        auto x = pos ? positive(f, k) : signal(f, k);
        auto y = positive(f + 1 > 2 ? 0 : f + 1, k, x.size());
        const auto kx = x, ky = y;
        Nums r{static_cast<double>(g(x, y))};
        if (kx != x || ky != y) r.push_back(-1);
        return r;
    });
}
template <typename F>
Machine* array(int f, F g) { // g(first, last, destination)
    return function([=](int k) {
        auto x = signal(f, k);
        Nums y(x.size());
        g(x.begin(), x.end(), y.begin());
        return y;
    });
}
struct Recorder { // writes a file, then reads it
    std::string p;
    io::encoder<float> e;
    io::decoder<float, 64> d;
    Recorder(int f) : p(dir + "/" + std::to_string(::getpid()) + "_" + std::to_string(serial++) + ".wav"), e(8000 + 100 * f, 1 + f % 2) { e.open(p); }
    ~Recorder() { e.close(); d.close(); ::unlink(p.c_str()); }
};

static Machine* make(const std::string& kind, int f) {
#define SCALAR(NAME, POS, EXPR) if (kind == NAME) return scalar(f, POS, [](Nums& x, Nums& y) { (void) y; return EXPR; })
#define ARRAY(NAME, EXPR) if (kind == NAME) return array(f, [](auto a, auto z, auto d) { EXPR; })
    if (kind == "moving_average") return filter_of(flt::moving_average<double>(3 + f), f);
    if (kind == "moving_rms") return filter_of(flt::moving_rms<double>(3 + f), f);
    if (kind == "moving_median") return filter_of(flt::moving_median<double>(3 + f), f);
    if (kind == "biquad") return filter_of(flt::biquad<double>(1, -.5 + .2 * f, .25, 1, .5, .25 * f), f);
    if (kind == "cascade") {
        flt::biquad_cascade<double, 3> c;
        for (int k = 0; k <= f; ++k) c.emplace_back(1, -.5 + .1 * k, .25, 1, .5, .25 * f);
        return filter_of(c, f);
    }
    if (kind == "rbj") return function([f](int k) {
        auto b = flt::make_filter<double, flt::designer_type::RBJ, flt::filter_type::LowPass, 1>(200. + 100 * f + 50 * k, 2000., .7);
        Nums y;
        for (int i = 0; i < 6; ++i) y.push_back(b.tick(i == 0));
        return y;
    });
    if (kind == "zoelzer") return function([f](int k) {
        auto b = flt::make_filter<double, flt::designer_type::Zolzer, flt::filter_type::HighPass, 1>(200. + 100 * f + 50 * k, 2000., .7);
        Nums y;
        for (int i = 0; i < 6; ++i) y.push_back(b.tick(i == 0));
        return y;
    });
    if (kind == "butterworth") return function([f](int k) {
        auto b = flt::make_filter<double, flt::designer_type::Butterworth, flt::filter_type::LowPass, 8>(2 + f + k, 2000., 300.);
        Nums y;
        for (int i = 0; i < 6; ++i) y.push_back(b.tick(i == 0));
        return y;
    });
    if (kind == "chebyshev") return function([f](int k) {
        auto b = flt::make_filter<double, flt::designer_type::ChebyshevI, flt::filter_type::HighPass, 8>(2 + f + k, 2000., 300., 1.);
        Nums y;
        for (int i = 0; i < 6; ++i) y.push_back(b.tick(i == 0));
        return y;
    });
    if (kind == "sine") return osc_of(osc::sin_oscillator<double>(1 + f, 1000, 60 + f, .1), f);
    if (kind == "square") return osc_of(osc::square_oscillator<double>(1 + f, 1000, 61 + f, .3), f);
    if (kind == "sawtooth") return osc_of(osc::sawtooth_oscillator<double>(1 + f, 1000, 61 + f, .7), f);
    if (kind == "triangle") return osc_of(osc::triangular_oscillator<double>(1 + f, 1000, 61 + f), f);
    if (kind == "adsr") {
        edsp::envelope::adsr<double> e;
        e.set_attack_rate(.3 + .1 * f);
        e.set_decay_rate(.1);
        e.set_release_rate(.07);
        return object(e, [f](edsp::envelope::adsr<double>& e, int k) {
            if (k % 3 == 0) e.key_on();
            if (k % 3 == 2) e.key_off();
            Nums y;
            for (double x : signal(f, k)) y.push_back(e(x));
            return y;
        });
    }
    if (kind == "ar") return object(edsp::envelope::ar<double>(1000, 5 + f, 20), [f](edsp::envelope::ar<double>& e, int k) {
        if (k == 3) e.reset();
        Nums y;
        for (double x : signal(f, k)) y.push_back(e(x));
        return y;
    });
    if (kind == "ring") return object(edsp::ring_buffer<double>(4 + f), [f](edsp::ring_buffer<double>& r, int k) {
        for (double x : signal(f, k, 3)) r.push_back(x);
        if (k == 2) r.pop_front();
        Nums y(r.begin(), r.end());
        y.push_back(r.size());
        return y;
    });
    if (kind == "fixed_ring") return object(edsp::fixed_ring_buffer<double, 5>(), [f](edsp::fixed_ring_buffer<double, 5>& r, int k) {
        for (double x : signal(f, k, 3)) r.push_back(x);
        if (k == 2) r.pop_front();
        Nums y(r.begin(), r.end());
        y.push_back(r.size());
        return y;
    });
    if (kind == "engine") return object(edsp::fft_engine<double>(8 + 2 * f), [f](edsp::fft_engine<double>& e, int k) {
        const int n = 8 + 2 * f;
        auto x = signal(f, k, n);
        if (k % 2) { Nums y(n); e.dct(x.data(), y.data()); return y; }
        std::vector<C> y(n / 2 + 1);
        e.dft(x.data(), y.data());
        return flat(y);
    });
    if (kind == "leq") return object(ft::continuous_leq<double>(2 + f), [f](ft::continuous_leq<double>& l, int k) {
        auto x = signal(f, k);
        return Nums{l.extract(x.begin(), x.end())};
    });
    if (kind == "resampler") return unique(new io::resampler<float>(1 + f % 2, f == 0 ? io::linear : f == 1 ? io::zero_order_hold : io::sinc_fastest, 2.f), [f](io::resampler<float>& r, int k) {
        if (k == 3) r.reset();
        std::vector<float> x;
        for (double v : signal(f, k, 6)) x.push_back(static_cast<float>(v));
        std::vector<float> y(12);
        const auto n = r.process(x.begin(), x.end(), y.begin());
        Nums z{static_cast<double>(n.first), static_cast<double>(n.second)};
        z.insert(z.end(), y.begin(), y.begin() + n.second * (1 + f % 2));
        return z;
    });
    if (kind == "file") return unique(new Recorder(f), [f](Recorder& r, int k) {
        if (k < 2) {
            std::vector<float> x;
            for (double v : signal(f, k, 6)) x.push_back(static_cast<float>(.4 * v));
            return Nums{static_cast<double>(r.e.write(x.begin(), x.end()))};
        }
        if (k == 2) { r.e.close(); r.d.open(r.p); }
        std::vector<float> y(5);
        const auto n = r.d.read(y.begin(), y.end());
        Nums z{static_cast<double>(n), static_cast<double>(r.d.sample_rate()), static_cast<double>(r.d.frames())};
        z.insert(z.end(), y.begin(), y.end());
        return z;
    });
    if (kind == "logger") return unique(new edsp::logger("x", edsp::logger::off), [f](edsp::logger& l, int k) {
        l << std::string("t") << static_cast<std::int32_t>(100 * f + k);
        return codes(l.str());
    });
    if (kind == "dft") return function([f](int k) { auto x = signal(f, k); std::vector<C> y(x.size() / 2 + 1); edsp::dft(x.begin(), x.end(), y.begin()); return flat(y); });
    if (kind == "dft_float") return function([f](int k) {
        auto d = signal(f, k);
        std::vector<float> x(d.begin(), d.end()), z(d.size());
        std::vector<std::complex<float>> y(x.size() / 2 + 1);
        edsp::dft(x.begin(), x.end(), y.begin());
        edsp::idft(y.begin(), y.end(), z.begin());
        Nums r(z.begin(), z.end());
        for (auto v : y) { r.push_back(v.real()); r.push_back(v.imag()); }
        return r;
    });
    if (kind == "conv_float") return function([f](int k) {
        auto a = signal(f, k), b = positive(f, k);
        std::vector<float> x(a.begin(), a.end()), g(b.begin(), b.end()), y(a.size());
        edsp::conv(x.begin(), x.end(), g.begin(), y.begin());
        return Nums(y.begin(), y.end());
    });
    if (kind == "engine_float") return object(edsp::fft_engine<float>(8 + 2 * f), [f](edsp::fft_engine<float>& e, int k) {
        const int n = 8 + 2 * f;
        auto d = signal(f, k, n);
        std::vector<float> x(d.begin(), d.end()), y(n);
        if (k % 2) e.dct(x.data(), y.data()); else e.dht(x.data(), y.data());
        return Nums(y.begin(), y.end());
    });
    if (kind == "idft") return function([f](int k) {
        auto x = signal(f, k, 5);
        std::vector<C> s(x.begin(), x.end());
        Nums y(8);
        edsp::idft(s.begin(), s.end(), y.begin());
        return y;
    });
    if (kind == "cdft") return function([f](int k) { auto x = signal(f, k); std::vector<C> s(x.begin(), x.end()), y(x.size()); edsp::cdft(s.begin(), s.end(), y.begin()); return flat(y); });
    if (kind == "hilbert") return function([f](int k) { auto x = signal(f, k); std::vector<C> y(x.size()); edsp::hilbert(x.begin(), x.end(), y.begin()); return flat(y); });
    if (kind == "spectrum") return function([f](int k) { auto x = signal(f, k); Nums y(x.size() / 2 + 1); edsp::spectrum(x.begin(), x.end(), y.begin()); return y; });
    if (kind == "conv") return function([f](int k) { auto x = signal(f, k), g = positive(f, k); Nums y(x.size()); edsp::conv(x.begin(), x.end(), g.begin(), y.begin()); return y; });
    if (kind == "xcorr") return function([f](int k) { auto x = signal(f, k), g = positive(f, k); Nums y(x.size()); edsp::xcorr(x.begin(), x.end(), g.begin(), y.begin(), k % 2 ? edsp::CorrelationScale::Biased : edsp::CorrelationScale::None); return y; });
    ARRAY("dct", edsp::dct(a, z, d));
    ARRAY("idct", edsp::idct(a, z, d));
    ARRAY("hartley", edsp::hartley(a, z, d));
    ARRAY("cepstrum", edsp::cepstrum(a, z, d));
    ARRAY("autocorr", edsp::xcorr(a, z, d));
    ARRAY("amdf", ft::amdf(a, z, d));
    ARRAY("asdf", ft::asdf(a, z, d));
    ARRAY("normalize", al::normalize(a, z, d));
    ARRAY("normalize_rms", al::normalize_rms(a, z, d));
    ARRAY("derivative", al::derivative(a, z, d));
    ARRAY("clip", al::clipper(a, z, d, -.5, .5));
    ARRAY("amplify", al::amplifier(a, z, d, 3., -1., 1.));
    ARRAY("rectify", al::rectify(a, z, d));
    ARRAY("mu_law", edsp::quantizer::mu_law_compression(a, z, d, 2., 255));
    ARRAY("hamming", wi::hamming(d, d + (z - a)));
    ARRAY("hanning", wi::hanning(d, d + (z - a)));
    ARRAY("blackman", wi::blackman(d, d + (z - a)));
    ARRAY("blackman_harris", wi::blackman_harris(d, d + (z - a)));
    ARRAY("flattop", wi::flattop(d, d + (z - a)));
    ARRAY("bartlett", wi::bartlett(d, d + (z - a)));
    ARRAY("triangular", wi::triangular(d, d + (z - a)));
    ARRAY("welch", wi::welch(d, d + (z - a)));
    ARRAY("linspace", al::linspace(d, *a, 3., static_cast<int>(z - a)));
    ARRAY("logspace", al::logspace(d, *a, 3., static_cast<int>(z - a)));
    ARRAY("melspace", edsp::auditory::melspace(d, d + (z - a), 20., 4000.));
    SCALAR("mean", false, st::mean(x.begin(), x.end()));
    SCALAR("median", false, st::median(x.begin(), x.end()));
    SCALAR("variance", false, st::variance(x.begin(), x.end()));
    SCALAR("skewness", false, st::skewness(x.begin(), x.end()));
    SCALAR("kurtosis", false, st::kurtosis(x.begin(), x.end()));
    SCALAR("norm", false, st::norm(x.begin(), x.end()));
    SCALAR("geometric", true, st::geometric_mean(x.begin(), x.end()));
    SCALAR("harmonic", true, st::harmonic_mean(x.begin(), x.end()));
    SCALAR("maxabs", false, st::maxabs(x.begin(), x.end()));
    SCALAR("peak", false, st::peak(x.begin(), x.end()).second);
    SCALAR("energy", false, ft::energy(x.begin(), x.end()));
    SCALAR("power", false, ft::power(x.begin(), x.end()));
    SCALAR("rms", false, ft::rms(x.begin(), x.end()));
    SCALAR("rssq", false, ft::rssq(x.begin(), x.end()));
    SCALAR("loudness", false, ft::loudness(x.begin(), x.end()));
    SCALAR("azcr", false, ft::azcr(x.begin(), x.end()));
    SCALAR("effective", false, ft::effective_duration(x.begin(), x.end(), 100., .4));
    SCALAR("snr", false, ft::snr(x.begin(), x.end(), y.begin()));
    SCALAR("centroid", true, ft::spectral_centroid(x.begin(), x.end(), y.begin()));
    SCALAR("spread", true, ft::spectral_spread(x.begin(), x.end(), y.begin()));
    SCALAR("crest", true, ft::spectral_crest(x.begin(), x.end()));
    SCALAR("decrease", true, ft::spectral_decrease(x.begin(), x.end()));
    SCALAR("entropy", true, ft::spectral_entropy(x.begin(), x.end()));
    SCALAR("flatness", true, ft::spectral_flatness(x.begin(), x.end()));
    SCALAR("flux", true, ft::spectral_flux(x.begin(), x.end(), y.begin()));
    SCALAR("irregularity", true, ft::spectral_irregularity(x.begin(), x.end()));
    SCALAR("rolloff", true, ft::spectral_rolloff(x.begin(), x.end(), .7));
    SCALAR("slope", true, ft::spectral_slope(x.begin(), x.end(), y.begin()));
    SCALAR("variation", true, ft::spectral_variation(x.begin(), x.end(), y.begin()));
    if (kind == "text") return function([f](int k) {
        std::string s(" A" + std::to_string(k) + ",b" + std::string(f, 'C') + ",,d "), out;
        edsp::string::trim(s);
        edsp::string::toupper(s.begin(), s.end(), s.begin());
        std::vector<std::string> parts;
        edsp::string::split(s, std::back_inserter(parts), ',');
        edsp::string::join(parts.begin(), parts.end(), out, ';');
        return codes(out);
    });
    std::fprintf(stderr, "harness: no kind %s\n", kind.c_str());
    std::exit(97);
}
static const char* KINDS[] = {"moving_average", "moving_rms", "moving_median", "biquad", "cascade", "rbj", "zoelzer", "butterworth", "chebyshev", "sine", "square", "sawtooth",
    "triangle", "adsr", "ar", "ring", "fixed_ring", "engine", "leq", "resampler", "file", "logger", "dft", "idft", "cdft", "hilbert", "spectrum", "conv", "xcorr", "dct", "idct",
    "hartley", "cepstrum", "autocorr", "amdf", "asdf", "normalize", "normalize_rms", "derivative", "clip", "amplify", "rectify", "mu_law", "hamming", "hanning", "blackman",
    "blackman_harris", "flattop", "bartlett", "triangular", "welch", "linspace", "logspace", "melspace", "mean", "median", "variance", "skewness", "kurtosis", "norm", "geometric",
    "harmonic", "maxabs", "peak", "energy", "power", "rms", "rssq", "loudness", "azcr", "effective", "snr", "centroid", "spread", "crest", "decrease", "entropy", "flatness", "flux",
    "irregularity", "rolloff", "slope", "variation", "text", "dft_float", "conv_float", "engine_float"};
static constexpr int Steps = 4;

static std::string whole(const std::string& kind, int f) {
    std::unique_ptr<Machine> m(make(kind, f));
    std::string r = "[";
    for (int k = 0; k < Steps; ++k) r += (k ? "," : "") + js(m->step(k));
    return r + "]";
}
// A process forked before anything else was done, which forks one child for every question what a machine answers alone.
struct Fresh {
    int s[2];
    std::map<std::string, std::string> known;
    Fresh() {
        if (::socketpair(AF_UNIX, SOCK_STREAM, 0, s)) std::exit(97);
        if (::fork() == 0) {
            ::close(s[0]);
            char q[128];
            ssize_t n;
            while ((n = ::read(s[1], q, sizeof q - 1)) > 0) {
                q[n] = 0;
                if (::fork() == 0) {
                    char kind[100];
                    int f;
                    std::sscanf(q, "%99s %d", kind, &f);
                    const std::string r = whole(kind, f) + "\n";
                    std::size_t at = 0;
                    while (at < r.size()) { const ssize_t w = ::write(s[1], r.data() + at, r.size() - at); if (w <= 0) break; at += w; }
                    ::_exit(0);
                }
                int st = 0;
                ::wait(&st);
                if (st) { const char* e = "!\n"; (void) !::write(s[1], e, 2); }
            }
            ::_exit(0);
        }
        ::close(s[1]);
    }
    std::string ask(const std::string& kind, int f) {
        const std::string q = kind + " " + std::to_string(f);
        auto it = known.find(q);
        if (it != known.end()) return it->second;
        (void) !::write(s[0], q.data(), q.size());
        std::string r;
        char c;
        while (::read(s[0], &c, 1) == 1 && c != '\n') r += c;
        if (r.empty() || r == "!") throw std::runtime_error("no answer");
        return known[q] = r;
    }
};

int main(int argc, char** argv) {
    if (argc > 1) { for (const char* k : KINDS) std::printf("%s\n", k); return 0; }
    dir = std::getenv("VH_DIR");
    Fresh fresh;
    struct Live { std::unique_ptr<Machine> m; int at = 0; std::string kind; int f = 0; };
    std::map<long long, Live> live;
    return run([&](Op& op) {
        const std::string& n = op.name;
        if (op.first) live.clear();
        if (n == "alone") op.raw("y", fresh.ask(op.w("kind"), op.i("f")));
        else if (n == "new") {
            Live& l = live[op.i("id")];
            l.kind = op.w("kind"); l.f = op.i("f"); l.at = 0;
            l.m.reset(make(l.kind, l.f));
        } else if (n == "step") {
            Live& l = live.at(op.i("id"));
            op.out("y", l.m->step(l.at++));
        } else if (n == "drop") live.erase(op.i("id"));
        else if (n == "copy") { // a new object, or assigned over the one there; says whether that can be done
            const Live& a = live.at(op.i("id"));
            const auto to = op.i("to");
            bool done = false;
            auto it = live.find(to);
            if (op.i("assign") && it != live.end() && it->second.kind == a.kind) done = it->second.m->assign(*a.m);
            if (!done && !op.i("assign")) {
                std::unique_ptr<Machine> m(a.m->copy());
                done = m != nullptr;
                if (done) live[to].m = std::move(m);
            }
            if (done) { Live& l = live[to]; l.at = a.at; l.kind = a.kind; l.f = a.f; }
            op.out("done", done);
        } else if (n == "together") { // machines of these kinds, each in its own thread, again and again
            const auto ks = op.iv("kinds"), fs = op.iv("fs");
            const int rounds = op.i("rounds");
            std::vector<std::vector<std::string>> said(ks.size());
            std::mutex m;
            std::condition_variable cv;
            std::size_t ready = 0;
            std::vector<std::thread> ts;
            for (std::size_t t = 0; t < ks.size(); ++t)
                ts.emplace_back([&, t] {
                    {
                        std::unique_lock<std::mutex> l(m);
                        if (++ready == ks.size()) cv.notify_all(); else cv.wait(l, [&] { return ready == ks.size(); });
                    }
                    for (int r = 0; r < rounds; ++r) said[t].push_back(whole(KINDS[ks[t]], fs[t]));
                });
            for (auto& t : ts) t.join();
            std::string r = "[";
            for (std::size_t t = 0; t < ks.size(); ++t) {
                r += t ? ",[" : "[";
                for (int k = 0; k < rounds; ++k) r += (k ? "," : "") + said[t][k];
                r += "]";
            }
            op.raw("y", r + "]");
            std::string w = "[";
            for (std::size_t t = 0; t < ks.size(); ++t) w += (t ? "," : "") + word(KINDS[ks[t]]);
            op.raw("names", w + "]");
        } else unknown(op);
    });
}
