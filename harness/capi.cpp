// The C library: every function through its C declarations, on guarded arrays.
#include "common.hpp"
#include <algorithm>
#include <cerrno>
#include <unistd.h>
#include "cedsp/types.h"
#include "cedsp/algorithm.h"
#include "cedsp/converter.h"
#include "cedsp/core.h"
#include "cedsp/spectral.h"
#include "cedsp/statistics.h"
#include "cedsp/windowing.h"
#include <edsp/core/internal/config.hpp>
using vh::Op;
using vh::Guarded;
using T = real_t;
using V = std::vector<T>;

struct In { // an input inside a guarded buffer
    Guarded<T> g;
    V keep;
    explicit In(const V& v) : g(v.size()), keep(v) { std::copy(v.begin(), v.end(), g.begin()); }
    const T* p() { return g.begin(); }
    int n() const { return static_cast<int>(keep.size()); }
    bool intact() { return g.intact() && g.get() == keep; }
};
static V pairs(const V& a, const V& b) {
    V r;
    for (std::size_t k = 0; k < a.size(); ++k) { r.push_back(a[k]); r.push_back(b[k]); }
    return r;
}
static void put_complex(Op& op, const V& z) {
    V a, b;
    for (std::size_t k = 0; k + 1 < z.size(); k += 2) { a.push_back(z[k]); b.push_back(z[k + 1]); }
    op.out("cre", a);
    op.out("cim", b);
}
static complex_t* cp(T* p) { return reinterpret_cast<complex_t*>(p); }

// real to real of the same size, apart or in place
template <typename F>
static void same(Op& op, F f) {
    In x(op.as<T>("x"));
    if (op.i("c", 0) % 2) {
        f(x.p(), x.n(), x.g.begin());
        op.out("r", x.g.get());
        op.out("intact", x.g.intact());
    } else {
        Guarded<T> d(x.n());
        f(x.p(), x.n(), d.begin());
        op.out("r", d.get());
        op.out("intact", d.intact() && x.intact());
    }
}
static bool arrays(Op& op) {
    const std::string& n = op.name;
    auto num = [&](const char* k) { return static_cast<T>(op.d(k)); };
    if (n == "floor") same(op, array_floor);
    else if (n == "ceil") same(op, array_ceil);
    else if (n == "round") same(op, array_round);
    else if (n == "fix") same(op, array_trunc);
    else if (n == "rectify") same(op, array_abs);
    else if (n == "normalize") same(op, array_normalize);
    else if (n == "clip") same(op, [&](const T* x, int k, T* d) { array_clip(x, k, d, num("lo"), num("hi")); });
    else if (n == "amplify") same(op, [&](const T* x, int k, T* d) { array_scale(x, k, d, num("g")); });
    else if (n == "amplify_clip") same(op, [&](const T* x, int k, T* d) { array_scale_clip(x, k, d, num("g"), num("lo"), num("hi")); });
    else if (n == "concatenate") {
        In x(op.as<T>("x")), y(op.as<T>("y"));
        Guarded<T> d(x.n() + y.n());
        array_concatenate(x.p(), x.n(), y.p(), y.n(), d.begin());
        op.out("r", d.get());
        op.out("intact", d.intact() && x.intact() && y.intact());
    } else if (n == "pad") {
        In x(op.as<T>("x"));
        Guarded<T> d(op.i("n"));
        array_padder(x.p(), x.n(), d.begin(), static_cast<int>(op.i("n")));
        op.out("r", d.get());
        op.out("intact", d.intact() && x.intact());
    } else if (n == "linspace" || n == "logspace") {
        Guarded<T> d(op.i("n"));
        (n == "linspace" ? array_linspace : array_logspace)(d.begin(), static_cast<int>(op.i("n")), num("a"), num("b"));
        op.out("r", d.get());
        op.out("intact", d.intact());
    } else if (n == "equal") {
        In x(op.as<T>("x")), y(op.as<T>("y"));
        op.out("ret", equal(x.p(), x.n(), y.p()) != 0);
        op.out("intact", x.intact() && y.intact());
    } else {
        In x(op.as<T>("x"));
        int r;
        if (n == "linear_search") r = linear_search(x.p(), x.n(), num("v"));
        else if (n == "binary_search") r = binary_search(x.p(), x.n(), num("v"));
        else if (n == "index_of") r = index_of(x.p(), x.n(), num("v"));
        else if (n == "contains") { op.out("ret", contains(x.p(), x.n(), num("v")) != 0); op.out("intact", x.intact()); return true; }
        else return false;
        op.out("place", r);
        op.out("intact", x.intact());
    }
    return true;
}
static bool statistic(Op& op) {
    const std::string& n = op.name;
    In x(op.as<T>("x"));
    T r{};
    if (n == "mean") r = mean(x.p(), x.n());
    else if (n == "max") r = max(x.p(), x.n());
    else if (n == "min") r = min(x.p(), x.n());
    else if (n == "maxabs") r = max_abs(x.p(), x.n());
    else if (n == "minabs") r = min_abs(x.p(), x.n());
    else if (n == "peak") { auto p = peak(x.p(), x.n()); op.out("at", p.index); r = p.value; }
    else if (n == "peakabs") { auto p = peak_abs(x.p(), x.n()); op.out("at", p.index); r = p.value; }
    else if (n == "median") r = median(x.p(), x.n());
    else if (n == "variance") r = variance(x.p(), x.n());
    else if (n == "deviation") r = standard_deviation(x.p(), x.n());
    else if (n == "skewness") r = skewness(x.p(), x.n());
    else if (n == "kurtosis") r = kurtosis(x.p(), x.n());
    else if (n == "norm") r = norm(x.p(), x.n());
    else if (n == "power_mean") r = generalized_mean(x.p(), x.n(), static_cast<int>(op.i("b")));
    else if (n == "harmonic") r = harmonic_mean(x.p(), x.n());
    else if (n == "geometric") r = geometric_mean(x.p(), x.n());
    else if (n == "moment") r = moment(x.p(), x.n(), static_cast<int>(op.i("n")));
    else return false;
    op.out("ret", r);
    op.out("intact", x.intact());
    return true;
}
static bool spectra(Op& op) {
    const std::string& n = op.name;
    if (n == "dct") same(op, dct);
    else if (n == "idct") same(op, idct);
    else if (n == "hartley") same(op, hartley);
    else if (n == "cepstrum") same(op, cepstrum);
    else if (n == "conv" || n == "xcorr") {
        In x(op.as<T>("x")), g(op.as<T>("g"));
        Guarded<T> d(x.n());
        (n == "conv" ? conv : xcorr)(x.p(), g.p(), x.n(), d.begin());
        op.out("r", d.get());
        op.out("intact", d.intact() && x.intact());
        op.out("kept", g.intact());
    } else if (n == "spectrum") {
        In x(op.as<T>("x"));
        Guarded<T> d(get_fft_size(x.n()));
        spectrum(x.p(), x.n(), d.begin());
        op.out("r", d.get());
        op.out("intact", d.intact() && x.intact());
    } else if (n == "dft" || n == "hilbert") {
        In x(op.as<T>("x"));
        Guarded<T> d(2 * (n == "dft" ? get_fft_size(x.n()) : x.n()));
        (n == "dft" ? fft : hilbert)(x.p(), x.n(), cp(d.begin()));
        put_complex(op, d.get());
        op.out("intact", d.intact() && x.intact());
    } else if (n == "idft") {
        In z(pairs(op.as<T>("x"), op.as<T>("y")));
        const int m = z.n() / 2;
        Guarded<T> d(get_ifft_size(m));
        ifft(cp(z.g.begin()), m, d.begin());
        op.out("r", d.get());
        op.out("intact", d.intact() && z.intact());
    } else if (n == "cdft" || n == "cidft") {
        In z(pairs(op.as<T>("x"), op.as<T>("y")));
        Guarded<T> d(z.n());
        const bool in = op.i("c", 0) % 2;
        T* to = in ? z.g.begin() : d.begin();
        (n == "cdft" ? complex_fft : complex_ifft)(cp(z.g.begin()), z.n() / 2, cp(to));
        put_complex(op, in ? z.g.get() : d.get());
        op.out("intact", d.intact() && (in ? z.g.intact() : z.intact()));
    } else if (n == "sizes") {
        op.out("half", get_fft_size(static_cast<int>(op.i("n"))));
        op.out("whole", get_ifft_size(static_cast<int>(op.i("n"))));
    } else return false;
    return true;
}
static bool windows(Op& op) {
    const std::string& w = op.w("w");
    Guarded<T> d(op.i("n"));
    const int n = static_cast<int>(op.i("n"));
    if (w == "hamming") hamming(d.begin(), n);
    else if (w == "hanning") hanning(d.begin(), n);
    else if (w == "blackman") blackman(d.begin(), n);
    else if (w == "blackman_harris") blackman_harris(d.begin(), n);
    else if (w == "blackman_nuttall") blackman_nutall(d.begin(), n);
    else if (w == "flattop") flattop(d.begin(), n);
    else if (w == "boxcar") boxcar(d.begin(), n);
    else if (w == "rectangular") rectangular(d.begin(), n);
    else if (w == "bartlett") bartlett(d.begin(), n);
    else if (w == "triangular") triangular(d.begin(), n);
    else if (w == "welch") welch(d.begin(), n);
    else return false;
    op.out("r", d.get());
    op.out("intact", d.intact());
    return true;
}
static bool conversions(Op& op) {
    const std::string& n = op.name;
    auto num = [&](const char* k) { return static_cast<T>(op.d(k)); };
    if (n == "mag2db") op.out("ret", mag2db(num("v")));
    else if (n == "pow2db") op.out("ret", pow2db(num("v")));
    else if (n == "db2mag") op.out("ret", db2mag(num("v")));
    else if (n == "db2pow") op.out("ret", db2pow(num("v")));
    else if (n == "deg2rad") op.out("ret", deg2rad(num("v")));
    else if (n == "rad2deg") op.out("ret", rad2deg(num("v")));
    else if (n == "peak2peak" || n == "peak2rms") {
        In x(op.as<T>("x"));
        op.out("ret", (n == "peak2peak" ? peak2peak : peak2rms)(x.p(), x.n()));
        op.out("intact", x.intact());
    } else if (n == "real2complex") {
        In x(op.as<T>("x"));
        Guarded<T> d(2 * x.n());
        bool ok = true;
        if (op.has("y")) { In y(op.as<T>("y")); ri2complex(x.p(), y.p(), x.n(), cp(d.begin())); ok = y.intact(); }
        else real2complex(x.p(), x.n(), cp(d.begin()));
        put_complex(op, d.get());
        op.out("intact", ok && d.intact() && x.intact());
    } else if (n == "complex2real") {
        In z(pairs(op.as<T>("x"), op.as<T>("y")));
        Guarded<T> a(z.n() / 2), b(z.n() / 2);
        complex2real(cp(z.g.begin()), z.n() / 2, a.begin(), b.begin());
        op.out("re", a.get());
        op.out("im", b.get());
        op.out("intact", a.intact() && b.intact() && z.intact());
    } else return false;
    return true;
}
static const char* reason(int e) { // the values of the library's error codes
    switch (e) {
        case 0: return "none";
        case 1: return "empty";
        case 2: return "not_found";
        case EINVAL: return "invalid";
        case ENOMEM: return "no_memory";
        default: return "unknown";
    }
}
static bool core(Op& op) {
    const std::string& n = op.name;
    if (n == "clear") ::clearenv();
    else if (n == "set") op.outw("error", reason(set_environment(op.s("name").c_str(), op.s("value").c_str())));
    else if (n == "get") {
        int e = -77;
        const char* r = op.i("c", 0) % 2 ? get_environment(op.s("name").c_str(), nullptr) : get_environment(op.s("name").c_str(), &e);
        op.out("found", r != nullptr);
        op.out("value", std::string(r ? r : ""));
        if (op.i("c", 0) % 2 == 0) op.outw("error", reason(e));
    } else if (n == "exist") op.out("ret", exist_environment(op.s("name").c_str()) != 0);
    else if (n == "version") {
        op.out("major", get_major_version()); op.out("minor", get_minor_version()); op.out("patch", get_patch_version());
        op.out("text", std::string(get_version()));
        op.out("wmajor", E_VERSION_MAJOR); op.out("wminor", E_VERSION_MINOR); op.out("wpatch", E_VERSION_PATCH);
        op.out("date", std::string(get_build_date())); op.out("time", std::string(get_build_time()));
        op.out("wdate", op.s("d")); op.out("wtime", op.s("t"));
    } else if (n == "libraries") {
        op.outw("fft", get_fft_library()); op.outw("codec", get_codec_library()); op.outw("resample", get_resample_library());
        op.out("wfft", "fftw"); op.out("wcodec", "sndfile"); op.out("wresample", "samplerate");
    } else return false;
    return true;
}
int main() {
    return vh::run([](Op& op) {
        const std::string& f = op.w("fam");
        const bool ok = f == "arrays" ? arrays(op) : f == "statistics" ? statistic(op) : f == "spectral" ? spectra(op) : f == "windows" ? windows(op)
                      : f == "conversions" ? conversions(op) : f == "system" ? core(op) : false;
        if (!ok) vh::unknown(op);
    });
}
