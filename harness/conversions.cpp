// Unit converters, auditory scales, companding.
#include "common.hpp"
#include <algorithm>
#include <complex>
#include <list>
#include <edsp/math/constant.hpp>
#include <edsp/math/numeric.hpp>
#include <edsp/meta/iterator.hpp>
#include <edsp/converter.hpp>
#include <edsp/auditory/audspace.hpp>
#include <edsp/auditory/converter/bark2hertz.hpp>
#include <edsp/auditory/converter/cent2hertz.hpp>
#include <edsp/auditory/converter/erb2hertz.hpp>
#include <edsp/auditory/converter/mel2hertz.hpp>
#include <edsp/experimental/quantizer/mu_law_compressor.hpp>
#include <edsp/converter/real2complex.hpp>
#include <edsp/converter/complex2real.hpp>
#include <edsp/converter/peak2peak.hpp>
#include <edsp/converter/peak2rms.hpp>
using namespace vh;
namespace cv = edsp::converter;
namespace au = edsp::auditory;
namespace qu = edsp::quantizer;

template <typename T>
void typed(Op& op) {
    const std::string& n = op.name;
    auto num = [&](const char* k) { return static_cast<T>(op.d(k)); };
    if (n == "mag2db") op.out("ret", cv::mag2db(num("v")));
    else if (n == "pow2db") op.out("ret", cv::pow2db(num("v")));
    else if (n == "db2mag") op.out("ret", cv::db2mag(num("v")));
    else if (n == "db2pow") op.out("ret", static_cast<T>(cv::db2pow(num("v"))));
    else if (n == "deg2rad") op.out("ret", cv::deg2rad(num("v")));
    else if (n == "rad2deg") op.out("ret", cv::rad2deg(num("v")));
    else if (n == "scale") {
        const std::string& s = op.w("s");
        op.out("ret", s == "mel" ? au::hertz2mel(num("v")) : s == "erb" ? au::hertz2erb(num("v")) : s == "bark" ? au::hertz2bark(num("v")) : au::hertz2cent(num("v")));
    } else if (n == "unscale") {
        const std::string& s = op.w("s");
        op.out("ret", s == "mel" ? au::mel2hertz(num("v")) : s == "erb" ? au::erb2hertz(num("v")) : s == "bark" ? au::bark2hertz(num("v")) : au::cent2hertz(num("v")));
    } else if (n == "space") {
        const std::string& s = op.w("s");
        const std::size_t k = op.i("n");
        Guarded<T> g(k);
        const T lo = num("lo"), hi = num("hi");
        if (op.i("c", 0) == 0) {
            auto sc = s == "mel" ? au::auditory_scale::mel : s == "erb" ? au::auditory_scale::erb : s == "bark" ? au::auditory_scale::bark : au::auditory_scale::cent;
            au::audspace(g.begin(), lo, hi, k, sc);
        } else if (s == "mel") au::melspace(g.begin(), g.end(), lo, hi);
        else if (s == "erb") au::erbspace(g.begin(), g.end(), lo, hi);
        else if (s == "bark") au::barkspace(g.begin(), g.end(), lo, hi);
        else au::centspace(g.begin(), g.end(), lo, hi);
        op.out("r", g.get());
        op.out("intact", g.intact());
    } else if (n == "mulaw" || n == "mulaw_inverse") {
        auto x = op.as<T>("x");
        const auto kx = x;
        Guarded<T> g(x.size());
        auto f = [&](auto a, auto z, auto d) {
            if (n == "mulaw") qu::mu_law_compression(a, z, d, num("m"), op.i("mu")); else qu::inverse_mu_law_compression(a, z, d, num("m"), op.i("mu"));
        };
        if (op.i("c", 0)) { std::copy(x.begin(), x.end(), g.begin()); f(g.begin(), g.end(), g.begin()); } else f(x.begin(), x.end(), g.begin());
        op.out("r", g.get());
        op.out("intact", g.intact() && kx == x);
    } else if (n == "peak2peak" || n == "peak2rms") {
        auto x = op.as<T>("x");
        if (op.i("c", 0)) { std::list<T> l(x.begin(), x.end()); op.out("ret", static_cast<T>(n == "peak2peak" ? cv::peak2peak(l.begin(), l.end()) : cv::peak2rms(l.begin(), l.end()))); }
        else op.out("ret", static_cast<T>(n == "peak2peak" ? cv::peak2peak(x.begin(), x.end()) : cv::peak2rms(x.begin(), x.end())));
    } else if (n == "real2complex") {
        auto x = op.as<T>("x");
        Guarded<std::complex<T>> g(x.size());
        if (op.has("y")) { auto y = op.as<T>("y"); cv::real2complex(x.begin(), x.end(), y.begin(), g.begin()); }
        else cv::real2complex(x.begin(), x.end(), g.begin());
        op.outc("c", g.get());
        op.out("intact", g.intact());
    } else if (n == "complex2real") {
        auto x = op.as<T>("x"), y = op.as<T>("y");
        std::vector<std::complex<T>> z;
        for (std::size_t k = 0; k < x.size(); ++k) z.emplace_back(x[k], y[k]);
        Guarded<T> a(x.size()), b(x.size());
        cv::complex2real(z.begin(), z.end(), a.begin(), b.begin());
        op.out("re", a.get());
        op.out("im", b.get());
        op.out("intact", a.intact() && b.intact());
    } else unknown(op);
}

int main() {
    return run([](Op& op) {
        if (op.has("t") && op.w("t") == "f") typed<float>(op); else typed<double>(op);
    });
}
