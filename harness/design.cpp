// make_filter for every designer and type, and freq().
#include "common.hpp"
#include <edsp/math/constant.hpp>
#include <edsp/math/complex.hpp>
#include <edsp/math/numeric.hpp>
#include <edsp/meta/ensure.hpp>
#include <edsp/meta/expects.hpp>
#include <edsp/filter.hpp>
using namespace vh;
using namespace edsp::filter;

static std::string sec(const biquad<double>& b) {
    return "{\"a0\":" + js(b.a0()) + ",\"a1\":" + js(b.a1()) + ",\"a2\":" + js(b.a2()) + ",\"b0\":" + js(b.b0()) + ",\"b1\":" + js(b.b1()) +
           ",\"b2\":" + js(b.b2()) + ",\"stable\":" + js(b.stability()) + "}";
}
static void show(Op& op, biquad<double> f) {
    op.raw("stages", "[" + sec(f) + "]");
    std::vector<double> y;
    for (int k = 0; k < 4; ++k) y.push_back(f.tick(k == 0));
    op.out("impulse", y);
}
template <std::size_t N>
void show(Op& op, biquad_cascade<double, N> f) {
    std::string r = "[";
    for (std::size_t k = 0; k < f.size(); ++k) r += (k ? "," : "") + sec(f[k]);
    op.raw("stages", r + "]");
    std::vector<double> y;
    for (int k = 0; k < 4; ++k) y.push_back(f.tick(k == 0));
    op.out("impulse", y);
}
template <designer_type D, filter_type T>
void one(Op& op) {
    const double fs = op.d("fs"), fc = op.d("fc");
    if (op.has("gain")) show(op, make_filter<double, D, T, 1>(fc, fs, op.d("q"), op.d("gain")));
    else show(op, make_filter<double, D, T, 1>(fc, fs, op.d("q")));
}
template <designer_type D>
void two(Op& op) {
    const std::string& t = op.w("type");
    if (t == "lp") one<D, filter_type::LowPass>(op);
    else if (t == "hp") one<D, filter_type::HighPass>(op);
    else if (t == "bp") one<D, filter_type::BandPass>(op);
    else if (t == "ls") one<D, filter_type::LowShelf>(op);
    else one<D, filter_type::HighShelf>(op);
}
// the trailing arguments of the analog designs: gain for shelves, then ripple for Chebyshev
template <designer_type D, filter_type T, typename... A>
void three(Op& op, A... a) {
    const std::size_t n = op.i("n");
    const double fs = op.d("fs"), fc = op.d("fc");
    constexpr std::size_t M = 8;
    constexpr bool ripple = D != designer_type::Butterworth;
    if constexpr (ripple) show(op, make_filter<double, D, T, M>(n, fs, fc, a..., op.d("ripple")));
    else show(op, make_filter<double, D, T, M>(n, fs, fc, a...));
}
template <designer_type D>
void four(Op& op) {
    const std::string& t = op.w("type");
    if (t == "lp") three<D, filter_type::LowPass>(op);
    else if (t == "hp") three<D, filter_type::HighPass>(op);
    else if (t == "bp") three<D, filter_type::BandPass>(op, op.d("bw"));
    else if (t == "bs") three<D, filter_type::BandStop>(op, op.d("bw"));
    else if (t == "ls") three<D, filter_type::LowShelf>(op, op.d("gain"));
    else if (t == "hs") three<D, filter_type::HighShelf>(op, op.d("gain"));
    else three<D, filter_type::BandShelf>(op, op.d("bw"), op.d("gain"));
}

int main() {
    return run([&](Op& op) {
        if (op.name == "freq") {
            auto &b = op.v("b"), &a = op.v("a");
            Guarded<std::complex<double>> g(op.i("k"));
            edsp::filter::freq(b.begin(), b.end(), a.begin(), a.end(), g.begin(), op.i("k"));
            op.outc("h", g.get());
            op.out("intact", g.intact());
            return;
        }
        if (op.name != "design") unknown(op);
        const std::string& d = op.w("by");
        if (d == "rbj") {
            if (op.w("type") == "ap") one<designer_type::RBJ, filter_type::AllPass>(op);
            else two<designer_type::RBJ>(op);
        } else if (d == "zolzer") two<designer_type::Zolzer>(op);
        else if (d == "butterworth") four<designer_type::Butterworth>(op);
        else if (d == "cheb1") four<designer_type::ChebyshevI>(op);
        else four<designer_type::ChebyshevII>(op);
    });
}
