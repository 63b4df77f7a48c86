// Descriptive statistics over vectors, lists and constant ranges, in single and double precision.
#include "common.hpp"
#include <edsp/math/constant.hpp>
#include <edsp/math/numeric.hpp>
#include <edsp/meta/iterator.hpp>
#include <edsp/meta/advance.hpp>
#include <edsp/statistics.hpp>
#include <list>
#include <deque>
using namespace vh;
namespace st = edsp::statistics;

template <typename It>
void apply(Op& op, It a, It z) {
    using T = typename std::iterator_traits<It>::value_type;
    const std::string& n = op.name;
    T r{};
    if (n == "mean") r = st::mean(a, z);
    else if (n == "max") r = st::max(a, z);
    else if (n == "min") r = st::min(a, z);
    else if (n == "maxabs") r = st::maxabs(a, z);
    else if (n == "minabs") r = st::minabs(a, z);
    else if (n == "peak") { auto p = st::peak(a, z); op.out("at", static_cast<long long>(p.first)); r = p.second; }
    else if (n == "peakabs") { auto p = st::peakabs(a, z); op.out("at", static_cast<long long>(p.first)); r = p.second; }
    else if (n == "median") r = st::median(a, z);
    else if (n == "variance") r = st::variance(a, z);
    else if (n == "deviation") r = st::standard_deviation(a, z);
    else if (n == "skewness") r = st::skewness(a, z);
    else if (n == "kurtosis") r = st::kurtosis(a, z);
    else if (n == "norm") r = st::norm(a, z);
    else if (n == "power_mean") r = st::generalized_mean(a, z, static_cast<int>(op.i("b")));
    else if (n == "harmonic") r = st::harmonic_mean(a, z);
    else if (n == "geometric") r = st::geometric_mean(a, z);
    else if (n == "moment") {
        const bool m = op.has("m");
        const T c = m ? static_cast<T>(op.d("m")) : T(0);
        switch (op.i("n")) {
            case 0: r = m ? st::moment<0>(a, z, c) : st::moment<0>(a, z); break;
            case 1: r = m ? st::moment<1>(a, z, c) : st::moment<1>(a, z); break;
            case 2: r = m ? st::moment<2>(a, z, c) : st::moment<2>(a, z); break;
            case 3: r = m ? st::moment<3>(a, z, c) : st::moment<3>(a, z); break;
            case 4: r = m ? st::moment<4>(a, z, c) : st::moment<4>(a, z); break;
            case 5: r = m ? st::moment<5>(a, z, c) : st::moment<5>(a, z); break;
            default: unknown(op);
        }
    } else unknown(op);
    op.out("ret", r);
}

template <typename T>
void typed(Op& op) {
    auto v = op.as<T>("x");
    const auto keep = v;
    switch (op.i("c", 0)) {
        case 0: apply(op, v.begin(), v.end()); break;
        case 1: { std::list<T> l(v.begin(), v.end()); apply(op, l.begin(), l.end()); break; }
        case 2: apply(op, v.cbegin(), v.cend()); break;
        default: apply<const T*>(op, v.data(), v.data() + v.size());
    }
    if (v != keep) op.out("exc", "input changed");
}

int main() {
    return run([](Op& op) {
        if (op.has("t") && op.w("t") == "f") typed<float>(op); else typed<double>(op);
    });
}
