// Statistical and spectral descriptors.
#include "common.hpp"
#include <algorithm>
#include <list>
#include <numeric>
#include <edsp/math/constant.hpp>
#include <edsp/math/numeric.hpp>
#include <edsp/meta/iterator.hpp>
#include <edsp/meta/advance.hpp>
#include <edsp/feature/statistics/centroid.hpp>
#include <edsp/feature/statistics/crest.hpp>
#include <edsp/feature/statistics/decrease.hpp>
#include <edsp/feature/statistics/entropy.hpp>
#include <edsp/feature/statistics/flatness.hpp>
#include <edsp/feature/statistics/flux.hpp>
#include <edsp/feature/statistics/rolloff.hpp>
#include <edsp/feature/statistics/slope.hpp>
#include <edsp/feature/statistics/spread.hpp>
#include <edsp/feature/statistics/variation.hpp>
#include <edsp/feature/spectral/spectral_centroid.hpp>
#include <edsp/feature/spectral/spectral_crest.hpp>
#include <edsp/feature/spectral/spectral_decrease.hpp>
#include <edsp/feature/spectral/spectral_entropy.hpp>
#include <edsp/feature/spectral/spectral_flatness.hpp>
#include <edsp/feature/spectral/spectral_flux.hpp>
#include <edsp/feature/spectral/spectral_irregularity.hpp>
#include <edsp/feature/spectral/spectral_kurtosis.hpp>
#include <edsp/feature/spectral/spectral_rolloff.hpp>
#include <edsp/feature/spectral/spectral_skewness.hpp>
#include <edsp/feature/spectral/spectral_slope.hpp>
#include <edsp/feature/spectral/spectral_spread.hpp>
#include <edsp/feature/spectral/spectral_variation.hpp>
using namespace vh;
namespace ft = edsp::feature;
namespace fs = edsp::feature::statistics;

template <typename It>
void apply(Op& op, It a, It z, It b) {
    using T = typename std::iterator_traits<It>::value_type;
    using V = typename std::remove_cv<T>::type;
    const std::string& n = op.name;
    V r{};
    if (n == "centroid") r = fs::centroid(a, z);
    else if (n == "weighted_centroid") r = fs::weighted_centroid(a, z, b);
    else if (n == "s_centroid") r = ft::spectral_centroid(a, z, b);
    else if (n == "spread") r = fs::spread(a, z);
    else if (n == "weighted_spread") r = fs::weighted_spread(a, z, b);
    else if (n == "s_spread") r = ft::spectral_spread(a, z, b);
    else if (n == "crest") r = fs::crest(a, z);
    else if (n == "s_crest") r = ft::spectral_crest(a, z);
    else if (n == "decrease") r = fs::decrease(a, z);
    else if (n == "s_decrease") r = ft::spectral_decrease(a, z);
    else if (n == "entropy") r = fs::entropy(a, z);
    else if (n == "s_entropy") r = ft::spectral_entropy(a, z);
    else if (n == "flatness") r = fs::flatness(a, z);
    else if (n == "s_flatness") r = ft::spectral_flatness(a, z);
    else if (n == "flux") {
        const std::string& m = op.w("m");
        r = m == "manhattan" ? fs::flux<edsp::distances::manhattan>(a, z, b)
          : m == "euclidean" ? fs::flux<edsp::distances::euclidean>(a, z, b) : fs::flux<edsp::distances::logarithmic>(a, z, b);
    }
    else if (n == "s_flux") r = ft::spectral_flux(a, z, b);
    else if (n == "slope") r = fs::slope(a, z, b);
    else if (n == "s_slope") r = ft::spectral_slope(a, z, b);
    else if (n == "variation") r = fs::variation(a, z, b);
    else if (n == "s_variation") r = ft::spectral_variation(a, z, b);
    else if (n == "rolloff") r = fs::rolloff(a, z, static_cast<V>(op.d("p")));
    else if (n == "s_rolloff") r = ft::spectral_rolloff(a, z, static_cast<V>(op.d("p")));
    else if (n == "s_skewness") r = ft::spectral_skewness(a, z);
    else if (n == "s_kurtosis") r = ft::spectral_kurtosis(a, z);
    else if (n == "irregularity") {
        if constexpr (std::is_same<typename std::iterator_traits<It>::iterator_category, std::random_access_iterator_tag>::value) r = ft::spectral_irregularity(a, z);
    } else unknown(op);
    op.out("ret", r);
}

template <typename T>
void typed(Op& op) {
    auto v = op.as<T>("x");
    std::vector<T> w;
    if (op.has("f")) w = op.as<T>("f");
    else if (op.has("y")) w = op.as<T>("y");
    const auto kv = v, kw = w;
    switch (op.name == "irregularity" ? 0 : op.i("c", 0)) {
        case 0: apply(op, v.begin(), v.end(), w.begin()); break;
        case 1: { std::list<T> l(v.begin(), v.end()), m(w.begin(), w.end()); apply(op, l.begin(), l.end(), m.begin()); break; }
        case 2: apply(op, v.cbegin(), v.cend(), w.cbegin()); break;
        default: apply<const T*>(op, v.data(), v.data() + v.size(), w.data());
    }
    if (v != kv || w != kw) op.out("exc", "input changed");
}

int main() {
    return run([](Op& op) {
        if (op.has("t") && op.w("t") == "f") typed<float>(op); else typed<double>(op);
    });
}
