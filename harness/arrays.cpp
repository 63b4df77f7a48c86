// Element-wise and reshaping operations, searches, rows of points.
#include "common.hpp"
#include <algorithm>
#include <list>
#include <numeric>
#include <edsp/math/constant.hpp>
#include <edsp/math/numeric.hpp>
#include <edsp/meta/iterator.hpp>
#include <edsp/meta/advance.hpp>
#include <edsp/meta/expects.hpp>
#include <edsp/algorithm.hpp>
#include <edsp/algorithm/derivative.hpp>
#include <edsp/algorithm/silence.hpp>
#include <edsp/algorithm/rectify.hpp>
using namespace vh;
namespace al = edsp::algorithm;

// destination, in place or apart, as a vector, a list or a bare pointer
template <typename T, typename F>
void elementwise(Op& op, const std::vector<T>& x, F f) {
    const std::size_t n = x.size();
    Guarded<T> g(n);
    std::vector<T> r;
    bool kept = true;
    switch (op.i("c", 0)) {
        case 0: f(x.begin(), x.end(), g.begin()); r = g.get(); break;
        case 1: std::copy(x.begin(), x.end(), g.begin()); f(g.begin(), g.end(), g.begin()); r = g.get(); break; // in place
        case 2: {
            std::list<T> l(x.begin(), x.end()), d(n + 1, T(77));
            f(l.begin(), l.end(), d.begin());
            kept = std::equal(x.begin(), x.end(), l.begin()) && d.back() == T(77);
            r.assign(d.begin(), std::prev(d.end()));
            break;
        }
        default: {
            auto y = x;
            f(y.data(), y.data() + n, std::back_inserter(r)); // generic output iterator
            kept = y == x;
        }
    }
    op.out("r", r);
    op.out("intact", kept && g.intact());
}
template <typename T, typename F>
void sized(Op& op, const std::vector<T>& x, F f) { // no generic output iterator
    std::vector<T> y = x;
    Guarded<T> g(x.size());
    if (op.i("c", 0) % 2) { std::copy(x.begin(), x.end(), g.begin()); f(g.begin(), g.end(), g.begin()); }
    else f(y.begin(), y.end(), g.begin());
    op.out("r", g.get());
    op.out("intact", g.intact() && y == x);
}

template <typename T, typename It>
void search(Op& op, It a, It z) {
    const T v = static_cast<T>(op.d("v"));
    if (op.name == "linear_search") op.out("at", static_cast<long long>(std::distance(a, al::linear_search(a, z, v))));
    else if (op.name == "binary_search") op.out("at", static_cast<long long>(std::distance(a, al::binary_search(a, z, v))));
    else op.out("at", static_cast<long long>(al::index_of(a, z, v)));
}

template <typename T>
void typed(Op& op) {
    const std::string& n = op.name;
    std::vector<T> x;
    if (op.has("x")) x = op.as<T>("x");
    auto num = [&](const char* k) { return static_cast<T>(op.d(k)); };
    if (n == "floor") sized<T>(op, x, [](auto a, auto z, auto d) { al::floor(a, z, d); });
    else if (n == "ceil") sized<T>(op, x, [](auto a, auto z, auto d) { al::ceil(a, z, d); });
    else if (n == "round") sized<T>(op, x, [](auto a, auto z, auto d) { al::round(a, z, d); });
    else if (n == "fix") sized<T>(op, x, [](auto a, auto z, auto d) { al::fix(a, z, d); });
    else if (n == "rectify") sized<T>(op, x, [](auto a, auto z, auto d) { al::rectify(a, z, d); });
    else if (n == "clip") sized<T>(op, x, [&](auto a, auto z, auto d) { al::clipper(a, z, d, num("lo"), num("hi")); });
    else if (n == "amplify") sized<T>(op, x, [&](auto a, auto z, auto d) { al::amplifier(a, z, d, num("g")); });
    else if (n == "amplify_clip") sized<T>(op, x, [&](auto a, auto z, auto d) { al::amplifier(a, z, d, num("g"), num("lo"), num("hi")); });
    else if (n == "normalize") sized<T>(op, x, [](auto a, auto z, auto d) { al::normalize(a, z, d); });
    else if (n == "normalize_rms") sized<T>(op, x, [](auto a, auto z, auto d) { al::normalize_rms(a, z, d); });
    else if (n == "derivative") elementwise<T>(op, x, [](auto a, auto z, auto d) { al::derivative(a, z, d); });
    else if (n == "concatenate") {
        auto y = op.as<T>("y");
        const auto kx = x, ky = y;
        Guarded<T> g(x.size() + y.size());
        al::concatenate(x.begin(), x.end(), y.begin(), y.end(), g.begin());
        op.out("r", g.get());
        op.out("intact", g.intact() && kx == x && ky == y);
    } else if (n == "pad") {
        const auto kx = x;
        Guarded<T> g(op.i("n"));
        al::padder(x.begin(), x.end(), g.begin(), g.end());
        op.out("r", g.get());
        op.out("intact", g.intact() && kx == x);
    } else if (n == "silence") {
        op.out("ret", static_cast<bool>(al::silence(x.begin(), x.end(), num("thr"))));
    } else if (n == "equal" || n == "alike") {
        auto y = op.as<T>("y");
        const T tol = n == "alike" ? num("tol") : T(0);
        auto near = [tol](T a, T b) { return std::abs(a - b) <= tol; };
        bool r;
        if (op.i("c", 0) % 2) {
            std::list<T> l(y.begin(), y.end());
            r = n == "equal" ? al::equal(x.begin(), x.end(), l.begin(), l.end()) : al::equal(x.begin(), x.end(), l.begin(), l.end(), near);
        } else r = n == "equal" ? al::equal(x.begin(), x.end(), y.begin(), y.end()) : al::equal(x.begin(), x.end(), y.begin(), y.end(), near);
        op.out("ret", r);
    } else if (n == "linear_search" || n == "binary_search" || n == "index_of") {
        switch (op.i("c", 0)) {
            case 0: search<T>(op, x.begin(), x.end()); break;
            case 1: { std::list<T> l(x.begin(), x.end()); search<T>(op, l.begin(), l.end()); break; }
            case 2: search<T>(op, x.cbegin(), x.cend()); break;
            default: search<T>(op, x.data(), x.data() + x.size());
        }
    } else if (n == "linspace" || n == "logspace") {
        const std::size_t k = op.i("n");
        Guarded<T> g(k);
        if (n == "linspace") al::linspace(g.begin(), num("a"), num("b"), static_cast<int>(k));
        else al::logspace(g.begin(), num("a"), num("b"), static_cast<int>(k));
        op.out("r", g.get());
        op.out("intact", g.intact());
    } else unknown(op);
}

int main() {
    return run([](Op& op) {
        if (op.has("t") && op.w("t") == "f") typed<float>(op); else typed<double>(op);
    });
}
