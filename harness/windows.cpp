// Windows of any length, in single and double precision, written through several kinds of iterators.
#include "common.hpp"
#include <list>
#include <edsp/math/constant.hpp>
#include <edsp/math/numeric.hpp>
#include <edsp/meta/iterator.hpp>
#include <edsp/windowing.hpp>
#include <edsp/windowing/welch.hpp>
#include <edsp/windowing/triangular.hpp>
using namespace vh;
namespace wi = edsp::windowing;

template <typename It>
void make(Op& op, It a, It z) {
    const std::string& w = op.w("w");
    if (w == "hamming") wi::hamming(a, z);
    else if (w == "hanning") wi::hanning(a, z);
    else if (w == "blackman") wi::blackman(a, z);
    else if (w == "blackman_harris") wi::blackman_harris(a, z);
    else if (w == "blackman_nuttall") wi::blackman_nutall(a, z);
    else if (w == "flattop") wi::flattop(a, z);
    else if (w == "boxcar") wi::boxcar(a, z);
    else if (w == "rectangular") wi::rectangular(a, z);
    else if (w == "bartlett") wi::bartlett(a, z);
    else if (w == "triangular") wi::triangular(a, z);
    else if (w == "welch") wi::welch(a, z);
    else unknown(op);
}
template <typename T>
void typed(Op& op) {
    const std::size_t n = op.i("n");
    if (op.i("c", 0)) {
        std::list<T> l(n + 1, T(9));
        make(op, l.begin(), std::prev(l.end()));
        op.out("intact", l.back() == T(9));
        l.pop_back();
        op.out("r", std::vector<T>(l.begin(), l.end()));
    } else {
        Guarded<T> g(n);
        make(op, g.begin(), g.end());
        op.out("r", g.get());
        op.out("intact", g.intact());
    }
}
int main() {
    return run([](Op& op) {
        if (op.name != "window") unknown(op);
        if (op.has("t") && op.w("t") == "f") typed<float>(op); else typed<double>(op);
    });
}
