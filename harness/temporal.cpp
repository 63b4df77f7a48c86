// Features of a signal in time, and the running equivalent level.
#include "common.hpp"
#include <algorithm>
#include <list>
#include <edsp/math/constant.hpp>
#include <edsp/math/numeric.hpp>
#include <edsp/meta/iterator.hpp>
#include <edsp/feature/temporal/amdf.hpp>
#include <edsp/feature/temporal/asdf.hpp>
#include <edsp/feature/temporal/azcr.hpp>
#include <edsp/feature/temporal/duration.hpp>
#include <edsp/feature/temporal/energy.hpp>
#include <edsp/feature/temporal/leq.hpp>
#include <edsp/feature/temporal/power.hpp>
#include <edsp/feature/temporal/rms.hpp>
#include <edsp/feature/temporal/rssq.hpp>
#include <edsp/feature/temporal/snr.hpp>
#include <edsp/feature/perceptual/loudness.hpp>
using namespace vh;
namespace ft = edsp::feature;

template <typename T>
struct World {
    std::unique_ptr<ft::continuous_leq<T>> level, other;

    template <typename It>
    void range(Op& op, It a, It z) {
        const std::string& n = op.name;
        T r{};
        if (n == "energy") r = ft::energy(a, z);
        else if (n == "power") r = ft::power(a, z);
        else if (n == "rssq") r = ft::rssq(a, z);
        else if (n == "rms") r = ft::rms(a, z);
        else if (n == "loudness") r = ft::loudness(a, z);
        else if (n == "leq") r = ft::leq(a, z);
        else if (n == "azcr") r = ft::azcr(a, z);
        else if (n == "duration") r = ft::duration(a, z, static_cast<T>(op.d("sr")));
        else if (n == "effective") r = ft::effective_duration(a, z, static_cast<T>(op.d("sr")), static_cast<T>(op.d("thr")));
        else if (n == "leq_next") r = level->extract(a, z);
        else unknown(op);
        op.out("ret", r);
    }
    void apply(Op& op) {
        const std::string& n = op.name;
        if (n == "leq_new") { level.reset(new ft::continuous_leq<T>(op.i("n"))); return; }
        auto v = op.as<T>("x");
        const auto keep = v;
        if (n == "amdf" || n == "asdf") {
            Guarded<T> g(v.size());
            if (n == "amdf") { if (op.i("c", 0)) ft::amdf(v.cbegin(), v.cend(), g.begin()); else ft::amdf(v.begin(), v.end(), g.begin()); }
            else { if (op.i("c", 0)) ft::asdf(v.cbegin(), v.cend(), g.begin()); else ft::asdf(v.begin(), v.end(), g.begin()); }
            op.out("r", g.get());
            op.out("intact", g.intact());
        } else if (n == "snr") {
            auto w = op.as<T>("y");
            op.out("ret", static_cast<T>(op.i("c", 0) ? ft::snr(v.cbegin(), v.cend(), w.cbegin()) : ft::snr(v.begin(), v.end(), w.begin())));
        } else switch (op.i("c", 0)) {
            case 0: range(op, v.begin(), v.end()); break;
            case 1: { std::list<T> l(v.begin(), v.end()); range(op, l.begin(), l.end()); break; }
            case 2: range(op, v.cbegin(), v.cend()); break;
            default: range<const T*>(op, v.data(), v.data() + v.size());
        }
        if (v != keep) op.out("exc", "input changed");
    }
};

int main() {
    World<double> d;
    World<float> f;
    return run([&](Op& op) {
        if (op.has("t") && op.w("t") == "f") f.apply(op); else d.apply(op);
    });
}
