// moving_average, moving_rms, moving_median.
#include "common.hpp"
#include <edsp/filter/moving_average_filter.hpp>
#include <edsp/filter/moving_median_filter.hpp>
#include <edsp/filter/moving_rms_filter.hpp>
using namespace vh;

template <typename F>
struct World {
    std::unique_ptr<F> o[2];
    void apply(Op& op) {
        int s = op.w("s") == "a" ? 0 : 1;
        auto& me = o[s];
        const std::string& n = op.name;
        if (n == "new") { o[0].reset(); o[1].reset(); me.reset(new F(op.i("n"))); }
        else if (n == "copy") me.reset(new F(*o[1 - s]));
        else if (n == "reset") me->reset();
        else if (n == "resize") me->resize(op.i("n"));
        else if (n == "tick") op.out("ret", (*me)(op.d("x")));
        else if (n == "filter") {
            auto x = op.v("x");
            if (op.i("inplace", 0)) {
                Guarded<double> g(x.size());
                std::copy(x.begin(), x.end(), g.begin());
                me->filter(g.begin(), g.end(), g.begin());
                op.out("ret", g.get());
                op.out("intact", g.intact());
            } else {
                Guarded<double> g(x.size());
                me->filter(x.begin(), x.end(), g.begin());
                op.out("ret", g.get());
                op.out("intact", g.intact() && x == op.v("x"));
            }
        } else unknown(op);
        op.out("size", me->size());
    }
};

int main() {
    World<edsp::filter::moving_average<double>> a;
    World<edsp::filter::moving_rms<double>> r;
    World<edsp::filter::moving_median<double>> m;
    std::string kind;
    return run([&](Op& op) {
        if (op.name == "new") kind = op.w("kind");
        if (kind == "average") a.apply(op);
        else if (kind == "rms") r.apply(op);
        else m.apply(op);
    });
}
