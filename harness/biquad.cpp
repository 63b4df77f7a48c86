// biquad<double> (mode "section") and biquad_cascade<double, N> (mode "cascade").
#include "common.hpp"
#include <edsp/math/constant.hpp>
#include <edsp/math/complex.hpp>
#include <edsp/math/numeric.hpp>
#include <edsp/meta/ensure.hpp>
#include <edsp/meta/expects.hpp>
#include <edsp/filter/biquad.hpp>
#include <edsp/filter/biquad_cascade.hpp>
using namespace vh;
using BQ = edsp::filter::biquad<double>;

template <typename B>
std::string coefs(const B& b) {
    return "{\"a0\":" + js(b.a0()) + ",\"a1\":" + js(b.a1()) + ",\"a2\":" + js(b.a2()) + ",\"b0\":" + js(b.b0()) + ",\"b1\":" + js(b.b1()) +
           ",\"b2\":" + js(b.b2()) + "}";
}
static void set(BQ& b, const std::string& c, double v) {
    if (c == "a0") b.set_a0(v);
    else if (c == "a1") b.set_a1(v);
    else if (c == "a2") b.set_a2(v);
    else if (c == "b0") b.set_b0(v);
    else if (c == "b1") b.set_b1(v);
    else b.set_b2(v);
}
template <typename F>
void block(F& f, Op& op) {
    auto x = op.v("x");
    Guarded<double> g(x.size());
    if (op.i("inplace", 0)) {
        std::copy(x.begin(), x.end(), g.begin());
        f.filter(g.begin(), g.end(), g.begin());
    } else
        f.filter(x.begin(), x.end(), g.begin());
    op.out("ret", g.get());
    op.out("intact", g.intact() && x == op.v("x"));
}
static BQ from(Op& op) { return BQ(op.d("a0"), op.d("a1"), op.d("a2"), op.d("b0"), op.d("b1"), op.d("b2")); }

static void section(Op& op) {
    static BQ o[2];
    if (op.first) o[0] = o[1] = BQ();
    int s = op.w("s") == "a" ? 0 : 1;
    BQ& b = o[s];
    using C = std::complex<double>;
    const std::string& n = op.name;
    if (n == "new_default") b = BQ();
    else if (n == "new_coefs") b = from(op);
    else if (n == "new_pz") b = BQ(C(op.d("p"), 0), C(op.d("z"), 0));
    else if (n == "new_pz2") {
        auto& p = op.v("p");
        auto& z = op.v("z");
        C p1(p[0], p[1]), z1(z[0], z[1]);
        C p2 = p[1] != 0 ? std::conj(p1) : C(p[2], 0), z2 = z[1] != 0 ? std::conj(z1) : C(z[2], 0);
        b = BQ(p1, z1, p2, z2);
    }
    else if (n == "set") set(b, op.w("c"), op.d("v"));
    else if (n == "reset") b.reset();
    else if (n == "tick") op.out("ret", b.tick(op.d("x")));
    else if (n == "filter") block(b, op);
    else if (n == "copy") { if (op.i("assign", 0)) b = o[1 - s]; else { BQ t(o[1 - s]); b = std::move(t); } }
    else unknown(op);
    op.raw("coefs", coefs(b));
    op.out("stable", b.stability());
    op.out("bool", static_cast<bool>(b));
}

struct AnyCascade {
    virtual ~AnyCascade() = default;
    virtual void apply(Op& op) = 0;
};
template <std::size_t N>
struct CascadeOf : AnyCascade {
    edsp::filter::biquad_cascade<double, N> c, spare;
    void apply(Op& op) override {
        const std::string& n = op.name;
        if (n == "new") {}
        else if (n == "push_back") {
            BQ b = from(op);
            for (double x : op.v("warm")) b.tick(x);
            c.push_back(b);
        }
        else if (n == "emplace_back") c.emplace_back(op.d("a0"), op.d("a1"), op.d("a2"), op.d("b0"), op.d("b1"), op.d("b2"));
        else if (n == "tick") op.out("ret", c.tick(op.d("x")));
        else if (n == "filter") block(c, op);
        else if (n == "reset") c.reset();
        else if (n == "clear") c.clear();
        else if (n == "set") set(c[op.i("k")], op.w("c"), op.d("v"));
        else if (n == "reset_stage") (c.begin() + op.i("k"))->reset();
        else if (n == "save") spare = c;
        else if (n == "restore") c = spare;
        else unknown(op);
        const auto& k = c;
        op.out("size", k.size());
        op.out("capacity", k.capacity());
        op.out("max_size", k.max_size());
        std::string r = "[", t = "[";
        for (std::size_t i = 0; i < k.size(); ++i) r += (i ? "," : "") + coefs(k[i]);
        bool first = true;
        for (auto it = k.cbegin(); it != k.cend(); ++it) { t += (first ? "" : ",") + coefs(*it); first = false; }
        op.raw("stages", r + "]");
        op.raw("iter", t + "]");
    }
};

int main(int argc, char** argv) {
    bool one = std::string(argv[1]) == "section";
    std::unique_ptr<AnyCascade> c;
    return run([&](Op& op) {
        if (one) return section(op);
        if (op.name == "new") switch (op.i("cap")) {
            case 1: c.reset(new CascadeOf<1>()); break;
            case 2: c.reset(new CascadeOf<2>()); break;
            case 3: c.reset(new CascadeOf<3>()); break;
            case 4: c.reset(new CascadeOf<4>()); break;
            default: c.reset(new CascadeOf<7>()); break;
        }
        c->apply(op);
    });
}
