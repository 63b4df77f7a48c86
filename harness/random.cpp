// Random numbers and noise: counts of many draws, and noise next to the white noise it is made of.
#include "common.hpp"
#include <edsp/random/random_generator.hpp>
#include <edsp/random/noise/perlin_noise_generator.hpp>
#include <edsp/random/noise/pink_noise_generator.hpp>
#include <edsp/random/noise/brown_noise_generator.hpp>
#include <edsp/random/noise/white_noise_generator.hpp>
#include <edsp/random/binary_generator.hpp>
#include <edsp/random/constant_generator.hpp>
#include <edsp/math/numeric.hpp>
using namespace vh;
namespace er = edsp::random;
using D = er::DistributionType;

// An engine that starts where the harness says, whatever it is seeded with: two generators can be fed the same numbers.
static unsigned long where = 1;
struct Fixed {
    std::mt19937 e;
    using result_type = std::mt19937::result_type;
    Fixed() : e(where) {}
    template <typename S> explicit Fixed(S) : e(where) {}
    template <typename S> void seed(S) { e.seed(where); }
    static constexpr result_type min() { return std::mt19937::min(); }
    static constexpr result_type max() { return std::mt19937::max(); }
    result_type operator()() { return e(); }
};

static void count(Op& op, const std::function<double()>& draw) {
    const int n = static_cast<int>(op.i("n"));
    const auto& q = op.v("q");
    std::vector<int> le(q.size()), pairs(q.size());
    std::vector<double> x(n);
    bool whole = true;
    for (int k = 0; k < n; ++k) {
        x[k] = draw();
        if (x[k] != std::floor(x[k])) whole = false;
    }
    for (std::size_t j = 0; j < q.size(); ++j)
        for (int k = 0; k < n; ++k)
            if (x[k] <= q[j]) { ++le[j]; if (k && x[k - 1] <= q[j]) ++pairs[j]; }
    op.out("le", le);
    op.out("pairs", pairs);
    op.out("whole", whole || !op.i("int", 0));
}
template <typename G>
static void draw(Op& op, G g) {
    if (op.i("copy", 0)) { for (int k = 0; k < 3; ++k) g(); auto h = g; count(op, [&] { return static_cast<double>(h()); }); }
    else count(op, [&] { return static_cast<double>(g()); });
}
template <typename T>
static void reals(Op& op) {
    const std::string& d = op.w("d");
    const std::string src = op.has("src") ? op.w("src") : "";
    const auto p = op.as<T>("p");
    const auto x = op.as<T>("x");
    if (src == "white") draw(op, er::white_noise_generator<T, Fixed>(p[0], p[1]));
    else if (src == "white_clock") draw(op, er::white_noise_generator<T>(p[0], p[1]));
    else if (src == "rand") count(op, [&] { return static_cast<double>(edsp::math::rand<T>(p[0], p[1])); });
    else if (src == "any") count(op, [&] { return static_cast<double>(edsp::math::rand<T>()); });
    else if (src == "binary") draw(op, er::binary_generator<T, Fixed>(p[0]));
    else if (d == "constant") draw(op, er::constant_generator<T>(p[0]));
    else if (d == "uniform") draw(op, er::random_generator<D::Uniform, T>(p[0], p[1]));
    else if (d == "bernoulli") draw(op, er::random_generator<D::Bernoulli, T>(p[0]));
    else if (d == "exponential") draw(op, er::random_generator<D::Exponential, T>(p[0]));
    else if (d == "gamma") draw(op, er::random_generator<D::Gamma, T>(p[0], p[1]));
    else if (d == "weibull") draw(op, er::random_generator<D::Weibull, T>(p[0], p[1]));
    else if (d == "extreme") draw(op, er::random_generator<D::ExtremeValue, T>(p[0], p[1]));
    else if (d == "normal") draw(op, er::random_generator<D::Normal, T>(p[0], p[1]));
    else if (d == "lognormal") draw(op, er::random_generator<D::LogNormal, T>(p[0], p[1]));
    else if (d == "chi_squared") draw(op, er::random_generator<D::ChiSquared, T>(p[0]));
    else if (d == "cauchy") draw(op, er::random_generator<D::Cauchy, T>(p[0], p[1]));
    else if (d == "fisher") draw(op, er::random_generator<D::Fisher, T>(p[0], p[1]));
    else if (d == "student") draw(op, er::random_generator<D::Student, T>(p[0]));
    else if (d == "steps") draw(op, er::random_generator<D::PieceWiseConstant, T>(x.begin(), x.end(), p.begin()));
    else if (d == "lines") draw(op, er::random_generator<D::PieceWiseLinear, T>(x.begin(), x.end(), p.begin()));
    else unknown(op);
}
template <typename T>
static void wholes(Op& op) {
    const std::string& d = op.w("d");
    const std::string src = op.has("src") ? op.w("src") : "";
    const auto& p = op.v("p");
    const T a = static_cast<T>(p[0]), b = static_cast<T>(p.size() > 1 ? p[1] : 0);
    if (src == "white") draw(op, er::white_noise_generator<T, Fixed>(a, b));
    else if (src == "white_clock") draw(op, er::white_noise_generator<T>(a, b));
    else if (src == "rand") count(op, [&] { return static_cast<double>(edsp::math::rand<T>(a, b)); });
    else if (src == "any") count(op, [&] { return static_cast<double>(edsp::math::rand<T>()); });
    else if (d == "constant") draw(op, er::constant_generator<T>(a));
    else if (d == "binomial") draw(op, er::random_generator<D::Binomial, T>(a, p[1]));
    else if (d == "geometric") draw(op, er::random_generator<D::Geometric, T>(p[0]));
    else if (d == "poisson") draw(op, er::random_generator<D::Poisson, T>(p[0]));
    else if (d == "discrete") draw(op, er::random_generator<D::Discrete, T>(p.begin(), p.end()));
    else unknown(op);
}

struct Noise {
    virtual ~Noise() {}
    virtual Noise* copy() const = 0;
    virtual void run(int n, std::vector<double>& w, std::vector<double>& y) = 0;
};
template <typename G, typename W>
struct Of : Noise {
    G g;
    W w;
    Of(G a, W b) : g(a), w(b) {}
    Noise* copy() const override { return new Of(*this); }
    void run(int n, std::vector<double>& in, std::vector<double>& out) override {
        for (int k = 0; k < n; ++k) { in.push_back(w()); out.push_back(g()); }
    }
};
template <typename T>
struct Position { // where a Perlin generator looks
    Fixed e;
    std::uniform_real_distribution<T> d{0, 511};
    T operator()() { return d(e); }
};
template <typename T>
static Noise* noise(Op& op) {
    const T a = static_cast<T>(op.has("a") ? op.d("a") : 0), b = static_cast<T>(op.has("b") ? op.d("b") : 1);
    const std::string& k = op.w("kind");
    using W = er::white_noise_generator<T, Fixed>;
    if (k == "brown") { using G = er::brown_noise_generator<T, Fixed>; return new Of<G, W>(G(a, b), W(a, b)); }
    if (k == "pink") { using G = er::pink_noise_generator<T, Fixed>; return new Of<G, W>(G(a, b), W(a, b)); }
    using G = er::perlin_noise_generator<T, Fixed>;
    return new Of<G, Position<T>>(G(), Position<T>());
}

int main() {
    std::map<std::string, std::unique_ptr<Noise>> slot;
    return run([&](Op& op) {
        const std::string& n = op.name;
        const std::string t = op.has("t") ? op.w("t") : "";
        if (op.first) slot.clear();
        if (op.has("seed")) where = static_cast<unsigned long>(op.i("seed"));
        if (n == "draws") {
            if (t == "f") reals<float>(op); else if (t == "d") reals<double>(op); else if (t == "i") wholes<int>(op); else if (t == "l") wholes<long>(op);
            else if (t == "s") wholes<short>(op); else if (t == "b") draw(op, er::random_generator<D::Bernoulli, bool>(op.v("p")[0])); else unknown(op);
        } else if (n == "noise") slot[op.w("s")].reset(t == "f" ? noise<float>(op) : noise<double>(op));
        else if (n == "copy") slot[op.w("s")].reset(slot[op.w("s") == "a" ? "b" : "a"]->copy());
        else if (n == "run") {
            std::vector<double> w, y;
            slot[op.w("s")]->run(static_cast<int>(op.i("n")), w, y);
            op.out("w", w);
            op.out("y", y);
        } else unknown(op);
    });
}
