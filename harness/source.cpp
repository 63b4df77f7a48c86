// Oscillators (mode "osc"), ADSR and AR envelopes (mode "env").
#include "common.hpp"
#include <edsp/math/constant.hpp>
#include <edsp/math/numeric.hpp>
#include <edsp/meta/expects.hpp>
#include <edsp/oscillator.hpp>
#include <edsp/experimental/envelope/adsr.hpp>
#include <edsp/experimental/envelope/ar.hpp>
#include <optional>
using namespace vh;
using namespace edsp::oscillators;

template <typename O>
struct Osc {
    std::optional<O> o, saved;
    template <typename Par>
    void apply(Op& op, Par par) {
        const std::string& n = op.name;
        if (n == "tick") op.out("ret", (*o)());
        else if (n == "run") {
            Guarded<double> g(op.i("n"));
            std::generate(g.begin(), g.end(), std::ref(*o));
            op.out("ret", g.get());
            op.out("intact", g.intact());
        }
        else if (n == "set_frequency") o->set_frequency(op.d("v"));
        else if (n == "set_sample_rate") o->set_sample_rate(op.d("v"));
        else if (n == "set_amplitude") o->set_amplitude(op.d("v"));
        else if (n == "set_phase") o->set_phase(op.d("v"));
        else if (n == "set_timestamp") o->set_timestamp(op.d("v"));
        else if (n == "reset") o->reset();
        else if (n == "save") { O t(*o); saved.reset(); saved.emplace(t); }
        else if (n == "restore") *o = *saved;
        else if (n != "new" && n != "set_par") unknown(op);
        const O& c = *o;
        op.out("frequency", c.frequency());
        op.out("sample_rate", c.sample_rate());
        op.out("period", c.sampling_period());
        op.out("amplitude", c.amplitude());
        op.out("phase", c.phase());
        op.out("timestamp", c.timestamp());
        op.out("par", par(c));
    }
};

static void osc(Op& op) {
    static Osc<sin_oscillator<double>> a;
    static Osc<square_oscillator<double>> b;
    static Osc<sawtooth_oscillator<double>> c;
    static Osc<triangular_oscillator<double>> d;
    static std::string k;
    if (op.name == "new") {
        k = op.w("kind");
        double A = op.d("amp"), s = op.d("sr"), f = op.d("f"), p = op.d("p");
        if (k == "sine") { a.saved.reset(); a.o.emplace(A, s, f, p); }
        else if (k == "square") { b.saved.reset(); b.o.emplace(A, s, f, p); }
        else if (k == "sawtooth") { c.saved.reset(); c.o.emplace(A, s, f, p); }
        else { d.saved.reset(); d.o.emplace(A, s, f); }
    }
    if (op.name == "set_par") {
        if (k == "square") b.o->set_duty(op.d("v"));
        else if (k == "sawtooth") c.o->set_width(op.d("v"));
        else if (k == "triangular") d.o->set_width(op.d("v"));
    }
    if (k == "sine") a.apply(op, [](auto&) { return 0.0; });
    else if (k == "square") b.apply(op, [](auto& o) { return o.duty(); });
    else if (k == "sawtooth") c.apply(op, [](auto& o) { return o.width(); });
    else d.apply(op, [](auto& o) { return o.width(); });
}

template <typename E>
void drive(E& e, Op& op) {
    if (op.name == "tick") op.out("ret", e(op.d("x")));
    else if (op.name == "apply") {
        auto x = op.v("x");
        Guarded<double> g(x.size());
        if (op.i("inplace", 0)) {
            std::copy(x.begin(), x.end(), g.begin());
            e.apply(g.begin(), g.end(), g.begin());
        } else
            e.apply(x.begin(), x.end(), g.begin());
        op.out("ret", g.get());
        op.out("intact", g.intact() && x == op.v("x"));
    }
}
static void env(Op& op) {
    static edsp::envelope::adsr<double> e;
    static std::optional<edsp::envelope::ar<double>> r;
    static bool adsr = true;
    const std::string& n = op.name;
    if (n == "adsr") { adsr = true; e = {}; }
    else if (n == "ar") { adsr = false; if (op.has("rect")) r.emplace(op.d("sr"), op.d("attack"), op.d("release"), op.i("rect") != 0); else r.emplace(op.d("sr"), op.d("attack"), op.d("release")); }
    else if (n == "tick" || n == "apply") { if (adsr) drive(e, op); else drive(*r, op); }
    else if (n == "key_on") e.key_on();
    else if (n == "key_off") e.key_off();
    else if (n == "set_attack_target") e.set_attack_target(op.d("v"));
    else if (n == "set_attack_rate") e.set_attack_rate(op.d("v"));
    else if (n == "set_decay_rate") e.set_decay_rate(op.d("v"));
    else if (n == "set_release_rate") e.set_release_rate(op.d("v"));
    else if (n == "set_sustain_level") e.set_sustain_level(op.d("v"));
    else if (n == "set_attack_time") { if (adsr) e.set_attack_time(op.d("v")); else r->set_attack_time(op.d("v")); }
    else if (n == "set_decay_time") e.set_decay_time(op.d("v"));
    else if (n == "set_release_time") { if (adsr) e.set_release_time(op.d("v")); else r->set_release_time(op.d("v")); }
    else if (n == "set_target") e.set_target(op.d("v"));
    else if (n == "set_sample_rate") { if (adsr) e.set_sample_rate(op.d("v")); else r->set_sample_rate(op.d("v")); }
    else if (n == "set_rectification") r->set_rectification(op.i("v"));
    else if (n == "reset") r->reset();
    else unknown(op);
    if (adsr) {
        const auto& c = e;
        op.out("sample_rate", c.sample_rate());
        op.out("attack_rate", c.attack_rate());
        op.out("decay_rate", c.decay_rate());
        op.out("release_rate", c.release_rate());
        op.out("attack_target", c.attack_target());
        op.out("sustain_level", c.sustain_level());
        op.out("attack_time", c.attack_time());
        op.out("decay_time", c.decay_time());
        op.out("release_time", c.release_time());
    } else {
        const auto& c = *r;
        op.out("sample_rate", c.sample_rate());
        op.out("attack_time", c.attack_time());
        op.out("release_time", c.release_time());
        op.out("rectification", c.rectification());
    }
}

int main(int, char** argv) {
    bool o = std::string(argv[1]) == "osc";
    return run([&](Op& op) { if (o) osc(op); else env(op); });
}
