// Transforms: the free functions, and fft_engine objects driven through histories.
#include "common.hpp"
#include <edsp/math/constant.hpp>
#include <edsp/math/complex.hpp>
#include <edsp/math/numeric.hpp>
#include <edsp/meta/iterator.hpp>
#include <edsp/meta/advance.hpp>
#include <edsp/meta/data.hpp>
#include <edsp/converter.hpp>
#include <edsp/spectral/cepstrum.hpp>
#include <edsp/spectral/convolution.hpp>
#include <edsp/spectral/correlation.hpp>
#include <edsp/spectral/dct.hpp>
#include <edsp/spectral/dft.hpp>
#include <edsp/spectral/hartley.hpp>
#include <edsp/spectral/hilbert.hpp>
#include <edsp/spectral/spectrum.hpp>
using namespace vh;

template <typename T>
struct Buf { // n elements, off elements past an aligned position, with canaries
    using V = T;
    std::vector<T> b;
    std::size_t n, off;
    T canary{T(777)};
    Buf(std::size_t n_, std::size_t off_) : b(n_ + off_ + 4, T(777)), n(n_), off(off_) {}
    T* p() { return b.data() + off; }
    bool intact() const {
        for (std::size_t k = 0; k < off; ++k) if (b[k] != canary) return false;
        for (std::size_t k = off + n; k < b.size(); ++k) if (b[k] != canary) return false;
        return true;
    }
    std::vector<T> get() { return std::vector<T>(p(), p() + n); }
};

template <typename T>
struct World {
    using C = std::complex<T>;
    struct E { std::unique_ptr<edsp::fft_engine<T>> e; std::size_t n = 0; };
    E eng[2];

    static std::vector<C> cin(Op& op) {
        std::vector<C> r;
        auto &a = op.v("x"), &b = op.v("y");
        for (std::size_t k = 0; k < a.size(); ++k) r.emplace_back(T(a[k]), T(b[k]));
        return r;
    }
    // runs f(src, dst) on sized, offset, guarded buffers; in place when the types coincide and it is asked for
    template <typename A, typename B, typename F>
    void on(Op& op, const std::vector<A>& in, std::size_t n, F f, bool inplace) {
        const std::size_t so = op.i("so", 0), d = op.i("do", 0);
        bool intact;
        std::vector<B> r;
        if constexpr (std::is_same<A, B>::value) if (inplace) {
            Buf<A> s(n, so);
            std::copy(in.begin(), in.end(), s.p());
            f(s.p(), s.p() + in.size(), s.p());
            finish(op, s.get(), s.intact());
            return;
        }
        Buf<A> s(in.size(), so);
        std::copy(in.begin(), in.end(), s.p());
        Buf<B> o(n, d);
        f(s.p(), s.p() + in.size(), o.p());
        finish(op, o.get(), s.intact() && o.intact() && s.get() == in);
    }
    void finish(Op& op, std::vector<T> r, bool ok) { op.out("r", r); op.out("intact", ok); }
    void finish(Op& op, std::vector<C> r, bool ok) { op.outc("c", r); op.out("intact", ok); }

    void apply(Op& op) {
        const std::string& n = op.name;
        const bool in = op.i("inplace", 0);
        if (n == "engine") { eng[0].e.reset(); eng[1].e.reset(); eng[0].e.reset(new edsp::fft_engine<T>(op.i("n"))); eng[0].n = op.i("n"); return; }
        if (n == "copy") {
            if constexpr (std::is_copy_constructible<edsp::fft_engine<T>>::value) { eng[1].e.reset(new edsp::fft_engine<T>(*eng[0].e)); eng[1].n = eng[0].n; }
            else { eng[1].e.reset(new edsp::fft_engine<T>(eng[0].n)); eng[1].n = eng[0].n; }
            return;
        }
        if (n.compare(0, 2, "e_") == 0) {
            auto& e = *eng[op.i("o", 0)].e;
            const std::size_t N = eng[0].n;
            const bool scale = op.i("scale", 0);
            if (n == "e_cdft") on<C, C>(op, cin(op), N, [&](C* a, C*, C* b) { e.dft(static_cast<const C*>(a), b); }, in);
            else if (n == "e_cidft") on<C, C>(op, cin(op), N, [&](C* a, C*, C* b) { e.idft(static_cast<const C*>(a), b); if (scale) e.idft_scale(b); }, in);
            else if (n == "e_dft") on<T, C>(op, op.as<T>("x"), N / 2 + 1, [&](T* a, T*, C* b) { e.dft(static_cast<const T*>(a), b); }, false);
            else if (n == "e_idft") on<C, T>(op, cin(op), N, [&](C* a, C*, T* b) { e.idft(static_cast<const C*>(a), b); if (scale) e.idft_scale(b); }, false);
            else if (n == "e_dht") on<T, T>(op, op.as<T>("x"), N, [&](T* a, T*, T* b) { e.dht(a, b); }, in);
            else if (n == "e_dct") on<T, T>(op, op.as<T>("x"), N, [&](T* a, T*, T* b) { e.dct(a, b); }, in);
            else if (n == "e_idct") on<T, T>(op, op.as<T>("x"), N, [&](T* a, T*, T* b) { e.idct(a, b); if (scale) e.idct_scale(b); }, in);
            else unknown(op);
            return;
        }
        if (n == "cdft") on<C, C>(op, cin(op), op.v("x").size(), [](C* a, C* z, C* b) { edsp::cdft(a, z, b); }, in);
        else if (n == "cidft") on<C, C>(op, cin(op), op.v("x").size(), [](C* a, C* z, C* b) { edsp::cidft(a, z, b); }, in);
        else if (n == "dft") on<T, C>(op, op.as<T>("x"), edsp::make_fft_size(op.v("x").size()), [](T* a, T* z, C* b) { edsp::dft(a, z, b); }, false);
        else if (n == "idft") on<C, T>(op, cin(op), edsp::make_ifft_size(op.v("x").size()), [](C* a, C* z, T* b) { edsp::idft(a, z, b); }, false);
        else if (n == "dct") on<T, T>(op, op.as<T>("x"), op.v("x").size(), [](T* a, T* z, T* b) { edsp::dct(a, z, b); }, in);
        else if (n == "idct") on<T, T>(op, op.as<T>("x"), op.v("x").size(), [](T* a, T* z, T* b) { edsp::idct(a, z, b); }, in);
        else if (n == "hartley") on<T, T>(op, op.as<T>("x"), op.v("x").size(), [](T* a, T* z, T* b) { edsp::hartley(a, z, b); }, in);
        else if (n == "hilbert") on<T, C>(op, op.as<T>("x"), op.v("x").size(), [](T* a, T* z, C* b) { edsp::hilbert(a, z, b); }, false);
        else if (n == "spectrum") on<T, T>(op, op.as<T>("x"), edsp::make_fft_size(op.v("x").size()), [](T* a, T* z, T* b) { edsp::spectrum(a, z, b); }, false);
        else if (n == "cepstrum") on<T, T>(op, op.as<T>("x"), op.v("x").size(), [](T* a, T* z, T* b) { edsp::cepstrum(a, z, b); }, in);
        else if (n == "conv") { auto g = op.as<T>("g"); auto keep = g; on<T, T>(op, op.as<T>("x"), op.v("x").size(), [&](T* a, T* z, T* b) { edsp::conv(a, z, g.data(), b); }, in); op.out("kept", g == keep); }
        else if (n == "autocorr" || n == "xcorr") {
            const std::string& s = op.w("scale");
            auto sc = s == "none" ? edsp::CorrelationScale::None : s == "biased" ? edsp::CorrelationScale::Biased : edsp::CorrelationScale::Unbiased;
            if (n == "autocorr") on<T, T>(op, op.as<T>("x"), op.v("x").size(), [&](T* a, T* z, T* b) { edsp::xcorr(a, z, b, sc); }, in);
            else { auto g = op.as<T>("g"); auto keep = g; on<T, T>(op, op.as<T>("x"), op.v("x").size(), [&](T* a, T* z, T* b) { edsp::xcorr(a, z, g.data(), b, sc); }, in); op.out("kept", g == keep); }
        } else unknown(op);
    }
};

int main() {
    World<double> d;
    World<float> f;
    return run([&](Op& op) {
        if (op.has("t") && op.w("t") == "f") f.apply(op); else d.apply(op);
    });
}
