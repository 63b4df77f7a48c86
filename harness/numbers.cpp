// Functions of single numbers, and the named constants.
#include "common.hpp"
#include <edsp/math/complex.hpp>
#include <edsp/math/constant.hpp>
#include <edsp/math/numeric.hpp>
#include <limits>
using namespace vh;
namespace em = edsp::math;

template <typename T>
static void parity(Op& op, T x, std::true_type) { op.out("odd", em::is_odd(x)); op.out("even", em::is_even(x)); }
template <typename T>
static void parity(Op& op, T x, std::false_type) { parity(op, static_cast<long long>(x), std::true_type()); }
template <typename T>
static void whole(Op& op) {
    const long long n = op.i("n");
    const T x = static_cast<T>(n);
    if (static_cast<long long>(x) != n) { std::fprintf(stderr, "harness: %lld is out of range\n", n); std::exit(97); }
    parity(op, x, std::is_integral<T>());
    op.out("negative", em::is_negative(x));
    op.out("sign", static_cast<long long>(em::sign(x)));
    op.out("power", em::is_power_two(x));
    if (n >= 1 && n <= (1 << 30) && (std::numeric_limits<T>::digits > 30 || !std::is_integral<T>::value || n <= (1LL << (std::numeric_limits<T>::digits - 1)))) op.out("next", static_cast<long long>(em::next_power_two(x)));
    if (n >= 0) op.out("prime", static_cast<bool>(em::is_prime(x)));
}
template <typename T>
static void large(Op& op) {
    const T x = static_cast<T>((static_cast<T>(1) << op.i("k")) + static_cast<T>(op.i("d")));
    op.out("power", em::is_power_two(x));
    op.out("odd", em::is_odd(x));
    if (op.i("k") + (op.i("d") > 0) < 63) {
        const T y = em::next_power_two(x);
        int k = -1;
        for (int j = 0; j < 63; ++j) if (y == (static_cast<T>(1) << j)) k = j;
        op.out("next", k);
    }
}
template <typename T>
static void real(Op& op) {
    const T x = static_cast<T>(op.d("x"));
    if (op.name == "kind") {
        op.out("normal", em::is_normal(x));
        op.out("denormal", em::is_denormal(x));
        op.out("zero", em::is_zero(x));
        op.out("nan", em::is_nan(x));
        op.out("inf", em::is_inf(x));
        op.out("negative", em::is_negative(x));
        op.out("sign", static_cast<double>(em::sign(x)));
    } else if (op.name == "one") {
        op.out("square", em::square(x));
        op.out("half", em::half(x));
        op.out("fract", em::fract(x));
        op.out("inv", em::inv(x));
    } else if (op.name == "distance") {
        const T y = static_cast<T>(op.d("y"));
        const std::string& m = op.w("m");
        op.out("ret", m == "manhattan" ? em::distance<em::distances::manhattan>(x, y) : m == "euclidean" ? em::distance<em::distances::euclidean>(x, y) : em::distance<em::distances::logarithmic>(x, y));
    } else {
        const std::complex<T> z(x, static_cast<T>(op.d("y")));
        if (op.name == "complex") {
            op.out("mag", em::magnitude(z));
            op.out("phase", em::phase(z));
            op.out("re", em::real(z));
            op.out("im", em::imag(z));
            op.out("cre", em::conj(z).real());
            op.out("cim", em::conj(z).imag());
        } else {
            op.out("nan", em::is_nan(z));
            op.out("inf", em::is_inf(z));
            op.out("infre", em::infinity<T>().real());
            op.out("infim", em::infinity<T>().imag());
        }
    }
}
template <typename T>
static void apart(Op& op) {
    const T x = static_cast<T>(op.i("n")), y = static_cast<T>(op.i("k"));
    op.out("ret", static_cast<long long>(op.w("m") == "manhattan" ? em::distance<em::distances::manhattan>(x, y) : em::distance<em::distances::euclidean>(x, y)));
}
template <typename T>
static void constant(Op& op) {
    using K = em::constants<T>;
    const std::string& n = op.w("name");
#define C(name) if (n == #name) { const T v = K::name; op.out("ret", v); return; }
    C(half) C(third) C(twothirds) C(two_thirds) C(sixth) C(three_quarters) C(root_two) C(root_three) C(half_root_two) C(ln_two) C(ln_ln_two) C(root_ln_four)
    C(one_div_root_two) C(pi) C(half_pi) C(third_pi) C(sixth_pi) C(two_pi) C(two_thirds_pi) C(three_quarters_pi) C(four_thirds_pi) C(one_div_two_pi)
    C(one_div_root_two_pi) C(root_pi) C(root_half_pi) C(root_two_pi) C(log_root_two_pi) C(one_div_root_pi) C(root_one_div_pi) C(pi_minus_three) C(four_minus_pi)
    C(pi_pow_e) C(pi_sqr) C(pi_sqr_div_six) C(pi_cubed) C(cbrt_pi) C(one_div_cbrt_pi) C(e) C(exp_minus_half) C(e_pow_pi) C(root_e) C(log10_e) C(one_div_log10_e)
    C(ln_ten) C(degree) C(radian) C(sin_one) C(cos_one) C(sinh_one) C(cosh_one) C(phi) C(ln_phi) C(one_div_ln_phi) C(euler) C(one_div_euler) C(euler_sqr) C(zeta_two)
    C(zeta_three) C(catalan) C(glaisher) C(khinchin) C(extreme_value_skewness) C(rayleigh_skewness) C(rayleigh_kurtosis) C(rayleigh_kurtosis_excess) C(two_div_pi)
    C(root_two_div_pi)
#undef C
    unknown(op);
}
int main() {
    return run([&](Op& op) {
        const std::string& n = op.name;
        const std::string t = op.has("t") ? op.w("t") : "";
        if (n == "whole") {
            if (t == "i8") whole<std::int8_t>(op); else if (t == "i16") whole<std::int16_t>(op); else if (t == "i32") whole<std::int32_t>(op);
            else if (t == "i64") whole<std::int64_t>(op); else if (t == "u8") whole<std::uint8_t>(op); else if (t == "u16") whole<std::uint16_t>(op);
            else if (t == "u32") whole<std::uint32_t>(op); else if (t == "u64") whole<std::uint64_t>(op); else if (t == "d") whole<double>(op);
            else if (t == "f") whole<float>(op); else unknown(op);
        } else if (n == "large") { if (t == "i64") large<std::int64_t>(op); else large<std::uint64_t>(op); }
        else if (n == "product") op.out("prime", static_cast<bool>(em::is_prime(static_cast<std::uint64_t>(op.i("a")) * static_cast<std::uint64_t>(op.i("b")))));
        else if (n == "constant") { if (t == "f") constant<float>(op); else if (t == "d") constant<double>(op); else constant<long double>(op); }
        else if (n == "apart") {
            if (t == "i32") apart<int>(op); else if (t == "i64") apart<long>(op); else if (t == "u32") apart<unsigned>(op); else if (t == "u64") apart<unsigned long>(op);
            else if (t == "u16") apart<std::uint16_t>(op); else unknown(op);
        } else { if (t == "f") real<float>(op); else real<double>(op); }
    });
}
