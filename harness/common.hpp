// Shared by every harness: reads a script (one operation per line), applies each operation to the
// real library, and writes one JSON event per operation: the operation's arguments and everything observable.
//   line   := ["*"] op (name=value)*
//   value  := integer | real | [integer, ...] | [real, ...] | word
// Integers are written as they are; reals as the pair [hi, lo] of the two 32-bit halves of the IEEE-754 image.
#pragma once
#include <cmath>
#include <complex>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace vh {

inline std::string js(double d) {
    if (d == 0) d = 0; // one zero
    std::uint64_t u;
    std::memcpy(&u, &d, 8);
    std::int32_t hi = static_cast<std::int32_t>(u >> 32), lo = static_cast<std::int32_t>(u & 0xffffffffu);
    char b[64];
    std::snprintf(b, sizeof b, "[%d,%d]", hi, lo);
    return b;
}
inline std::string js(float d) { return js(static_cast<double>(d)); }
inline std::string js(long double d) { return js(static_cast<double>(d)); }
inline std::string js(bool b) { return b ? "true" : "false"; }
inline std::string js(long long v) {
    if (v > 2147483647LL || v < -2147483648LL) return js(static_cast<double>(v));
    return std::to_string(v);
}
inline std::string js(int v) { return js(static_cast<long long>(v)); }
inline std::string js(unsigned v) { return js(static_cast<long long>(v)); }
inline std::string js(long v) { return js(static_cast<long long>(v)); }
inline std::string js(unsigned long v) { return v > 2147483647UL ? js(static_cast<double>(v)) : std::to_string(v); }
inline std::string js(const std::string& s) { // text as bytes
    std::string r = "[";
    for (std::size_t i = 0; i < s.size(); ++i) {
        if (i) r += ",";
        r += std::to_string(static_cast<unsigned char>(s[i]));
    }
    return r + "]";
}
template <typename T>
std::string js(const std::complex<T>& c) {
    return "[" + js(c.real()) + "," + js(c.imag()) + "]";
}
template <typename T, typename A>
std::string js(const std::vector<T, A>& v) {
    std::string r = "[";
    bool first = true;
    for (const T& x : v) {
        if (!first) r += ",";
        first = false;
        r += js(x);
    }
    return r + "]";
}
inline std::string word(const std::string& s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += static_cast<char>(c); }
        else if (c < 32 || c > 126) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += static_cast<char>(c);
    }
    return r + "\"";
}

struct Val {
    enum Kind { Int, Real, Ints, Reals, Word } kind;
    long long i = 0;
    double d = 0;
    std::vector<double> v;
    std::string w;
    std::string json() const {
        switch (kind) {
            case Int: return js(i);
            case Real: return js(d);
            case Reals: return js(v);
            case Ints: {
                std::string r = "[";
                for (std::size_t k = 0; k < v.size(); ++k) r += (k ? "," : "") + std::to_string(static_cast<long long>(v[k]));
                return r + "]";
            }
            default: return word(w);
        }
    }
};
inline bool looks_real(const std::string& s) {
    if (s == "nan" || s == "inf" || s == "-inf") return true;
    std::size_t p = (s[0] == '-') ? 1 : 0;
    if (p >= s.size() || s[p] < '0' || s[p] > '9') return false;
    return s.find_first_of(".e") != std::string::npos;
}
inline bool looks_int(const std::string& s) {
    std::size_t p = (!s.empty() && s[0] == '-') ? 1 : 0;
    if (p >= s.size()) return false;
    for (; p < s.size(); ++p)
        if (s[p] < '0' || s[p] > '9') return false;
    return true;
}
inline Val parse(const std::string& s) {
    Val r;
    if (!s.empty() && s[0] == '[') {
        r.kind = Val::Ints;
        std::string body = s.substr(1, s.size() - 2), tok;
        std::stringstream ss(body);
        while (std::getline(ss, tok, ',')) {
            if (tok.empty()) continue;
            if (looks_real(tok)) r.kind = Val::Reals;
            r.v.push_back(std::strtod(tok.c_str(), nullptr));
        }
    } else if (looks_int(s)) {
        r.kind = Val::Int;
        r.i = std::strtoll(s.c_str(), nullptr, 10);
        r.d = static_cast<double>(r.i);
    } else if (looks_real(s)) {
        r.kind = Val::Real;
        r.d = std::strtod(s.c_str(), nullptr);
    } else {
        r.kind = Val::Word;
        r.w = s;
    }
    return r;
}

struct Op {
    std::string name;
    bool first = false;
    std::vector<std::pair<std::string, Val>> args;
    std::vector<std::pair<std::string, std::string>> outs;
    const Val& at(const std::string& k) const {
        for (auto& a : args)
            if (a.first == k) return a.second;
        std::fprintf(stderr, "harness: %s: no argument %s\n", name.c_str(), k.c_str());
        std::exit(97);
    }
    bool has(const std::string& k) const {
        for (auto& a : args)
            if (a.first == k) return true;
        return false;
    }
    long long i(const std::string& k) const { return at(k).i; }
    long long i(const std::string& k, long long dflt) const { return has(k) ? at(k).i : dflt; }
    double d(const std::string& k) const { return at(k).d; }
    const std::string& w(const std::string& k) const { return at(k).w; }
    std::string s(const std::string& k) const { // text given as a list of bytes
        std::string r;
        for (double x : at(k).v) r += static_cast<char>(static_cast<unsigned char>(x));
        return r;
    }
    const std::vector<double>& v(const std::string& k) const { return at(k).v; }
    std::vector<int> iv(const std::string& k) const {
        std::vector<int> r;
        for (double x : at(k).v) r.push_back(static_cast<int>(x));
        return r;
    }
    template <typename T>
    std::vector<T> as(const std::string& k) const {
        std::vector<T> r;
        for (double x : at(k).v) r.push_back(static_cast<T>(x));
        return r;
    }
    std::vector<std::complex<double>> cv(const std::string& re, const std::string& im) const {
        std::vector<std::complex<double>> r;
        auto& a = v(re);
        auto& b = v(im);
        for (std::size_t k = 0; k < a.size(); ++k) r.emplace_back(a[k], b[k]);
        return r;
    }
    template <typename T>
    void out(const std::string& k, const T& x) { outs.emplace_back(k, js(x)); }
    void out(const std::string& k, const char* x) { outs.emplace_back(k, word(x)); }
    void outw(const std::string& k, const std::string& x) { outs.emplace_back(k, word(x)); }
    void raw(const std::string& k, const std::string& x) { outs.emplace_back(k, x); }
    template <typename T>
    void outc(const std::string& k, const std::vector<std::complex<T>>& c) {
        std::vector<double> re, im;
        for (auto& x : c) { re.push_back(x.real()); im.push_back(x.imag()); }
        outs.emplace_back(k + "re", js(re));
        outs.emplace_back(k + "im", js(im));
    }
};

// A sequence long enough to be checked for writes outside the range it was given.
template <typename T>
struct Guarded {
    std::vector<T> buf;
    std::size_t n;
    T canary;
    static constexpr std::size_t pad = 8;
    explicit Guarded(std::size_t size, T c = T(12345)) : buf(size + 2 * pad, c), n(size), canary(c) {}
    T* begin() { return buf.data() + pad; }
    T* end() { return begin() + n; }
    bool intact() const {
        for (std::size_t k = 0; k < pad; ++k)
            if (buf[k] != canary || buf[pad + n + k] != canary) return false;
        return true;
    }
    std::vector<T> get() { return std::vector<T>(begin(), end()); }
};

inline int run(const std::function<void(Op&)>& apply) {
    std::ios::sync_with_stdio(false);
    const char* where = std::getenv("VH_LOG");
    FILE* log = where ? std::fopen(where, "w") : stdout;
    std::string line;
    long n = 0;
    while (std::getline(std::cin, line)) {
        if (line.empty() || line[0] == '#') continue;
        std::stringstream ss(line);
        Op op;
        std::string tok;
        ss >> tok;
        if (tok == "*") { op.first = true; ss >> tok; }
        op.name = tok;
        while (ss >> tok) {
            auto eq = tok.find('=');
            op.args.emplace_back(tok.substr(0, eq), parse(tok.substr(eq + 1)));
        }
        try {
            apply(op);
        } catch (const std::out_of_range&) {
            op.out("exc", "out_of_range");
        } catch (const std::invalid_argument&) {
            op.out("exc", "invalid_argument");
        } catch (const std::exception&) {
            op.out("exc", "exception");
        } catch (...) {
            op.out("exc", "unknown");
        }
        std::string r = "{\"op\":" + word(op.name) + ",\"first\":" + (op.first ? "true" : "false");
        for (auto& a : op.args) r += ",\"" + a.first + "\":" + a.second.json();
        for (auto& o : op.outs) r += ",\"" + o.first + "\":" + o.second;
        r += "}\n";
        std::fwrite(r.data(), 1, r.size(), log);
        std::fflush(log);
        ++n;
    }
    return 0;
}

[[noreturn]] inline void unknown(const Op& op) {
    std::fprintf(stderr, "harness: unknown operation %s\n", op.name.c_str());
    std::exit(97);
}

} // namespace vh
