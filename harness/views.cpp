// Views: basic_string_view over text, span over elements.
#include "common.hpp"
#include <array>
#include <iomanip>
#define span_FEATURE_MEMBER_AT 1
#define span_FEATURE_MEMBER_BACK_FRONT 1
#define span_FEATURE_MEMBER_SWAP 1
#include <edsp/types/span.hpp>
#include <edsp/types/string_view.hpp>
using namespace vh;

struct Base { virtual ~Base() = default; virtual void apply(Op&) = 0; };

template <typename C> long long code(C c) { return static_cast<long long>(static_cast<typename std::make_unsigned<C>::type>(c)); }
template <> long long code<wchar_t>(wchar_t c) { return static_cast<long long>(c); }
template <> long long code<char16_t>(char16_t c) { return static_cast<long long>(c); }
template <typename C> std::basic_string<C> text(const std::vector<int>& v) {
    std::basic_string<C> s;
    for (int x : v) s.push_back(static_cast<C>(x));
    return s;
}
static int sign(int x) { return x < 0 ? -1 : x > 0 ? 1 : 0; }

template <typename C>
struct Text : Base {
    using V = edsp::basic_string_view<C>;
    using S = std::basic_string<C>;
    std::unique_ptr<C[]> mem; // exactly the text, and no end mark
    std::size_t n = 0;
    V v, w;
    static std::size_t at(long long p) { return p < 0 ? std::string::npos : static_cast<std::size_t>(p); }
    static long long from(std::size_t p) { return p == V::npos ? -1 : static_cast<long long>(p); }
    // a needle without anything behind it
    struct Needle {
        std::unique_ptr<C[]> p;
        std::size_t n;
        S s;
        explicit Needle(const std::vector<int>& x) : p(new C[x.size()]), n(x.size()), s(text<C>(x)) { std::copy(s.begin(), s.end(), p.get()); }
        V view() const { return V(p.get(), n); }
    };
    template <typename F1, typename F2, typename F3, typename F4>
    void find(Op& op, const Needle& d, F1 view, F2 one, F3 counted, F4 ended) {
        const std::string& how = op.w("how");
        const long long p = op.i("p");
        if (how == "char") op.out("ret", from(one(d.s[0], at(p))));
        else if (how == "counted") op.out("ret", from(counted(d.p.get(), at(p), d.n)));
        else if (how == "ended") op.out("ret", from(ended(d.s.c_str(), at(p))));
        else op.out("ret", from(view(d.view(), at(p))));
    }
    void stream(Op& op, std::true_type) {
        std::basic_ostringstream<C> o;
        o << std::setfill(static_cast<C>('*')) << std::setw(static_cast<int>(op.i("width")));
        const std::string& a = op.w("adjust");
        if (a == "left") o << std::left;
        else if (a == "right") o << std::right;
        o << v << v;
        show(op, "r", o.str());
    }
    void stream(Op& op, std::false_type) { unknown(op); }
    // beginnings and endings, where the class can be asked
    template <typename X>
    static auto edges(Op& op, const X& v, const Needle& d, int) -> decltype(v.starts_with(d.view()), void()) {
        std::vector<int> r{v.starts_with(d.view()), v.ends_with(d.view()), v.starts_with(d.s.c_str()), v.ends_with(d.s.c_str())};
        if (d.n == 1) { r.push_back(v.starts_with(d.s[0])); r.push_back(v.ends_with(d.s[0])); }
        op.out("edges", r);
    }
    template <typename X>
    static void edges(Op&, const X&, const Needle&, long) {}
    static void show(Op& op, const char* name, const S& s) {
        std::vector<long long> r;
        for (C c : s) r.push_back(code(c));
        op.out(name, r);
    }
    void apply(Op& op) override {
        const std::string& o = op.name;
        std::string thrown = "no";
        try {
            if (o == "text") {
                const S s = text<C>(op.iv("x"));
                n = s.size();
                mem.reset(new C[n]);
                std::copy(s.begin(), s.end(), mem.get());
                v = w = V(mem.get(), n);
            } else if (o == "view") v = V(mem.get() + op.i("k"), op.i("n"));
            else if (o == "nothing") v = V();
            else if (o == "keep") w = v;
            else if (o == "swap") v.swap(w);
            else if (o == "remove_prefix") v.remove_prefix(op.i("n"));
            else if (o == "remove_suffix") v.remove_suffix(op.i("n"));
            else if (o == "substr") v = op.i("n") < 0 ? v.substr(op.i("p")) : v.substr(op.i("p"), op.i("n"));
            else if (o == "at") op.out("ret", code(v.at(op.i("k"))));
            else if (o == "copy") {
                Guarded<C> g(op.i("n"), static_cast<C>('?'));
                op.out("ret", static_cast<long long>(op.i("p") == 0 ? v.copy(g.begin(), op.i("n")) : v.copy(g.begin(), op.i("n"), op.i("p"))));
                op.out("intact", g.intact());
                show(op, "r", S(g.begin(), g.end()));
            } else if (o == "find" || o == "rfind" || o == "first_of" || o == "last_of" || o == "first_not" || o == "last_not") {
                const Needle d(op.iv("x"));
                const V& c = v;
                using P = std::size_t;
                if (o == "find") find(op, d, [&](V x, P p) { return c.find(x, p); }, [&](C x, P p) { return c.find(x, p); },
                                      [&](const C* x, P p, P k) { return c.find(x, p, k); }, [&](const C* x, P p) { return c.find(x, p); });
                else if (o == "rfind") find(op, d, [&](V x, P p) { return c.rfind(x, p); }, [&](C x, P p) { return c.rfind(x, p); },
                                      [&](const C* x, P p, P k) { return c.rfind(x, p, k); }, [&](const C* x, P p) { return c.rfind(x, p); });
                else if (o == "first_of") find(op, d, [&](V x, P p) { return c.find_first_of(x, p); }, [&](C x, P p) { return c.find_first_of(x, p); },
                                      [&](const C* x, P p, P k) { return c.find_first_of(x, p, k); }, [&](const C* x, P p) { return c.find_first_of(x, p); });
                else if (o == "last_of") find(op, d, [&](V x, P p) { return c.find_last_of(x, p); }, [&](C x, P p) { return c.find_last_of(x, p); },
                                      [&](const C* x, P p, P k) { return c.find_last_of(x, p, k); }, [&](const C* x, P p) { return c.find_last_of(x, p); });
                else if (o == "first_not") find(op, d, [&](V x, P p) { return c.find_first_not_of(x, p); }, [&](C x, P p) { return c.find_first_not_of(x, p); },
                                      [&](const C* x, P p, P k) { return c.find_first_not_of(x, p, k); }, [&](const C* x, P p) { return c.find_first_not_of(x, p); });
                else find(op, d, [&](V x, P p) { return c.find_last_not_of(x, p); }, [&](C x, P p) { return c.find_last_not_of(x, p); },
                                      [&](const C* x, P p, P k) { return c.find_last_not_of(x, p, k); }, [&](const C* x, P p) { return c.find_last_not_of(x, p); });
            } else if (o == "compare") {
                const Needle d(op.iv("x"));
                const V y = d.view();
                op.out("ret", sign(v.compare(y)));
                op.out("ends", sign(v.compare(d.s.c_str())));
                op.out("r", std::vector<int>{v == y, v != y, v < y, v <= y, v > y, v >= y});
                op.out("rs", std::vector<int>{v == d.s, v != d.s, v < d.s, v <= d.s, v > d.s, v >= d.s});
                op.out("sr", std::vector<int>{d.s == v, d.s != v, d.s < v, d.s <= v, d.s > v, d.s >= v});
                edges(op, v, d, 0);
                op.out("rc", std::vector<int>{v == d.s.c_str(), v < d.s.c_str(), d.s.c_str() == v, d.s.c_str() < v});
            } else if (o == "compare_part") {
                const Needle d(op.iv("x"));
                op.out("ret", sign(v.compare(op.i("p"), at(op.i("n")), d.view())));
                op.out("ends", sign(v.compare(op.i("p"), at(op.i("n")), d.s.c_str())));
                op.out("counted", sign(v.compare(op.i("p"), at(op.i("n")), d.p.get(), d.n)));
                op.out("parts", sign(v.compare(op.i("p"), at(op.i("n")), d.view(), op.i("p2"), at(op.i("n2")))));
            } else if (o == "stream") stream(op, std::integral_constant<bool, !std::is_same<C, char16_t>::value>{});
            else unknown(op);
        } catch (const std::out_of_range&) { thrown = "range"; }
        op.outw("thrown", thrown);
        const V& c = v;
        show(op, "fwd", S(c.begin(), c.end()));
        show(op, "rev", S(c.rbegin(), c.rend()));
        show(op, "str", S(c));
        S idx;
        for (std::size_t k = 0; k < c.size(); ++k) idx.push_back(c[k]);
        show(op, "idx", idx);
        op.out("size", std::vector<long long>{static_cast<long long>(c.size()), static_cast<long long>(c.length()), static_cast<long long>(c.cend() - c.cbegin())});
        op.out("empty", c.empty());
        op.out("off", c.data() == nullptr ? -1LL : static_cast<long long>(c.data() - mem.get()));
        if (!c.empty()) op.out("tips", std::vector<long long>{code(c.front()), code(c.back())});
        show(op, "kept", S(w.begin(), w.end()));
    }
};

template <typename T>
struct Elements : Base {
    using V = edsp::span<T>;
    std::vector<T> vec;
    std::array<T, 4> arr{{}};
    T raw[3];
    T* base = raw;
    std::size_t total = 3;
    V v;
    template <typename X> static std::vector<long long> ints(const X& x) {
        std::vector<long long> r;
        for (auto it = x.begin(); it != x.end(); ++it) r.push_back(static_cast<long long>(*it));
        return r;
    }
    static std::vector<int> relate(const V& a, const V& b) { return {a == b, a != b, a < b, a <= b, a > b, a >= b}; }
    void apply(Op& op) override {
        const std::string& o = op.name;
        if (o == "text") {
            const auto x = op.iv("x");
            const std::string& from = op.w("from");
            if (from == "array") { for (int k = 0; k < 4; ++k) arr[k] = static_cast<T>(x[k]); v = V(arr); base = arr.data(); total = 4; }
            else if (from == "raw") { for (int k = 0; k < 3; ++k) raw[k] = static_cast<T>(x[k]); v = V(raw); base = raw; total = 3; }
            else {
                vec.assign(x.begin(), x.end());
                base = vec.data();
                total = vec.size();
                if (from == "vector") v = V(vec);
                else if (from == "counted") v = V(vec.data(), static_cast<std::ptrdiff_t>(vec.size()));
                else v = V(vec.data(), vec.data() + vec.size());
            }
        }
        else if (o == "nothing") v = V();
        else if (o == "view") v = V(base + op.i("k"), base + op.i("k") + op.i("n"));
        else if (o == "first") v = v.first(op.i("n"));
        else if (o == "last") v = v.last(op.i("n"));
        else if (o == "sub") v = op.i("n") < 0 ? v.subspan(op.i("p")) : v.subspan(op.i("p"), op.i("n"));
        else if (o == "fixed") {
            const edsp::span<T, 2> f = v.template first<2>();
            const edsp::span<T, 2> l = v.template last<2>();
            const auto m = v.template subspan<1, 1>();
            const auto r = v.template subspan<1>();
            op.out("r1", ints(f)); op.out("r2", ints(l)); op.out("r3", ints(m)); op.out("r4", ints(r));
            op.out("r5", ints(edsp::span<const T>(f)));
            op.out("offs", std::vector<long long>{f.data() - base, l.data() - base, m.data() - base, r.data() - base});
        }
        else if (o == "four") { // views whose extent is part of their type
            std::array<T, 4> z{{v[0], v[1], v[2], v[3]}};
            const edsp::span<T, 4> s(z), t(s), u(z.data(), z.data() + 4);
            const edsp::span<const T, 4> k(z);
            std::string r;
            const auto say = [&](const auto& x) {
                r += (r.empty() ? "[" : ",[") + js(static_cast<long long>(x.size() == 0 ? 0 : x.data() - z.data())) + "," + js(ints(x)) + "," + js(static_cast<long long>(x.size())) + "," +
                     js(static_cast<long long>(x.size_bytes() / sizeof(T))) + "," + js(x.empty()) + "," + js(std::vector<long long>(x.rbegin(), x.rend())) + "]";
            };
            say(s); say(t); say(u); say(k); say(edsp::span<T>(s));
            say(s.template subspan<1>()); say(s.template subspan<3>()); say(s.template subspan<4>()); say(s.template subspan<1, 2>()); say(s.template subspan<2, 0>());
            say(s.subspan(1)); say(s.subspan(4)); say(s.subspan(1, 2)); say(s.subspan(0, 4));
            say(s.template first<3>()); say(s.template last<3>()); say(s.first(1)); say(s.last(1)); say(s.first(4)); say(s.last(0));
            say(s.template first<3>().template last<2>()); say(s.template last<3>().template subspan<1>());
            op.raw("said", "[" + r + "]");
        }
        else if (o == "get") {
            long long past = 0;
            try { (void) v.at(op.i("n")); } catch (const std::out_of_range&) { ++past; }
            try { (void) v.at(-1); } catch (const std::out_of_range&) { ++past; }
            op.out("past", past);
            const auto k = op.i("k");
            V x(v), y(base, static_cast<std::ptrdiff_t>(0));
            x.swap(y);
            op.out("swapped", ints(y));
            op.out("hollow", ints(x));
            op.out("r", v.size() == 0 ? std::vector<long long>{} : std::vector<long long>{static_cast<long long>(v(k)), static_cast<long long>(v.at(k)), static_cast<long long>(v.front()), static_cast<long long>(v.back())});
        }
        else if (o == "write") { if (op.i("how", 0)) *(v.begin() + op.i("k")) = static_cast<T>(op.i("x")); else v[op.i("k")] = static_cast<T>(op.i("x")); }
        else if (o == "relate") {
            std::vector<T> y;
            for (int x : op.iv("x")) y.push_back(static_cast<T>(x));
            op.out("r", relate(v, V(y)));
        }
        else unknown(op);
        const V& c = v;
        op.out("fwd", ints(c));
        op.out("cfwd", std::vector<long long>(c.cbegin(), c.cend()));
        op.out("rev", std::vector<long long>(c.rbegin(), c.rend()));
        op.out("crev", std::vector<long long>(c.crbegin(), c.crend()));
        std::vector<long long> idx;
        for (std::ptrdiff_t k = 0; k < static_cast<std::ptrdiff_t>(c.size()); ++k) idx.push_back(static_cast<long long>(c[k]));
        op.out("idx", idx);
        op.out("size", std::vector<long long>{static_cast<long long>(c.size()), static_cast<long long>(c.size_bytes() / sizeof(T)), static_cast<long long>(c.end() - c.begin())});
        op.out("empty", c.empty());
        op.out("off", c.data() == nullptr ? -1LL : static_cast<long long>(c.data() - base));
        op.out("mem", std::vector<long long>(base, base + total));
    }
};

int main() {
    std::unique_ptr<Base> w;
    return run([&](Op& op) {
        if (op.name == "kind") {
            const std::string& k = op.w("kind");
            const std::string& t = op.w("type");
            if (k == "text") w.reset(t == "char" ? static_cast<Base*>(new Text<char>()) : t == "wide" ? static_cast<Base*>(new Text<wchar_t>()) : new Text<char16_t>());
            else w.reset(t == "int" ? static_cast<Base*>(new Elements<int>()) : t == "short" ? static_cast<Base*>(new Elements<short>()) : new Elements<double>());
        } else w->apply(op);
    });
}
