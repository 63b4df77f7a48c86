// Types that hold one value of one type: optional, expected, any, variant.
#include "common.hpp"
#include <edsp/types/any.hpp>
#include <edsp/types/optional.hpp>
#include <edsp/types/expected.hpp>
#include <edsp/types/variant.hpp>
using namespace vh;

struct Boom {};
static long long alive = 0; // objects of class type which exist
static bool broken = false; // an object was used before its construction or after its end

// A value which knows whether it exists; the value 13 cannot be copied, and -1 is what is left after a move.
template <int K>
struct Obj {
    unsigned state;
    int v;
    static constexpr unsigned is = 0xC0FFEE + K;
    void born() { state = is; ++alive; }
    void used() const { if (state != is) broken = true; }
    Obj() : v(0) { born(); }
    explicit Obj(int x) : v(x) { born(); }
    Obj(const Obj& o) : v(o.v) { o.used(); if (v == 13) throw Boom(); born(); }
    Obj(Obj&& o) noexcept : v(o.v) { o.used(); o.v = -1; born(); }
    Obj& operator=(const Obj& o) {
        used(); o.used();
        if (this == &o) return *this;
        if (o.v == 13) throw Boom();
        v = o.v;
        return *this;
    }
    Obj& operator=(Obj&& o) noexcept {
        used(); o.used();
        if (this == &o) return *this;
        v = o.v; o.v = -1;
        return *this;
    }
    ~Obj() { used(); state = 0; --alive; }
    friend bool operator==(const Obj& a, const Obj& b) { a.used(); b.used(); return a.v == b.v; }
    friend bool operator!=(const Obj& a, const Obj& b) { return !(a == b); }
    friend bool operator<(const Obj& a, const Obj& b) { a.used(); b.used(); return a.v < b.v; }
    friend bool operator>(const Obj& a, const Obj& b) { return b < a; }
    friend bool operator<=(const Obj& a, const Obj& b) { return !(b < a); }
    friend bool operator>=(const Obj& a, const Obj& b) { return !(a < b); }
};
using A = Obj<0>;
using B = Obj<1>;
static int num(int x) { return x; }
template <int K> int num(const Obj<K>& o) { o.used(); return o.v; }

struct Seen { std::string tag; int val; };

template <typename H>
void value_or(H& h, Op& op) {
    std::string thrown = "no";
    try {
        const H& c = h;
        op.out("ret", num(op.i("const", 0) ? c.value_or(A(op.i("x"))) : h.value_or(A(op.i("x")))));
    } catch (const Boom&) { thrown = "boom"; }
    op.outw("thrown", thrown);
}

// ---- what each class offers, under one name -----------------------------------------------------------------
struct Opt {
    using H = edsp::optional<A>;
    static Seen see(const H& h) {
        if (static_cast<bool>(h) != h.has_value()) return {"contradiction", 0};
        if (!h.has_value()) return {"none", 0};
        if (num(*h) != h->v) return {"contradiction", 0};
        return {"A", num(*h)};
    }
    template <typename T> static void emplace(H& h, const T*, int x) { h.emplace(x); }
    template <typename T> static H* in_place(const T*, int x) {
#if __cplusplus >= 201703L
        return new H(std::in_place, x);
#else
        return new H(nonstd::in_place<A>, x);
#endif
    }
    template <typename T> static T& get(H& h, const T*) { return h.value(); }
    template <typename T> static const T& get(const H& h, const T*) { return h.value(); }
    using wrong = nonstd::bad_optional_access;
    static void clear(H& h, bool other) { if (other) h = nonstd::nullopt; else h.reset(); }
    static void ask(H& h, H* o, Op& op) {
        if (op.name == "or") value_or(h, op);
        else if (op.name == "cmp") {
            const H& a = h;
            const H& b = *o;
            op.out("r", std::vector<int>{a == b, a != b, a < b, a <= b, a > b, a >= b});
            const A x(static_cast<int>(op.i("x")));
            op.out("rv", std::vector<int>{a == x, a != x, a < x, a <= x, a > x, a >= x});
            op.out("vr", std::vector<int>{x == a, x != a, x < a, x <= a, x > a, x >= a});
            op.out("rn", std::vector<int>{a == nonstd::nullopt, nonstd::nullopt != a});
        } else unknown(op);
    }
};
struct Exp {
    using H = edsp::expected<A, B>;
    static Seen see(const H& h) {
        if (static_cast<bool>(h) != h.has_value()) return {"contradiction", 0};
        if (!h.has_value()) return {"B", num(h.error())};
        if (num(*h) != h->v) return {"contradiction", 0};
        return {"A", num(*h)};
    }
    static void emplace(H& h, const A*, int x) { h.emplace(x); }
    static void emplace(H& h, const B*, int x) { h = nonstd::unexpected_type<B>(edsp::make_unexpected(x)); }
    static H* in_place(const A*, int x) {
#if __cplusplus >= 201703L
        return new H(std::in_place, x);
#else
        return new H(nonstd::in_place<A>, x);
#endif
    }
    static H* in_place(const B*, int x) { return new H(nonstd::unexpect, x); }
    static A& get(H& h, const A*) { return h.value(); }
    static const A& get(const H& h, const A*) { return h.value(); }
    static B& get(H& h, const B*) { if (h.has_value()) throw nonstd::bad_expected_access<B>(B(0)); return h.error(); }
    static const B& get(const H& h, const B*) { if (h.has_value()) throw nonstd::bad_expected_access<B>(B(0)); return h.error(); }
    using wrong = nonstd::bad_expected_access<B>;
    static void clear(H&, bool) {}
    static void ask(H& h, H* o, Op& op) {
        if (op.name == "or") value_or(h, op);
        else if (op.name == "cmp") {
            const H& a = h;
            const H& b = *o;
            op.out("r", std::vector<int>{a == b, a != b, a < b, a <= b, a > b, a >= b});
            const A x(static_cast<int>(op.i("x")));
            op.out("rv", std::vector<int>{a == x, a != x, a < x, a <= x, a > x, a >= x});
            op.out("vr", std::vector<int>{x == a, x != a, x < a, x <= a, x > a, x >= a});
            const auto u = edsp::make_unexpected(B(static_cast<int>(op.i("x"))));
            op.out("ru", std::vector<int>{a == u, a != u, u == a, u != a});
        } else unknown(op);
    }
};
struct Any {
    using H = edsp::any;
    static Seen see(const H& h) {
        if (h.has_value() != (h.type() != typeid(void))) return {"contradiction", 0};
        const A* a = nonstd::any_cast<A>(&h);
        const B* b = nonstd::any_cast<B>(&h);
        const int* i = nonstd::any_cast<int>(&h);
        if ((a != nullptr) + (b != nullptr) + (i != nullptr) != (h.has_value() ? 1 : 0)) return {"contradiction", 0};
        if ((a != nullptr) != (h.type() == typeid(A)) || (i != nullptr) != (h.type() == typeid(int))) return {"contradiction", 0};
        if (a) return {"A", num(*a)};
        if (b) return {"B", num(*b)};
        if (i) return {"I", num(*i)};
        return {"none", 0};
    }
    template <typename T> static void emplace(H& h, const T*, int x) { h.template emplace<T>(x); }
    template <typename T> static H* in_place(const T*, int x) { return new H(nonstd::make_any<T>(x)); }
    template <typename T> static T& get(H& h, const T*) {
        T* p = nonstd::any_cast<T>(&h);
        if (!p) { (void) nonstd::any_cast<T>(h); throw 1; }
        return *p;
    }
    template <typename T> static const T& get(const H& h, const T*) {
        const T* p = nonstd::any_cast<T>(&h);
        if (!p) { (void) nonstd::any_cast<T>(h); throw 1; }
        return *p;
    }
    using wrong = nonstd::bad_any_cast;
    static void clear(H& h, bool other) { if (other) h = H(); else h.reset(); }
    static void ask(H&, H*, Op& op) { unknown(op); }
};
struct Visit {
    std::string operator()(const A& a) const { return "A" + std::to_string(num(a)); }
    std::string operator()(const B& b) const { return "B" + std::to_string(num(b)); }
    std::string operator()(int i) const { return "I" + std::to_string(i); }
};
struct Visit2 {
    template <typename T, typename U>
    std::string operator()(const T& a, const U& b) const { return Visit()(a) + "_" + Visit()(b); }
};
struct Var {
    using H = edsp::variant<A, B, int>;
    static Seen see(const H& h) {
        const A* a = nonstd::get_if<A>(&h);
        const B* b = nonstd::get_if<1>(&h);
        const int* i = nonstd::get_if<int>(&h);
        if ((a != nullptr) + (b != nullptr) + (i != nullptr) != (h.valueless_by_exception() ? 0 : 1)) return {"contradiction", 0};
        const std::size_t k = a ? 0 : b ? 1 : i ? 2 : static_cast<std::size_t>(nonstd::variant_npos);
        if (h.index() != k || nonstd::holds_alternative<A>(h) != (a != nullptr) || nonstd::holds_alternative<int>(h) != (i != nullptr)) return {"contradiction", 0};
        if (a) return {"A", num(*a)};
        if (b) return {"B", num(*b)};
        if (i) return {"I", num(*i)};
        return {"none", 0};
    }
    template <typename T> static void emplace(H& h, const T*, int x) { h.template emplace<T>(x); }
    template <typename T> static H* in_place(const T*, int x) {
#if __cplusplus >= 201703L
        return new H(std::in_place_type_t<T>{}, x);
#else
        return new H(nonstd::in_place_type<T>, x);
#endif
    }
    template <typename T> static T& get(H& h, const T*) { return nonstd::get<T>(h); }
    static const A& get(const H& h, const A*) { return nonstd::get<0>(h); }
    static const B& get(const H& h, const B*) { return nonstd::get<1>(h); }
    static const int& get(const H& h, const int*) { return nonstd::get<2>(h); }
    using wrong = nonstd::bad_variant_access;
    static void clear(H&, bool) {}
    static void ask(H& h, H* o, Op& op) {
        if (op.name == "cmp") {
            const H& a = h;
            const H& b = *o;
            op.out("r", std::vector<int>{a == b, a != b, a < b, a <= b, a > b, a >= b});
        } else if (op.name == "visit") {
            try {
                op.outw("r1", nonstd::visit(Visit(), h));
                op.outw("r2", nonstd::visit(Visit2(), h, *o));
            } catch (const nonstd::bad_variant_access&) { op.outw("r1", "wrong"); op.outw("r2", "wrong"); }
        } else unknown(op);
    }
};

// a variant of small plain types
struct Small {
    using H = edsp::variant<unsigned char, signed char, short>;
    static Seen see(const H& h) {
        if (nonstd::holds_alternative<unsigned char>(h)) return {"U", nonstd::get<0>(h)};
        if (nonstd::holds_alternative<signed char>(h)) return {"S", *nonstd::get_if<signed char>(&h)};
        if (nonstd::holds_alternative<short>(h)) return {"H", nonstd::get<2>(h)};
        return {"none", 0};
    }
    template <typename T> static void emplace(H& h, const T*, int x) { h.template emplace<T>(static_cast<T>(x)); }
    template <typename T> static H* in_place(const T*, int x) {
#if __cplusplus >= 201703L
        return new H(std::in_place_type_t<T>{}, static_cast<T>(x));
#else
        return new H(nonstd::in_place_type<T>, static_cast<T>(x));
#endif
    }
    template <typename T> static T& get(H& h, const T*) { return nonstd::get<T>(h); }
    template <typename T> static const T& get(const H& h, const T*) { return nonstd::get<T>(h); }
    using wrong = nonstd::bad_variant_access;
    static void clear(H&, bool) {}
    static void ask(H& h, H* o, Op& op) {
        if (op.name == "cmp") {
            const H& a = h;
            const H& b = *o;
            op.out("r", std::vector<int>{a == b, a != b, a < b, a <= b, a > b, a >= b});
        } else unknown(op);
    }
};

// ---- two cells of one class -----------------------------------------------------------------------------------
template <typename H, typename T> struct make_of { static T&& pass(T&& t) { return std::move(t); } static const T& pass(const T& t) { return t; } };
template <> struct make_of<Exp::H, B> {
    static nonstd::unexpected_type<B> pass(B&& t) { return nonstd::unexpected_type<B>(std::move(t)); }
    static nonstd::unexpected_type<B> pass(const B& t) { return nonstd::unexpected_type<B>(t); }
};

struct Base { virtual ~Base() = default; virtual void apply(Op&) = 0; };
template <typename C>
struct World : Base {
    using H = typename C::H;
    std::unique_ptr<H> o[2];
    template <typename T> void put(Op& op, std::unique_ptr<H>& me) {
        using M = make_of<H, T>;
        const std::string how = op.w("how");
        const int x = op.i("x");
        const T* t = nullptr;
        if (how == "emplace") C::emplace(*me, t, x);
        else if (how == "in_place") { H* p = C::in_place(t, x); me.reset(p); }
        else {
            T src = static_cast<T>(x);
            std::string thrown = "no";
            try {
                if (how == "assign") *me = M::pass(static_cast<const T&>(src));
                else if (how == "assign_lvalue") lvalue(*me, src);
                else if (how == "assign_move") *me = M::pass(std::move(src));
                else if (how == "build") { const T& c = src; H* p = new H(M::pass(c)); me.reset(p); }
                else if (how == "build_lvalue") { H* p = lvalue_new(src); me.reset(p); }
                else if (how == "build_move") { H* p = new H(M::pass(std::move(src))); me.reset(p); }
                else unknown(op);
            } catch (const Boom&) { thrown = "boom"; }
            op.outw("thrown", thrown);
            op.out("src", num(src));
        }
    }
    // from a variable which is not constant
    template <typename T> static void lvalue(H& h, T& src) { h = src; }
    template <typename T> static H* lvalue_new(T& src) { return new H(src); }
    template <typename T> void get(Op& op, H& h) {
        const T* t = nullptr;
        std::string thrown = "no";
        try {
            const H& c = h;
            op.out("ret", op.i("const", 0) ? num(C::get(c, t)) : num(C::get(h, t)));
        } catch (const typename C::wrong&) { thrown = "wrong"; } catch (const Boom&) { thrown = "boom"; }
        op.outw("thrown", thrown);
    }
    template <typename T> void set(Op& op, H& h) {
        const T* t = nullptr;
        std::string thrown = "no";
        try {
            C::get(h, t) = static_cast<T>(op.i("x"));
        } catch (const typename C::wrong&) { thrown = "wrong"; } catch (const Boom&) { thrown = "boom"; }
        op.outw("thrown", thrown);
    }
    template <typename T> void typed(Op& op, std::unique_ptr<H>& me) {
        if (op.name == "put") put<T>(op, me);
        else if (op.name == "get") get<T>(op, *me);
        else set<T>(op, *me);
    }
    void with(Op& op, std::unique_ptr<H>& me, std::integral_constant<int, 1>) { typed<A>(op, me); }
    void with(Op& op, std::unique_ptr<H>& me, std::integral_constant<int, 2>) { if (op.w("tag") == "A") typed<A>(op, me); else typed<B>(op, me); }
    void with(Op& op, std::unique_ptr<H>& me, std::integral_constant<int, 3>) {
        if (op.w("tag") == "A") typed<A>(op, me);
        else if (op.w("tag") == "B") typed<B>(op, me);
        else typed<int>(op, me);
    }
    void with(Op& op, std::unique_ptr<H>& me, std::integral_constant<int, 4>) {
        if (op.w("tag") == "U") typed<unsigned char>(op, me);
        else if (op.w("tag") == "S") typed<signed char>(op, me);
        else typed<short>(op, me);
    }
    static constexpr int types = std::is_same<C, Small>::value ? 4 : std::is_same<C, Opt>::value ? 1 : std::is_same<C, Exp>::value ? 2 : 3;
    void apply(Op& op) override {
        const int s = op.w("s") == "a" ? 0 : 1;
        auto& me = o[s];
        auto& other = o[1 - s];
        const std::string& n = op.name;
        if (n == "new") me.reset(new H());
        else if (n == "drop") me.reset();
        else if (n == "put" || n == "get" || n == "set") with(op, me, std::integral_constant<int, types>{});
        else if (n == "clear") C::clear(*me, op.i("how", 0) != 0);
        else if (n == "copy" || n == "move" || n == "swap" || n == "self") {
            std::string thrown = "no";
            const bool build = op.i("build", 0) != 0;
            try {
                if (n == "swap") { if (build) me->swap(*other); else { using std::swap; swap(*me, *other); } }
                else if (n == "self") { H& r = *me; *me = r; }
                else if (n == "copy") {
                    if (build) { H* p = new H(static_cast<const H&>(*other)); me.reset(p); }
                    else {
                        auto&& r = (*me = static_cast<const H&>(*other));
                        if (static_cast<const void*>(&r) != static_cast<const void*>(me.get())) op.out("exc", "assignment does not return its target");
                    }
                } else {
                    if (build) { H* p = new H(std::move(*other)); me.reset(p); }
                    else {
                        auto&& r = (*me = std::move(*other));
                        if (static_cast<const void*>(&r) != static_cast<const void*>(me.get())) op.out("exc", "assignment does not return its target");
                    }
                }
            } catch (const Boom&) { thrown = "boom"; }
            op.outw("thrown", thrown);
        } else C::ask(*me, other.get(), op);
        for (int k = 0; k < 2; ++k) {
            const char* t[] = {"at", "bt"};
            const char* v[] = {"av", "bv"};
            const Seen w = o[k] ? C::see(*o[k]) : Seen{"gone", 0};
            op.outw(t[k], w.tag);
            op.out(v[k], w.val);
        }
    }
};
template <> template <> void World<Exp>::lvalue<B>(H& h, B& src) { auto u = edsp::make_unexpected(src); h = u; }
template <> template <> Exp::H* World<Exp>::lvalue_new<B>(B& src) { auto u = edsp::make_unexpected(src); return new H(u); }

int main() {
    std::unique_ptr<Base> w;
    return run([&](Op& op) {
        if (op.name == "kind") {
            w.reset();
            const std::string& k = op.w("kind");
            if (k == "optional") w.reset(new World<Opt>());
            else if (k == "expected") w.reset(new World<Exp>());
            else if (k == "any") w.reset(new World<Any>());
            else if (k == "small") w.reset(new World<Small>());
            else w.reset(new World<Var>());
        } else w->apply(op);
        op.out("alive", alive);
        op.out("broken", broken);
        broken = false;
    });
}
