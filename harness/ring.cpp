// Bounded double-ended queues: ring_buffer<T>, fixed_ring_buffer<T, N>, ring_span<T>.
#include "common.hpp"
#include <edsp/types/fixed_ring_buffer.hpp>
#include <edsp/types/ring_buffer.hpp>
#include <array>
using namespace vh;

static int num(int x) { return x; }
static int num(const std::string& s) { return std::atoi(s.c_str()); }
static int num(double x) { return static_cast<int>(x); }
template <typename T> T make(long long x);
template <> int make<int>(long long x) { return static_cast<int>(x); }
template <> double make<double>(long long x) { return static_cast<double>(x); }
// long enough to live on the heap
template <> std::string make<std::string>(long long x) { return std::to_string(x) + " ........................................"; }

struct Slot {
    virtual ~Slot() = default;
    virtual void apply(Op& op) = 0;
    virtual std::string look() = 0;
};

// where the elements are: their distance from the beginning of the storage
template <typename B, typename T>
std::vector<int> places(B& b, const T* base) {
    std::vector<int> r;
    for (auto it = b.begin(); it != b.end(); ++it) r.push_back(static_cast<int>(&*it - base));
    return r;
}
// Iterators to positions i and j of a sequence of n elements, compared and moved in every way they offer.
template <typename It, typename Jt>
void walk(Op& op, It first, Jt first2, int n) {
    const int i = static_cast<int>(op.i("i")), j = static_cast<int>(op.i("j"));
    It a = first;
    for (int k = 0; k < i; ++k) ++a;
    Jt b = first2;
    for (int k = 0; k < j; ++k) b++;
    op.out("cmp", std::vector<bool>{a < b, a <= b, a > b, a >= b, a == b, a != b});
    op.out("dist", static_cast<long long>(b - a));
    std::vector<long long> at;                     // every one of these is where the other one is
    It c = first;
    c += j;
    at.push_back(c - first);
    c -= j - i;
    at.push_back(c - first);
    at.push_back((a + (j - i)) - first);
    at.push_back((first + j) - first);
    at.push_back((a - (i - j)) - first);
    It d = first + n;
    for (int k = n; k > i; --k) --d;
    at.push_back(d - first);
    if (i < n) {
        It e = a;
        It old = e++;
        at.push_back(old - first);
        at.push_back(e - first);
        old = e--;
        at.push_back(old - first);
        at.push_back(e - first);
        op.out("ret", num(*a));
    }
    op.out("at", at);
}
template <typename B>
void walk_in(B& b, Op& op) {
    const B& c = b;
    const std::string& w = op.w("w");
    const int n = static_cast<int>(b.size());
    if (w == "fwd") walk(op, b.begin(), b.begin(), n);
    else if (w == "const") walk(op, c.begin(), c.cbegin(), n);
    else if (w == "mixed") walk(op, b.begin(), c.begin(), n);
    else if (w == "rev") walk(op, b.rbegin(), b.rbegin(), n);
    else walk(op, c.rbegin(), c.crbegin(), n);
}

template <typename B, typename T>
std::string look_at(B& b, bool intact) {
    const B& c = b;
    std::vector<int> fwd, cfwd, rev, idx, ats;
    for (auto it = b.begin(); it != b.end(); ++it) fwd.push_back(num(*it));
    for (auto it = c.cbegin(); it != c.cend(); it++) cfwd.push_back(num(*it));
    for (auto it = c.crbegin(); it != c.crend(); ++it) rev.push_back(num(*it));
    for (std::size_t k = 0; k < c.size(); ++k) idx.push_back(num(c[k]));
    for (std::size_t k = 0; k < c.size(); ++k) {
        ats.push_back(num(c.at(k)));
        if (num(b.at(k)) != num(b[k])) ats.push_back(-99);
    }
    std::string r = "{\"size\":" + js(c.size()) + ",\"cap\":" + js(c.capacity()) + ",\"empty\":" + js(c.empty()) +
                    ",\"full\":" + js(c.full()) + ",\"fwd\":" + js(fwd) + ",\"cfwd\":" + js(cfwd) + ",\"rev\":" + js(rev) +
                    ",\"idx\":" + js(idx) + ",\"ats\":" + js(ats) + ",\"dist\":" + js(static_cast<long long>(c.end() - c.begin())) +
                    ",\"intact\":" + js(intact && b.data() == b.buffer().data() && c.size() <= c.buffer().size()) + ",\"room\":" + js(c.max_size() >= c.capacity()) + ",\"place\":" + js(places(b, c.data()));
    if (!c.empty()) r += ",\"front\":" + js(num(c.front())) + ",\"back\":" + js(num(c.back()));
    return r + "}";
}

// construction in place from several arguments, where there are any
template <typename T, typename B>
typename std::enable_if<std::is_same<T, std::string>::value>::type emplace2(B& b, const std::string& s, bool back) {
    const std::size_t n = s.size();
    const char* p = s.c_str();
    if (back) b.emplace_back(p, n); else b.emplace_front(p, n);
}
template <typename T, typename B>
typename std::enable_if<!std::is_same<T, std::string>::value>::type emplace2(B& b, const T& v, bool back) {
    if (back) b.emplace_back(v); else b.emplace_front(v);
}
template <typename B, typename T>
bool common_op(B& b, Op& op) {
    const std::string& n = op.name;
    if (n == "push_back") b.push_back(make<T>(op.i("x")));
    else if (n == "emplace_back") b.emplace_back(make<T>(op.i("x")));
    else if (n == "emplace_front") b.emplace_front(make<T>(op.i("x")));
    else if (n == "clear") b.clear();
    else if (n == "set_index") b[op.i("k")] = make<T>(op.i("x"));
    else if (n == "set_at") b.at(op.i("k")) = make<T>(op.i("x"));
    else if (n == "set_iter") *(b.begin() + static_cast<int>(op.i("k"))) = make<T>(op.i("x"));
    else if (n == "set_front") b.front() = make<T>(op.i("x"));
    else if (n == "set_back") b.back() = make<T>(op.i("x"));
    else if (n == "walk") walk_in(b, op);
    else if (n == "emplace_back2") emplace2<T>(b, make<T>(op.i("x")), true);
    else if (n == "emplace_front2") emplace2<T>(b, make<T>(op.i("x")), false);
    else if (n == "set_rev") *(b.rbegin() + static_cast<int>(op.i("k"))) = make<T>(op.i("x"));
    else if (n == "pop_front") b.pop_front();
    else if (n == "pop_back") b.pop_back();
    else if (n == "self_assign") { B& r = b; b = r; }
    else if (n == "at") {
        std::string thrown = "no";
        try {
            if (op.i("k") % 2) op.out("ret", num(b.at(op.i("k"))));
            else op.out("ret", num(static_cast<const B&>(b).at(op.i("k"))));
        } catch (const std::out_of_range&) { thrown = "out_of_range"; }
        op.outw("thrown", thrown);
    } else return false;
    return true;
}

// ---- owning buffers ---------------------------------------------------------------------------------------------
template <typename B, typename T, bool Resizable>
struct World {
    std::unique_ptr<B> o[2];
    static void resize(B& b, Op& op, std::true_type) { b.resize(op.i("n")); }
    static void resize(B&, Op& op, std::false_type) { unknown(op); }
    static B* create(Op& op, std::true_type) {
        if (op.has("fill")) return new B(op.i("cap"), make<T>(op.i("fill")));
        return op.i("cap") == 0 ? new B() : new B(op.i("cap"));
    }
    static B* create(Op& op, std::false_type) {
        B* b = new B();
        if (op.has("fill")) for (long long k = 0; k < op.i("cap"); ++k) b->push_back(make<T>(op.i("fill")));
        return b;
    }
    void apply(Op& op) {
        int s = op.w("s") == "a" ? 0 : 1;
        auto& me = o[s];
        auto& other = o[1 - s];
        const std::string& n = op.name;
        using R = std::integral_constant<bool, Resizable>;
        if (n == "new") { o[0].reset(); o[1].reset(); me.reset(create(op, R{})); }
        else if (n == "make") me.reset(create(op, R{}));
        else if (n == "copy") me.reset(new B(*other));
        else if (n == "move") { me.reset(new B(std::move(*other))); other.reset(); }
        else if (n == "copy_assign") { if (!me) me.reset(new B()); *me = *other; }
        else if (n == "move_assign") { if (!me) me.reset(new B()); *me = std::move(*other); other.reset(); }
        else if (n == "drop") me.reset();
        else if (n == "swap") { using std::swap; swap(*o[0], *o[1]); }
        else if (n == "resize") resize(*me, op, R{});
        else if (!common_op<B, T>(*me, op)) unknown(op);
        if (o[0]) op.raw("a", look_at<B, T>(*o[0], true));
        if (o[1]) op.raw("b", look_at<B, T>(*o[1], true));
    }
};

// ---- the non-owning view ----------------------------------------------------------------------------------------
// How the elements leave the view: handed over, replaced by a fixed one, or left alone.
template <typename T> struct Given {
    using popper = nonstd::default_popper<T>;
    static popper make_one() { return popper(); }
    template <typename S> static void pop(S& s, Op& op, bool front) { op.out("ret", num(front ? s.pop_front() : s.pop_back())); }
};
template <typename T> struct Copied {
    using popper = nonstd::copy_popper<T>;
    static popper make_one() { return popper(make<T>(-5)); }
    template <typename S> static void pop(S& s, Op& op, bool front) {
        const T* p = front ? &s.front() : &s.back();
        op.out("ret", num(front ? s.pop_front() : s.pop_back()));
        op.out("left", num(*p));
    }
};
template <typename T> struct Kept {
    using popper = nonstd::null_popper<T>;
    static popper make_one() { return popper(); }
    template <typename S> static void pop(S& s, Op& op, bool front) {
        const T* p = front ? &s.front() : &s.back();
        front ? s.pop_front() : s.pop_back();
        op.out("kept", num(*p));
    }
};
template <typename T, template <typename> class How>
struct SpanWorld {
    using P = typename How<T>::popper;
    using Span = edsp::ring_span<T, P>;
    std::shared_ptr<Guarded<T>> mem[2];
    std::unique_ptr<Span> o[2];
    void create(Op& op, int k) {
        o[k].reset();
        mem[k].reset(new Guarded<T>(op.i("cap"), make<T>(-77)));
        auto& m = *mem[k];
        if (op.has("fill")) {
            for (auto& x : m) x = make<T>(op.i("fill"));
            o[k].reset(new Span(m.begin(), m.end(), m.begin() + op.i("head", 0), op.i("cap"), How<T>::make_one()));
        } else
            o[k].reset(new Span(m.begin(), m.end(), How<T>::make_one()));
    }
    void apply(Op& op) {
        const std::string& n = op.name;
        const int k = op.w("s") == "a" ? 0 : 1;
        auto& s = o[k];
        auto& other = o[1 - k];
        if (n == "new") { o[0].reset(); o[1].reset(); create(op, k); }
        else if (n == "make") create(op, k);
        else if (n == "drop") s.reset();
        else if (n == "move") { mem[k] = mem[1 - k]; s.reset(new Span(std::move(*other))); other.reset(); }
        else if (n == "move_assign") {
            if (!s) { mem[k].reset(new Guarded<T>(1, make<T>(-77))); s.reset(new Span(mem[k]->begin(), mem[k]->end(), How<T>::make_one())); }
            *s = std::move(*other);
            mem[k] = mem[1 - k];
            other.reset();
        }
        else if (n == "swap") { using std::swap; if (op.i("m", 0)) s->swap(*other); else swap(*s, *other); std::swap(mem[0], mem[1]); }
        else if (n == "push_back") { T v = make<T>(op.i("x")); if (op.i("x") % 2) s->push_back(std::move(v)); else { s->push_back(v); if (v != make<T>(op.i("x"))) op.out("exc", "modified its argument"); } }
        else if (n == "emplace_back") s->emplace_back(make<T>(op.i("x")));
        else if (n == "push_front") { T v = make<T>(op.i("x")); if (op.i("x") % 2) s->push_front(std::move(v)); else { s->push_front(v); if (v != make<T>(op.i("x"))) op.out("exc", "modified its argument"); } }
        else if (n == "emplace_front") s->push_front(make<T>(op.i("x")));
        else if (n == "emplace_back2") emplace2<T>(*s, make<T>(op.i("x")), true);
        else if (n == "emplace_front2") emplace2<T>(*s, make<T>(op.i("x")), false);
        else if (n == "pop_front") How<T>::pop(*s, op, true);
        else if (n == "pop_back") How<T>::pop(*s, op, false);
        else if (n == "clear") *s = Span(mem[k]->begin(), mem[k]->end(), How<T>::make_one());
        else if (n == "set_index" || n == "set_at" || n == "set_iter") *(s->begin() + static_cast<int>(op.i("k"))) = make<T>(op.i("x"));
        else if (n == "set_rev") *(s->rbegin() + static_cast<int>(op.i("k"))) = make<T>(op.i("x"));
        else if (n == "set_front") s->front() = make<T>(op.i("x"));
        else if (n == "set_back") s->back() = make<T>(op.i("x"));
        else if (n == "walk") walk_in(*s, op);
        else unknown(op);
        for (int q = 0; q < 2; ++q)
            if (o[q]) look(op, q);
    }
    void look(Op& op, int q) {
        auto& b = *o[q];
        const auto& c = b;
        std::vector<int> fwd, cfwd, rev, idx;
        for (auto it = b.begin(); it != b.end(); ++it) fwd.push_back(num(*it));
        for (auto it = c.cbegin(); it != c.cend(); it++) cfwd.push_back(num(*it));
        for (auto it = c.crbegin(); it != c.crend(); ++it) rev.push_back(num(*it));
        for (int k = 0; k < static_cast<int>(c.size()); ++k) idx.push_back(num(*(c.begin() + k)));
        std::string r = "{\"size\":" + js(c.size()) + ",\"cap\":" + js(c.capacity()) + ",\"empty\":" + js(c.empty()) +
                        ",\"full\":" + js(c.full()) + ",\"fwd\":" + js(fwd) + ",\"cfwd\":" + js(cfwd) + ",\"rev\":" + js(rev) +
                        ",\"idx\":" + js(idx) + ",\"ats\":" + js(fwd) + ",\"dist\":" + js(static_cast<long long>(c.end() - c.begin())) +
                        ",\"intact\":" + js(mem[q]->intact()) + ",\"room\":true,\"place\":" + js(places(b, &*mem[q]->begin()));
        if (!c.empty()) r += ",\"front\":" + js(num(c.front())) + ",\"back\":" + js(num(c.back()));
        op.raw(q ? "b" : "a", r + "}");
    }
};

int main(int argc, char** argv) {
    std::string kind = argv[1], type = argv[2];
    World<edsp::ring_buffer<int>, int, true> ri;
    World<edsp::ring_buffer<double>, double, true> rd;
    World<edsp::ring_buffer<std::string>, std::string, true> rs;
    World<edsp::fixed_ring_buffer<int, 1>, int, false> f1;
    World<edsp::fixed_ring_buffer<int, 2>, int, false> f2;
    World<edsp::fixed_ring_buffer<int, 3>, int, false> f3;
    World<edsp::fixed_ring_buffer<int, 4>, int, false> f4;
    World<edsp::fixed_ring_buffer<int, 7>, int, false> f7;
    World<edsp::fixed_ring_buffer<std::string, 1>, std::string, false> g1;
    World<edsp::fixed_ring_buffer<std::string, 2>, std::string, false> g2;
    World<edsp::fixed_ring_buffer<std::string, 3>, std::string, false> g3;
    World<edsp::fixed_ring_buffer<std::string, 4>, std::string, false> g4;
    World<edsp::fixed_ring_buffer<std::string, 7>, std::string, false> g7;
    SpanWorld<int, Given> si;
    SpanWorld<std::string, Given> ss;
    SpanWorld<int, Copied> ci;
    SpanWorld<std::string, Copied> cs;
    SpanWorld<int, Kept> ki;
    SpanWorld<std::string, Kept> ks;
    long long cap = 0;
    bool str = type == "string";
    return run([&](Op& op) {
        if (op.name == "new") cap = op.i("cap");
        if (kind == "span") { if (str) ss.apply(op); else si.apply(op); return; }
        if (kind == "spancopy") { if (str) cs.apply(op); else ci.apply(op); return; }
        if (kind == "spankeep") { if (str) ks.apply(op); else ki.apply(op); return; }
        if (kind == "ring") { if (str) rs.apply(op); else if (type == "double") rd.apply(op); else ri.apply(op); return; }
        switch (cap) {
            case 1: str ? g1.apply(op) : f1.apply(op); break;
            case 2: str ? g2.apply(op) : f2.apply(op); break;
            case 3: str ? g3.apply(op) : f3.apply(op); break;
            case 4: str ? g4.apply(op) : f4.apply(op); break;
            case 7: str ? g7.apply(op) : f7.apply(op); break;
            default: unknown(op);
        }
    });
}
