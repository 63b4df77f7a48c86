// Uniform access to containers, arrays and pointers; traits; checked conditions.
#include "common.hpp"
#include <edsp/meta/advance.hpp>
#include <edsp/meta/cast.hpp>
#include <edsp/meta/contains.hpp>
#include <edsp/meta/data.hpp>
#include <edsp/meta/empty.hpp>
#include <edsp/meta/ensure.hpp>
#include <edsp/meta/equal.hpp>
#include <edsp/meta/expects.hpp>
#include <edsp/meta/is_char.hpp>
#include <edsp/meta/is_iterator.hpp>
#include <edsp/meta/is_null.hpp>
#include <edsp/meta/is_signed.hpp>
#include <edsp/meta/is_unsigned.hpp>
#include <edsp/meta/size.hpp>
#include <deque>
#include <forward_list>
#include <list>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_map>
using namespace vh;
namespace m = edsp::meta;

// calls which the library does not offer are exceptions of the event, not failures of this file
template <typename A>
auto data_of(A& a, int) -> decltype(m::data(a)) { return m::data(a); }
template <typename A>
typename std::decay<A>::type data_of(A&, long) { throw std::runtime_error("no data of arrays"); }
template <typename A>
auto null_of(A& a, int) -> decltype(m::is_null(a)) { return m::is_null(a); }
template <typename A>
bool null_of(A&, long) { throw std::runtime_error("no is_null of arrays"); }

// one object of every kind, of which one is at hand
struct Object {
    virtual ~Object() = default;
    virtual std::vector<int> all() = 0;
    virtual void put(int, int) { std::exit(97); }
    virtual int get(int) { std::exit(97); }
    virtual long size() { std::exit(97); }
    virtual bool empty() { std::exit(97); }
    virtual bool null() { std::exit(97); }
    virtual bool contains(int, int, int) = 0;
    virtual void advance(Op&, int, int) = 0;
};
template <typename It>
void advanced(Op& op, It first, It last, int i, int n) {
    It from = first;
    std::advance(from, i);
    const It before = from;
    const It to = m::advance(from, n);
    op.out("at", static_cast<int>(std::distance(first, to)));
    op.out("kept", static_cast<int>(std::distance(first, from)) + (before == from ? 0 : 1000));
    std::vector<int> r;
    if (to != last) r.push_back(*to);
    op.out("ret", r);
}
template <typename C>
struct Base : Object {
    C c;
    template <typename... A>
    explicit Base(A&&... a) : c(std::forward<A>(a)...) {}
    std::vector<int> all() override { return std::vector<int>(c.begin(), c.end()); }
    long size() override { return static_cast<long>(m::size(c)); }
    bool empty() override { return m::empty(c); }
    bool contains(int i, int j, int v) override { return m::contains(std::next(c.begin(), i), std::next(c.begin(), j), v); }
    void advance(Op& op, int i, int n) override { advanced(op, c.begin(), c.end(), i, n); }
};
struct Vector : Base<std::vector<int>> {
    using Base::Base;
    void put(int i, int v) override { m::data(c)[i] = v; }
    int get(int i) override { return m::data(c)[i]; }
};
struct ConstVector : Base<const std::vector<int>> {
    using Base::Base;
    int get(int i) override { return m::data(c)[i]; }
};
struct List : Base<std::list<int>> {
    using Base::Base;
};
struct Str : Base<const std::string> {
    using Base::Base;
    int get(int i) override { return static_cast<unsigned char>(m::data(c)[i]); }
};
struct Pointer : Vector {
    using Vector::Vector;
    void put(int i, int v) override { int* p = c.data(); m::data(p)[i] = v; }
    int get(int i) override { int* const p = c.data(); return m::data(p)[i]; }
    bool null() override { const int* p = c.empty() ? all_.data() : c.data(); return m::is_null(p); }
    std::vector<int> all_{1};
};
struct ConstPointer : Pointer {
    using Pointer::Pointer;
    int get(int i) override { const int* p = c.data(); return m::data(p)[i]; }
};
template <std::size_t N>
struct Array : Object {
    int a[N];
    explicit Array(const std::vector<int>& x) { std::copy(x.begin(), x.end(), a); }
    std::vector<int> all() override { return std::vector<int>(a, a + N); }
    void put(int i, int v) override { data_of(a, 0)[i] = v; }
    int get(int i) override { return data_of(a, 0)[i]; }
    long size() override { return static_cast<long>(m::size(a)); }
    bool empty() override { return m::empty(a); }
    bool null() override { return null_of(a, 0); }
    bool contains(int i, int j, int v) override { return m::contains(a + i, a + j, v); }
    void advance(Op& op, int i, int n) override { advanced(op, a + 0, a + N, i, n); }
};
template <std::size_t N>
struct ConstArray : Array<N> {
    using Array<N>::Array;
    const int (&k)[N] = this->a;
    int get(int i) override { return data_of(k, 0)[i]; }
    long size() override { return static_cast<long>(m::size(k)); }
    bool empty() override { return m::empty(k); }
    bool null() override { return null_of(k, 0); }
    bool contains(int i, int j, int v) override { return m::contains(k + i, k + j, v); }
};
template <std::size_t N>
struct StdArray : Object {
    std::array<int, N> a;
    explicit StdArray(const std::vector<int>& x) { std::copy(x.begin(), x.end(), a.begin()); }
    std::vector<int> all() override { return std::vector<int>(a.begin(), a.end()); }
    void put(int i, int v) override { m::data(a)[i] = v; }
    int get(int i) override { return m::data(a)[i]; }
    long size() override { return static_cast<long>(m::size(a)); }
    bool empty() override { return m::empty(a); }
    bool contains(int i, int j, int v) override { return m::contains(a.cbegin() + i, a.cbegin() + j, v); }
    void advance(Op& op, int i, int n) override { advanced(op, a.begin(), a.end(), i, n); }
};
struct Listed : Object {
    std::vector<int> x;
    explicit Listed(const std::vector<int>& v) : x(v) {}
    template <typename F>
    auto with(F f) -> decltype(f(std::initializer_list<int>{})) {
        switch (x.size()) {
            case 0: return f(std::initializer_list<int>{});
            case 1: return f({x[0]});
            case 2: return f({x[0], x[1]});
            case 3: return f({x[0], x[1], x[2]});
            default: return f({x[0], x[1], x[2], x[3]});
        }
    }
    using L = std::initializer_list<int>;
    std::vector<int> all() override { return with([](const L& l) { return std::vector<int>(l.begin(), l.end()); }); }
    int get(int i) override { return with([=](const L& l) { return m::data(l)[i]; }); }
    long size() override { return with([](const L& l) { return static_cast<long>(m::size(l)); }); }
    bool empty() override { return with([](const L& l) { return m::empty(l); }); }
    bool null() override { return with([](const L& l) { return m::is_null(l); }); }
    bool contains(int i, int j, int v) override { return with([=](const L& l) { return m::contains(l.begin() + i, l.begin() + j, v); }); }
    void advance(Op& op, int i, int n) override { with([&](const L& l) { advanced(op, l.begin(), l.end(), i, n); return 0; }); }
};
template <template <std::size_t> class A>
Object* sized(const std::vector<int>& x) {
    switch (x.size()) {
        case 1: return new A<1>(x);
        case 2: return new A<2>(x);
        case 3: return new A<3>(x);
        case 4: return new A<4>(x);
    }
    std::exit(97);
}

template <typename T, bool = m::is_iterator<T>::value>
struct category {
    static const char* name() {
        return m::is_input_iterator_v<T> ? "input" : m::is_output_iterator_v<T> ? "output" : m::is_forward_iterator_v<T> ? "forward" : m::is_bidirectional_iterator_v<T> ? "bidirectional" : m::is_random_access_iterator_v<T> ? "random" : "several";
    }
};
template <typename T>
struct category<T, false> {
    static const char* name() { return "none"; }
};
template <typename T>
void type(Op& op) {
    op.out("iterator", m::is_iterator_v<T> && m::is_iterator<T>::value);
    op.outw("category", category<T>::name());
    op.out("char", static_cast<bool>(m::is_char_v<T>));
    op.out("signed", static_cast<bool>(m::is_signed_v<T>));
    op.out("unsigned", static_cast<bool>(m::is_unsigned_v<T>));
}

struct Pipe : std::streambuf {
    int fd;
    explicit Pipe(int f) : fd(f) {}
    int overflow(int ch) override {
        const char x = static_cast<char>(ch);
        return ::write(fd, &x, 1) == 1 ? ch : EOF;
    }
};
static void condition(Op& op) {
    int fd[2];
    if (::pipe(fd)) std::exit(97);
    const bool cond = op.i("cond") != 0;
    const pid_t pid = ::fork();
    if (pid == 0) {
        ::close(fd[0]);
        Pipe pipe(fd[1]);
        std::cout.rdbuf(&pipe);
        rlimit none{0, 0};
        ::setrlimit(RLIMIT_CORE, &none);
        if (!std::freopen("/dev/null", "w", stderr)) ::_exit(97);
        if (op.has("msg")) {
            const std::string s = op.s("msg") + "ZZ";
            const edsp::string_view v(s.data(), s.size() - 2);
            if (op.name == "expects") m::expects(cond, v); else m::ensure(cond, v);
        } else if (op.name == "expects") m::expects(cond);
        else m::ensure(cond);
        ::_exit(0);
    }
    ::close(fd[1]);
    std::string text;
    char b[256];
    for (ssize_t k; (k = ::read(fd[0], b, sizeof b)) > 0;) text.append(b, static_cast<std::size_t>(k));
    ::close(fd[0]);
    int status = 0;
    ::waitpid(pid, &status, 0);
    if (WIFEXITED(status) && WEXITSTATUS(status)) std::exit(97);
    const std::string msg = op.has("msg") ? op.s("msg") : std::string();
    op.out("said", !msg.empty() && text.find(msg) != std::string::npos && text.find(msg, text.find(msg) + 1) == std::string::npos && text.find("ZZ") == std::string::npos);
    op.out("quiet", text.find_first_not_of(" \n") == std::string::npos || msg.empty());
    op.out("died", WIFSIGNALED(status) && WTERMSIG(status) == SIGABRT);
#ifdef NDEBUG
    op.out("asserts", false);
#else
    op.out("asserts", true);
#endif
}

struct Record { int a; };
int main() {
    std::unique_ptr<Object> cur(new Vector(std::vector<int>()));
    return run([&](Op& op) {
        const std::string& n = op.name;
        if (n == "new") {
            std::vector<int> x;
            for (auto v : op.iv("x")) x.push_back(static_cast<int>(v));
            const std::string& k = op.w("kind");
            if (k == "vector") cur.reset(new Vector(x));
            else if (k == "cvector") cur.reset(new ConstVector(x));
            else if (k == "list") cur.reset(new List(x.begin(), x.end()));
            else if (k == "string") cur.reset(new Str(x.begin(), x.end()));
            else if (k == "pointer") cur.reset(new Pointer(x));
            else if (k == "cpointer") cur.reset(new ConstPointer(x));
            else if (k == "array") cur.reset(sized<Array>(x));
            else if (k == "carray") cur.reset(sized<ConstArray>(x));
            else if (k == "stdarray") cur.reset(sized<StdArray>(x));
            else if (k == "il") cur.reset(new Listed(x));
            else unknown(op);
            op.out("all", cur->all());
        } else if (n == "put") {
            cur->put(static_cast<int>(op.i("i")), static_cast<int>(op.i("v")));
            op.out("all", cur->all());
        } else if (n == "get") op.out("ret", cur->get(static_cast<int>(op.i("i"))));
        else if (n == "size") op.out("ret", cur->size());
        else if (n == "empty") op.out("ret", cur->empty());
        else if (n == "null") op.out("ret", cur->null());
        else if (n == "contains") {
            op.out("ret", cur->contains(static_cast<int>(op.i("i")), static_cast<int>(op.i("j")), static_cast<int>(op.i("v"))));
            op.out("all", cur->all());
        } else if (n == "advance") cur->advance(op, static_cast<int>(op.i("i")), static_cast<int>(op.i("n")));
        else if (n == "isnull") {
            const std::string &how = op.w("how"), &what = op.w("what");
            const bool some = what != "nothing";
            if (how == "pointer") { int v = 0; int* p = some ? &v : nullptr; op.out("ret", m::is_null(p)); }
            else if (how == "cpointer") { const double v = 0; const double* p = some ? &v : nullptr; op.out("ret", m::is_null(p)); }
            else if (how == "text") { const char* s = !some ? nullptr : what == "blank" ? "" : "x"; op.out("ret", m::is_null(s)); }
            else if (how == "unique") { std::unique_ptr<int> p(some ? new int(0) : nullptr); op.out("ret", m::is_null(p)); }
            else { std::shared_ptr<int> p(some ? new int(0) : nullptr); op.out("ret", m::is_null(p)); }
        } else if (n == "equal") {
            const std::string& t = op.w("t");
            if (t == "double") op.out("ret", static_cast<bool>(m::equal(op.d("a"), op.d("b"))));
            else if (t == "float") op.out("ret", static_cast<bool>(m::equal(static_cast<float>(op.d("a")), static_cast<float>(op.d("b")))));
            else op.out("ret", static_cast<bool>(m::equal(op.i("a"), op.i("b"))));
        } else if (n == "cast") {
            const double v = op.d("v");
            op.out("whole", m::sc<int>(v));
            op.out("single", m::sc<float>(v));
            op.out("same", m::sc<double>(v));
        } else if (n == "level") {
            static const char* L[] = {"trace", "debug", "info", "warning", "error", "critical", "off"};
            for (int k = 0; k < 7; ++k) if (op.w("v") == L[k]) edsp::logger::set_default_level(static_cast<edsp::logger::levels>(k));
        } else if (n == "expects" || n == "ensure") condition(op);
        else if (n == "start") edsp::logger::set_default_level(edsp::logger::levels::trace);
        else if (n == "type") {
            const std::string& t = op.w("t");
            if (t == "pointer") type<int*>(op);
            else if (t == "vector_it") type<std::vector<int>::iterator>(op);
            else if (t == "const_vector_it") type<std::vector<int>::const_iterator>(op);
            else if (t == "deque_it") type<std::deque<int>::iterator>(op);
            else if (t == "list_it") type<std::list<int>::iterator>(op);
            else if (t == "map_it") type<std::map<int, int>::iterator>(op);
            else if (t == "forward_list_it") type<std::forward_list<int>::iterator>(op);
            else if (t == "unordered_it") type<std::unordered_map<int, int>::iterator>(op);
            else if (t == "istream_it") type<std::istream_iterator<int>>(op);
            else if (t == "ostream_it") type<std::ostream_iterator<int>>(op);
            else if (t == "back_inserter") type<std::back_insert_iterator<std::vector<int>>>(op);
            else if (t == "reverse_it") type<std::vector<int>::reverse_iterator>(op);
            else if (t == "vector") type<std::vector<int>>(op);
            else if (t == "string") type<std::string>(op);
            else if (t == "record") type<Record>(op);
            else if (t == "bool") type<bool>(op);
            else if (t == "int") type<int>(op);
            else if (t == "long") type<long>(op);
            else if (t == "short") type<short>(op);
            else if (t == "schar") type<signed char>(op);
            else if (t == "double") type<double>(op);
            else if (t == "float") type<float>(op);
            else if (t == "unsigned") type<unsigned>(op);
            else if (t == "size_t") type<std::size_t>(op);
            else if (t == "uchar") type<unsigned char>(op);
            else if (t == "char") type<char>(op);
            else if (t == "wchar") type<wchar_t>(op);
            else unknown(op);
        } else unknown(op);
    });
}
