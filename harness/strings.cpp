// Text utilities on narrow and wide texts, in place and through inserters.
#include "common.hpp"
#include <edsp/string/join.hpp>
#include <edsp/string/split.hpp>
#include <edsp/string/to_lower.hpp>
#include <edsp/string/to_upper.hpp>
#include <edsp/string/trim.hpp>
#include <deque>
#include <forward_list>
#include <list>
using namespace vh;

template <typename Char>
static std::basic_string<Char> text(const std::vector<int>& v) {
    std::basic_string<Char> s;
    for (int c : v) s.push_back(static_cast<Char>(c));
    return s;
}
template <typename Char>
static std::string codes(const std::basic_string<Char>& s) {
    std::string o = "[";
    for (auto c : s) o += (o.size() > 1 ? "," : "") + std::to_string(sizeof(Char) == 1 ? static_cast<unsigned char>(c) : static_cast<long>(c));
    return o + "]";
}
template <typename Char, typename Parts>
static std::string many(const Parts& p) {
    std::string o = "[";
    for (auto& s : p) o += (o.size() > 1 ? "," : "") + codes<Char>(s);
    return o + "]";
}
template <typename Char>
static void exec(Op& op) {
    using S = std::basic_string<Char>;
    const std::string& n = op.name;
    const S x = text<Char>(op.iv("x"));
    const int how = op.i("c", 0);
    if (n == "trim" || n == "ltrim" || n == "rtrim") {
        S y = x;
        if (how == 1) y.shrink_to_fit();
        if (n == "trim") edsp::string::trim(y); else if (n == "ltrim") edsp::string::ltrim(y); else edsp::string::rtrim(y);
        op.raw("ret", codes<Char>(y));
    } else if (n == "lower" || n == "upper") {
        S in = x, out;
        auto f = [&](auto a, auto b, auto d) { if (n == "lower") edsp::string::tolower(a, b, d); else edsp::string::toupper(a, b, d); };
        if (how == 0) f(in.begin(), in.end(), std::back_inserter(out));
        else if (how == 1) { out = in; f(out.begin(), out.end(), out.begin()); }
        else if (how == 2) { std::list<Char> l(in.begin(), in.end()); f(l.begin(), l.end(), l.begin()); out.assign(l.begin(), l.end()); }
        else { std::deque<Char> d(in.size()); f(in.cbegin(), in.cend(), d.begin()); out.assign(d.begin(), d.end()); }
        op.raw("ret", codes<Char>(out));
        op.out("kept", in == x);
    } else if (n == "join") {
        std::vector<S> parts;
        std::size_t at = 0;
        for (int k : op.iv("n")) { parts.push_back(x.substr(at, k)); at += k; }
        const auto before = parts;
        S out = text<Char>({90, 91}); // is replaced
        const Char d = static_cast<Char>(op.i("d"));
        if (how == 0) edsp::string::join(parts.begin(), parts.end(), out, d);
        else if (how == 1) { std::list<S> l(parts.begin(), parts.end()); edsp::string::join(l.cbegin(), l.cend(), out, d); }
        else if (how == 2) { std::forward_list<S> l(parts.begin(), parts.end()); edsp::string::join(l.cbegin(), l.cend(), out, d); }
        else if (op.i("d") == 32) edsp::string::join(parts.data(), parts.data() + parts.size(), out);
        else edsp::string::join(parts.data(), parts.data() + parts.size(), out, d);
        op.raw("ret", codes<Char>(out));
        op.out("kept", parts == before);
    } else if (n == "split") {
        const S in = x;
        const Char d = static_cast<Char>(op.i("d"));
        if (how == 0) { std::vector<S> p; edsp::string::split(in, std::back_inserter(p), d); op.raw("ret", many<Char>(p)); }
        else if (how == 1) { std::list<S> p; edsp::string::split(in, std::back_inserter(p), d); op.raw("ret", many<Char>(p)); }
        else if (how == 2 && op.i("d") == 32) { std::deque<S> p; edsp::string::split(in, std::back_inserter(p)); op.raw("ret", many<Char>(p)); }
        else {
            std::vector<S> p(x.size() + 2, text<Char>({1, 2, 3}));
            edsp::string::split(in, p.begin(), d);
            while (!p.empty() && p.back() == text<Char>({1, 2, 3})) p.pop_back();
            op.raw("ret", many<Char>(p));
        }
        op.out("kept", in == x);
    } else unknown(op);
}
int main() {
    return run([&](Op& op) {
        if (op.i("wide", 0)) exec<wchar_t>(op); else exec<char>(op);
    });
}
