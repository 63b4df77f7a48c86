// Loggers; std::cout is captured, log files live in the scratch directory VH_DIR.
#include "common.hpp"
#include <edsp/core/logger.hpp>
#include <sys/stat.h>
#include <unistd.h>
using namespace vh;
using edsp::logger;

static std::string dir;
static std::unique_ptr<logger> cur;
static std::stringstream console;
static const std::vector<std::string> names{"f", "g"};
static std::string real(const std::string& p) { return p.empty() || p == "console" ? p : dir + "/" + p; }
static std::string unreal(const std::string& p) { return p.compare(0, dir.size() + 1, dir + "/") == 0 ? p.substr(dir.size() + 1) : p; }
static const char* L[] = {"trace", "debug", "info", "warning", "error", "critical", "off"};
static logger::levels level(const std::string& s) {
    for (int k = 0; k < 7; ++k) if (s == L[k]) return static_cast<logger::levels>(k);
    std::exit(97);
}
static std::string slurp(const std::string& p) {
    std::ifstream f(p, std::ios::binary);
    std::stringstream s;
    s << f.rdbuf();
    return s.str();
}
int main() {
    dir = std::getenv("VH_DIR");
    dir += "/" + std::to_string(::getpid());
    ::mkdir(dir.c_str(), 0700);
    auto wipe = [] { for (auto& f : names) ::unlink(real(f).c_str()); };
    const int r = run([&](Op& op) {
        const std::string& n = op.name;
        if (n == "start") {
            std::cout.rdbuf(console.rdbuf()); // after sync_with_stdio
            cur.reset();
            console.str("");
            wipe();
            logger::set_default_level(logger::levels::trace);
            logger::set_default_name("console");
            logger::set_default_path("");
        } else if (n == "default_level") logger::set_default_level(level(op.w("v")));
        else if (n == "default_name") logger::set_default_name(op.s("v"));
        else if (n == "default_path") logger::set_default_path(real(op.s("v")));
        else if (n == "new") {
            cur.reset();
            const auto l = level(op.w("level"));
            if (op.has("file")) { const std::string nm = op.s("name") + "XX", f = real(op.s("file")); cur.reset(new logger(edsp::string_view(nm.data(), nm.size() - 2), f, l)); }
            else if (op.has("name")) cur.reset(new logger(op.s("name"), l));
            else if (op.has("macro")) {
                // the macros create temporaries of their level
                logger* p = nullptr;
                if (l == logger::levels::trace) p = new logger(logger::levels::trace); else p = new logger(l);
                cur.reset(p);
            } else cur.reset(new logger(l));
        } else if (n == "end") cur.reset();
        else if (n == "level") cur->set_level(level(op.w("v")));
        else if (n == "text") {
            const std::string s = op.s("x");
            const std::string& as = op.has("as") ? op.w("as") : "string";
            if (as == "view") { const std::string b = s + "YY"; *cur << edsp::string_view(b.data(), s.size()); }
            else if (as == "chars") *cur << s.c_str();
            else *cur << s;
        } else if (n == "number") {
            const std::string s = op.s("x"), &t = op.w("t");
            if (t == "u16") *cur << static_cast<std::uint16_t>(std::stoul(s));
            else if (t == "u32") *cur << static_cast<std::uint32_t>(std::stoul(s));
            else if (t == "u64") *cur << static_cast<std::uint64_t>(std::stoull(s));
            else if (t == "i16") *cur << static_cast<std::int16_t>(std::stol(s));
            else if (t == "i32") *cur << static_cast<std::int32_t>(std::stol(s));
            else *cur << static_cast<std::int64_t>(std::stoll(s));
        } else if (n == "quarters") { if (op.i("f", 0)) *cur << static_cast<float>(op.i("k") / 4.0); else *cur << op.i("k") / 4.0; }
        else if (n == "space") cur->space();
        else if (n == "manip") {
            const std::string& m = op.w("m");
            logger& c = *cur;
            if (m == "red") c << edsp::red; else if (m == "green") c << edsp::green; else if (m == "yellow") c << edsp::yellow; else if (m == "blue") c << edsp::blue;
            else if (m == "magenta") c << edsp::magenta; else if (m == "cyan") c << edsp::cyan; else if (m == "white") c << edsp::white; else if (m == "grey") c << edsp::grey;
            else if (m == "bold") c << edsp::bold; else if (m == "endc") c << edsp::endc; else if (m == "reset") c << edsp::reset;
            else if (m == "tab") c << edsp::tab; else if (m == "endl") c << edsp::endl; else unknown(op);
        } else unknown(op);
        op.out("dlevel", L[logger::default_level()]);
        op.out("dname", logger::default_name());
        op.out("dpath", unreal(logger::default_path()));
        if (cur) {
            op.out("clevel", L[cur->level()]);
            op.out("cname", cur->name());
            op.out("cstr", cur->str());
        }
        op.out("console", console.str());
        std::string fs = "[";
        for (auto& f : names) fs += (fs.size() > 1 ? "," : "") + ("[" + js(f) + "," + js(slurp(real(f))) + "]");
        op.raw("files", fs + "]");
    });
    cur.reset();
    std::cout.rdbuf(nullptr);
    wipe();
    ::rmdir(dir.c_str());
    return r;
}
