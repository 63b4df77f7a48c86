// The environment used from several threads.  Programs are queued with "put" and run with "go".  The library's calls of the
// host's primitives are routed through stand-ins which record when they begin and end, and can hold a thread there
// until the others are done or some time has passed, so that whatever is not mutually exclusive overlaps.
#include "common.hpp"
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <chrono>
#include <condition_variable>
#include <limits>
#include <mutex>
#include <thread>
#include <unistd.h>

namespace race {
std::mutex guard;
std::string log;
std::atomic<int> running{0};
struct Who { int t = -1; int prims = 0; int stop = -1; bool before = true; };
thread_local Who me;
void note(const std::string& s) {
    std::lock_guard<std::mutex> l(guard);
    if (!log.empty()) log += ",";
    log += s;
}
void hold() {
    const auto until = std::chrono::steady_clock::now() + std::chrono::milliseconds(12);
    while (running.load() > 1 && std::chrono::steady_clock::now() < until) std::this_thread::sleep_for(std::chrono::microseconds(100));
}
template <typename F>
auto primitive(const char* p, F f) -> decltype(f()) {
    if (me.t < 0) return f();
    const int k = me.prims++;
    const std::string t = std::to_string(me.t + 1);
    note("{\"ev\":\"enter\",\"t\":" + t + ",\"p\":\"" + p + "\"}");
    if (k == me.stop && me.before) hold();
    auto r = f();
    if (k == me.stop && !me.before) hold();
    note("{\"ev\":\"leave\",\"t\":" + t + ",\"p\":\"" + p + "\"}");
    return r;
}
} // namespace race
extern "C" {
static char* race_getenv(const char* n) { return race::primitive("read", [&] { return ::getenv(n); }); }
static int race_setenv(const char* n, const char* v, int o) {
    int e = 0;
    const int r = race::primitive("write", [&] { errno = 0; const int x = ::setenv(n, v, o); e = errno; return x; });
    errno = e;
    return r;
}
static int race_unsetenv(const char* n) { return race::primitive("write", [&] { return ::unsetenv(n); }); }
static int race_putenv(char* s) { return race::primitive("write", [&] { return ::putenv(s); }); }
}
namespace std { using ::race_getenv; }
#define getenv race_getenv
#define secure_getenv race_getenv
#define setenv race_setenv
#define unsetenv race_unsetenv
#define putenv race_putenv
#include <edsp/core/system.hpp>
#undef getenv
#undef secure_getenv
#undef setenv
#undef unsetenv
#undef putenv
using namespace vh;
using edsp::system_env;

static const char* name_of(system_env::error e) {
    switch (e) {
        case system_env::error::no_error: return "none";
        case system_env::error::empty: return "empty";
        case system_env::error::not_found: return "not_found";
        case system_env::error::invalid_argument: return "invalid";
        case system_env::error::no_memory: return "no_memory";
        default: return "unknown";
    }
}
struct Step { std::string what, name, value; bool over; };
int main() {
    std::vector<std::vector<Step>> prog;
    return run([&](Op& op) {
        const std::string& n = op.name;
        if (n == "clear") { ::clearenv(); prog.clear(); }
        else if (n == "put") {
            const std::size_t t = static_cast<std::size_t>(op.i("by")) - 1;
            if (prog.size() <= t) prog.resize(t + 1);
            prog[t].push_back({op.w("what"), op.s("name"), op.has("value") ? op.s("value") : std::string(), op.i("over", 1) != 0});
        } else if (n == "go") {
            race::log.clear();
            race::running = static_cast<int>(prog.size());
            const int who = static_cast<int>(op.i("who")) - 1, stop = static_cast<int>(op.i("stop"));
            const bool before = op.i("before") != 0;
            std::mutex m;
            std::condition_variable cv;
            std::size_t ready = 0;
            std::vector<std::thread> ts;
            for (std::size_t t = 0; t < prog.size(); ++t)
                ts.emplace_back([&, t] {
                    {   // everybody starts together, the thread to be held first
                        std::unique_lock<std::mutex> l(m);
                        if (++ready == prog.size()) cv.notify_all();
                        else cv.wait(l, [&] { return ready == prog.size(); });
                    }
                    race::me = {};
                    race::me.t = static_cast<int>(t);
                    if (static_cast<int>(t) == who) { race::me.stop = stop; race::me.before = before; }
                    else if (who >= 0) std::this_thread::sleep_for(std::chrono::microseconds(800));
                    const std::string ts_ = std::to_string(t + 1);
                    for (std::size_t k = 0; k < prog[t].size(); ++k) {
                        const Step& s = prog[t][k];
                        race::note("{\"ev\":\"call\",\"t\":" + ts_ + ",\"k\":" + std::to_string(k + 1) + "}");
                        std::string error = "none", value;
                        bool found = false;
                        if (s.what == "set") error = name_of(system_env::set_env(s.name, s.value, s.over));
                        else if (s.what == "get") {
                            const auto r = system_env::get_env(s.name);
                            found = r.has_value();
                            if (found) value = std::string(r->data(), r->size()); else error = name_of(r.error());
                        } else found = system_env::exist(s.name);
                        race::note("{\"ev\":\"return\",\"t\":" + ts_ + ",\"found\":" + js(found) + ",\"value\":" + js(value) + ",\"error\":" + word(error) + "}");
                    }
                    race::me.t = -1;
                    --race::running;
                });
            for (auto& t : ts) t.join();
            op.raw("log", "[" + race::log + "]");
            std::string left; // what is in the environment now
            for (char** p = environ; p && *p; ++p) {
                const std::string s(*p);
                const auto q = s.find('=');
                left += (left.empty() ? "" : ",") + std::string("[") + js(s.substr(0, q)) + "," + js(s.substr(q + 1)) + "]";
            }
            op.raw("left", "[" + left + "]");
            prog.clear();
        } else unknown(op);
    });
}
