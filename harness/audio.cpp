// Encoders and decoders on files in a scratch directory given by VH_DIR.
#include "common.hpp"
#include <array>
#include <list>
#include <edsp/meta/iterator.hpp>
#include <edsp/meta/data.hpp>
#include <edsp/io/decoder.hpp>
#include <edsp/io/encoder.hpp>
#include <dirent.h>
#include <unistd.h>
using namespace vh;
namespace io = edsp::io;

static std::string dir;

// Files this process has open.
static long long handles() {
    long long n = 0;
    if (DIR* d = ::opendir("/proc/self/fd")) {
        while (::readdir(d) != nullptr) ++n;
        ::closedir(d);
    }
    return n;
}
static std::string path(const std::string& p) { return p == "bad" ? dir + "/missing/x.wav" : dir + "/" + p + ".wav"; }

struct AnyEncoder {
    virtual ~AnyEncoder() = default;
    virtual void apply(Op&) = 0;
    virtual void state(Op&) = 0;
};
template <typename T>
struct EncoderOf : AnyEncoder {
    io::encoder<T> e;
    EncoderOf(Op& op) : e(op.i("rate"), op.i("ch")) {}
    void apply(Op& op) override {
        if (op.name == "eopen") op.out("ret", e.open(path(op.w("p"))));
        else if (op.name == "eclose") e.close();
        else if (op.name == "write") {
            auto x = op.as<T>("x");
            x.reserve(1);
            auto y = x;
            if (op.i("it", 0)) op.out("ret", static_cast<long long>(e.write(x.data(), x.data() + x.size())));
            else op.out("ret", static_cast<long long>(e.write(x.cbegin(), x.cend())));
            if (x != y) op.out("exc", "modified its input");
        } else unknown(op);
    }
    void state(Op& op) override {
        op.out("eopened", e.is_open());
        op.out("ech", static_cast<long long>(e.channels()));
        op.out("erate", e.sample_rate());
    }
};
struct AnyDecoder {
    virtual ~AnyDecoder() = default;
    virtual void apply(Op&) = 0;
    virtual void state(Op&) = 0;
};
template <typename T, std::size_t N>
struct DecoderOf : AnyDecoder {
    io::decoder<T, N> d;
    void apply(Op& op) override {
        if (op.name == "dopen") op.out("ret", d.open(path(op.w("p"))));
        else if (op.name == "dclose") d.close();
        else if (op.name == "seek") op.out("ret", static_cast<long long>(d.seek(op.i("k"))));
        else if (op.name == "read") {
            const std::size_t n = op.i("n");
            long long ret;
            std::vector<T> all;
            bool intact = true;
            const T mark = T(77);
            if (op.i("it", 0)) {
                std::list<T> l(n + 1, mark);
                ret = d.read(l.begin(), std::prev(l.end()));
                all.assign(l.begin(), std::prev(l.end()));
                intact = l.back() == mark;
            } else {
                Guarded<T> g(n, mark);
                ret = d.read(g.begin(), g.end());
                all = g.get();
                intact = g.intact();
            }
            for (std::size_t k = ret < 0 ? 0 : ret; k < n; ++k) intact = intact && all[k] == mark;
            op.out("ret", ret);
            op.out("intact", intact);
            if (ret >= 0 && ret <= static_cast<long long>(n)) all.resize(ret);
            op.out("r", all);
        } else unknown(op);
    }
    void state(Op& op) override {
        op.out("dopened", d.is_open());
        op.out("pos", static_cast<long long>(d.current()));
        op.out("frames", static_cast<long long>(d.frames()));
        op.out("samples", static_cast<long long>(d.samples()));
        op.out("dch", static_cast<long long>(d.channels()));
        op.out("drate", d.sample_rate());
        op.out("seekable", d.seekable());
    }
};
template <typename T>
AnyDecoder* sized(Op& op) {
    switch (op.i("block", 0)) {
        case 4: return new DecoderOf<T, 4>();
        case 7: return new DecoderOf<T, 7>();
        case 64: return new DecoderOf<T, 64>();
        default: return new DecoderOf<T, 1024>();
    }
}
int main() {
    dir = std::getenv("VH_DIR");
    dir += "/" + std::to_string(::getpid());
    ::mkdir(dir.c_str(), 0700);
    std::unique_ptr<AnyEncoder> e;
    std::unique_ptr<AnyDecoder> d;
    long long before = 0;
    const int r = run([&](Op& op) {
        if (op.first) {
            e.reset();
            d.reset();
            ::unlink(path("a").c_str());
            ::unlink(path("b").c_str());
            before = handles();
        }
        const std::string& n = op.name;
        if (n == "encoder") {
            const std::string& t = op.w("type");
            e.reset();
            if (t == "f") e.reset(new EncoderOf<float>(op));
            else if (t == "d") e.reset(new EncoderOf<double>(op));
            else if (t == "i16") e.reset(new EncoderOf<std::int16_t>(op));
            else e.reset(new EncoderOf<std::int32_t>(op));
        } else if (n == "decoder") {
            const std::string& t = op.w("type");
            if (t == "f") d.reset(sized<float>(op));
            else if (t == "d") d.reset(sized<double>(op));
            else if (t == "i16") d.reset(sized<std::int16_t>(op));
            else d.reset(sized<std::int32_t>(op));
        } else if (n[0] == 'e' || n == "write") e->apply(op);
        else d->apply(op);
        if (e) e->state(op); else { op.out("eopened", false); op.out("ech", 0); op.out("erate", 0); }
        if (d) d->state(op); else { op.out("dopened", false); op.out("pos", -1); }
        op.out("held", handles() - before);
    });
    e.reset();
    d.reset();
    ::unlink(path("a").c_str());
    ::unlink(path("b").c_str());
    ::rmdir(dir.c_str());
    return r;
}
