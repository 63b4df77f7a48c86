// The streaming resampler.  The source is offered in blocks of n frames from the first unused one.
#include "common.hpp"
#include <edsp/types/string_view.hpp>
#include <edsp/core/logger.hpp>
#include <edsp/io/resampler.hpp>
#include <samplerate.h>
using namespace vh;
namespace io = edsp::io;

static std::unique_ptr<io::resampler<float>> r;
static std::vector<double> x, tone, gain;
static long long used;
static std::string quality;

static double source(long long i) {
    if (!x.empty()) return x[std::min<long long>(i, x.size() - 1)];
    double s = 0;
    for (std::size_t j = 0; j + 2 < tone.size(); j += 3) s += tone[j] * std::sin(tone[j + 1] * i + tone[j + 2]);
    return s;
}
int main() {
    return run([](Op& op) {
        const std::string& n = op.name;
        if (n == "new") {
            x = op.has("x") ? op.v("x") : std::vector<double>();
            tone = op.has("tone") ? op.v("tone") : std::vector<double>();
            gain = op.v("gain");
            used = 0;
            const std::string& q = op.w("q");
            const auto k = q == "best" ? io::best_quality : q == "medium" ? io::medium_quality : q == "fastest" ? io::sinc_fastest
                         : q == "hold" ? io::zero_order_hold : io::linear;
            r.reset(new io::resampler<float>(gain.size(), k, static_cast<float>(op.d("ratio"))));
            op.out("quality", static_cast<int>(r->quality()));
            op.out("r", r->ratio());
            op.out("channels", static_cast<long long>(r->channels()));
        } else if (n == "valid") {
            op.out("ret", io::resampler<float>::valid_ratio(static_cast<float>(op.d("ratio"))));
        } else if (n == "reset") {
            op.out("ret", r->reset());
            used = 0;
        } else if (n == "process") {
            const long long frames = op.i("n"), ch = gain.size();
            std::vector<float> in;
            for (long long i = 0; i < frames; ++i)
                for (double g : gain) in.push_back(static_cast<float>(g * source(used + i)));
            const auto copy = in;
            const long long promise = std::max(0LL, static_cast<long long>(std::floor(static_cast<double>(r->ratio()) * frames)));
            Guarded<float> out(promise * ch, 12345.f);
            in.reserve(1);
            std::pair<long, long> ret;
            if (op.i("it", 0)) ret = r->process(in.cbegin(), in.cend(), out.begin());
            else ret = r->process(in.data(), in.data() + in.size(), out.begin());
            op.out("used", static_cast<long long>(ret.first));
            op.out("made", static_cast<long long>(ret.second));
            auto y = out.get();
            bool intact = out.intact() && in == copy && ret.second >= 0 && ret.second <= promise;
            for (std::size_t k = ret.second * ch; intact && k < y.size(); ++k) intact = y[k] == 12345.f;
            if (ret.second >= 0 && ret.second <= promise) y.resize(ret.second * ch);
            op.out("y", y);
            op.out("intact", intact);
            used += ret.first;
        } else unknown(op);
        if (r) {
            op.out("err", r->error());
            const edsp::string_view said = r->error_string();
            op.out("told", std::string(said.data(), said.size()) == src_strerror(r->error()));
        }
    });
}
