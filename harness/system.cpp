// The environment and the facts about library and platform.  Macros AS_* pretend another platform.
#include "common.hpp"
#include <algorithm>
#include <cerrno>
#include <limits>
#include <mutex>
#include <edsp/core/logger.hpp>
#include <edsp/types/string_view.hpp>
#include <edsp/types/expected.hpp>
#include <edsp/meta/expects.hpp>
#include <edsp/meta/is_null.hpp>
#include <edsp/meta/empty.hpp>
#include <edsp/meta/data.hpp>
#if defined(AS_ARM64) || defined(AS_ARM32) || defined(AS_X86)
#undef __x86_64__
#undef __x86_64
#undef __amd64
#undef __amd64__
#endif
#if defined(AS_ARM64)
#define __aarch64__ 1
#define WPROC "arm"
#elif defined(AS_ARM32)
#define __arm__ 1
#define WPROC "arm"
#elif defined(AS_X86)
#define __i386__ 1
#define WPROC "x86"
#else
#define WPROC "x64"
#endif
#if defined(AS_WINDOWS)
#define _WIN32 1
#define WOS "windows"
#elif defined(AS_MACOS)
#define __APPLE__ 1
#define WOS "macOS"
#elif defined(AS_IOS)
#define __APPLE__ 1
#define TARGET_OS_IPHONE 1
#define WOS "iOS"
#elif defined(AS_FREEBSD)
#define __FreeBSD__ 1
#define WOS "freeBSD"
#elif defined(AS_ANDROID)
#define __ANDROID__ 1
#define WOS "android"
#else
#define WOS "linux"
#endif
#if defined(AS_CLANG)
#undef __clang__
#define __clang__ 1
#define WCOMP "clang"
#elif defined(AS_MSVC)
#undef __GNUC__
#define _MSC_VER 1900
#define _WIN32 1
#undef WOS
#define WOS "windows"
#define WCOMP "mvsc"
#else
#define WCOMP "gcc"
#endif
#include <edsp/core/internal/config.hpp>
#undef E_VERSION_MAJOR
#undef E_VERSION_MINOR
#undef E_VERSION_PATCH
#undef E_VERSION_STR
#define E_VERSION_MAJOR 13
#define E_VERSION_MINOR 7
#define E_VERSION_PATCH 204
#define E_VERSION_STR "13.7.204"
#include <edsp/core/system.hpp>
#include <edsp/core/library_info.hpp>
#include <unistd.h>
using namespace vh;

#ifndef WFFT
#define WFFT "fftw"
#endif
#ifndef WCODEC
#define WCODEC "sndfile"
#endif
#ifndef WRES
#define WRES "samplerate"
#endif
using edsp::system_env;
static const char* name_of(system_env::error e) {
    switch (e) {
        case system_env::error::no_error: return "none";
        case system_env::error::empty: return "empty";
        case system_env::error::not_found: return "not_found";
        case system_env::error::invalid_argument: return "invalid";
        case system_env::error::no_memory: return "no_memory";
        default: return "unknown";
    }
}
static const char* os() {
    using edsp::systems;
    switch (edsp::system_info::os()) {
        case systems::windows: return "windows"; case systems::linux: return "linux"; case systems::freeBSD: return "freeBSD"; case systems::macOS: return "macOS";
        case systems::iOS: return "iOS"; case systems::android: return "android"; default: return "unknown";
    }
}
static const char* processor() {
    using edsp::processors;
    switch (edsp::system_info::processor()) { case processors::x86: return "x86"; case processors::x64: return "x64"; case processors::arm: return "arm"; default: return "unknown"; }
}
static const char* compiler() {
    using edsp::compilers;
    switch (edsp::system_info::compiler()) { case compilers::gcc: return "gcc"; case compilers::clang: return "clang"; case compilers::mvsc: return "mvsc"; default: return "unknown"; }
}
int main() {
    return run([](Op& op) {
        const std::string& n = op.name;
        if (n == "clear") { ::clearenv(); return; }
        if (n == "set" || n == "get" || n == "exist") {
            // the view covers only part of its buffer
            const std::string name = op.s("name"), buf = name + "ZZ";
            const edsp::string_view view(buf.data(), name.size());
            if (n == "set") {
                const std::string value = op.s("value"), vb = value + "yy";
                const edsp::string_view vv(vb.data(), value.size());
                op.out("error", name_of(op.has("dflt") ? system_env::set_env(view, vv) : system_env::set_env(view, vv, op.i("over") != 0)));
            } else if (n == "get") {
                const auto r = system_env::get_env(view);
                op.out("found", r.has_value());
                op.out("value", r.has_value() ? std::string(r->data(), r->size()) : std::string());
                op.out("error", r.has_value() ? "none" : name_of(r.error()));
            } else op.out("ret", system_env::exist(view));
        } else if (n == "version") {
            using L = edsp::library_info;
            op.out("major", L::major_version()); op.out("minor", L::minor_version()); op.out("patch", L::patch_version());
            op.out("text", std::string(L::version())); op.out("date", std::string(L::build_date())); op.out("time", std::string(L::build_time()));
            op.out("wmajor", 13); op.out("wminor", 7); op.out("wpatch", 204);
            op.out("wdate", std::string(__DATE__)); op.out("wtime", std::string(__TIME__));
        } else if (n == "libraries") {
            using L = edsp::library_info;
            using namespace edsp;
            op.out("fft", L::fft_library() == fft_lib::fftw ? "fftw" : L::fft_library() == fft_lib::pffft ? "pffft" : L::fft_library() == fft_lib::accelerate ? "accelerate" : "unknown");
            op.out("codec", L::codec_library() == codec_lib::sndfile ? "sndfile" : L::codec_library() == codec_lib::audiofile ? "audiofile" : "unknown");
            op.out("resample", L::resample_library() == resample_lib::sample_rate ? "samplerate" : L::resample_library() == resample_lib::resample ? "resample" : "unknown");
            op.out("wfft", WFFT); op.out("wcodec", WCODEC); op.out("wresample", WRES);
        } else if (n == "platform") {
            op.out("os", os()); op.out("processor", processor()); op.out("compiler", compiler());
            op.out("wos", WOS); op.out("wprocessor", WPROC); op.out("wcompiler", WCOMP);
        } else unknown(op);
    });
}
