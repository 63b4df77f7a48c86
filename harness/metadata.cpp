// The tags of audio files in several formats, written with TagLib or by hand, and read with edsp::io::metadata.
#include "common.hpp"
#include <edsp/io/metadata.hpp>
#include <memory>
#include <sndfile.h>
#include <taglib/mpegfile.h>
#include <taglib/id3v2framefactory.h>
#include <unistd.h>
using namespace vh;

static std::string dir = std::getenv("VH_DIR") ? std::getenv("VH_DIR") : ".";
static std::map<std::string, std::string> where; // the file each name stands for
static std::string path(const std::string& p) { return where.count(p) ? where[p] : dir + "/" + p + ".wav"; }

static std::string bytes_of(const std::string& p) {
    std::ifstream f(p, std::ios::binary);
    return std::string((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
}
static bool dump(const std::string& p, const std::string& b) {
    std::ofstream f(p, std::ios::binary | std::ios::trunc);
    f << b;
    f.close();
    return !f.fail();
}
static bool audio(const std::string& p, const std::string& kind) {
    if (kind == "mp3") {
        std::string b;
        for (int k = 0; k < 8; ++k) { b += std::string("\xFF\xFB\x90\x64", 4); b += std::string(413, '\0'); }
        return dump(p, b);
    }
    SF_INFO i{};
    i.samplerate = 44100;
    i.channels = 1;
    i.format = kind == "wav" ? SF_FORMAT_WAV | SF_FORMAT_PCM_16 : kind == "flac" ? SF_FORMAT_FLAC | SF_FORMAT_PCM_16 :
               kind == "aiff" ? SF_FORMAT_AIFF | SF_FORMAT_PCM_16 : SF_FORMAT_OGG | SF_FORMAT_VORBIS;
    SNDFILE* f = sf_open(p.c_str(), SFM_WRITE, &i);
    if (!f) return false;
    std::vector<short> x(256, 100);
    sf_write_short(f, x.data(), 256);
    sf_close(f);
    if (kind == "ogg" || kind == "flac") { // the encoder may have left a comment of its own
        TagLib::FileRef r(p.c_str());
        if (r.isNull()) return false;
        r.file()->setProperties(TagLib::PropertyMap());
        return r.save();
    }
    return true;
}
static TagLib::String unicode(const std::vector<int>& v) {
    std::string s;
    for (int c : v) {
        if (c < 0x80) s += char(c);
        else if (c < 0x800) { s += char(0xC0 | c >> 6); s += char(0x80 | (c & 63)); }
        else if (c < 0x10000) { s += char(0xE0 | c >> 12); s += char(0x80 | (c >> 6 & 63)); s += char(0x80 | (c & 63)); }
        else { s += char(0xF0 | c >> 18); s += char(0x80 | (c >> 12 & 63)); s += char(0x80 | (c >> 6 & 63)); s += char(0x80 | (c & 63)); }
    }
    return TagLib::String(s, TagLib::String::UTF8);
}
// An ID3v2.3 tag in UTF-16, without help of the library under test.
static std::string frame(const char* id, const std::vector<int>& text) {
    if (text.empty()) return "";
    std::string b("\x01\xFF\xFE", 3);
    auto unit = [&](unsigned u) { b += char(u & 255); b += char(u >> 8); };
    for (int c : text) {
        if (c < 0x10000) unit(c); else { unit(0xD800 + ((c - 0x10000) >> 10)); unit(0xDC00 + ((c - 0x10000) & 1023)); }
    }
    std::string h(id, 4);
    for (int k = 3; k >= 0; --k) h += char(b.size() >> (8 * k) & 255);
    return h + std::string(2, '\0') + b;
}
static std::vector<int> digits(long long n) {
    std::vector<int> v;
    if (n) for (char c : std::to_string(n)) v.push_back(c);
    return v;
}
static bool by_hand(Op& op, const std::string& p) {
    std::string b = frame("TIT2", op.iv("title")) + frame("TPE1", op.iv("artist")) + frame("TALB", op.iv("album")) + frame("TCON", op.iv("genre")) +
                    frame("TYER", digits(op.i("year"))) + frame("TRCK", digits(op.i("track")));
    std::string h("ID3\x03\x00\x00", 6);
    for (int k = 3; k >= 0; --k) h += char(b.size() >> (7 * k) & 127);
    std::string audio = bytes_of(p);
    if (audio.compare(0, 3, "ID3") == 0) { // takes the place of the one there
        std::size_t n = 0;
        for (int k = 6; k < 10; ++k) n = n << 7 | (audio[k] & 127);
        audio = audio.substr(n + 10);
    }
    if (audio.size() > 128 && audio.compare(audio.size() - 128, 3, "TAG") == 0) audio.resize(audio.size() - 128);
    return dump(p, h + b + audio);
}

int main() {
    std::unique_ptr<edsp::io::metadata> m;
    return run([&](Op& op) {
        const std::string& n = op.name;
        if (op.first) {
            m.reset();
            for (auto& f : where) ::unlink(f.second.c_str());
            where.clear();
        }
        if (n == "make") {
            ::unlink(path(op.w("p")).c_str());
            where[op.w("p")] = dir + "/" + op.w("p") + "." + op.w("fmt");
            op.out("done", audio(path(op.w("p")), op.w("fmt")));
        } else if (n == "junk") {
            ::unlink(path(op.w("p")).c_str());
            where[op.w("p")] = dir + "/" + op.w("p") + "." + op.w("fmt");
            std::string b;
            for (int k = 0; k < op.i("n"); ++k) b += char('a' + k % 17);
            op.out("done", dump(path(op.w("p")), b));
        } else if (n == "remove") ::unlink(path(op.w("p")).c_str());
        else if (n == "tag") {
            const std::string p = path(op.w("p"));
            if (op.i("raw", 0) && p.size() > 4 && p.compare(p.size() - 4, 4, ".mp3") == 0) { op.out("done", by_hand(op, p)); return; }
            TagLib::FileRef r(p.c_str());
            if (r.isNull() || !r.tag()) { op.out("done", false); return; }
            r.tag()->setTitle(unicode(op.iv("title")));
            r.tag()->setArtist(unicode(op.iv("artist")));
            r.tag()->setAlbum(unicode(op.iv("album")));
            r.tag()->setGenre(unicode(op.iv("genre")));
            r.tag()->setYear(static_cast<unsigned>(op.i("year")));
            r.tag()->setTrack(static_cast<unsigned>(op.i("track")));
            op.out("done", r.save());
        } else if (n == "open") {
            const std::string p = path(op.w("p")), before = bytes_of(p);
            m.reset(new edsp::io::metadata(p));
            op.out("kept", bytes_of(p) == before);
            if (op.i("copy", 0)) { std::unique_ptr<edsp::io::metadata> c(new edsp::io::metadata(*m)); m = std::move(c); }
        } else {
            if (!m) m.reset(new edsp::io::metadata(dir + "/never"));
            const edsp::io::metadata& r = *m;
            if (n == "title") op.out("ret", r.title());
            else if (n == "artist") op.out("ret", r.artist());
            else if (n == "album") op.out("ret", r.album());
            else if (n == "genre") op.out("ret", r.genre());
            else if (n == "year") op.out("ret", r.year());
            else if (n == "track") op.out("ret", r.track());
            else unknown(op);
        }
    });
}
