// C08: deleting the tag of a file removes exactly that tag.
#include "scenario.hpp"
#include "names.hpp"
#include <dirent.h>
#include <sys/stat.h>
#include <unistd.h>
using namespace m;

static int entries()
{
    int n = 0;
    DIR* d = opendir(mc::scratch().c_str());
    while (readdir(d)) n++;
    closedir(d);
    return n;
}

static void del(const Str& b)
{
    if (!syncsafe(b)) return mc::skip(); // the size is not a valid one
    Str file = path("f"), want = b;
    put_file(file, b);
    mc::op("file of %zu bytes [%s]", b.size(), show(b).c_str());
    if (supported(b))
    {
        size_t n = tag_span(b);
        want = n >= b.size() ? "" : b.substr(n);
    }
    int before = entries();
    ID3v2_delete_tag(file.c_str());
    mc::step();
    Str after;
    CHECK(get_file(file, after), "the file is gone");
    CHECK(after == want, "the file has %zu bytes [%s], expected %zu [%s]", after.size(), show(after).c_str(), want.size(), show(want).c_str());
    CHECK(entries() == before, "the number of files in the directory has changed");
    mc::state(mc::hash(b));
    mc::outcome(mc::hash(want));
}

SPACE(C08, tags, "every kind of tag with every amount of padding or data, followed by every kind of audio")
{
    static const std::vector<Str> A = [] {
        std::vector<Str> v = {""};
        for (int k = 0; k < 8; k++)
            for (int n : {1, 2, 9, 10, 11, 20, 500}) v.push_back(pattern(k, n));
        v.push_back(tag_bytes(3, {{"TIT2", Str("\0second", 7)}}, 5) + "audio");
        for (const char* x : {"TAG", "APETAGEX", "LYRICS200", "fLaC", "RIFF", "OggS"}) v.push_back(x), v.push_back(pattern(3, 300) + x + Str(125, '\0')), v.push_back(pattern(3, 300) + x + Str(125, ' '));
        v.push_back(Str(3000, '\0') + "audio" + Str(3000, '\0'));
        v.push_back("3DI" + header_bytes(4, 0, 0x10, 20).substr(3) + "audio");
        return v;
    }();
    int major = 3 + mc::choose(2), body = mc::choose(5), ext = mc::choose(3), footer = mc::choose(2);
    std::vector<Wire> f;
    if (body == 1 || body == 3) f.push_back({"TIT2", Str("\0title", 6)});
    if (body == 2 || body == 3) f.push_back({"PRIV", pattern(4, 200)});
    if (body == 4) f.push_back({"APIC", pattern(1, 17000)});
    static const int pads[] = {0, 1, 9, 10, 11, 127, 128, 2048};
    int flags = (ext ? 0x40 : 0) | (footer ? 0x10 : 0);
    Str tag = tag_bytes(major, f, mc::pick(pads), flags, ext_header(major, ext));
    del(tag + mc::pick(A));
}

SPACE(C08, sizes, "every announced size up to 400 and around every power of two against files that are shorter, equal and longer")
{
    static const std::vector<size_t> L = lengths(400, false);
    size_t n = mc::pick(L);
    int v = mc::choose(4); // v2.3, v2.3 with bit 4, v2.4, v2.4 with footer
    Str b = header_bytes(v < 2 ? 3 : 4, 0, v & 1 ? 0x10 : 0, n);
    static const long d[] = {-1000000, -11, -10, -9, -2, -1, 0, 1, 2, 9, 10, 11, 12, 100};
    long rest = std::max(0L, (long) n + mc::pick(d));
    del(b + pattern(mc::choose(2), rest));
}

SPACE(C08, headers, "every value of every byte of the header, with audio after the tag")
{
    static const Str base[] = {header_bytes(3, 0, 0, 12), header_bytes(4, 0, 0x10, 3), header_bytes(4, 0, 0, 0x85)};
    Str b = mc::pick(base);
    int i = mc::choose(10);
    b[i] = (char) mc::choose(256);
    // also the byte after it, when it is a flag or version
    if (i == 3 || i == 4) b[i + 1] = (char) mc::choose(256);
    del(b + pattern(0, std::vector<int>{0, 12, 22, 400}[mc::choose(4)]));
}

SPACE(C08, prefixes, "files cut at every length")
{
    static const Str base[] = {
        tag_bytes(3, {{"TIT2", Str("\0title", 6)}}, 20) + "audio", tag_bytes(4, {{"TIT2", Str("\0title", 6)}}, 0, 0x10) + "audio",
        tag_bytes(2, {}, 30) + "audio", "x" + tag_bytes(3, {}, 30) + "audio",
    };
    const Str& b = mc::pick(base);
    del(b.substr(0, mc::choose(b.size() + 1)));
}

SPACE(C08, repeated, "files with up to four tags one after another, of every kind, and as many deletions")
{
    static const Str t[] = {tag_bytes(3, {{"TIT2", Str("\0a", 2)}}, 3), tag_bytes(4, {{"TIT2", Str("\0a", 2)}}, 0, 0x10), tag_bytes(4, {}, 0), "x", Str("ID3\x02\0\0\0\0\0\0", 10)};
    Str b;
    int n = mc::choose(5);
    for (int i = 0; i < n; i++) b += mc::pick(t);
    b += "end";
    for (int i = 0; i <= n; i++)
    {
        del(b);
        b = read_file(path("f"));
    }
}

SPACE(C08, missing, "names that do not lead to a file with data: nothing is created, nothing is removed")
{
    NotAFile x(false);
    Str before = listing();
    ID3v2_delete_tag(x.name.c_str());
    CHECK(listing() == before, "something was created or removed: [%s], before [%s]", show(listing(), 100).c_str(), show(before, 100).c_str());
    CHECK(read_file(path("some")) == "some data", "another file was changed");
    mc::step();
    mc::state(x.k);
    mc::outcome(x.k);
}

SPACE(C08, names, "files with names of every length, with every kind of character, relative, absolute, not normalized, deep, through links")
{
    static const Str b[] = {tag_bytes(3, {{"TIT2", Str("\0a", 2)}}, 20) + "audio", tag_bytes(4, {}, 0, 0x10) + "audio", tag_bytes(4, {}, 5), "no tag here, but audio"};
    Place p;
    const Str& x = mc::pick(b);
    put_file(p.file, x);
    Str before = listing();
    ID3v2_delete_tag(p.name.c_str());
    Str got = read_file(p.name);
    CHECK(got == audio_of(x), "the file has %zu bytes [%s], expected %zu", got.size(), show(got).c_str(), audio_of(x).size());
    CHECK(listing() == before, "there are other files than before: %s", show(listing(), 100).c_str());
    mc::step();
    mc::state(mc::hash(p.name));
    mc::outcome(mc::hash(x));
}

SPACE(C08, big, "tags of 4 MB to 128 MB (thorough: to the limit of the format), with and without footer, followed by audio or not, or shorter than announced")
{
    size_t n = mc::pick(big_sizes());
    int v = mc::choose(3), rest = mc::choose(3);
    mc::decided();
    mc::patience(mc::tier(300, 2000));
    del(header_bytes(v ? 4 : 3, 0, v == 2 ? 0x10 : 0, n) + Str(rest == 2 ? n / 2 : n, 'x') + (rest == 2 || v != 2 ? Str() : "3DI" + header_bytes(4, 0, 0x10, n).substr(3)) + (rest ? Str() : "audio"));
}

SPACE(C08, runs, "audio data that begins with, ends with or is made of a run of one byte, of every length up to 600 and around every power of two up to 65536")
{
    static const std::vector<size_t> L = [] {
        auto v = lengths(600, false);
        std::vector<size_t> w;
        for (size_t n : v)
            if (n <= 600 || (n & 15) <= 1 || (n & 15) == 15 || mc::thorough()) w.push_back(n);
        for (size_t n : {1500, 3000, 5000, 6144, 10000, 12288, 20000, 30000, 40000, 50000}) w.push_back(n);
        return w;
    }();
    static const char al[] = {'\0', '\xff', ' ', 'U', '\x01'};
    size_t n = mc::pick(L);
    Str r(n, mc::pick(al));
    int where = mc::choose(4);
    Str audio = where == 0 ? r : where == 1 ? r + "audio" : where == 2 ? "audio" + r : r + "\xff\xfb\x90\x64" + Str(300, 'a') + r;
    static const Str t[] = {tag_bytes(3, {{"TIT2", Str("\0a", 2)}}, 3), tag_bytes(4, {{"TIT2", Str("\0a", 2)}}, 0, 0x10), tag_bytes(4, {}, 0), tag_bytes(3, {{"TIT2", Str("\0a", 2)}}, 2048)};
    del(mc::pick(t) + audio);
}
