// C02: audio data survives every tag write and deletion.
#include "common.hpp"
#include "names.hpp"
#include <sys/statvfs.h>
using namespace m;

static const std::vector<Str>& tags()
{
    static const std::vector<Str> v = [] {
        std::vector<Str> v = {
            "",
            tag_bytes(3, {{"TIT2", Str("\0a", 2)}}, 20),
            tag_bytes(4, {{"TIT2", Str("\0a", 2)}}, 0),
            tag_bytes(4, {{"TIT2", Str("\0a", 2)}, {"PRIV", Str(300, 'p')}}, 0, 0x10),
            tag_bytes(3, {{"TIT2", Str("\0a", 2)}}, 5, 0x40, ext_header(3, 2)),
            tag_bytes(3, {}, 0),
            tag_bytes(4, {}, 20000),
            tag_bytes(3, {{"PRIV", Str(20000, 'x')}}, 3000, 0x20),
            tag_bytes(3, {{"TIT2", Str("\0a", 2)}}, 9, 0x10), // no footers in v2.3
            Str("ID3\x02\0\0\0\0\0\x05xxxxx", 15), // not supported: audio
            Str("ID3\x05\0\0\0\0\0\x02xx", 12),
            Str("ID4\x03\0\0\0\0\0\x05xxxxx", 15),
            Str("id3\x03\0\0\0\0\0\x05xxxxx", 15),
        };
        return v;
    }();
    return v;
}

struct Tags
{
    ID3v2_Tag* t[4];
    Tag M[4];
    Tags()
    {
        t[0] = start(bases()[0], M[0]); // nothing in it
        t[1] = start(bases()[1], M[1]);
        t[2] = start(bases()[6], M[2]); // v2.4
        set_named(t[2], M[2], 2, latin(Str(5000, 'x')));
        t[3] = start(bases()[9], M[3]);
    }
    ~Tags()
    {
        for (auto* x : t) ID3v2_Tag_free(x);
    }
};

// One write or deletion, judged by the bytes before and after.
static void change(const Str& file, Tags& T, int what, Str& audio)
{
    Str before = read_file(file), want = audio_of(before);
    if (what == 4)
    {
        mc::op("delete_tag");
        ID3v2_delete_tag(file.c_str());
        Str after = read_file(file);
        CHECK(after == want, "after deleting the tag the file has %zu bytes [%s], expected the %zu bytes of audio [%s]", after.size(), show(after).c_str(), want.size(), show(want).c_str());
    }
    else
    {
        mc::op("write_tag (tag %d)", what);
        ID3v2_write_tag(file.c_str(), T.t[what]);
        Str after = read_file(file);
        size_t n = tag_span(after);
        CHECK(supported(after), "there is no tag after writing it");
        CHECK(n <= after.size(), "the tag (%zu bytes) does not fit in the file (%zu)", n, after.size());
        Str got = after.substr(n);
        CHECK(got == want, "after writing the tag (%zu bytes) the audio is %zu bytes [%s], expected %zu [%s]", n, got.size(), show(got).c_str(), want.size(), show(want).c_str());
        // nothing is left from the previous tag, nothing is missing: the tag is as long as it should be
        T.M[what].written();
        CHECK(n == wire_of(T.M[what]).size(), "the written tag takes %zu bytes, expected %zu", n, wire_of(T.M[what]).size());
    }
    audio = want;
    mc::step();
    mc::state(mc::hash(read_file(file)));
}

SPACE(C02, histories, "every sequence of writes of four tags and deletions up to the depth, on files with every kind of tag (or none) followed by audio of several shapes and sizes")
{
    static const std::vector<Str> A = [] {
        std::vector<Str> v = {"", "a", pattern(3, 10), pattern(4, 35), pattern(5, 25), pattern(7, 64), pattern(6, 700), pattern(1, 4096), pattern(2, 4097), Str("ID3\x04\0\0\0\0\0\x03", 10) + "abcdef" + pattern(4, 20)};
        return v;
    }();
    Tags T;
    Str file = path("f");
    const Str& tag = mc::pick(tags());
    Str audio = mc::pick(A);
    mc::op("file: tag %s + audio of %zu bytes", show(tag).c_str(), audio.size());
    put_file(file, tag + audio);
    int n = mc::tier(3, 4);
    for (int i = 0; i < n; i++) change(file, T, mc::choose(5), audio);
    mc::outcome(mc::hash(read_file(file)));
}

SPACE(C02, sizes, "every size of the audio data up to 300 and around every buffer size, for writes and deletions, with and without tag")
{
    static const std::vector<size_t> L = [] {
        auto v = lengths(300, true);
        for (size_t e : {(1 << 20) - 4096 + 17, 3000000, (1 << 22) - 1, (1 << 22) + 5, (1 << 23) + 1, 10000000, (1 << 24) - 70, (1 << 24) - 1, 1 << 24, (1 << 24) + 9, 20000001}) v.push_back(e);
        return v;
    }();
    size_t n = mc::pick(L);
    int pat = mc::choose(n > 3000000 ? 1 : n > 20000 ? 2 : 6);
    Str audio = pattern(pat == 1 ? 6 : pat, n);
    Tags T;
    Str file = path("f");
    int k = std::vector<int>{0, 1, 3}[mc::choose(n > 3000000 ? 2 : 3)];
    static const int order[][2] = {{4, 1}, {1, 4}, {2, 2}};
    const int* o = order[mc::choose(n > 3000000 ? 1 : 3)];
    mc::decided();
    put_file(file, tags()[k] + audio);
    mc::op("file: tag %d + audio of %zu bytes (pattern %d)", k, n, pat);
    change(file, T, o[0], audio);
    change(file, T, o[1], audio);
    mc::outcome(mc::hash(read_file(file)));
}

SPACE(C02, bytes, "audio data that begins, ends or is made of every byte value")
{
    int v = mc::choose(256), where = mc::choose(3);
    Str audio = where == 0 ? Str(1, (char) v) + "udio" : where == 1 ? Str("audi") + (char) v : Str(25, (char) v);
    Tags T;
    Str file = path("f");
    put_file(file, tags()[mc::choose(4)] + audio);
    int a = mc::choose(3);
    change(file, T, a == 2 ? 4 : a, audio);
    change(file, T, 3, audio);
    change(file, T, 4, audio);
    mc::outcome(mc::hash(read_file(file)));
}

SPACE(C02, tagsizes, "every size of the existing tag up to 300 and around every boundary, in both versions, with and without footer")
{
    static const std::vector<size_t> L = lengths(300, true);
    size_t n = mc::pick(L);
    int v = mc::choose(3);
    Str tag = tag_bytes(v ? 4 : 3, {}, n, v == 2 ? 0x10 : 0);
    Str audio = pattern(0, 50);
    Tags T;
    Str file = path("f");
    put_file(file, tag + audio);
    mc::op("file: tag of %zu bytes", tag.size());
    change(file, T, mc::choose(2) ? 4 : 1, audio);
    mc::outcome(mc::hash(read_file(file)));
}

SPACE(C02, short_files, "every file of up to twelve bytes that is a prefix of something with a tag, of audio, or one byte away from it")
{
    static const Str full[] = {tag_bytes(3, {}, 12) + "au", tag_bytes(4, {}, 2) + "audio", Str("ID3ID3ID3ID3ID3"), pattern(3, 20)};
    const Str& f = mc::pick(full);
    Str b = f.substr(0, mc::choose(f.size() + 1));
    if (!b.empty())
    {
        int at = mc::choose(b.size());
        static const char alt[] = {'\0', '\x7f', '\xff', 'I', '\x03', '\x04'};
        int k = mc::choose(7);
        if (k) b[at] = alt[k - 1];
    }
    if (!syncsafe(b)) return mc::skip();
    Tags T;
    Str file = path("f"), audio;
    put_file(file, b);
    mc::op("file: %s", show(b).c_str());
    int first = mc::choose(2) ? 4 : 0;
    change(file, T, first, audio);
    change(file, T, 1, audio);
    change(file, T, 4, audio);
    mc::outcome(mc::hash(read_file(file)));
}

SPACE(C02, formats, "audio that starts or ends like the data of every common format: other tags before it or after it, padding, frames of MPEG, containers")
{
    static const std::vector<Str> heads = {
        "", Str(7, '\0'), Str(4000, '\0'), tag_bytes(3, {{"TIT2", Str("\0second", 7)}}, 5), tag_bytes(4, {{"TIT2", Str("\0second", 7)}}, 0, 0x10), "3DI" + header_bytes(4, 0, 0x10, 20).substr(3),
        Str("ID3\x02\0\0\0\0\0\x05xxxxx", 15), frame_bytes(3, "TIT2", Str("\0not mine", 9)), Str("\xff\xfb\x90\x64\0\0", 6), Str("\xff\xf1\x50\x80", 4),
        Str("fLaC\0\0\0\x22", 8), Str("RIFF\x24\x08\0\0WAVEfmt ", 16), Str("OggS\0\x02\0\0", 8), Str("\0\0\0\x20" "ftypM4A ", 12), "APETAGEX", Str("\xef\xbb\xbf", 3), Str("\xff\xfe", 2), "\r\n", "\n", Str("\x1a", 1)};
    static const std::vector<Str> ends = {
        "", "TAG" + Str(125, '\0'), "TAG" + Str(30, 't') + Str(95, ' '), Str("APETAGEX\xd0\x07\0\0\x20\0\0\0\0\0\0\0\0\0\0\x80", 24) + Str(8, '\0'), "LYRICSBEGIN...000003LYRICS200", tag_bytes(4, {{"TIT2", Str("\0end", 4)}}, 0, 0x10),
        Str(1, '\0'), Str(2048, '\0'), Str(1, '\xff'), "\n", Str("\x1a", 1), "TAG", "TAG+" + Str(223, 'e') + "TAG" + Str(125, 'x')};
    static const size_t middle[] = {0, 3, 417, 5000};
    Str audio = mc::pick(heads) + pattern(0, mc::pick(middle));
    audio += mc::pick(ends);
    Tags T;
    Str file = path("f");
    const Str& tag = tags()[mc::choose(4)];
    put_file(file, tag + audio);
    mc::op("file: tag of %zu bytes, audio [%s]", tag.size(), show(audio).c_str());
    int a = mc::choose(3);
    change(file, T, a == 2 ? 4 : a, audio);
    change(file, T, 3, audio);
    change(file, T, 4, audio);
    mc::outcome(mc::hash(read_file(file)));
}

SPACE(C02, names, "files with names of every length, with every kind of character, relative, absolute, not normalized, deep, through links: written twice and deleted")
{
    Place p;
    put_file(p.file, tags()[mc::choose(4)] + pattern(3, 40));
    Tags T;
    Str audio;
    Str before = listing();
    change(p.name, T, mc::choose(4), audio);
    change(p.name, T, 2, audio);
    change(p.name, T, 4, audio);
    change(p.name, T, 4, audio);
    CHECK(audio == pattern(3, 40), "the audio is another one at the end");
    CHECK(listing() == before, "there are other files than before: %s", show(listing(), 100).c_str());
    mc::outcome(mc::hash(p.name));
}

// Files that are too large to be kept in memory. Their audio is zeros with a mark here and there.
namespace {
const size_t STEP = 1 << 16;

void expect_chunk(size_t offset, size_t total, Str& c) // offset is a multiple of STEP
{
    c.assign(std::min(STEP, total - offset), '\0');
    uint64_t m[2] = {offset * 0x9E3779B97F4A7C15ull + 1, total};
    memcpy(&c[0], m, std::min(sizeof m, c.size()));
    if (offset + c.size() == total) c.back() = '\xff';
}

void put_huge(const Str& file, const Str& tag, size_t total)
{
    FILE* f = fopen(file.c_str(), "wb");
    fwrite(tag.data(), 1, tag.size(), f);
    Str c;
    for (size_t o = 0; o < total; o += STEP)
    {
        expect_chunk(o, total, c);
        fwrite(c.data(), 1, c.size(), f);
    }
    if (fclose(f)) abort();
}

void check_huge(const Str& file, size_t tag, size_t total, const char* what)
{
    FILE* f = fopen(file.c_str(), "rb");
    if (!f) return mc::violation("the file is gone after %s", what);
    setvbuf(f, nullptr, _IOFBF, 1 << 20);
    struct stat st;
    fstat(fileno(f), &st);
    CHECK((size_t) st.st_size == tag + total, "after %s the file has %zu bytes, expected %zu of the tag and %zu of audio", what, (size_t) st.st_size, tag, total);
    fseek(f, tag, SEEK_SET);
    Str c, got;
    for (size_t o = 0; o < total; o += STEP)
    {
        expect_chunk(o, total, c);
        got.assign(c.size(), 'x');
        size_t n = fread(&got[0], 1, got.size(), f);
        CHECK(n == got.size() && got == c, "after %s the audio is another one from %zu on, of %zu", what, o, total);
    }
    fclose(f);
}
} // namespace

static size_t room(const char* dir)
{
    struct statvfs s;
    return statvfs(dir, &s) ? 0 : s.f_bavail * s.f_frsize;
}

SPACE(C02, huge, "audio of a little more than 2 GB (256 MB if there is no room for several files like that; thorough: also a little less, and more than 4 GB), written and deleted")
{
    static const bool fits = std::min(room(mc::scratch().c_str()), room(P_tmpdir)) > 6ul << 31;
    std::vector<size_t> L = {fits ? (1ul << 31) + 4099 : (1ul << 28) + 4099};
    if (mc::thorough()) for (size_t n : {(1ul << 28) - 1, (1ul << 31) - 1, (1ul << 32) + 4099}) L.push_back(n);
    size_t n = mc::pick(L);
    int what = mc::choose(2);
    mc::decided();
    mc::patience(mc::tier(600, 3000));
    Str file = path("f");
    const Str& tag = tags()[what ? 3 : n & 1 ? 1 : 0];
    put_huge(file, tag, n);
    if (what)
    {
        ID3v2_delete_tag(file.c_str());
        check_huge(file, 0, n, "the deletion");
    }
    else
    {
        Tag M;
        ID3v2_Tag* t = start(bases()[1], M);
        ID3v2_write_tag(file.c_str(), t);
        M.written();
        check_huge(file, wire_of(M).size(), n, "the write");
        ID3v2_Tag_free(t);
    }
    unlink(file.c_str());
    mc::step();
    mc::state(n);
    mc::outcome(mc::hash(&what, sizeof what, n));
}

SPACE(C02, long, "up to 300 (thorough: 70000) writes and deletions on the same file, every pair of them over and over")
{
    static const std::vector<Str> A = {"", "a", pattern(6, 700), Str("ID3\x04\0\0\0\0\0\x03", 10) + "abcdef" + pattern(4, 20)};
    Tags T;
    Str file = path("f");
    const Str& tag = tags()[mc::choose(4)];
    Str audio = mc::pick(A);
    put_file(file, tag + audio);
    int e[2] = {mc::choose(5), mc::choose(5)}, n = mc::tier(300, 70000);
    mc::decided();
    for (int i = 0; i < n; i++) change(file, T, e[i & 1], audio);
    mc::outcome(mc::hash(read_file(file)));
}

SPACE(C02, runs, "audio data that begins with, ends with or is made of a run of one byte, of every length up to 600 and around every power of two up to 65536")
{
    static const std::vector<size_t> L = [] {
        auto v = lengths(600, false);
        std::vector<size_t> w;
        for (size_t n : v)
            if (n <= 600 || (n & 15) <= 1 || (n & 15) == 15 || mc::thorough()) w.push_back(n);
        for (size_t n : {1500, 3000, 5000, 6144, 10000, 12288, 20000, 30000, 40000, 50000}) w.push_back(n);
        return w;
    }();
    static const char al[] = {'\0', '\xff', ' ', 'U', '\x01'};
    size_t n = mc::pick(L);
    Str r(n, mc::pick(al));
    int where = mc::choose(4);
    Str audio = where == 0 ? r : where == 1 ? r + "audio" : where == 2 ? "audio" + r : r + "\xff\xfb\x90\x64" + Str(300, 'a') + r;
    Tags T;
    Str file = path("f");
    int k = std::vector<int>{0, 1, 3, 6}[mc::choose(4)], first = mc::choose(3);
    put_file(file, tags()[k] + audio);
    change(file, T, first == 0 ? 4 : first, audio);
    change(file, T, first == 0 ? 1 : 4, audio);
    mc::outcome(mc::hash(read_file(file)));
}
