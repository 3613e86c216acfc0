// C09: file and buffer readers agree and reading changes nothing.
#include "scenario.hpp"
#include "names.hpp"
#include <sys/stat.h>
using namespace m;

static bool equal(ID3v2_TagHeader* a, ID3v2_TagHeader* b, bool ext)
{
    if (!a || !b) return a == b;
    return !memcmp(a->identifier, b->identifier, 3) && a->major_version == b->major_version && a->minor_version == b->minor_version &&
           a->flags == b->flags && a->tag_size == b->tag_size && (!ext || a->extended_header_size == b->extended_header_size);
}

static Str differ(ID3v2_Tag* a, ID3v2_Tag* b)
{
    if (!a || !b) return a == b ? "" : a ? "only the first one finds a tag" : "only the second one finds a tag";
    Obs x = observe(a), y = observe(b);
    Str d = diff(x, y.t, FRAMES | TAGSIZE | PADDING | HEADER | EXT);
    if (d.empty() && x.sizes != y.sizes) d = "the sizes of the frames differ";
    return d;
}

// The contents of a file, of which the tag takes the first `span` bytes.
static void readers(const Str& b, const Str& file = path("f"))
{
    put_file(file, b);
    mc::op("file [%s]", show(b, 100).c_str());
    struct stat s0, s1;
    stat(file.c_str(), &s0);

    ID3v2_Tag* f1 = ID3v2_read_tag(file.c_str());
    ID3v2_Tag* f2 = ID3v2_read_tag(file.c_str());
    Str d = differ(f1, f2);
    CHECK(d.empty(), "reading the file twice: %s", d.c_str());

    In whole(b);
    ID3v2_Tag* b1 = ID3v2_read_tag_from_buffer(whole, b.size());
    CHECK(!memcmp(whole.p, b.data(), b.size()), "reading the buffer changed it");
    d = differ(f1, b1);
    CHECK(d.empty(), "file and whole buffer: %s", d.c_str());
    ID3v2_Tag* b2 = ID3v2_read_tag_from_buffer(whole, b.size());
    d = differ(b1, b2);
    CHECK(d.empty(), "reading the buffer twice: %s", d.c_str());
    mc::step(3);

    // a buffer that stops at the end of the tag
    size_t span = tag_span(b);
    ID3v2_Tag* b3 = NULL;
    if (span && span <= b.size())
    {
        Str cut = b.substr(0, span);
        b3 = parse(cut);
        d = differ(f1, b3);
        CHECK(d.empty(), "file and buffer with only the tag: %s", d.c_str());
        mc::step();
    }

    // headers
    ID3v2_TagHeader* h1 = ID3v2_read_tag_header(file.c_str());
    ID3v2_TagHeader* h2 = ID3v2_read_tag_header(file.c_str());
    CHECK(equal(h1, h2, true), "reading the header of the file twice gives different results");
    if (b.size() >= 10)
    {
        ID3v2_TagHeader* h3 = ID3v2_read_tag_header_from_buffer(whole);
        CHECK(!memcmp(whole.p, b.data(), b.size()), "reading the header changed the buffer");
        CHECK(equal(h1, h3, true), "the headers of the file and of the buffer differ");
        if (h3) ID3v2_TagHeader_free(h3);
        mc::step();
    }
    // the header of the tag is the one that was read alone, except for what follows it
    CHECK(equal(h1, f1 ? f1->header : NULL, false), "read_tag and read_tag_header give different headers");
    if (h1) ID3v2_TagHeader_free(h1);
    if (h2) ID3v2_TagHeader_free(h2);
    mc::step();

    Str after = read_file(file);
    stat(file.c_str(), &s1);
    CHECK(after == b, "reading changed the file");
    CHECK(s0.st_ino == s1.st_ino && s0.st_mtim.tv_sec == s1.st_mtim.tv_sec && s0.st_mtim.tv_nsec == s1.st_mtim.tv_nsec, "reading modified the file");
    mc::state(mc::hash(b));
    mc::outcome(f1 ? observe(f1).t.hash() : 0);
    for (ID3v2_Tag* t : {f1, f2, b1, b2, b3})
        if (t) ID3v2_Tag_free(t);
}

// Audio whose first bytes look like more frames, padding or a footer
static const std::vector<Str>& audios()
{
    static const std::vector<Str> v = {
        "", "a", frame_bytes(3, "TIT2", Str("\0not mine", 9)), frame_bytes(4, "PRIV", Str(200, 'p')), Str(30, '\0'), pattern(5, 30), pattern(4, 30),
        Str("\0\0\0\0\0", 5) + frame_bytes(3, "TALB", Str("\0no", 3)), pattern(3, 3000), "abc" + frame_bytes(3, "COMM", Str("\0eng\0c", 6)),
    };
    return v;
}

SPACE(C09, tags, "every starting tag followed by audio of every kind, including audio that looks like more frames")
{
    const Base& b = mc::pick(bases());
    readers(b.bytes + mc::pick(audios()));
}

SPACE(C09, layouts, "every sequence of up to three frames of every kind, every amount of padding up to 24, extended headers and footers, followed by audio of every kind")
{
    int major = 3 + mc::choose(2), ext = mc::choose(3);
    bool footer = major == 4 && mc::choose(2);
    int padding = footer ? 0 : mc::choose(25);
    static const Wire all[] = {{"TIT2", Str("\0t", 2)}, {"COMM", Str("\x01" "eng\xff\xfe\0\0\xff\xfe" "c\0", 12)}, {"APIC", Str("\0m\0\x03\0p", 6)}, {"PRIV", "r"}};
    std::vector<Wire> f;
    int n = mc::choose(4);
    for (int i = 0; i < n; i++) f.push_back(mc::pick(all));
    int flags = (ext ? 0x40 : 0) | (footer ? 0x10 : 0);
    readers(tag_bytes(major, f, padding, flags, ext_header(major, ext)) + audios()[std::vector<int>{0, 2, 4, 9}[mc::choose(4)]]);
}

SPACE(C09, truncated, "every prefix of the starting tags with audio")
{
    const Base& x = mc::pick(bases());
    Str b = x.bytes + "some audio data";
    size_t n = mc::choose(std::min<size_t>(b.size(), 450) + 1);
    readers(b.substr(0, n));
}

SPACE(C09, corrupted, "every value of every byte of some of the starting tags, followed by audio that looks like frames")
{
    static const int which[] = {1, 6, 4};
    Str b = bases()[mc::pick(which)].bytes;
    int i = mc::choose(std::min<int>(b.size(), 150));
    b[i] = (char) mc::choose(256);
    if (!syncsafe(b) || (unsigned char) b[6] > 4) return mc::skip();
    // with wrong data inside, descriptions may be in no encoding: compare what both readers say
    readers(b + audios()[2]);
}

SPACE(C09, sizes, "tags with frames of every length up to 300 and around every boundary, padding after them and audio that looks like frames")
{
    static const std::vector<size_t> L = lengths(300, true);
    int major = 3 + mc::choose(2), kind = mc::choose(3);
    size_t n = mc::pick(L);
    static const char* const ids[] = {"TIT2", "PRIV", "APIC"};
    Str body = kind == 0 ? Str(1, '\0') + Str(n, 'x') : kind == 1 ? pattern(0, n + 1) : Str("\0m\0\x03\0", 5) + pattern(0, n);
    readers(tag_bytes(major, {{ids[kind], body}}, std::vector<int>{0, 3, 10, 11, 300}[mc::choose(n > 20000 ? 2 : 5)]) + audios()[2]);
}

SPACE(C09, announced, "headers that announce every size up to 600 with files that are shorter, equal or longer")
{
    int major = 3 + mc::choose(2), size = mc::choose(601);
    static const int d[] = {-600, -11, -10, -1, 0, 1, 10, 11, 40};
    int n = std::max(0, size + mc::pick(d));
    Str rest = frame_bytes(major, "TIT2", Str("\0abc", 4)) + frame_bytes(major, "PRIV", Str(90, 'p')) + Str(40, '\0') + frame_bytes(major, "TALB", Str("\0hidden", 7)) + pattern(3, 600);
    readers(header_bytes(major, 0, mc::choose(2) * 0x20, size) + rest.substr(0, n));
}

SPACE(C09, names, "files with names of every length, with every kind of character, relative, absolute, not normalized, deep, through links")
{
    Place p;
    put_file(p.file, "");
    readers(bases()[std::vector<int>{2, 6}[mc::choose(2)]].bytes + "audio", p.name);
}

SPACE(C09, modes, "files that can only be read")
{
    const Base& b = mc::pick(bases());
    Str file = path("m");
    unlink(file.c_str());
    put_file(file, b.bytes + "audio");
    chmod(file.c_str(), 0400);
    ID3v2_Tag *t, *u = parse(b.bytes + "audio");
    ID3v2_TagHeader* h;
    {
        Unprivileged p;
        t = ID3v2_read_tag(file.c_str());
        h = ID3v2_read_tag_header(file.c_str());
    }
    Str d = differ(t, u);
    CHECK(d.empty(), "file that can only be read and buffer: %s", d.c_str());
    CHECK(!h == !u, "read_tag_header of a file that can only be read gives another result");
    unlink(file.c_str());
    if (h) ID3v2_TagHeader_free(h);
    if (t) ID3v2_Tag_free(t);
    if (u) ID3v2_Tag_free(u);
    mc::step(2);
    mc::state(mc::hash(b.bytes));
    mc::outcome(mc::hash(b.bytes));
}

SPACE(C09, mimic, "tags that are also consistent, with other contents, when the sizes of their frames are read in the way of the other version, and frames that hold headers, footers and marks of tags")
{
    Base b = mc::choose(2) ? marks_tag() : mimic_tag();
    if (b.bytes.size()) readers(b.bytes + audios()[std::vector<int>{0, 4, 6}[mc::choose(3)]]);
}

SPACE(C09, big, "pictures, comments and texts of 4 MB to 128 MB (thorough: to the limit of the format), and other frames")
{
    readers(big_tag().bytes + "audio");
}
