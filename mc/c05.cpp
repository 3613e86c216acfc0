// C05: a tag is reported exactly when a supported header is present.
#include "common.hpp"
#include "names.hpp"
#include <sys/stat.h>
#include <unistd.h>
using namespace m;

static void check_header(ID3v2_TagHeader* h, const Str& b, bool want, const char* who)
{
    mc::step();
    if (!want)
    {
        CHECK(!h, "%s reports a header in [%s]", who, show(b).c_str());
        return;
    }
    CHECK(h, "%s finds no header in [%s]", who, show(b).c_str());
    unsigned size = 0;
    for (int i = 6; i < 10; i++) size = (size << 7) | (unsigned char) b[i];
    CHECK(!memcmp(h->identifier, "ID3", 3), "%s: the mark is not ID3", who);
    CHECK(h->major_version == b[3] && h->minor_version == b[4], "%s: version %d.%d in [%s]", who, h->major_version, h->minor_version, show(b).c_str());
    CHECK(h->flags == b[5], "%s: flags are %02x in [%s]", who, (unsigned char) h->flags, show(b).c_str());
    if (syncsafe(b)) CHECK(h->tag_size == size, "%s: the tag size is %u, expected %u in [%s]", who, h->tag_size, size, show(b).c_str());
}

static void readers(const Str& b, bool whole = true)
{
    bool want = supported(b);
    Str file = path("f");
    put_file(file, b);
    mc::op("bytes [%s]", show(b).c_str());
    ID3v2_TagHeader* h = ID3v2_read_tag_header(file.c_str());
    check_header(h, b, want, "read_tag_header");
    if (h) ID3v2_TagHeader_free(h);
    if (b.size() >= 10)
    {
        // exactly the ten bytes
        In x(b.substr(0, 10));
        h = ID3v2_read_tag_header_from_buffer(x);
        check_header(h, b, want, "read_tag_header_from_buffer");
        if (h) ID3v2_TagHeader_free(h);
    }
    if (whole)
    {
        ID3v2_Tag* t = ID3v2_read_tag(file.c_str());
        check_header(t ? t->header : NULL, b, want, "read_tag");
        if (t) ID3v2_Tag_free(t);
        t = parse(b);
        check_header(t ? t->header : NULL, b, want, "read_tag_from_buffer");
        if (t) ID3v2_Tag_free(t);
    }
    mc::state(mc::hash(b));
    mc::outcome(want ? mc::hash(b.substr(0, 10)) : 0);
}

SPACE(C05, bytes, "every value of every byte of the header, alone and (thorough: also) in pairs, for files that stop there and files that go on")
{
    static const Str base[] = {header_bytes(3, 0, 0, 12), header_bytes(4, 0, 0, 0), header_bytes(4, 2, 0x20, 300)};
    Str b = mc::pick(base);
    int i = mc::choose(10);
    b[i] = (char) mc::choose(256);
    if (mc::thorough())
    {
        // the bytes of the size would only make the allocations larger: values around the limits
        static const unsigned char few[] = {0, 1, 2, 3, 4, 5, 'D', 'I', '3', 0x7f, 0x80, 0xff};
        int j = mc::choose(11);
        if (j < 10 && j != i) b[j] = (char) (j >= 6 || i >= 6 ? few[mc::choose(12)] : mc::choose(256));
    }
    b += std::vector<Str>{"", "x", frame_bytes(3, "TIT2", Str("\0a", 2))}[mc::choose(3)];
    readers(b, (unsigned char) b[6] < 16);
}

SPACE(C05, versions, "every combination of major and minor version and every combination of mark and version that is almost right")
{
    int k = mc::choose(2);
    Str b = header_bytes(3, 0, 0, 5) + "12345";
    if (k == 0)
    {
        b[3] = (char) mc::choose(256);
        b[4] = (char) mc::choose(256);
    }
    else
    {
        static const char c[] = {'I', 'D', '3', 'i', 'd', '\0', '\xff', 'T'};
        for (int i = 0; i < 3; i++) b[i] = mc::pick(c);
        b[3] = (char) (2 + mc::choose(4));
        b[5] = (char) (mc::choose(16) << 4);
    }
    readers(b);
}

SPACE(C05, lengths, "files and buffers cut at every length, with marks before, after or repeated")
{
    static const Str base[] = {
        header_bytes(3, 0, 0, 12) + "0123456789ab", header_bytes(4, 0, 0x50, 12) + "0123456789ab", header_bytes(4, 0, 0x40, 2) + "0123456789ab",
        "x" + header_bytes(3, 0, 0, 12), header_bytes(2, 0, 0, 12) + header_bytes(3, 0, 0, 12), pattern(5, 30), "ID" + header_bytes(3, 0, 0, 12), Str(30, '\0'),
    };
    const Str& b = mc::pick(base);
    readers(b.substr(0, mc::choose(b.size() + 1)));
}

SPACE(C05, sizes, "every size up to 2^14 (thorough: 2^16), around every power of two and made of every pair of values of the bytes, in both versions")
{
    int k = mc::choose(3);
    unsigned size;
    Str b;
    int major = 3 + mc::choose(2);
    if (k == 0) b = header_bytes(major, 0, 0, mc::choose(mc::tier(1 << 14, 1 << 16)));
    else if (k == 1)
    {
        int p = mc::choose(28);
        size = (1u << p) + mc::choose(9) - 4;
        b = header_bytes(major, 0, 0, size & 0x0FFFFFFF);
    }
    else
    {
        // two free bytes, seven bits each
        int x = mc::choose(4), y = mc::choose(4);
        b = header_bytes(major, 0, 0, 0);
        b[6 + x] = (char) mc::choose(128);
        if (y != x) b[6 + y] = (char) mc::choose(128);
    }
    readers(b, b[6] == 0);
}

SPACE(C05, missing, "names that do not lead to a readable file: missing, directories, links to nothing, too long, below files, empty")
{
    NotAFile x(true);
    Str before = listing();
    CHECK(!ID3v2_read_tag_header(x.name.c_str()), "a header was read from \"%s\"", show(x.name, 80).c_str());
    CHECK(!ID3v2_read_tag(x.name.c_str()), "a tag was read from \"%s\"", show(x.name, 80).c_str());
    CHECK(listing() == before, "something was created or removed");
    mc::step(2);
    mc::state(x.k);
    mc::outcome(x.k);
}

SPACE(C05, names, "files with names of every length, with every kind of character, relative, absolute, not normalized, deep, through links")
{
    static const Str b[] = {tag_bytes(3, {{"TIT2", Str("\0a", 2)}}, 20) + "audio", tag_bytes(4, {}, 0), "no tag here, but audio"};
    Place p;
    const Str& x = mc::pick(b);
    put_file(p.file, x);
    ID3v2_TagHeader* h = ID3v2_read_tag_header(p.name.c_str());
    check_header(h, x, supported(x), "read_tag_header");
    if (h) ID3v2_TagHeader_free(h);
    ID3v2_Tag* t = ID3v2_read_tag(p.name.c_str());
    check_header(t ? t->header : NULL, x, supported(x), "read_tag");
    if (t) ID3v2_Tag_free(t);
    mc::state(mc::hash(p.name));
    mc::outcome(mc::hash(x));
}

SPACE(C05, modes, "files with every combination of permissions of their owner, read by someone to whom they apply")
{
    static const Str b[] = {tag_bytes(3, {{"TIT2", Str("\0a", 2)}}, 20) + "audio", tag_bytes(4, {}, 0), "no tag here, but audio", ""};
    const Str& x = mc::pick(b);
    int mode = mc::choose(8) << 6;
    Str file = path("m");
    unlink(file.c_str());
    put_file(file, x);
    chmod(file.c_str(), mode);
    mc::op("mode %o", mode);
    bool want = supported(x) && (mode & 0400);
    {
        Unprivileged u;
        ID3v2_TagHeader* h = ID3v2_read_tag_header(file.c_str());
        check_header(h, x, want, "read_tag_header");
        if (h) ID3v2_TagHeader_free(h);
        ID3v2_Tag* t = ID3v2_read_tag(file.c_str());
        check_header(t ? t->header : NULL, x, want, "read_tag");
        if (t) ID3v2_Tag_free(t);
    }
    CHECK(read_file(file) == x, "the file was changed");
    unlink(file.c_str());
    mc::state(mode);
    mc::outcome(want);
}
