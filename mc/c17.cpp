// C17: rewriting is idempotent and padding is stable.
#include "names.hpp"
#include "scenario.hpp"
using namespace m;

static unsigned padding_of(const Str& b, const Tag& M)
{
    Decoded d;
    Str e = decode(b, d);
    CHECK(e.empty(), "the written tag is not well formed: %s", e.c_str());
    CHECK(d.f.size() == M.f.size(), "the written tag has %zu frames, expected %zu", d.f.size(), M.f.size());
    return d.padding;
}

// Write, write again, then read and write several times: the file must stay the same.
static void stable(ID3v2_Tag* t, Tag& M, const Str& before, int rounds, const Place* place = nullptr)
{
    if (!t) return;
    Str file = place ? place->name : path("f");
    put_file(place ? place->file : file, before);
    unsigned had = M.padding;
    mc::op("write");
    ID3v2_write_tag(file.c_str(), t);
    Str first = read_file(file);
    unsigned pad = padding_of(first, M);
    mc::step();
    CHECK(pad >= 2048, "the written tag has %u bytes of padding, less than 2048", pad);
    CHECK(pad >= had, "the written tag has %u bytes of padding, it had %u before", pad, had);
    CHECK(pad == (had < 2048 ? 2048 : had), "the padding has grown from %u to %u bytes", had, pad);
    for (int i = 0; i < 2; i++)
    {
        mc::op("write again");
        ID3v2_write_tag(file.c_str(), t);
        Str b = read_file(file);
        mc::step();
        CHECK(b == first, "writing the same tag again changed the file (%zu bytes, then %zu)", first.size(), b.size());
    }
    for (int i = 0; i < rounds; i++)
    {
        mc::op("read and write");
        ID3v2_Tag* r = ID3v2_read_tag(file.c_str());
        CHECK(r, "no tag is found in the written file");
        ID3v2_write_tag(file.c_str(), r);
        ID3v2_Tag_free(r);
        Str b = read_file(file);
        mc::step();
        CHECK(b == first, "reading the tag and writing it back unchanged changed the file in round %d (%zu bytes, then %zu)", i + 1, first.size(), b.size());
    }
    mc::state(mc::hash(first));
    mc::outcome(mc::hash(first));
    ID3v2_Tag_free(t);
}

SPACE(C17, edits, "every starting tag and every sequence of edits up to the depth, written three times and then read and written back three times")
{
    Tag M;
    Str bytes;
    ID3v2_Tag* t = any_edits(M, 3, &bytes);
    stable(t, M, bytes + "audio", 3);
}

SPACE(C17, padding, "every amount of padding up to 200 (thorough: 2500), around every power of two up to 262144, and some up to 20 MB, read or requested")
{
    std::vector<int> P;
    for (int i = 0; i <= mc::tier(200, 2500); i++) P.push_back(i);
    for (int c : {256, 512, 1024, 2048, 4096, 6144, 8192, 10240, 16384, 32768, 65536, 131072, 262144})
        for (int i = c - 24; i <= c + 24; i++)
            if (mc::thorough() || c < 9000 || abs(i - c) <= 2) P.push_back(i);
    const int all = P.size();
    for (int i : {20000, 100000, 300000, 500000, (1 << 19) - 1, 1 << 19, 1000000, (1 << 20) - 1, 1 << 20, (1 << 20) + 1, (1 << 21) - 31, (1 << 21) - 1, 1 << 21, (1 << 21) + 1, 3000000, 5000000, (1 << 23) + 1, 10000000, (1 << 24) - 1, 1 << 24, (1 << 24) + 1, 20000000}) P.push_back(i);
    int at = mc::choose(P.size()), p = P[at], v = at < all ? mc::choose(3) : 2 * mc::choose(2);
    Tag M;
    ID3v2_Tag* t;
    if (v == 2)
    {
        t = ID3v2_Tag_new(NULL, p);
        M.padding = p;
    }
    else
        t = start(make_base("padded", 3 + v, {stored(text_frame("TALB", latin("album"))), stored(raw_frame("PRIV", "x"))}, p), M);
    int k = mc::choose(at < all ? 4 : 2);
    if (k) edit(t, M, k == 1 ? 0 : k == 2 ? 4 : 13);
    stable(t, M, "audio", at < all ? 3 : 1);
}

SPACE(C17, growth, "histories of five (thorough: six) edits with a read and a write each, on little or plenty of padding: the padding never shrinks below its minimum or grows, so the size of the file is the one of the frames plus a constant")
{
    static const int ops[] = {0, 1, 22, 4, 5};
    Tag M;
    Str file = path("f");
    int b = mc::choose(5);
    static const Base roomy[] = {
        make_base("v3 with plenty of padding", 3, {stored(text_frame("TALB", latin("a"))), stored(raw_frame("PRIV", "x"))}, 20000),
        make_base("v4 with plenty of padding", 4, {stored(text_frame("TIT2", latin("a"))), stored(raw_frame("PRIV", "x"))}, 70000)};
    const Base& base = b > 2 ? roomy[b - 3] : bases()[b == 0 ? 0 : b == 1 ? 1 : 7];
    ID3v2_Tag* t = start(base, M);
    put_file(file, base.bytes + "audio");
    int n = mc::tier(5, 6);
    unsigned pad = std::max(M.padding, 2048);
    for (int i = 0; i < n; i++)
    {
        edit(t, M, ops[mc::choose(5)]);
        ID3v2_write_tag(file.c_str(), t);
        ID3v2_Tag_free(t);
        Str f = read_file(file);
        unsigned p = padding_of(f, M);
        mc::step();
        CHECK(p == pad, "the padding is %u, it was %u", p, pad);
        CHECK(f.size() == 10 + M.frames_size() + pad + 5, "the file has %zu bytes, expected %u", f.size(), 10 + M.frames_size() + pad + 5);
        t = ID3v2_read_tag(file.c_str());
        CHECK(t, "no tag is found in the written file");
        mc::state(mc::hash(f));
    }
    mc::outcome(M.hash());
    ID3v2_Tag_free(t);
}

SPACE(C17, lengths, "every length of every field, in both versions")
{
    Tag M;
    stable(any_length(M), M, "audio", 1);
}

SPACE(C17, bytes, "every byte value in every field")
{
    Tag M;
    stable(any_byte(M), M, "audio", 1);
}

SPACE(C17, shapes, "every short string over the bytes that look like terminators and marks")
{
    Tag M;
    stable(any_shape(M), M, "audio", 2);
}

SPACE(C17, many, "every number of frames")
{
    Tag M;
    stable(any_number(M), M, "audio", 2);
}

SPACE(C17, layouts, "tags that were read with extended headers, footers and flags, written over their own file")
{
    int major = 3 + mc::choose(2), ext = mc::choose(3);
    bool footer = major == 4 && mc::choose(2);
    int flags = (footer ? 0x10 : 0) | (mc::choose(2) ? 0x20 : 0);
    static const int pads[] = {0, 5, 10, 2047, 2048, 2049, 5000};
    Base b = make_base("layout", major, {stored(text_frame("TIT2", latin("t"))), stored(raw_frame("PRIV", "xx"))}, footer ? 0 : mc::pick(pads), flags, ext);
    Tag M;
    ID3v2_Tag* t = start(b, M);
    int k = mc::choose(3);
    if (k) edit(t, M, k == 1 ? 0 : 1);
    stable(t, M, b.bytes + pattern(mc::choose(8), 40), 3);
}

SPACE(C17, named, "every pair of named setters with strings of every kind, the second one also deleted or the first one replaced, beside others, in both versions")
{
    Tag M;
    ID3v2_Tag* t = any_named(M);
    stable(t, M, "audio", 2);
}

SPACE(C17, ids, "frames of every id of the standards, read twice in a tag, then left alone, replaced, deleted or set beside")
{
    Tag M;
    ID3v2_Tag* t = any_id(M);
    stable(t, M, "audio", 2);
}

SPACE(C17, values, "values that mean something to other programs, in every field, with every kind of string: numbers of tracks, years, genres, MIME types, languages, descriptions, pictures of every format")
{
    Tag M;
    ID3v2_Tag* t = any_value(M);
    stable(t, M, "audio", 2);
}

SPACE(C17, replacements, "frames of each kind, set or read, replaced by one that differs in every subset of its fields (the same one included), with values of the same length or not")
{
    Tag M;
    ID3v2_Tag* t = any_replacement(M);
    stable(t, M, "audio", 2);
}

SPACE(C17, long, "every pair of ten edits, over and over: 150 (thorough: 1100) rounds of edit, write, write again, read and write back on the same file")
{
    Tag M;
    int e[2], n = mc::tier(150, 1100);
    ID3v2_Tag* t = any_pair(M, e[0], e[1]);
    Str file = path("f");
    put_file(file, "audio");
    for (int i = 0; i < n; i++)
    {
        edit(t, M, e[i & 1]);
        ID3v2_write_tag(file.c_str(), t);
        M.written();
        Str first = read_file(file);
        unsigned pad = padding_of(first, M);
        CHECK(pad == M.padding, "the padding is %u in round %d, it was %u", pad, i + 1, M.padding);
        ID3v2_write_tag(file.c_str(), t);
        CHECK(read_file(file) == first, "writing the same tag again changed the file in round %d", i + 1);
        ID3v2_Tag* r = ID3v2_read_tag(file.c_str());
        CHECK(r, "no tag is found in the written file");
        ID3v2_write_tag(file.c_str(), r);
        CHECK(read_file(file) == first, "reading the tag and writing it back unchanged changed the file in round %d", i + 1);
        mc::step(3);
        if (i & 1)
        {
            ID3v2_Tag_free(t);
            t = r;
        }
        else
            ID3v2_Tag_free(r);
    }
    mc::outcome(M.hash());
    ID3v2_Tag_free(t);
}

SPACE(C17, untouched, "a file that is read and written back 1000 (thorough: 70000) times, for every starting tag")
{
    const Base& b = mc::pick(bases());
    Tag M;
    Str file = path("f");
    int n = mc::tier(1000, 70000);
    bool again = mc::choose(2);
    ID3v2_Tag* t = start(b, M);
    put_file(file, b.bytes + "audio");
    ID3v2_write_tag(file.c_str(), t);
    Str first = read_file(file);
    for (int i = 0; i < n; i++)
    {
        if (again)
        {
            ID3v2_Tag_free(t);
            t = ID3v2_read_tag(file.c_str());
            CHECK(t, "no tag is found in the written file");
        }
        ID3v2_write_tag(file.c_str(), t);
        Str now = read_file(file);
        CHECK(now == first, "the file changed in round %d (%zu bytes, then %zu)", i + 1, first.size(), now.size());
        mc::step();
    }
    mc::outcome(mc::hash(first));
    ID3v2_Tag_free(t);
}

SPACE(C17, mimic, "tags that are also consistent, with other contents, when the sizes of their frames are read in the way of the other version, and frames that hold headers, footers and marks of tags")
{
    Base b = mc::choose(2) ? marks_tag() : mimic_tag();
    if (b.bytes.empty()) return;
    Tag M;
    ID3v2_Tag* t = start(b, M);
    if (mc::choose(2)) edit(t, M, 2);
    stable(t, M, b.bytes + "audio", 1);
}

SPACE(C17, big, "pictures, comments and texts of 4 MB to 16 MB (thorough: to the limit of the format)")
{
    Tag M;
    stable(any_big(M, 1 << 24), M, "audio", 1);
}

SPACE(C17, runs, "strings and pictures that begin with, end with or are made of a run of any of the characters that someone could want to trim or to shorten, of every length up to 140 (thorough: 300)")
{
    Tag M;
    if (ID3v2_Tag* t = any_run(M)) stable(t, M, "audio", 1);
}

SPACE(C17, twins, "frames that hold the same value, short or long, in every pair of fields, set or read, and what may be done to one of them")
{
    Tag M;
    stable(any_twins(M), M, "audio", 1);
}

SPACE(C17, headers, "new tags made with a header that was read, of every supported version, with any flags, sizes and padding, and edits on them")
{
    Tag M;
    stable(any_header(M), M, "audio", 1);
}

SPACE(C17, names, "files with names of every length, with every kind of character and of every type, relative, absolute, not normalized, deep, through links")
{
    Place p;
    Tag M;
    const int base[] = {0, 6, 9};
    ID3v2_Tag* t = start(bases()[base[mc::choose(3)]], M);
    edit(t, M, 2);
    stable(t, M, mc::choose(2) ? bases()[2].bytes + "audio" : Str("audio"), 2, &p);
}
