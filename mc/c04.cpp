// C04: parsing arbitrary bytes is memory safe and terminates.
// The oracle is the instrumentation of the build (every access outside of a live object ends the
// process) and the watchdog of the engine; besides that, the sizes reported have to be usable.
#include "scenario.hpp"
#include "id3v2lib.compat.h"
using namespace m;

static volatile unsigned sink;

static void touch(const char* p, long n)
{
    CHECK(n >= 0, "a negative size (%ld) is reported", n);
    CHECK(p || n == 0, "there is no data but the size is %ld", n);
    unsigned s = 0;
    for (long i = 0; i < n; i++) s += (unsigned char) p[i];
    sink += s;
}

static void touch_string(const char* p)
{
    CHECK(p, "a string is missing");
    int n = ID3v2_strlen(p), k = ID3v2_strlent(p);
    CHECK(n >= 0 && k > n, "lengths %d and %d", n, k);
    touch(p, k);
}

static uint64_t inspect(ID3v2_Tag* t)
{
    CHECK(t->header, "the tag has no header");
    touch((char*) t->header, sizeof *t->header);
    uint64_t h = t->header->tag_size;
    size_t n = 0;
    for (ID3v2_FrameList* l = t->frames; l && l->frame; l = l->next)
    {
        ID3v2_Frame* f = l->frame;
        touch((char*) f->header, sizeof *f->header);
        char kind = kind_of(Str(f->header->id, 4));
        if (kind == 'T')
        {
            auto* d = ((ID3v2_TextFrame*) f)->data;
            touch_string(d->text);
            touch(d->text, d->size);
        }
        else if (kind == 'C')
        {
            auto* d = ((ID3v2_CommentFrame*) f)->data;
            touch(d->language, 3);
            touch_string(d->short_description);
            touch_string(d->comment);
            touch(d->comment, d->size);
        }
        else if (kind == 'A')
        {
            auto* d = ((ID3v2_ApicFrame*) f)->data;
            touch_string(d->mime_type);
            touch_string(d->description);
            touch(d->data, d->picture_size);
        }
        else
            touch((char*) f->data, f->header->size);
        h = h * 31 + f->header->size;
        CHECK(++n < 200000, "the list of frames never ends");
    }
    for (int i = 0; i < 11; i++) sink += get_named(t, i) != 0;
    ID3v2_FrameList_unlink(ID3v2_Tag_get_comment_frames(t));
    ID3v2_FrameList_unlink(ID3v2_Tag_get_apic_frames(t));
    mc::step();
    return h + n;
}

static void edit_script(ID3v2_Tag* t, int k)
{
    switch (k)
    {
        case 0: break;
        case 1:
            ID3v2_Tag_set_title(t, "title");
            ID3v2_Tag_set_comment(t, "eng", "\xFF\xFE" "c\0\0");
            ID3v2_Tag_set_album_cover(t, "m", 3, "pic");
            ID3v2_Tag_set_artist(t, "artist");
            break;
        case 2:
            ID3v2_Tag_delete_title(t);
            ID3v2_Tag_delete_comment_frame(t, 0);
            ID3v2_Tag_delete_apic_frame(t, 0);
            ID3v2_Tag_delete_frame(t, "PRIV");
            break;
        case 3:
            ID3v2_Tag_delete_comment(t);
            ID3v2_Tag_set_comment(t, "eng", "c");
            ID3v2_Tag_delete_album_cover(t);
            ID3v2_Tag_delete_artist(t);
            break;
    }
}

static void compat(const Str& b, const Str& file)
{
    ID3v2_tag* t;
    {
        In x(b);
        t = load_tag_with_buffer(x, b.size());
    }
    for (int k = 0; k < 2; k++)
    {
        if (t)
        {
            typedef ID3v2_frame* (*G)(ID3v2_tag*);
            static const G texts[] = {tag_get_title, tag_get_artist, tag_get_album, tag_get_year};
            for (G g : texts)
            {
                ID3v2_frame* f = g(t);
                if (!f) continue;
                touch(f->data, f->size);
                ID3v2_frame_text_content* c = parse_text_frame_content(f);
                touch(c->data, c->size);
                free(c->data);
                free(c);
            }
            ID3v2_frame* f = tag_get_comment(t);
            if (f)
            {
                touch(f->data, f->size);
                ID3v2_frame_comment_content* c = parse_comment_frame_content(f);
                touch(c->language, 3);
                touch_string(c->short_description);
                touch(c->text->data, c->text->size);
                free(c->text);
                free(c);
            }
            f = tag_get_album_cover(t);
            if (f)
            {
                touch(f->data, f->size);
                ID3v2_frame_apic_content* c = parse_apic_frame_content(f);
                touch_string(c->mime_type);
                touch_string(c->description);
                touch(c->data, c->picture_size);
                free(c);
            }
            free_tag(t);
        }
        t = k == 0 ? load_tag(file.c_str()) : NULL;
    }
    if (t) free_tag(t);
}

// Everything that can be done with some bytes. The size announced bounds what the file reader allocates.
static void hostile(const Str& b, int depth)
{
    Str file = path("f"), dest = path("g");
    mc::op("bytes [%s]", show(b, 120).c_str());
    ID3v2_Tag* t = parse(b);
    uint64_t h = 0;
    if (t)
    {
        h = inspect(t);
        if (depth > 0)
        {
            int k = depth > 1 ? mc::choose(4) : 0;
            mc::op("edits %d", k);
            edit_script(t, k);
            inspect(t);
            put_file(dest, b);
            ID3v2_write_tag(dest.c_str(), t);
            inspect(t);
            ID3v2_Tag* r = ID3v2_read_tag(dest.c_str());
            if (r)
            {
                inspect(r);
                ID3v2_Tag_free(r);
            }
            ID3v2_delete_tag(dest.c_str());
        }
        ID3v2_Tag_free(t);
    }
    put_file(file, b);
    ID3v2_TagHeader* hd = ID3v2_read_tag_header(file.c_str());
    if (hd) ID3v2_TagHeader_free(hd);
    if (b.size() >= 10)
    {
        In x(b.substr(0, 10));
        hd = ID3v2_read_tag_header_from_buffer(x);
        if (hd) ID3v2_TagHeader_free(hd);
    }
    t = ID3v2_read_tag(file.c_str());
    if (t)
    {
        inspect(t);
        ID3v2_Tag_free(t);
    }
    if (depth > 0) compat(b, file);
    mc::step();
    mc::state(mc::hash(b));
    mc::outcome(h);
}

static const char AL[] = {'\0', '\x01', 'a', '\xff', '\xfe', '\x02'};

SPACE(C04, bodies, "every frame body of up to four (thorough: five) bytes over 00 01 02 a FE FF, for every kind of frame, in both versions")
{
    static const char* const ids[] = {"TIT2", "COMM", "APIC", "PRIV"};
    int major = 3 + mc::choose(2);
    Str id = mc::pick(ids), b;
    int n = mc::choose(mc::tier(5, 6));
    for (int i = 0; i < n; i++) b += mc::pick(AL);
    // the fixed part of comments and pictures, so that the bytes fall on the strings
    Str pre;
    if (id == "COMM" && mc::choose(2)) pre = Str(1, mc::pick(AL)) + "eng";
    if (id == "APIC" && mc::choose(2)) pre = Str(1, mc::pick(AL)) + Str("m\0\x03", 3);
    Str f = frame_bytes(major, id, pre + b);
    int after = mc::choose(3);
    if (after == 1) f += frame_bytes(major, "TIT2", Str("\0next", 5)) + Str(12, '\0');
    if (after == 2) f += Str(3, '\0');
    hostile(header_bytes(major, 0, 0, f.size()) + f, 1);
}

SPACE(C04, sizes, "frames whose size lies: every small value, every power of two, the limits of the types; tags whose size lies too; one frame or two")
{
    static const std::vector<unsigned> S = [] {
        std::vector<unsigned> v;
        for (unsigned i = 0; i < 40; i++) v.push_back(i);
        for (int p = 6; p < 32; p++)
            for (int d = -1; d <= 1; d++) v.push_back((1u << p) + d);
        for (unsigned x : {0x7ffffff5u, 0xfffffff5u, 0xfffffff6u, 0xffffffffu, 0x7f7f7f7fu, 0x80808080u, 0x7fffffffu - 20, 0x7fffffffu - 21, 0x7fffffffu - 31}) v.push_back(x);
        return v;
    }();
    static const char* const ids[] = {"TIT2", "COMM", "APIC", "PRIV"};
    static const Str body[] = {Str("\0a", 2), Str("\x01" "eng\xff\xfe\0\0\xff\xfe" "a\0", 12), Str("\0m\0\x03\0pic", 8), Str("raw")};
    int major = 3 + mc::choose(2), k = mc::choose(4);
    Str f = frame_bytes(major, "TPE1", Str("\0x", 2)), first = mc::choose(2) ? f : "";
    Str lie = Str(ids[k]) + be32(mc::pick(S)) + Str(2, '\0') + body[k];
    Str all = first + lie + f + Str(mc::choose(2) * 20, '\0');
    // the tag: exact, shorter, longer than the data
    static const long d[] = {0, -1, -9, -10, -11, -12, -15, 1, 10, 11, 12, 100, 100000};
    long size = (long) all.size() + mc::pick(d);
    if (size < 0) size = 0;
    hostile(header_bytes(major, 0, 0, size) + all, 1);
}

static const std::vector<Str>& rich()
{
    static const std::vector<Str> v = [] {
        std::vector<Str> v;
        for (int k : {1, 2, 4, 5, 6, 8, 9, 10})
            v.push_back(bases()[k].bytes);
        return v;
    }();
    return v;
}

SPACE(C04, truncated, "every prefix of the starting tags, from a buffer of exactly that length and from a file, edited in four ways, written and read")
{
    const Str& b = mc::pick(rich());
    size_t n = mc::choose(std::min<size_t>(b.size(), 420) + 1);
    hostile(b.substr(0, n), 2);
}

SPACE(C04, corrupted, "every value of every byte of the starting tags, one at a time")
{
    Str b = mc::pick(rich());
    int i = mc::choose(std::min<int>(b.size(), 330));
    char c = (char) mc::choose(256);
    if (i == 6 && (unsigned char) c > 8 && (unsigned char) c < 250) return mc::skip(); // only larger allocations
    b[i] = c;
    hostile(b, mc::thorough() ? 2 : i < 120 ? 1 : 0);
}

SPACE(C04, pairs, "pairs of corrupted bytes among those that carry structure (header, sizes, encodings, terminators), over the extreme values")
{
    static const unsigned char val[] = {0x00, 0x01, 0x0a, 0x7f, 0x80, 0xff, 'T', 0xfe};
    int which = mc::choose(2);
    Str b = rich()[which ? 6 : 0];
    int limit = std::min<int>(b.size(), mc::tier(90, 200));
    int i = mc::choose(limit), j = mc::choose(limit);
    if (j <= i) return mc::skip();
    b[i] = (char) mc::pick(val);
    b[j] = (char) mc::pick(val);
    if ((unsigned char) b[6] > 0) b[6] = 1; // the allocation is bounded elsewhere
    hostile(b, 0);
}

SPACE(C04, extended, "every combination of header flags, of sizes of the extended header around the limits and of lengths of the rest")
{
    static const std::vector<unsigned> S = [] {
        std::vector<unsigned> v;
        for (unsigned i = 0; i < 64; i++) v.push_back(i);
        for (int p = 6; p < 32; p++)
            for (int d = -1; d <= 1; d++) v.push_back((1u << p) + d);
        for (unsigned x : {0x7ffffff5u, 0x7ffffffbu, 0xfffffff5u, 0xfffffffbu, 0xfffffffcu, 0xffffffffu, 0x7f7f7f7fu, 0x80808080u}) v.push_back(x);
        return v;
    }();
    int major = 3 + mc::choose(2), flags = mc::choose(16) << 4;
    Str rest = be32(mc::pick(S)) + Str(6, '\0') + frame_bytes(major, "TIT2", Str("\0a", 2)) + Str(9, '\0');
    static const int cut[] = {0, 1, 3, 4, 5, 10, 11, 20, 21, 22, 31};
    rest = rest.substr(0, mc::pick(cut));
    static const int d[] = {0, 1, -1, 11, -11, 5000};
    int size = (int) rest.size() + mc::pick(d);
    hostile(header_bytes(major, 0, flags, size < 0 ? 0 : size) + rest, 1);
}

SPACE(C04, announced, "headers that announce every size up to 600, around every power of two and with bytes that are not syncsafe, before 0 to 40 bytes")
{
    int k = mc::choose(3), major = 3 + mc::choose(2);
    Str b;
    if (k == 0) b = header_bytes(major, 0, mc::choose(2) * 0x50, mc::choose(600));
    else if (k == 1) b = header_bytes(major, 0, 0, (1u << mc::choose(28)) - 1 + mc::choose(3));
    else
    {
        b = header_bytes(major, 0, 0, 0);
        static const unsigned char v[] = {0, 0x7f, 0x80, 0xff};
        b[6] = mc::choose(2) ? 0 : (char) 0xff;
        for (int i = 7; i < 10; i++) b[i] = (char) mc::pick(v);
    }
    static const int n[] = {0, 1, 9, 10, 11, 12, 40};
    Str rest = frame_bytes(major, "TIT2", Str("\0abc", 4)) + Str(26, '\0');
    hostile(b + rest.substr(0, mc::pick(n)), k == 0 ? 1 : 0);
}

SPACE(C04, tiny, "every buffer of up to three bytes over the alphabet, and every prefix of a header")
{
    static const char al[] = {'\0', 'I', 'D', '3', '\xff', '\x03'};
    Str b;
    if (mc::choose(2))
    {
        b = header_bytes(3 + mc::choose(2), 0, mc::choose(2) * 0x40, 7);
        b = b.substr(0, mc::choose(11));
    }
    else
    {
        int n = mc::choose(mc::tier(5, 6));
        for (int i = 0; i < n; i++) b += mc::pick(al);
    }
    hostile(b, 1);
}

SPACE(C04, nested, "tags made of every sequence of up to four pieces: good frames, empty frames, frames of one byte, frames cut short, padding, rubbish")
{
    int major = 3 + mc::choose(2), n = mc::choose(mc::tier(5, 6));
    static const Str P[] = {
        frame_bytes(3, "TIT2", Str("\0abc", 4)), frame_bytes(3, "COMM", Str("\0eng\0c", 6)), frame_bytes(3, "APIC", Str("\0m\0\x03\0p", 6)), frame_bytes(3, "PRIV", "x"),
        frame_bytes(3, "TIT2", ""), frame_bytes(3, "COMM", ""), frame_bytes(3, "APIC", ""), frame_bytes(3, "PRIV", ""),
        Str("TIT2\0\0\0\x20\0\0\x01", 11), Str("COMM\0\0\0\x05\0\0\x01", 11), Str(4, '\0'), Str(11, '\0'), Str(3, '\xff'), Str("T"),
    };
    Str all;
    for (int i = 0; i < n; i++) all += mc::pick(P);
    hostile(header_bytes(major, 0, 0, all.size()) + all, n <= 3 ? 1 : 0);
}

SPACE(C04, crowds, "tags of 400000 (thorough: a million) frames of every kind, read, edited, written and freed by both APIs: neither the stack nor the time runs out")
{
    int kind = mc::choose(6), major = 3 + kind % 2;
    mc::decided();
    mc::patience(mc::tier(90, 300));
    Str b = crowd(major, mc::tier(400000, 1000000), kind);
    use_crowd(b);
    mc::step(12);
    mc::state(mc::hash(b));
}
