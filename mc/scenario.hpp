// Families of tags, built call by call through the public API together with their model. Every
// decision is a choice of the engine, so a space that uses one of them covers the whole family.
#pragma once
#include "common.hpp"
#include <pthread.h>

namespace m {

// Runs f on a thread with a stack of the usual 8 MB (nothing is chosen or checked in there)
template <class F> void on_usual_stack(F f)
{
    struct Call
    {
        F& f;
        static void* run(void* p)
        {
            ((Call*) p)->f();
            return nullptr;
        }
    } call{f};
    pthread_attr_t a;
    pthread_t t;
    if (pthread_attr_init(&a) || pthread_attr_setstacksize(&a, 8 << 20) || pthread_create(&t, &a, Call::run, &call) || pthread_join(t, nullptr)) abort();
    pthread_attr_destroy(&a);
}

// A tag with a great many frames
inline Str crowd(int major, int n, int kind)
{
    static const Wire w[] = {{"PRIV", "x"}, {"TPE1", Str("\0a", 2)}, {"COMM", Str("\0eng\0c", 6)}, {"APIC", Str("\0m\0\3\0p", 6)}, {"PRIV", ""}};
    Str s;
    for (int i = 0; i < n; i++)
    {
        const Wire& x = w[kind == 5 ? i % 5 : kind];
        s += frame_bytes(major, x.id, x.body, x.flags);
    }
    return header_bytes(major, 0, 0, s.size()) + s;
}

// Everything that is done with such a tag
inline void use_crowd(const Str& bytes)
{
    Str file = path("f");
    put_file(file, bytes + "audio");
    In b(bytes), name(latin(file));
    on_usual_stack([&] {
        ID3v2_Tag* t = ID3v2_read_tag_from_buffer(b, bytes.size());
        if (t)
        {
            for (int i = 0; i < 11; i++) get_named(t, i);
            ID3v2_FrameList_unlink(ID3v2_Tag_get_comment_frames(t));
            ID3v2_FrameList_unlink(ID3v2_Tag_get_apic_frames(t));
            ID3v2_Tag_get_frame(t, "TXXX");
            ID3v2_Tag_set_title(t, "title");
            ID3v2_Tag_set_comment(t, "eng", "comment");
            ID3v2_Tag_delete_title(t);
            ID3v2_Tag_delete_artist(t);
            ID3v2_write_tag(name, t);
            ID3v2_Tag_free(t);
        }
        ID3v2_tag* c = load_tag(name);
        if (c)
        {
            tag_get_title(c);
            tag_set_title((char*) "title", 0, c);
            set_tag(name, c);
            free_tag(c);
        }
        ID3v2_delete_tag(name);
    });
}

inline const Base& version(int k)
{
    static const Base v4 = make_base("v4 with a frame", 4, {stored(text_frame("TALB", latin("album")))}, 7);
    return k ? v4 : bases()[0];
}

// Any starting tag followed by every sequence of edits of that length
inline ID3v2_Tag* any_edits(Tag& M, int depth, Str* bytes = nullptr)
{
    const Base& b = mc::pick(bases());
    ID3v2_Tag* t = start(b, M);
    if (bytes) *bytes = b.bytes;
    for (int i = 0; i < depth; i++) edit(t, M, mc::choose(edit_count()));
    return t;
}

// new tags made with the header of a file: every supported version, flags and size, and any padding, then two edits
inline ID3v2_Tag* any_header(Tag& M)
{
    static const int flags[] = {0, 0x40, 0x10, 0x20, 0x50, 0x70, 0x0f}, minors[] = {0, 1, 255}, paddings[] = {0, 1, 2047, 2048, 2049, 5000};
    static const unsigned sizes[] = {0, 1, 127, 128, 300, 20000, 1 << 21, (1 << 28) - 1};
    int major = 3 + mc::choose(2), f = mc::pick(flags), a = mc::choose(edit_count()), b = mc::choose(3);
    int minor = 0, padding = 0;
    unsigned size = 300;
    switch (mc::choose(3))
    {
        case 0: minor = mc::pick(minors); break;
        case 1: size = mc::pick(sizes); break;
        case 2: padding = mc::pick(paddings); break;
    }
    mc::op("new tag with a header: v2.%d.%d flags %02x size %u, padding %d", major, minor, f, size, padding);
    ID3v2_TagHeader* h;
    {
        In x(header_bytes(major, minor, f, size));
        h = ID3v2_read_tag_header_from_buffer(x);
    }
    CHECK(h, "no header is found");
    M = Tag();
    M.major = major, M.minor = minor, M.flags = f, M.tag_size = size, M.padding = padding;
    ID3v2_Tag* t = ID3v2_Tag_new(h, padding);
    CHECK(t, "no tag was made");
    edit(t, M, a);
    if (b) edit(t, M, b == 1 ? 4 : 11);
    return t;
}

// every length of text, comment, description, MIME type and picture up to 300 and around every size where the encoding of sizes changes, in both versions and all the encodings, followed by another frame
inline ID3v2_Tag* any_length(Tag& M)
{
    static const std::vector<size_t> L = lengths(300, false);
    static const std::vector<size_t> B = {131071, 131072, 131073, 1 << 20, (1 << 21) - 13, (1 << 21) - 12, (1 << 21) - 11, (1 << 21) - 2, (1 << 21) - 1, 1 << 21, (1 << 21) + 1, 3000000};
    int i = mc::choose(L.size() + B.size());
    size_t n = (size_t) i < L.size() ? L[i] : B[i - L.size()];
    int field = mc::choose(5), enc = mc::choose(n > 70000 ? 1 : 3);
    if (field == 3 && n > 70000) field = 0;
    ID3v2_Tag* t = start(version(mc::choose(2)), M);
    Str s = string_of(enc, n), small = enc ? utf16("s", enc == 2) : latin("s");
    switch (field)
    {
        case 0: set_named(t, M, 2, s); break;
        case 1: set_comment_frame(t, M, true, "eng", small, s); break;
        case 2: set_comment_frame(t, M, false, "eng", s, small); break;
        case 3: set_apic_frame(t, M, true, latin(Str(n, 'm')), 3, s, pattern(0, 10)); break;
        case 4: set_apic_frame(t, M, false, latin("image/png"), 3, small, pattern(enc, n)); break;
    }
    set_named(t, M, 0, latin("the next one"));
    return t;
}

// every byte value in every field: texts, comments, descriptions, MIME types, languages, flags, picture types and pictures
inline ID3v2_Tag* any_byte(Tag& M)
{
    ID3v2_Tag* t = start(version(mc::choose(2)), M);
    int v = mc::choose(256);
    char c = (char) v;
    int where = mc::choose(12);
    bool nul = v == 0; // a zero would end an ISO string
    Str pre = mc::choose(2) ? "x" : "";
    Str iso = latin(pre + (nul ? Str() : Str(1, c)) + "y");
    Str uni = Str("\xFF\xFE", 2) + (pre.empty() ? Str() : Str("x\0", 2));
    switch (where)
    {
        case 0: set_named(t, M, 2, iso); break;
        case 1: set_named(t, M, 2, uni + c + Str("\x01", 1) + Str(2, '\0')); break;  // low byte
        case 2: set_named(t, M, 2, uni + Str("\x01", 1) + c + Str(2, '\0')); break;  // high byte
        case 3: set_comment_frame(t, M, true, "eng", iso, iso); break;
        case 4: set_comment_frame(t, M, true, Str("e") + c + "g", uni + c + Str("\x01", 1) + Str(2, '\0'), uni + Str("\x01", 1) + c + Str(2, '\0')); break;
        case 5: set_comment_frame(t, M, true, Str(1, c) + "ng", latin(""), latin("a"), Str(1, c) + Str(1, '\0')); break;
        case 6: set_comment_frame(t, M, true, Str("en") + c, latin(""), latin("a"), Str(1, '\0') + c); break;
        case 7: set_apic_frame(t, M, true, iso, v, iso, Str(3, c)); break;
        case 8: set_apic_frame(t, M, true, latin("m"), v, Str("\xFE\xFF", 2) + c + Str("\x01", 1) + Str(2, '\0'), Str(1, c) + pre, Str(1, c) + Str(1, c)); break;
        case 9: set_text(t, M, "TXXX", iso, Str(1, c) + Str(1, '\0')); break;
        case 10: set_text(t, M, "T001", uni + Str(2, '\0'), Str(1, '\0') + c); break;
        case 11: set_cover(t, M, iso, pre + c); break;
    }
    set_named(t, M, 0, latin("the next one"));
    return t;
}

// every string of up to five (thorough: six) units over the bytes that could be mistaken for terminators, marks and encodings, in texts, comments and descriptions
inline ID3v2_Tag* any_shape(Tag& M)
{
    // ISO: bytes 01 02 a fe ff, not starting with a BOM. UTF-16: units made of the same and zero.
    static const char iso[] = {'\x01', '\x02', 'a', '\xfe', '\xff'};
    static const Str units[] = {Str("\x01\x00", 2), Str("\x00\x01", 2), Str("\xff\xfe", 2), Str("\xfe\xff", 2), Str("aa", 2)};
    int enc = mc::choose(2), n = mc::choose(mc::tier(5, 6));
    Str s = enc ? "\xFF\xFE" : "";
    for (int i = 0; i < n; i++)
    {
        int k = mc::choose(5);
        if (enc) s += units[k];
        else s += iso[k];
    }
    if (!enc && has_bom(s)) return mc::skip(), nullptr;
    s += Str(enc ? 2 : 1, '\0');
    ID3v2_Tag* t = start(version(mc::choose(2)), M);
    set_named(t, M, 2, s);
    set_comment_frame(t, M, true, "eng", s, s);
    set_apic_frame(t, M, true, latin("image/png"), 1, s, s);
    return t;
}

// every picture of up to four (thorough: five) bytes over 00 01 FF FE and the letters of ids, with every kind of description
inline ID3v2_Tag* any_picture(Tag& M)
{
    static const char al[] = {'\0', '\x01', '\xff', '\xfe', 'T'};
    int n = mc::choose(mc::tier(5, 6));
    Str s;
    for (int i = 0; i < n; i++) s += al[mc::choose(5)];
    ID3v2_Tag* t = start(version(mc::choose(2)), M);
    Str d = std::vector<Str>{latin(""), latin("d"), utf16(""), utf16("d", true), Str("\xFE\xFF\0\0", 4)}[mc::choose(5)];
    set_apic_frame(t, M, true, latin("image/png"), 3, d, s);
    set_comment_frame(t, M, true, "eng", d, d);
    return t;
}

// tags with every number of frames up to 130 and around 255, 1000 and 4096, of every kind
inline ID3v2_Tag* any_number(Tag& M)
{
    std::vector<int> c;
    for (int i = 0; i <= 130; i++) c.push_back(i);
    for (int i : {254, 255, 256, 257, 300, 1000}) c.push_back(i);
    if (mc::thorough()) for (int i : {511, 512, 513, 2000, 4095, 4096, 4097}) c.push_back(i);
    int n = mc::pick(c), kind = mc::choose(4);
    ID3v2_Tag* t = start(version(mc::choose(2)), M);
    for (int i = 0; i < n; i++)
    {
        char v[16];
        snprintf(v, sizeof v, "%d", i);
        int k = kind == 3 ? i % 3 : kind;
        if (k == 0) set_comment_frame(t, M, true, "eng", latin(v), latin("c"));
        else if (k == 1) set_apic_frame(t, M, true, latin("m"), i & 255, utf16(v), v);
        else
        {
            snprintf(v, sizeof v, "T%03d", i % 1000);
            set_text(t, M, v, i & 1 ? latin(v) : utf16(v));
        }
    }
    return t;
}

// every pair of named setters with strings of every kind, the second one also followed by its deletion, beside a comment and a cover, in both versions
inline ID3v2_Tag* any_named(Tag& M)
{
    static const Str S[] = {latin("value"), utf16("value"), utf16("value", true), latin(""), utf16(""), latin("1\xe9/12"), latin(Str(2000, 'v'))};
    ID3v2_Tag* t = start(version(mc::choose(2)), M);
    int a = mc::choose(11), b = mc::choose(11);
    auto set = [&](int k, const Str& s) {
        if (k < 9) set_named(t, M, k, s);
        else if (k == 9) set_comment(t, M, "eng", s);
        else set_cover(t, M, latin("image/png"), s);
    };
    set(a, mc::pick(S));
    set(b, S[mc::choose(4)]);
    switch (mc::choose(3))
    {
        case 0: break;
        case 1: set(a, latin("replaced")); break;
        case 2:
            if (b < 9) del_named(t, M, b);
            else if (b == 9) del_comment(t, M);
            else del_cover(t, M);
    }
    return t;
}

// values that mean something to other programs, in every field and with every kind of string: numbers of tracks, years, genres, MIME types, languages, descriptions, pictures of every format
inline ID3v2_Tag* any_value(Tag& M)
{
    static const char* const T[] = {
        "", " ", "0", "00", "1", "03", "3/12", "03/12", "/", "(17)", "(17)Rock", "17", "((x)", "(RX)", "(CR)", "Rock", "1999", "2001-12-31", "2001-12-31T10:20:30", "12:34", " padded ", "tab\t", "a\nb", "a\r\nb", "\n",
        "AC/DC", "a;b", "a\\b", "%s%n%d", "$x", "null", "NULL", "NaN", "-1", "1e9", "2147483648", "eng", "XXX", "TIT2", "COMM", "ID3", "TAG", "APIC", "\xc3\xa9", "\xe9", "\x7f", "\x1b[0m", "<a>&amp;", "\"quoted\"", "iTunNORM", "ID3v1 Comment",
        "description", "http://example.org/a.png", "image/png", "-->", "\x03utf", "\x01\x02"};
    static const char* const mimes[] = {"", "image/jpeg", "image/jpg", "image/png", "image/gif", "image/bmp", "image/", "image", "-->", "PNG", "JPG", "IMAGE/PNG", "text/plain", "image/jpeg; charset=x", "application/octet-stream", "/"};
    static const char* const langs[] = {"eng", "XXX", "xxx", "ENG", "und", "   ", "deu", "\0\0\0", "e\0\0", "\0ng", "123", "\xff\xfe\xff", "\xff\xff\xff", "en\0"};
    static const Str pics[] = {"", Str("\xff\xd8\xff\xe0\0\x10JFIF\0", 11), Str("\x89PNG\r\n\x1a\n\0\0\0\rIHDR", 16), "GIF89a", "BM", "http://example.org/a.png", Str(5, '\0'), Str("data\0\0\0", 7), Str("\0\0data", 6), "TIT2", "\xff\xfe" "a", "ID3", Str(1, '\0'), Str("\xff\xd8\xff\xd9", 4), Str(300, '\xff')};
    static const Str flags[] = {Str(2, '\0'), Str("\x80\0", 2), Str("\x40\0", 2), Str("\x20\0", 2), Str("\xe0\0", 2), Str("\x60\0", 2)};
    int where = mc::choose(16), major = mc::choose(2);
    ID3v2_Tag* t = start(version(major), M);
    auto str = [&](const char* s, int enc) { return enc ? utf16(s, enc == 2) : latin(s); };
    if (where < 10)
    {
        Str s = str(mc::pick(T), mc::choose(3));
        if (where < 9) set_named(t, M, where, s);
        else set_text(t, M, mc::choose(2) ? "TXXX" : "TDRC", s, mc::pick(flags));
    }
    else if (where == 10) set_comment(t, M, Str(mc::pick(langs), 3), str(mc::pick(T), mc::choose(3)));
    else if (where == 11)
    {
        int enc = mc::choose(3);
        set_comment_frame(t, M, mc::choose(2), "eng", str(mc::pick(T), enc), str("text", enc), mc::pick(flags));
    }
    else if (where == 12) set_cover(t, M, latin(mc::pick(mimes)), mc::pick(pics));
    else if (where == 13)
    {
        const char* mime = "image/png";
        int type = 3;
        Str pic = pics[2], fl = flags[0];
        switch (mc::choose(3))
        {
            case 0: mime = mc::pick(mimes); fl = mc::pick(flags); break;
            case 1: type = mc::choose(22); pic = mc::pick(pics); break;
            case 2: mime = mc::pick(mimes); pic = mc::pick(pics); break;
        }
        set_apic_frame(t, M, mc::choose(2), latin(mime), type, str("Cover", mc::choose(3)), pic, fl);
    }
    else if (where == 14)
    {
        static const int types[] = {0, 1, 3, 20};
        set_apic_frame(t, M, true, latin("image/png"), mc::pick(types), str(mc::pick(T), mc::choose(3)), pics[mc::choose(2)]);
    }
    else
    {
        // several that the standard wants to be different, but are not
        int k = mc::choose(3), n = 2 + mc::choose(2), ptype = mc::choose(22);
        Str s(mc::pick(langs), 3);
        for (int i = 0; i < n; i++)
        {
            if (k == 0) set_comment_frame(t, M, true, s, latin("d"), latin(i ? "c" : "other"));
            if (k == 1) set_apic_frame(t, M, true, latin("image/png"), ptype, latin("d"), i ? "p" : "other");
            if (k == 2) set_text(t, M, i ? "TXXX" : "TDRC", latin("v"));
        }
    }
    set_named(t, M, 0, latin("the next one"));
    return t;
}

// frames of each kind, set or read, replaced by one that differs in every subset of its fields (the same one included), with values of the same length or not
inline ID3v2_Tag* any_replacement(Tag& M)
{
    int kind = mc::choose(3), bits = mc::choose(kind == 0 ? 8 : kind == 1 ? 32 : 64), longer = mc::choose(2), enc = mc::choose(3), major = mc::choose(2), how = mc::choose(3);
    static const Str F[] = {Str("\x40\x01", 2), Str("\0\0", 2)};
    int used = 0;
    auto changed = [&] { return bits >> used++ & 1; };
    auto value = [&](const char* v, bool other, int e) {
        Str x = v;
        if (other) x[x.size() - 1] = '!';
        if (other && longer) x += " and more";
        return e < 0 ? x : e == 0 ? latin(x) : utf16(x, e == 2);
    };
    auto frame = [&](bool other) {
        used = 0;
        auto c = [&] { return changed() && other; };
        Frame f;
        bool flags = c();
        int e = c() ? (enc + 1) % 3 : enc;
        if (kind == 0) f = text_frame("TALB", value("text", c(), e));
        else if (kind == 1)
        {
            Str lang = c() ? "enx" : "eng", desc = value("desc", c(), e);
            f = comment_frame(lang, desc, value("comment", c(), e));
        }
        else
        {
            Str mime = value("image/png", c(), 0);
            int type = c() ? 4 : 3;
            Str desc = value("desc", c(), e);
            f = apic_frame(mime, type, desc, value("picture", c(), -1));
        }
        f.flags = F[flags];
        return f;
    };
    Frame a = frame(false), b = frame(true);
    auto put = [&](ID3v2_Tag* t, const Frame& f, bool add) {
        if (kind == 0) set_text(t, M, f.id, f.text, f.flags);
        else if (kind == 1) set_comment_frame(t, M, add, f.lang, f.desc, f.text, f.flags);
        else set_apic_frame(t, M, add, f.mime, f.ptype, f.desc, f.text, f.flags);
    };
    ID3v2_Tag* t;
    if (how == 0)
        t = start(make_base("one frame", 3 + major, {stored(text_frame("TIT2", latin("first"))), stored(a), stored(raw_frame("PRIV", "last"))}, 9), M);
    else
    {
        t = start(version(major), M);
        if (how == 2) set_named(t, M, 2, latin("first"));
        put(t, a, true);
        if (how == 2) put(t, b, true);
    }
    put(t, b, false);
    set_named(t, M, 0, latin("the next one"));
    if (how == 2) put(t, a, false);
    return t;
}

// Sizes of frames where limits of formats, of types, of buffers or of someone's patience could be
inline std::vector<size_t> big_sizes(size_t max = (size_t) -1)
{
    std::vector<size_t> v = [=] {
        std::vector<size_t> v = {4000000, 1 << 22, 5 << 20, 1 << 23, 10000000, 10 << 20, (1 << 24) - 30, (1 << 24) - 1, 1 << 24, (1 << 24) + 5, 20 << 20, (1 << 25) + 1, 50000000, (1 << 26) - 1, (1 << 26) + 7, (1 << 27) + 1};
        if (mc::thorough())
            for (size_t x : {100000000, 100 << 20, (1 << 27) - 11, (1 << 27) - 1, 1 << 27, 200 << 20, (1 << 28) - 3000}) v.push_back(x);
        while (!mc::thorough() && v.back() > max) v.pop_back();
        return v;
    }();
    return v;
}

// pictures, comments and texts of 4 MB to 128 MB (thorough: to the limit of the format), followed by another frame
inline ID3v2_Tag* any_big(Tag& M, size_t max = (size_t) -1)
{
    size_t n = mc::pick(big_sizes(max));
    int field = mc::choose(n > 30000000 ? 1 : 3), major = mc::choose(2);
    mc::decided();
    mc::patience(mc::tier(300, 2000));
    mc::op("v2.%d, %zu bytes", 3 + major, n);
    ID3v2_Tag* t = start(version(major), M);
    if (field == 0) set_apic_frame(t, M, true, latin("image/png"), 3, latin(""), pattern(0, n));
    if (field == 1) set_comment_frame(t, M, true, "eng", latin(""), latin(Str(n, 'c')));
    if (field == 2) set_named(t, M, 2, latin(Str(n, 't')));
    set_named(t, M, 0, latin("the next one"));
    return t;
}

// the same, as they are read
inline Base big_tag()
{
    size_t n = mc::pick(big_sizes());
    int field = mc::choose(n > 30000000 ? 2 : 4), major = 3 + mc::choose(2);
    mc::decided();
    mc::patience(mc::tier(300, 2000));
    mc::op("v2.%d, %zu bytes", major, n);
    std::vector<std::pair<Wire, Frame>> f;
    if (field == 0) f.push_back(stored(apic_frame(latin("image/png"), 3, latin(""), pattern(0, n))));
    if (field == 1) f.push_back(stored(raw_frame("PRIV", pattern(0, n))));
    if (field == 2) f.push_back(stored(comment_frame("eng", latin(""), latin(Str(n, 'c')))));
    if (field == 3) f.push_back(stored(text_frame("TIT2", latin(Str(n, 't')))));
    f.push_back(stored(text_frame("TALB", latin("last"))));
    return make_base("big", major, f, 10);
}

// tags that are read in another way, and also consistently, when the sizes of their frames are taken for what they are not (plain in v2.4, syncsafe in v2.3): what looks like another frame, padding or the end of the tag is where that size leads
inline Base mimic_tag()
{
    int major = 3 + mc::choose(2), kind = mc::choose(3), look = mc::choose(6), place = mc::choose(2), padding = std::vector<int>{0, 40}[mc::choose(2)];
    static const size_t sizes[] = {128, 129, 138, 200, 254, 255, 256, 257, 266, 300, 383, 384, 512, 640, 1000, 1024, 2048, 4096, 16383, 16384, 16400, 20000};
    size_t n = mc::pick(sizes);
    // the bytes of the size, read the other way
    Str s = major == 4 ? sync32(n) : be32(n);
    size_t alt = 0;
    for (int i = 0; i < 4; i++) alt = (alt << (major == 4 ? 8 : 7)) | ((unsigned char) s[i] & (major == 4 ? 255 : 127));
    mc::op("v2.%d, frame of %zu bytes, %zu when read the other way", major, n, alt);
    auto fill = [](size_t k) {
        Str x(k, '.');
        for (size_t i = 0; i < k; i++) x[i] = 'a' + i % 23;
        return x;
    };
    auto fake = [&](const char* id, size_t k) { return Str(id) + (major == 4 ? be32(k) : sync32(k)) + Str(2, '\0') + Str(1, '\0') + fill(k - 1); };
    // k bytes that start where the other size leads
    auto bait = [&](size_t k) {
        if (look == 0) return Str(k, '\0');
        if (look == 1 || k < 40) return k > 11 ? fake("TPE1", k - 10) : fill(k);
        if (look == 2) return fake("TPE1", 3) + fake("TXXX", 5) + fill(k - 28);
        if (look == 3) return Str("\0\0\0\0\0\0\0\0\0\0ID3", 13) + fill(k - 13);
        if (look == 4) return fake("TPE1", 3) + Str(k - 13, '\0');
        return fake("TPE1", k - 10 + 15); // ends with the frame after this one
    };
    std::vector<std::pair<Wire, Frame>> f;
    if (place) f.push_back(stored(text_frame("TCON", latin("before"))));
    Str head = kind == 0 ? Str() : kind == 1 ? Str("\0image/png\0\x03\0", 13) : Str("\0", 1);
    Str body = head;
    size_t room = alt > n + 10 ? alt - n - 10 : 0, tail = look == 5 ? 64 : 50;
    if (alt < n) body += fill(alt - std::min(alt, head.size())) + bait(n - std::max(alt, head.size()));
    else body += fill(n - head.size());
    if (body.size() != n) return mc::skip(), Base();
    if (kind == 2) body[n - 1] = '\0';
    if (kind == 0) f.push_back(stored(raw_frame("PRIV", body)));
    if (kind == 1) f.push_back(stored(apic_frame(latin("image/png"), 3, latin(""), body.substr(13))));
    if (kind == 2) f.push_back(stored(text_frame("TIT2", body.substr(1)), body));
    if (room) f.push_back(stored(raw_frame("GEOB", fill(room) + (place && look == 1 ? Str() : bait(tail)))));
    f.push_back(stored(text_frame("TALB", latin("last")))); // 16 bytes
    return make_base("mimic", major, f, padding);
}

// frames that hold what means something elsewhere: headers, footers and marks of tags, patterns of unsynchronisation, padding
inline Base marks_tag()
{
    static const Str marks[] = {
        Str("ID3\3\0\0\0\0\0\x0a", 10), Str("ID3\4\0\0\0\0\0\x0aTIT2", 14), Str("3DI\4\0\0\0\0\0\x20", 10), "TAG" + Str(125, ' '), "TAG+" + Str(223, 'x'), Str("APETAGEX\xd0\x07\0\0", 12),
        Str("\xff\0", 2), Str("\xff\0\xff\0\0\xff\xe0", 7), Str("\xff\xfb\x90\x64", 4), Str("\xff\0\xe0", 3), Str(12, '\0'), Str(300, '\0'), Str("\0\0\0\0TIT2\0\0\0\2\0\0\0x", 16), Str("RIFF\0\0\0\0WAVEid3 ", 16), Str("\1\xff\xfe", 3), Str("\x78\x9c\3\0\0\0\0\1", 8), Str("\0\0\0\5hello", 9)};
    int major = 3 + mc::choose(2), kind = mc::choose(4), place = mc::choose(4), flags = mc::choose(4), padding = std::vector<int>{0, 12}[mc::choose(2)], alone = mc::choose(2);
    Str x = mc::pick(marks), d = place == 0 ? x : place == 1 ? x + "after" : place == 2 ? "before" + x : "before" + x + "after";
    // flags that announce what this library leaves to its callers: compression, encryption, groups, unsynchronisation, length of the data
    Str fl = flags == 0 ? Str(2, '\0') : flags == 1 ? Str("\0", 1) + Str(1, major == 4 ? '\x02' : '\x20') : flags == 2 ? Str("\0", 1) + Str(1, major == 4 ? '\x01' : '\x80') : Str("\0", 1) + Str(1, major == 4 ? '\x0f' : '\xe0');
    std::vector<std::pair<Wire, Frame>> f;
    if (!alone) f.push_back(stored(text_frame("TCON", latin("before"))));
    if (kind == 0) f.push_back(stored(raw_frame("PRIV", d, fl)));
    if (kind == 1) f.push_back(stored(apic_frame(latin("m"), 3, latin("d"), d, fl)));
    if (kind == 2)
    {
        Str t = place < 2 ? "x" + d : d;
        Str mem = t.back() == '\0' ? t : latin(t);
        f.push_back(stored(text_frame("TXXX", mem, fl), Str(1, '\0') + t));
    }
    if (kind == 3)
    {
        Str t = place < 2 ? "x" + d : d;
        Str mem = t.back() == '\0' ? t : latin(t);
        f.push_back(stored(comment_frame("eng", latin("d"), mem, fl), Str("\0engd\0", 6) + t));
    }
    if (!alone) f.push_back(stored(text_frame("TALB", latin("last"))));
    return make_base("marks", major, f, padding);
}

// strings and pictures that begin with, end with or are made of a run of any of the characters that someone could want to trim or to shorten, of every length up to 140
inline Frame run_frame()
{
    static const char al[] = {' ', '0', '\t', '\n', '\r', '.', '_', '/', 'a', '\x7f', '\x80', '\xa0', '\xff', '\0'};
    int field = mc::choose(5), where = mc::choose(4), enc = mc::choose(3), n = mc::choose(mc::tier(141, 301));
    char c = mc::pick(al);
    Str r(n, c), s = where == 0 ? r : where == 1 ? "title" + r : where == 2 ? r + "title" : "ti" + r + "tle";
    if (field == 4)
    {
        if (enc) return mc::skip(), Frame();
        return apic_frame(latin("image/png"), 3, latin("d"), s);
    }
    if (!c || (c == '\xff' && enc == 0 && where % 2 == 0)) return mc::skip(), Frame();
    auto str = [&](const Str& x) { return enc ? utf16(x, enc == 2) : latin(x); };
    if (field == 0) return text_frame("TIT2", str(s));
    if (field == 1) return comment_frame("eng", str("d"), str(s));
    if (field == 2) return comment_frame("eng", str(s), str("text"));
    return apic_frame(enc ? latin("image/png") : latin(s), 3, str(s), "picture");
}

inline ID3v2_Tag* any_run(Tag& M)
{
    Frame f = run_frame();
    if (f.id.empty()) return nullptr;
    ID3v2_Tag* t = start(version(mc::choose(2)), M);
    if (f.kind == 'T') set_text(t, M, f.id, f.text);
    if (f.kind == 'C') set_comment_frame(t, M, true, f.lang, f.desc, f.text);
    if (f.kind == 'A') set_apic_frame(t, M, true, f.mime, f.ptype, f.desc, f.text);
    set_named(t, M, 0, latin("the next one"));
    return t;
}

// the same as it is read, terminated or not
inline Base run_tag()
{
    Frame f = run_frame();
    if (f.id.empty()) return Base();
    int major = 3 + mc::choose(2), t = mc::choose(f.kind == 'A' ? 1 : 2);
    Str body = f.body();
    if (t) body.resize(body.size() - (f.enc ? 2 : 1));
    // ends like a string that is terminated
    if (t && f.enc == 2) return mc::skip(), Base();
    return make_base("run", major, {stored(f, body), stored(text_frame("TALB", latin("last")))}, 20);
}

// frames that hold the same value, short or long, in every pair of fields, set or read, and what may be done to one of them
inline ID3v2_Tag* any_twins(Tag& M)
{
    static const size_t L[] = {0, 1, 2, 4, 7, 8, 15, 16, 20, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 500, 1000, 1024, 4096, 20000};
    size_t n = mc::pick(L);
    int kind = mc::choose(8), enc = mc::choose(3), origin = mc::choose(4), op = mc::choose(7), major = mc::choose(2);
    Str s = string_of(enc, n), other = enc ? utf16("other", enc == 2) : latin("other"), small = enc ? utf16("s", enc == 2) : latin("s");
    Frame a, b;
    switch (kind)
    {
        case 0: a = b = comment_frame("eng", s, s); break;
        case 1: a = b = comment_frame("eng", small, s); b.lang = "fra"; break;
        case 2: a = b = apic_frame(latin("image/png"), 3, s, Str(n, 'p')); break;
        case 3: a = b = apic_frame(latin("image/png"), 3, small, pattern(0, n)); b.ptype = 4; break;
        case 4: a = text_frame("TIT2", s); b = text_frame("TPE1", s); break;
        case 5: a = text_frame("TIT2", s); b = comment_frame("eng", small, s); break;
        case 6: a = comment_frame("eng", s, small); b = apic_frame(latin(Str(n, 'a')), 3, s, s); break;
        case 7: a = comment_frame("eng", s, s); b = comment_frame("eng", s, other); break;
    }
    auto put = [&](ID3v2_Tag* t, const Frame& f, bool add = true) {
        if (f.kind == 'T') set_text(t, M, f.id, f.text, f.flags);
        if (f.kind == 'C') set_comment_frame(t, M, add, f.lang, f.desc, f.text, f.flags);
        if (f.kind == 'A') set_apic_frame(t, M, add, f.mime, f.ptype, f.desc, f.text, f.flags);
    };
    std::vector<std::pair<Wire, Frame>> on;
    if (origin == 1 || origin == 2) on.push_back(stored(a));
    if (origin == 2) on.push_back(stored(b));
    on.push_back(stored(text_frame("TALB", latin("album"))));
    ID3v2_Tag* t = origin ? start(make_base("twins", 3 + major, on, 9), M) : start(version(major), M);
    if (origin == 0 || origin == 3) put(t, a);
    if (origin != 2) put(t, b);
    auto changed = [&](Frame f) {
        f.text = f.kind == 'A' ? Str("other") : other;
        return f;
    };
    switch (op)
    {
        case 0: break;
        case 1: put(t, changed(a), false); break;
        case 2: put(t, a, false); break;
        case 3: put(t, b); break;
        case 4: del_frame(t, M, a.id); break;
        case 5:
            if (b.kind == 'C') del_comment_at(t, M, b.id == a.id);
            else if (b.kind == 'A') del_apic_at(t, M, b.id == a.id);
            else del_frame(t, M, b.id);
            break;
        case 6:
            del_frame(t, M, a.id);
            put(t, a);
            put(t, changed(b), false);
            break;
    }
    return t;
}

// two tags that hold the same values, short or long, set or read from the same bytes: what is done to one of them, its end included, does not change the other
inline void two_tags(bool release_first = true)
{
    static const size_t L[] = {0, 1, 2, 4, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 4096, 20000};
    size_t n = mc::pick(L);
    int enc = mc::choose(3), origin = mc::choose(4), op = mc::choose(9), what = mc::choose(4);
    Str s = string_of(enc, n), small = enc ? utf16("s", enc == 2) : latin("s"), pic = pattern(0, n);
    std::vector<std::pair<Wire, Frame>> on = {stored(text_frame("TIT2", s)), stored(comment_frame("eng", small, s)), stored(apic_frame(latin("image/png"), 3, small, pic))};
    if (n) on.push_back(stored(raw_frame("PRIV", pic)));
    Base b = make_base("same", 3 + (n & 1), on, 9);
    Tag M[2];
    ID3v2_Tag* t[2];
    for (int i = 0; i < 2; i++)
    {
        bool read = origin == 3 ? i : origin & 1;
        t[i] = start(read ? b : version(origin == 2), M[i]);
        if (read) continue;
        set_named(t[i], M[i], 2, s);
        set_comment_frame(t[i], M[i], false, "eng", small, s);
        set_apic_frame(t[i], M[i], false, latin("image/png"), 3, small, pic);
    }
    auto check = [&] {
        for (int i = 0; i < 2; i++)
            if (t[i]) same(t[i], M[i], FRAMES | SIZES, i ? "second tag" : "first tag");
    };
    check();
    auto act = [&](int i, int k) {
        ID3v2_Tag* x = t[i];
        mc::op("tag %d, %d", i, k);
        switch (k)
        {
            case 0: ID3v2_Tag_free(x); t[i] = nullptr; break;
            case 1: set_named(x, M[i], 2, latin("other")); break;
            case 2: set_comment(x, M[i], "fra", latin("other")); break;
            case 3: set_cover(x, M[i], latin("image/gif"), "other"); break;
            case 4: del_named(x, M[i], 2); break;
            case 5: del_comment_at(x, M[i], 0); break;
            case 6: del_apic_at(x, M[i], 0); break;
            case 7: // the same again
                set_named(x, M[i], 2, s);
                set_comment_frame(x, M[i], false, "eng", small, s);
                break;
            case 8:
            {
                Str f = path("f");
                put_file(f, "audio");
                ID3v2_write_tag(f.c_str(), x);
                M[i].written();
                break;
            }
        }
        check();
    };
    act(0, op);
    static const int then[] = {1, 2, 3, 0};
    act(1, then[what]);
    if (t[0]) act(0, then[what]);
    mc::state(mc::hash(s, M[0].hash() ^ M[1].hash() * 3 ^ (op * 4 + what)));
    mc::outcome(M[0].hash() ^ M[1].hash() * 3);
    if (t[!release_first]) ID3v2_Tag_free(t[!release_first]);
    if (t[release_first]) ID3v2_Tag_free(t[release_first]);
}

// Long histories: one or two edits over and over. Everything is compared in the rounds around powers of two.
inline bool due(int i, int n)
{
    if (i < 4 || i == n - 1) return true;
    for (int p = 4; p <= i + 1; p *= 2)
        if (i >= p - 1 && i <= p + 1) return true;
    return false;
}

inline ID3v2_Tag* any_pair(Tag& M, int& a, int& b)
{
    static const int ops[] = {0, 22, 1, 4, 5, 7, 8, 10, 11, 12};
    a = ops[mc::choose(10)];
    b = ops[mc::choose(10)];
    return start(bases()[mc::choose(2) ? 6 : 0], M);
}

// frames of every id of the standards (and some that are common without being there), twice, between two others, in both versions, then left alone, replaced, deleted or set beside
inline const char* standard_id()
{
    static const char* const ids[] = {
        "AENC", "ASPI", "COMR", "ENCR", "EQUA", "EQU2", "ETCO", "GEOB", "GRID", "IPLS", "LINK", "MCDI", "MLLT", "OWNE", "PRIV", "PCNT", "POPM", "POSS",
        "RBUF", "RVAD", "RVA2", "RVRB", "SEEK", "SIGN", "SYLT", "SYTC", "TALB", "TBPM", "TCOM", "TCON", "TCOP", "TDAT", "TDEN", "TDLY", "TDOR", "TDRC",
        "TDRL", "TDTG", "TENC", "TEXT", "TFLT", "TIME", "TIPL", "TIT1", "TIT2", "TIT3", "TKEY", "TLAN", "TLEN", "TMCL", "TMED", "TMOO", "TOAL", "TOFN",
        "TOLY", "TOPE", "TORY", "TOWN", "TPE1", "TPE2", "TPE3", "TPE4", "TPOS", "TPRO", "TPUB", "TRCK", "TRDA", "TRSN", "TRSO", "TSIZ", "TSOA", "TSOP",
        "TSOT", "TSRC", "TSSE", "TSST", "TYER", "TXXX", "UFID", "USER", "USLT", "WCOM", "WCOP", "WOAF", "WOAR", "WOAS", "WORS", "WPAY", "WPUB", "WXXX",
        "CHAP", "CTOC", "TCMP", "TSO2", "TSOC", "PCST", "MVNM", "GRP1", "NCON", "XSOP", "CRM1", "RGAD", "APIX", "COMN", "Z9Z9", "A1B2"};
    return mc::pick(ids);
}

inline Base id_tag(int major, const Str& id, int body)
{
    auto frame = [&](int k) {
        if (id[0] == 'T') return stored(text_frame(id, k == 0 ? latin("text") : k == 1 ? utf16("text") : latin("k") + latin("v")));
        return stored(raw_frame(id, k == 0 ? Str("\0body", 5) : k == 1 ? Str("\1\xff\xfe" "a\0\0\0", 7) : Str(1, '\xff')));
    };
    return make_base("two frames with one id", major, {stored(text_frame("TXXZ", latin("first"))), frame(body), stored(raw_frame("PRIX", "between")), frame((body + 1) % 3), stored(comment_frame("eng", latin("d"), latin("last")))}, 30);
}

inline ID3v2_Tag* any_id(Tag& M, Str* bytes = nullptr)
{
    Str id = standard_id();
    int major = 3 + mc::choose(2), body = mc::choose(3), op = mc::choose(6);
    mc::op("id %s", id.c_str());
    Base b = id_tag(major, id, body);
    ID3v2_Tag* t = start(b, M);
    if (bytes) *bytes = b.bytes;
    switch (op)
    {
        case 0: break;
        case 1: set_named(t, M, 0, latin("artist")); break;
        case 2: del_frame(t, M, id); break;
        case 3:
            del_frame(t, M, id);
            del_frame(t, M, id);
            break;
        case 4: if (id[0] == 'T') set_text(t, M, id, utf16("replaced"), Str("\x40\0", 2)); break;
        case 5:
            set_comment(t, M, "spa", latin("c"));
            set_cover(t, M, latin("image/png"), "picture");
            break;
    }
    return t;
}

// An edit whose inputs are taken from the tag itself: its own strings, pictures, ids and flags
inline void own_values(ID3v2_Tag* t, Tag& M)
{
    if (M.f.empty()) return;
    int from = mc::choose((int) M.f.size());
    ID3v2_FrameList* l = t->frames;
    for (int i = 0; i < from; i++) l = l->next;
    Frame src = M.f[from];
    const char* id = l->frame->header->id;
    const char* flags = l->frame->header->flags;
    mc::op("source: %s", src.show().c_str());
    if (src.kind == 'R')
    {
        ID3v2_Tag_delete_frame(t, id);
        M.del(src.id);
        return;
    }
    // The strings the setters take: ISO, or UTF-16 with mark, and only the first one of several
    if (src.enc == 2 || src.enc == 3) return;
    auto first = [&](const Str& s) {
        if (!has_bom(s)) return s.substr(0, strlen(s.c_str()) + 1);
        size_t n = 2;
        while (n + 1 < s.size() && (s[n] || s[n + 1])) n += 2;
        return s.substr(0, n + 2);
    };
    switch (src.kind)
    {
        case 'T':
        {
            auto* d = ((ID3v2_TextFrame*) l->frame)->data;
            Str s = first(src.text);
            int k = mc::choose(5);
            mc::op("use %d", k);
            if (k == 0) { ID3v2_Tag_set_title(t, d->text); M.set(text_frame("TIT2", s)); }
            if (k == 1) { ID3v2_Tag_set_artist(t, d->text); M.set(text_frame("TPE1", s)); }
            if (k == 2)
            {
                ID3v2_TextFrameInput in = {id, flags, d->text};
                ID3v2_Tag_set_text_frame(t, &in);
                M.set(text_frame(src.id, s, src.flags));
            }
            if (k == 3) { ID3v2_Tag_set_comment(t, "xyz", d->text); M.set(comment_frame("xyz", has_bom(s) ? utf16("") : latin(""), s)); }
            if (k == 4) { ID3v2_Tag_delete_frame(t, id); M.del(src.id); }
            break;
        }
        case 'C':
        {
            auto* d = ((ID3v2_CommentFrame*) l->frame)->data;
            Str s = first(src.text);
            if (s != src.text) return;
            int k = mc::choose(6);
            mc::op("use %d", k);
            ID3v2_CommentFrameInput in = {flags, d->language, d->short_description, d->comment};
            if (k == 0) { ID3v2_Tag_add_comment_frame(t, &in); M.add(src); }
            if (k == 1) { ID3v2_Tag_set_comment_frame(t, &in); M.set(src); }
            if (k == 2) { ID3v2_Tag_set_comment(t, "xyz", d->comment); M.set(comment_frame("xyz", has_bom(s) ? utf16("") : latin(""), s)); }
            if (k == 3)
            {
                ID3v2_CommentFrameInput x = {flags, "xyz", d->comment, d->short_description};
                ID3v2_Tag_set_comment_frame(t, &x);
                M.set(comment_frame("xyz", s, src.desc, src.flags));
            }
            if (k == 4) { ID3v2_Tag_set_title(t, d->short_description); M.set(text_frame("TIT2", src.desc)); }
            if (k == 5) { ID3v2_Tag_delete_frame(t, id); M.del(src.id); }
            break;
        }
        case 'A':
        {
            auto* d = ((ID3v2_ApicFrame*) l->frame)->data;
            int k = mc::choose(5);
            mc::op("use %d", k);
            ID3v2_ApicFrameInput in = {flags, d->mime_type, d->description, d->picture_type, d->picture_size, d->data};
            if (k == 0) { ID3v2_Tag_add_apic_frame(t, &in); M.add(src); }
            if (k == 1) { ID3v2_Tag_set_apic_frame(t, &in); M.set(src); }
            if (k == 2) { ID3v2_Tag_set_album_cover(t, d->mime_type, d->picture_size, d->data); M.set(apic_frame(src.mime, 3, utf16(""), src.text)); }
            if (k == 3)
            {
                ID3v2_ApicFrameInput x = {flags, "x/y", d->mime_type, 7, d->picture_size / 2, d->data};
                ID3v2_Tag_set_apic_frame(t, &x);
                M.set(apic_frame(latin("x/y"), 7, src.mime, src.text.substr(0, src.text.size() / 2), src.flags));
            }
            if (k == 4) { ID3v2_Tag_delete_frame(t, id); M.del(src.id); }
            break;
        }
    }
}

} // namespace m
