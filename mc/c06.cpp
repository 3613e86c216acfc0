// C06: well formed v2.3 and v2.4 tags are decoded faithfully.
#include "scenario.hpp"
using namespace m;

// --- building blocks: a frame on disk and what it has to be once read -------------------------

static Str term(int enc) { return Str(enc == 1 || enc == 2 ? 2 : 1, '\0'); }
static bool wide(int enc) { return enc == 1 || enc == 2; }

// A string of n characters in an encoding, without terminator
static Str chars(int enc, int n, int variant = 0)
{
    Str s;
    if (enc == 1) s = variant & 1 ? "\xFE\xFF" : "\xFF\xFE";
    for (int i = 0; i < n; i++)
    {
        char c = 'a' + i % 26;
        if (variant >= 2 && !wide(enc)) c = (char) (0x80 + (i * 37) % 0x7D); // high half, never FE FF
        if (!wide(enc)) s += c;
        else if (variant >= 2) s += Str(1, (char) (i % 3)) + Str(1, (char) (1 + i % 255)); // zero bytes on either side
        else if (enc == 2 || (variant & 1)) s += Str(1, '\0') + c;
        else s += Str(1, c) + '\0';
    }
    return s;
}

static void expect(const Str& bytes, const Tag& M, const char* what)
{
    mc::op("%s: %s", what, M.show().c_str());
    // straight from a buffer, and from a file with audio after the tag
    ID3v2_Tag* t = parse(bytes);
    if (!t) mc::violation("%s: no tag was found", what);
    same(t, M, FRAMES | HEADER, what);
    ID3v2_Tag_free(t);
    Str file = path("f");
    put_file(file, bytes + "TIT2\0\0\0\2\0\0\0zaudio");
    t = ID3v2_read_tag(file.c_str());
    if (!t) mc::violation("%s: no tag was found in the file", what);
    same(t, M, FRAMES | HEADER, what);
    ID3v2_Tag_free(t);
    mc::outcome(M.hash());
}

static void expect(int major, const std::vector<std::pair<Wire, Frame>>& f, int padding, const char* what, int flags = 0, int ext = 0)
{
    Base b = make_base(what, major, f, padding, flags, ext);
    expect(b.bytes, b.model, what);
}

static std::pair<Wire, Frame> text(const Str& id, int enc, const Str& s, bool terminated, const Str& flags = Str(2, '\0'))
{
    Frame f = text_frame(id, s + term(enc), flags);
    f.enc = enc;
    return stored(f, Str(1, (char) enc) + s + (terminated ? term(enc) : Str()));
}

static std::pair<Wire, Frame> comment(int enc, const Str& lang, const Str& desc, const Str& s, bool terminated, const Str& flags = Str(2, '\0'))
{
    Frame f = comment_frame(lang, desc + term(enc), s + term(enc), flags);
    f.enc = enc;
    return stored(f, Str(1, (char) enc) + lang + desc + term(enc) + s + (terminated ? term(enc) : Str()));
}

static std::pair<Wire, Frame> picture(int enc, const Str& mime, int type, const Str& desc, const Str& pic, const Str& flags = Str(2, '\0'))
{
    Frame f = apic_frame(latin(mime), type, desc + term(enc), pic, flags);
    f.enc = enc;
    return stored(f);
}

static int encodings(int major) { return major == 4 ? 4 : 2; }

SPACE(C06, texts, "text frames of every length up to 300 and around every size boundary, in every encoding of each version, with and without terminator, first, between others and last")
{
    static const std::vector<size_t> L = lengths(300, false);
    int major = 3 + mc::choose(2), enc = mc::choose(encodings(major));
    size_t n = mc::pick(L);
    bool t = mc::choose(2);
    int variant = mc::choose(n > 2000 ? 1 : 3);
    // an empty text of ISO or UTF-8 has only its encoding, that of UTF-16 also its BOM
    auto x = text("TIT2", enc, chars(enc, n, variant), t);
    auto y = text("TPE1", 0, "next", false);
    int place = mc::choose(3);
    if (place == 0) expect(major, {x, y}, 10, "text first");
    if (place == 1) expect(major, {y, x}, 0, "text last");
    if (place == 2) expect(major, {y, x, y}, 0, "text between others");
}

SPACE(C06, values, "multi valued and user defined texts: every combination of up to four values of several lengths in every encoding")
{
    int major = 3 + mc::choose(2), enc = mc::choose(encodings(major)), n = 1 + mc::choose(4);
    Str s;
    for (int i = 0; i < n; i++)
    {
        if (i) s += term(enc);
        s += chars(enc, std::vector<int>{0, 1, 2, 7}[mc::choose(4)], i & 1);
    }
    bool t = mc::choose(2);
    // If the last value is empty, what is there already ends as a terminated string
    Str body = s + (t ? term(enc) : Str());
    Str mem = body;
    bool ended = mem.size() >= term(enc).size() && mem.compare(mem.size() - term(enc).size(), Str::npos, term(enc)) == 0;
    if (!ended) mem += term(enc);
    Frame f = text_frame(mc::choose(2) ? "TXXX" : "TPE1", mem);
    f.enc = enc;
    expect(major, {stored(f, Str(1, (char) enc) + body), text("TIT2", 0, "next", true)}, 5, "values");
}

SPACE(C06, comments, "comments with every combination of lengths of description and text, in every encoding, terminated or not")
{
    static const std::vector<size_t> L = [] { auto v = lengths(mc::tier(60, 140), false); return v; }();
    int major = 3 + mc::choose(2), enc = mc::choose(encodings(major));
    size_t n = mc::pick(L), k = std::vector<size_t>{0, 1, 2, 30, 300}[mc::choose(n > 300 ? 2 : 5)];
    bool t = mc::choose(2), swap = mc::choose(2);
    int variant = mc::choose(n > 300 ? 1 : 3);
    auto x = comment(enc, "eng", chars(enc, swap ? k : n, variant), chars(enc, swap ? n : k, variant), t);
    expect(major, {x, text("TIT2", 0, "next", true), x}, 3, "comment");
}

SPACE(C06, pictures, "pictures of every length up to 140 and around every boundary, with MIME types and descriptions of several lengths, every encoding")
{
    static const std::vector<size_t> L = [] {
        auto v = lengths(140, mc::thorough());
        for (size_t n : {131072, 1 << 20, (1 << 21) - 20, (1 << 21) - 1, 1 << 21, 2500000}) v.push_back(n);
        return v;
    }();
    int major = 3 + mc::choose(2), enc = mc::choose(encodings(major));
    size_t n = mc::pick(L);
    int variant = mc::choose(n > 300 ? 1 : 3), k = mc::choose(n > 20000 ? 1 : n > 300 ? 2 : 4), which = n > 20000 ? 0 : mc::choose(3);
    static const size_t few[] = {0, 1, 10, 200};
    size_t a = few[k], pic = which == 0 ? n : a, desc = which == 1 ? n : a, mime = which == 2 ? n : a;
    auto x = picture(enc, Str(mime, 'm'), (int) (n & 255), chars(enc, desc, variant), pattern(variant, pic));
    expect(major, {x, text("TIT2", 0, "next", true)}, 3, "picture");
}

SPACE(C06, raw, "frames the library does not interpret, of every length up to 300 and around every boundary, with every id that resembles the special ones")
{
    static const std::vector<size_t> L = [] {
        auto v = lengths(300, mc::thorough());
        for (size_t n : {131072, 1 << 20, (1 << 21) - 10, (1 << 21) - 1, 1 << 21, 2500000}) v.push_back(n);
        return v;
    }();
    static const char* const ids[] = {"PRIV", "COMR", "CRMX", "AENC", "APIX", "ASPI", "UFID", "WXXX", "USLT", "XXXX", "GEOB", "ZZZZ", "A000", "C999"};
    int major = 3 + mc::choose(2);
    size_t n = mc::pick(L);
    if (n == 0) return mc::skip();
    Str id = n > 300 ? "PRIV" : mc::pick(ids);
    auto x = stored(raw_frame(id, pattern(mc::choose(n > 2000 ? 2 : 8), n)));
    expect(major, {x, text("TIT2", 0, "next", true), x}, 3, "raw frame");
}

SPACE(C06, bytes, "every byte value in every position of the frames: ids, flags, languages, picture types, texts, descriptions, raw data and picture data")
{
    int major = 3 + mc::choose(2), v = mc::choose(256), where = mc::choose(13);
    char c = (char) v;
    std::vector<std::pair<Wire, Frame>> f;
    Str z = v ? Str(1, c) : Str("0");
    switch (where)
    {
        case 0: f = {text("TIT2", 0, "a" + z, true)}; break;
        case 1: f = {text("TIT2", 0, z + "a", false)}; break;
        case 2: f = {text("TIT2", 1, Str("\xFF\xFE", 2) + c + '\x01' + '\x01' + c, true)}; break;
        case 3: f = {text("TIT2", 0, "a", true, Str(1, c) + Str(1, '\0'))}; break;
        case 4: f = {comment(0, Str(1, c) + "ng", z, z + "x", true, Str(1, '\0') + c)}; break;
        case 5: f = {comment(1, Str("e") + c + c, Str("\xFF\xFE\x01", 3) + c, Str("\xFE\xFF\x01", 3) + c, false)}; break;
        case 6: f = {picture(0, z, v, z + "x", Str(2, c) + "x", Str(1, c) + Str(1, c))}; break;
        case 7: f = {picture(1, "x", v, Str("\xFE\xFF\x01", 3) + c, Str(1, c))}; break;
        case 8: f = {stored(raw_frame("PRIV", Str(1, c), Str(1, c) + Str(1, '\0')))}; break;
        case 9: f = {stored(raw_frame("UFID", Str("a") + c, Str(1, '\0') + c))}; break;
        case 10:
        {
            // every id made of capitals and digits, as a fourth and second character
            if (!((c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9'))) return mc::skip();
            f = {text(Str("TIT") + c, 0, "a", true), text(Str("T") + c + "E1", 0, "a", true), stored(raw_frame(Str("W") + c + "AF", "x"))};
            if (c != 'T') f.push_back(stored(raw_frame(Str(1, c) + "XXX", "y")));
            break;
        }
        case 11: // enc 2 and 3
            if (major == 3) return mc::skip();
            f = {text("TIT2", 3, "\xc3" + z, false), text("TPE1", 2, Str("\x01") + c, true), comment(2, "eng", Str("\x01") + c, Str("\x02") + c, false)};
            break;
        case 12:
            if (major == 3) return mc::skip();
            f = {comment(3, "eng", z + "u", z + "x", true), picture(3, "m", v, z + "x", Str(1, c)), picture(2, "m", 3, Str("\x01") + c, Str(1, c))};
            break;
    }
    // ISO strings that start like a byte order mark count as UTF-16: outside of the domain
    f.push_back(text("TPE1", 0, "next", true));
    expect(major, f, 5, "bytes");
}

SPACE(C06, shapes, "every text, comment and description of up to five (thorough: six) units over the bytes that look like terminators and marks, in every encoding")
{
    static const char iso[] = {'\x01', 'a', '\xfe', '\xff'};
    static const Str units[] = {Str("\x01\x00", 2), Str("\x00\x01", 2), Str("\xff\xfe", 2), Str("a\xff", 2)};
    int major = 3 + mc::choose(2), enc = mc::choose(encodings(major)), n = mc::choose(mc::tier(6, 7));
    Str s;
    if (enc == 1) s = "\xFF\xFE";
    for (int i = 0; i < n; i++)
    {
        int k = mc::choose(4);
        if (wide(enc)) s += units[k];
        else s += iso[k];
    }
    if (enc != 1 && has_bom(s)) return mc::skip();
    bool t = mc::choose(2);
    expect(major, {text("TIT2", enc, s, t), comment(enc, "eng", s, s, t), picture(enc, "m", 3, s, s)}, 3, "shapes");
}

SPACE(C06, layouts, "tags with every amount of padding up to 40, extended headers of every kind, footers, versions and flags, any audio after them, and every combination of up to three frames")
{
    int major = 3 + mc::choose(2), ext = mc::choose(major == 4 ? 4 : 3);
    bool footer = major == 4 && mc::choose(2);
    int padding = footer ? 0 : mc::choose(41);
    std::vector<std::pair<Wire, Frame>> all = {text("TIT2", 0, "t", false), comment(1, "eng", chars(1, 0), chars(1, 2), true), picture(0, "m", 3, "", "p"), stored(raw_frame("PRIV", "r"))}, f;
    int n = mc::choose(4);
    for (int i = 0; i < n; i++) f.push_back(all[mc::choose(4)]);
    static const int flags[] = {0, 0x20};
    expect(major, f, padding, "layout", (footer ? 0x10 : 0) | mc::pick(flags), ext);
}

SPACE(C06, many, "tags with every number of frames up to 130 and around 255, 1000 and 4096")
{
    std::vector<int> c;
    for (int i = 0; i <= 130; i++) c.push_back(i);
    for (int i : {254, 255, 256, 257, 1000, 1024}) c.push_back(i);
    if (mc::thorough()) for (int i : {4095, 4096, 4097, 10000}) c.push_back(i);
    int major = 3 + mc::choose(2), n = mc::pick(c), kind = mc::choose(5);
    std::vector<std::pair<Wire, Frame>> f;
    for (int i = 0; i < n; i++)
    {
        char v[16];
        snprintf(v, sizeof v, "%d", i);
        int k = kind == 4 ? i % 4 : kind;
        if (k == 0) f.push_back(text("TPE1", 0, v, i & 1));
        if (k == 1) f.push_back(comment(1, "eng", chars(1, i % 5), chars(1, i % 7), i & 1));
        if (k == 2) f.push_back(picture(0, v, i & 255, v, v));
        if (k == 3) f.push_back(stored(raw_frame("PRIV", v)));
    }
    expect(major, f, n % 30, "many frames");
}

SPACE(C06, empty_desc, "the empty strings that writers use in UTF-16: with BOM, without it, and missing texts")
{
    int major = 3 + mc::choose(2);
    Str desc = std::vector<Str>{Str("\xFF\xFE\0\0", 4), Str("\xFE\xFF\0\0", 4), Str("\0\0", 2)}[mc::choose(3)];
    Str txt = std::vector<Str>{Str("\xFF\xFE" "a\0", 4), Str("\xFE\xFF\0a", 4), Str("\xFF\xFE", 2), Str()}[mc::choose(4)];
    bool t = mc::choose(2);
    Frame c = comment_frame("eng", desc, txt + Str(2, '\0'));
    c.enc = 1;
    Frame p = apic_frame(latin("m"), 3, desc, txt + "pic");
    p.enc = 1;
    Frame x = text_frame("TIT2", txt + Str(2, '\0'));
    x.enc = 1;
    expect(major, {stored(c, Str("\x01") + "eng" + desc + txt + (t ? Str(2, '\0') : Str())), stored(p), stored(x, Str("\x01") + txt + (t ? Str(2, '\0') : Str()))}, 7, "empty strings");
}

SPACE(C06, ids, "frames of every id of the standards (and some that are common without being there), twice in a tag, with every kind of body")
{
    Str id = standard_id();
    Base b = id_tag(3 + mc::choose(2), id, mc::choose(3));
    expect(b.bytes, b.model, id.c_str());
}

SPACE(C06, mimic, "tags that are also consistent, with other contents, when the sizes of their frames are read in the way of the other version")
{
    Base b = mimic_tag();
    if (b.bytes.size()) expect(b.bytes, b.model, "mimic");
}

SPACE(C06, marks, "frames that hold headers, footers and marks of tags, patterns of unsynchronisation and padding, with flags that announce compression, encryption and the like, which are left to the caller")
{
    Base b = marks_tag();
    expect(b.bytes, b.model, "marks");
}

SPACE(C06, big, "pictures, comments and texts of 4 MB to 128 MB (thorough: to the limit of the format), and other frames")
{
    Base b = big_tag();
    expect(b.bytes, b.model, "big");
}

SPACE(C06, runs, "strings and pictures that begin with, end with or are made of a run of any of the characters that someone could want to trim or to shorten, of every length up to 140 (thorough: 300)")
{
    Base b = run_tag();
    if (b.bytes.size()) expect(b.bytes, b.model, "run");
}
