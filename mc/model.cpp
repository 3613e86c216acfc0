#include "model.hpp"
#include <dirent.h>
#include <fcntl.h>
#include <set>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>

namespace m {

// ------------------------------------------------------------------------------------- strings

bool has_bom(const Str& s)
{
    if (s.size() < 2) return false;
    unsigned char a = s[0], b = s[1];
    return (a == 0xFF && b == 0xFE) || (a == 0xFE && b == 0xFF);
}

Str latin(const Str& s) { return s + Str(1, '\0'); }

Str utf16(const Str& ascii, bool be)
{
    Str o = be ? "\xFE\xFF" : "\xFF\xFE";
    for (char c : ascii)
    {
        if (be) o += '\0';
        o += c;
        if (!be) o += '\0';
    }
    return o + Str(2, '\0');
}

Str show(const Str& s, size_t max)
{
    Str o;
    for (size_t i = 0; i < s.size() && i < max; i++)
    {
        unsigned char c = s[i];
        char b[8];
        if (c >= 0x20 && c < 0x7f && c != '\\')
            o += c;
        else
            snprintf(b, sizeof b, "\\x%02x", c), o += b;
    }
    if (s.size() > max) o += "...(" + std::to_string(s.size()) + " bytes)";
    return o;
}

// -------------------------------------------------------------------------------------- frames

char kind_of(const Str& id)
{
    if (id[0] == 'T') return 'T';
    if (id == "COMM") return 'C';
    if (id == "APIC") return 'A';
    return 'R';
}

Str Frame::body() const
{
    switch (kind)
    {
        case 'T': return Str(1, (char) enc) + text;
        case 'C': return Str(1, (char) enc) + lang + desc + text;
        case 'A': return Str(1, (char) enc) + mime + Str(1, (char) ptype) + desc + text;
    }
    return text;
}

bool Frame::operator==(const Frame& o) const
{
    return id == o.id && flags == o.flags && kind == o.kind && enc == o.enc && text == o.text &&
           lang == o.lang && desc == o.desc && mime == o.mime && ptype == o.ptype;
}

Str Frame::show() const
{
    Str o = m::show(id) + "[flags=" + m::show(flags);
    if (kind != 'R') o += " enc=" + std::to_string(enc);
    if (kind == 'C') o += " lang=" + m::show(lang) + " desc=" + m::show(desc);
    if (kind == 'A')
        o += " mime=" + m::show(mime) + " type=" + std::to_string(ptype) + " desc=" + m::show(desc);
    return o + " data(" + std::to_string(text.size()) + ")=" + m::show(text) + "]";
}

Frame text_frame(const Str& id, const Str& text, const Str& flags)
{
    Frame f;
    f.id = id;
    f.flags = flags;
    f.kind = 'T';
    f.enc = has_bom(text) ? 1 : 0;
    f.text = text;
    return f;
}

Frame comment_frame(const Str& lang, const Str& desc, const Str& comment, const Str& flags)
{
    Frame f;
    f.id = "COMM";
    f.flags = flags;
    f.kind = 'C';
    f.enc = has_bom(comment) ? 1 : 0;
    f.lang = lang;
    f.desc = desc;
    f.text = comment;
    return f;
}

Frame apic_frame(const Str& mime, int type, const Str& desc, const Str& pic, const Str& flags)
{
    Frame f;
    f.id = "APIC";
    f.flags = flags;
    f.kind = 'A';
    f.enc = has_bom(desc) ? 1 : 0;
    f.mime = mime;
    f.ptype = type;
    f.desc = desc;
    f.text = pic;
    return f;
}

Frame raw_frame(const Str& id, const Str& data, const Str& flags)
{
    Frame f;
    f.id = id;
    f.flags = flags;
    f.kind = 'R';
    f.text = data;
    return f;
}

int Tag::find(const Str& id, int nth) const
{
    if (nth < 0) return -1;
    for (size_t i = 0; i < f.size(); i++)
        if (f[i].id == id && nth-- == 0) return i;
    return -1;
}

void Tag::set(const Frame& x)
{
    int i = find(x.id);
    if (i < 0) return add(x);
    tag_size += x.body().size() - f[i].body().size();
    f[i] = x;
}

void Tag::add(const Frame& x)
{
    f.push_back(x);
    tag_size += x.body().size() + 10;
}

void Tag::del(const Str& id, int nth)
{
    int i = find(id, nth);
    if (i < 0) return;
    tag_size -= f[i].body().size() + 10;
    f.erase(f.begin() + i);
}

unsigned Tag::frames_size() const
{
    unsigned n = 0;
    for (auto& x : f) n += x.body().size() + 10;
    return n;
}

void Tag::written()
{
    if (padding < 2048) padding = 2048;
    tag_size = frames_size() + padding;
    flags &= ~(0x40 | 0x10);
    ext = 0;
}

uint64_t Tag::hash() const
{
    uint64_t h = mc::hash("tag");
    int v[] = {major, minor, flags, (int) tag_size, (int) ext, padding};
    h = mc::hash(v, sizeof v, h);
    for (auto& x : f)
    {
        h = mc::hash(x.id + x.flags, h);
        h = mc::hash(x.body(), h);
    }
    return h;
}

Str Tag::show() const
{
    Str o = "v2." + std::to_string(major) + " size=" + std::to_string(tag_size) +
            " padding=" + std::to_string(padding) + " frames=" + std::to_string(f.size()) + ":";
    for (size_t i = 0; i < f.size() && i < 12; i++) o += "\n      " + f[i].show();
    return o;
}

// --------------------------------------------------------------------------------------- bytes

Str be32(unsigned v)
{
    Str o;
    for (int i = 24; i >= 0; i -= 8) o += (char) (v >> i);
    return o;
}

Str sync32(unsigned v)
{
    Str o;
    for (int i = 21; i >= 0; i -= 7) o += (char) ((v >> i) & 0x7F);
    return o;
}

static unsigned u32(const Str& s, size_t at, int bits)
{
    unsigned v = 0;
    for (int i = 0; i < 4; i++) v = (v << bits) | (unsigned char) s[at + i];
    return v;
}

Str frame_bytes(int major, const Str& id, const Str& body, const Str& flags)
{
    return id + (major == 4 ? sync32(body.size()) : be32(body.size())) + flags + body;
}

Str header_bytes(int major, int minor, int flags, unsigned size)
{
    return Str("ID3") + (char) major + (char) minor + (char) flags + sync32(size);
}

Str ext_header(int major, int variant)
{
    if (variant == 0) return "";
    if (major == 3)
    {
        // size (without itself), flags, size of padding, [crc]
        if (variant == 1) return be32(6) + Str(2, '\0') + be32(0);
        return be32(10) + Str("\x80\x00", 2) + be32(0) + be32(0x54495432); // the crc looks like a frame id
    }
    // size (syncsafe, all included), number of flag bytes, flags, [data]
    if (variant == 1) return sync32(6) + Str("\x01\x00", 2);
    if (variant == 2) return sync32(12) + Str("\x01\x20\x05", 3) + Str("TIT2\0", 5);
    return sync32(140) + Str("\x01\x00", 2) + Str(134, 'T');
}

Str tag_bytes(int major, const std::vector<Wire>& f, int padding, int flags, const Str& ext, int minor)
{
    Str b = ext;
    for (auto& x : f) b += frame_bytes(major, x.id, x.body, x.flags);
    b += Str(padding, '\0');
    Str h = header_bytes(major, minor, flags, b.size());
    Str o = h + b;
    if (major == 4 && (flags & 0x10)) o += "3DI" + h.substr(3);
    return o;
}

Str wire_of(const Tag& t)
{
    std::vector<Wire> w;
    for (auto& x : t.f) w.push_back({x.id, x.body(), x.flags});
    return tag_bytes(t.major, w, t.padding, t.flags, "", t.minor);
}

bool supported(const Str& file)
{
    return file.size() >= 10 && file.compare(0, 3, "ID3") == 0 && (file[3] == 3 || file[3] == 4);
}

bool syncsafe(const Str& file)
{
    if (!supported(file)) return true;
    for (int i = 6; i < 10; i++)
        if (file[i] & 0x80) return false;
    return true;
}

size_t tag_span(const Str& file)
{
    if (!supported(file)) return 0;
    size_t n = 10 + (size_t) u32(file, 6, 7);
    if (file[3] == 4 && (file[5] & 0x10)) n += 10;
    return n;
}

Str audio_of(const Str& file)
{
    size_t n = tag_span(file);
    return n >= file.size() ? "" : file.substr(n);
}

// Length of the string (with terminator) at the start of s, or npos if it is not terminated.
static size_t terminated(const Str& s, size_t at, int enc)
{
    if (enc == 0 || enc == 3)
    {
        size_t z = s.find('\0', at);
        return z == Str::npos ? z : z - at + 1;
    }
    for (size_t i = at; i + 1 < s.size(); i += 2)
        if (s[i] == 0 && s[i + 1] == 0) return i - at + 2;
    return Str::npos;
}

static Str check_string(const Str& s, int enc, const char* what)
{
    // s includes its terminator
    if (enc == 1)
    {
        if (s.size() % 2) return Str(what) + ": UTF-16 with an odd number of bytes";
        if (!has_bom(s) && s != Str(2, '\0')) return Str(what) + ": UTF-16 without BOM";
    }
    if (enc == 0 && has_bom(s)) return Str(what) + ": declared as ISO-8859-1 but starts with a BOM";
    return "";
}

Str decode(const Str& file, Decoded& d)
{
    if (file.size() < 10) return "no room for a tag header";
    if (file.compare(0, 3, "ID3")) return "no ID3 mark";
    d.major = (unsigned char) file[3];
    d.minor = (unsigned char) file[4];
    d.flags = (unsigned char) file[5];
    if (d.major != 3 && d.major != 4) return "unsupported version " + std::to_string(d.major);
    for (int i = 6; i < 10; i++)
        if (file[i] & 0x80) return "the size of the tag is not syncsafe";
    d.size = u32(file, 6, 7);
    if (d.flags & 0x40) return "announces an extended header";
    if (d.major == 4 && (d.flags & 0x10)) return "announces a footer";
    size_t end = 10 + (size_t) d.size, at = 10;
    if (end > file.size())
        return "the tag (" + std::to_string(end) + " bytes) does not fit in the file (" + std::to_string(file.size()) + ")";
    while (end - at >= 10 && file[at])
    {
        Str id = file.substr(at, 4);
        for (char c : id)
            if (!((c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9')))
                return "bad frame id " + show(id) + " at " + std::to_string(at);
        if (d.major == 4)
            for (int i = 4; i < 8; i++)
                if (file[at + i] & 0x80) return "the size of frame " + id + " is not syncsafe";
        size_t n = u32(file, at + 4, d.major == 4 ? 7 : 8);
        if (n > end - at - 10)
            return "frame " + id + " of " + std::to_string(n) + " bytes does not fit in the tag";
        if (n == 0) return "empty frame " + id;
        Str flags = file.substr(at + 8, 2), b = file.substr(at + 10, n);
        Frame f;
        f.id = id;
        f.flags = flags;
        f.kind = kind_of(id);
        if (f.kind == 'R')
            f.text = b;
        else
        {
            f.enc = (unsigned char) b[0];
            if (f.enc > (d.major == 4 ? 3 : 1)) return "frame " + id + " has an unknown encoding";
            Str e;
            if (f.kind == 'T')
            {
                f.text = b.substr(1);
                if ((f.enc == 1 || f.enc == 2) && f.text.size() % 2) return "text of " + id + " has an odd size";
                // every value
                for (size_t p = 0; p < f.text.size();)
                {
                    size_t k = terminated(f.text, p, f.enc);
                    Str s = f.text.substr(p, k);
                    if (k == Str::npos) s += Str(f.enc == 1 || f.enc == 2 ? 2 : 1, '\0');
                    // the end of a multi valued UTF-16 text may have been written without BOM
                    if (!(e = check_string(s, f.enc, "text")).empty()) return id + " " + e;
                    if (k == Str::npos) break;
                    p += k;
                }
            }
            if (f.kind == 'C')
            {
                if (b.size() < 5) return "comment too short";
                f.lang = b.substr(1, 3);
                size_t k = terminated(b, 4, f.enc);
                if (k == Str::npos) return "comment without description";
                f.desc = b.substr(4, k);
                f.text = b.substr(4 + k);
                if (!(e = check_string(f.desc, f.enc, "description")).empty()) return id + " " + e;
                if (!f.text.empty() && !(e = check_string(f.text, f.enc, "comment")).empty()) return id + " " + e;
            }
            if (f.kind == 'A')
            {
                size_t k = terminated(b, 1, 0);
                if (k == Str::npos || 1 + k >= b.size()) return "picture without MIME type";
                f.mime = b.substr(1, k);
                f.ptype = (unsigned char) b[1 + k];
                size_t q = terminated(b, 2 + k, f.enc);
                if (q == Str::npos) return "picture without description";
                f.desc = b.substr(2 + k, q);
                f.text = b.substr(2 + k + q);
                if (!(e = check_string(f.desc, f.enc, "description")).empty()) return id + " " + e;
            }
        }
        d.f.push_back(f);
        at += 10 + n;
    }
    d.padding = end - at;
    for (; at < end; at++)
        if (file[at]) return "the padding has a byte that is not zero at " + std::to_string(at);
    return "";
}

// ---------------------------------------------------------------------------------- real frames

static Str bytes(const char* p, long n, const char* what)
{
    if (n < 0) mc::violation("%s has a negative size (%ld)", what, n);
    if (n && !p) mc::violation("%s is NULL", what);
    return n ? Str(p, n) : Str();
}

// The string a user finds behind a pointer: up to its terminator, that is included.
extern "C" int __asan_address_is_poisoned(void const volatile* addr) __attribute__((weak));

static Str cstring(const char* p, int enc, const char* what)
{
    if (!p) mc::violation("%s is NULL", what);
    unsigned char a = p[0], b = a ? p[1] : 0;
    bool bom = (a == 0xFF && b == 0xFE) || (a == 0xFE && b == 0xFF);
    bool wide = bom || enc == 2;
    // An empty UTF-16 string may come without BOM. In a corrupted frame it may also be a single zero.
    bool alone = __asan_address_is_poisoned && __asan_address_is_poisoned(p + 1);
    if (!wide && enc == 1 && a == 0 && !alone && p[1] == 0) wide = true;
    size_t n = 0;
    if (!wide)
    {
        while (p[n]) n++;
        return Str(p, n + 1);
    }
    while (p[n] || p[n + 1]) n += 2;
    return Str(p, n + 2);
}

Frame observe(ID3v2_Frame* f)
{
    Frame o;
    if (!f->header) mc::violation("a frame has no header");
    o.id = Str(f->header->id, 4);
    o.flags = Str(f->header->flags, 2);
    o.kind = kind_of(o.id);
    if (o.kind == 'T')
    {
        auto* d = ((ID3v2_TextFrame*) f)->data;
        if (!d) mc::violation("frame %s has no data", o.id.c_str());
        o.enc = (unsigned char) d->encoding;
        o.text = bytes(d->text, d->size, "text");
    }
    else if (o.kind == 'C')
    {
        auto* d = ((ID3v2_CommentFrame*) f)->data;
        if (!d) mc::violation("frame %s has no data", o.id.c_str());
        o.enc = (unsigned char) d->encoding;
        o.lang = Str(d->language, 3);
        o.desc = cstring(d->short_description, o.enc, "description");
        o.text = bytes(d->comment, d->size, "comment");
    }
    else if (o.kind == 'A')
    {
        auto* d = ((ID3v2_ApicFrame*) f)->data;
        if (!d) mc::violation("frame %s has no data", o.id.c_str());
        o.enc = (unsigned char) d->encoding;
        o.mime = cstring(d->mime_type, 0, "MIME type");
        o.ptype = (unsigned char) d->picture_type;
        o.desc = cstring(d->description, o.enc, "description");
        o.text = bytes(d->data, d->picture_size, "picture");
    }
    else
        o.text = bytes((char*) f->data, f->header->size, "data");
    return o;
}

Obs observe(ID3v2_Tag* t)
{
    Obs o;
    if (!t) mc::violation("there is no tag");
    if (!t->header) mc::violation("the tag has no header");
    o.id3 = Str(t->header->identifier, 3);
    o.t.major = (unsigned char) t->header->major_version;
    o.t.minor = (unsigned char) t->header->minor_version;
    o.t.flags = (unsigned char) t->header->flags;
    o.t.tag_size = t->header->tag_size;
    o.t.ext = t->header->extended_header_size;
    o.t.padding = t->padding_size;
    size_t n = 0;
    for (ID3v2_FrameList* l = t->frames; l; l = l->next)
    {
        if (!l->frame)
        {
            if (l->next) mc::violation("the list of frames has an empty node before the end");
            if (n) mc::violation("the list of frames ends with an empty node");
            break;
        }
        o.t.f.push_back(observe(l->frame));
        o.sizes.push_back(l->frame->header->size);
        if (++n > 1000000) mc::violation("the list of frames never ends");
    }
    return o;
}

Str diff(const std::vector<Frame>& a, const std::vector<Frame>& b)
{
    size_t n = std::min(a.size(), b.size());
    for (size_t i = 0; i < n; i++)
        if (a[i] != b[i])
            return "frame " + std::to_string(i) + " is " + a[i].show() + ", expected " + b[i].show();
    if (a.size() != b.size())
    {
        Str o = "there are " + std::to_string(a.size()) + " frames, expected " + std::to_string(b.size());
        if (a.size() > n) o += "; the first extra one is " + a[n].show();
        if (b.size() > n) o += "; the first missing one is " + b[n].show();
        return o;
    }
    return "";
}

Str diff(const Obs& o, const Tag& t, int what)
{
    auto num = [](const char* n, long a, long b) {
        return Str(n) + " is " + std::to_string(a) + ", expected " + std::to_string(b);
    };
    if (what & FRAMES)
    {
        Str d = diff(o.t.f, t.f);
        if (!d.empty()) return d;
    }
    if (what & SIZES)
    {
        if (o.sizes.size() != t.f.size()) return num("number of frames", o.sizes.size(), t.f.size());
        for (size_t i = 0; i < t.f.size(); i++)
            if ((size_t) o.sizes[i] != t.f[i].body().size())
                return num(("size of frame " + std::to_string(i) + " " + show(t.f[i].id)).c_str(), o.sizes[i], t.f[i].body().size());
    }
    if ((what & TAGSIZE) && o.t.tag_size != t.tag_size) return num("tag size", o.t.tag_size, t.tag_size);
    if ((what & PADDING) && o.t.padding != t.padding) return num("padding", o.t.padding, t.padding);
    if (what & HEADER)
    {
        if (o.id3 != "ID3") return "the mark is " + show(o.id3);
        if (o.t.major != t.major) return num("major version", o.t.major, t.major);
        if (o.t.minor != t.minor) return num("minor version", o.t.minor, t.minor);
        if (o.t.flags != t.flags) return num("flags", o.t.flags, t.flags);
    }
    if ((what & EXT) && o.t.ext != t.ext) return num("extended header size", o.t.ext, t.ext);
    return "";
}

void same(ID3v2_Tag* t, const Tag& model, int what, const char* when)
{
    mc::step();
    Obs o = observe(t);
    Str d = diff(o, model, what);
    if (!d.empty()) mc::violation("%s: %s", when, d.c_str());
    mc::state(model.hash());
}

const char* const NAMED_ID[9] = {"TPE1", "TALB", "TIT2", "TRCK", "TPE2", "TCON", "TYER", "TPOS", "TCOM"};

ID3v2_Frame* get_named(ID3v2_Tag* t, int w)
{
    switch (w)
    {
        case 0: return (ID3v2_Frame*) ID3v2_Tag_get_artist_frame(t);
        case 1: return (ID3v2_Frame*) ID3v2_Tag_get_album_frame(t);
        case 2: return (ID3v2_Frame*) ID3v2_Tag_get_title_frame(t);
        case 3: return (ID3v2_Frame*) ID3v2_Tag_get_track_frame(t);
        case 4: return (ID3v2_Frame*) ID3v2_Tag_get_album_artist_frame(t);
        case 5: return (ID3v2_Frame*) ID3v2_Tag_get_genre_frame(t);
        case 6: return (ID3v2_Frame*) ID3v2_Tag_get_year_frame(t);
        case 7: return (ID3v2_Frame*) ID3v2_Tag_get_disc_number_frame(t);
        case 8: return (ID3v2_Frame*) ID3v2_Tag_get_composer_frame(t);
        case 9: return (ID3v2_Frame*) ID3v2_Tag_get_comment_frame(t);
        default: return (ID3v2_Frame*) ID3v2_Tag_get_album_cover_frame(t);
    }
}

static void check_list(ID3v2_FrameList* l, const std::vector<ID3v2_Frame*>& want, const char* id)
{
    size_t i = 0;
    for (ID3v2_FrameList* p = l; p && p->frame; p = p->next, i++)
        if (i >= want.size() || p->frame != want[i])
            mc::violation("the list of %s frames differs at %zu (there are %zu)", id, i, want.size());
    if (i != want.size()) mc::violation("the list of %s frames has %zu, expected %zu", id, i, want.size());
    ID3v2_FrameList_unlink(l);
}

void check_getters(ID3v2_Tag* t, const Tag& M)
{
    std::vector<ID3v2_Frame*> all;
    for (ID3v2_FrameList* l = t->frames; l && l->frame; l = l->next) all.push_back(l->frame);
    if (all.size() != M.f.size()) mc::violation("the tag has %zu frames, expected %zu", all.size(), M.f.size());
    auto of = [&](const Str& id) {
        std::vector<ID3v2_Frame*> v;
        for (size_t i = 0; i < all.size(); i++)
            if (M.f[i].id == id) v.push_back(all[i]);
        return v;
    };
    std::vector<Str> ids = {"TPE1", "TALB", "TIT2", "TRCK", "TPE2", "TCON", "TYER", "TPOS", "TCOM", "COMM", "APIC"};
    for (size_t i = 0; i < ids.size(); i++)
    {
        auto v = of(ids[i]);
        ID3v2_Frame* got = get_named(t, i);
        if (got != (v.empty() ? nullptr : v[0]))
            mc::violation("the getter of %s does not return the first one", ids[i].c_str());
    }
    check_list(ID3v2_Tag_get_comment_frames(t), of("COMM"), "comment");
    check_list(ID3v2_Tag_get_apic_frames(t), of("APIC"), "picture");
    for (auto& f : M.f)
    {
        bool known = false;
        for (auto& s : ids) known |= s == f.id;
        if (!known) ids.push_back(f.id);
        if (ids.size() > 24) break;
    }
    ids.push_back("ZZZZ");
    for (auto& s : ids)
    {
        auto v = of(s);
        In id(s + '\0');
        if (ID3v2_Tag_get_frame(t, id) != (v.empty() ? nullptr : v[0]))
            mc::violation("get_frame(%s) does not return the first one", show(s).c_str());
        check_list(ID3v2_Tag_get_frames(t, id), v, show(s).c_str());
    }
    mc::step();
}

// --------------------------------------------------------------------------------------- inputs

bool read_only_inputs;

// At the end of its pages, and nothing after them
static size_t pages(size_t n) { return (n + 4095) / 4096 * 4096 + 4096; }

In::In(const Str& s) : n(s.size()), map(read_only_inputs)
{
    if (map)
    {
        size_t all = pages(n);
        char* m = (char*) mmap(nullptr, all, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (m == MAP_FAILED) abort();
        p = m + all - 4096 - n;
        memcpy(p, s.data(), n);
        if (mprotect(m, all, PROT_READ) || mprotect(m + all - 4096, 4096, PROT_NONE)) abort();
        return;
    }
    p = (char*) malloc(n);
    memcpy(p, s.data(), n);
}

In::~In()
{
    if (map)
    {
        munmap(p + n + 4096 - pages(n), pages(n));
        return;
    }
    memset(p, 0xA5, n);
    free(p);
}

// The structures that describe a frame belong to the caller
template <class T> struct Kept
{
    const T& now;
    T was;
    Kept(const T& x) : now(x), was(x) {}
    void check() const
    {
        if (read_only_inputs && memcmp(&now, &was, sizeof was)) mc::violation("the structure given has been changed");
    }
};

static const Str Z2(2, '\0');

void set_text(ID3v2_Tag* t, Tag& M, const Str& id, const Str& text, const Str& flags)
{
    mc::op("set_text_frame(%s, flags %s, \"%s\")", show(id).c_str(), show(flags).c_str(), show(text).c_str());
    {
        In i(id + '\0'), f(flags), x(text);
        ID3v2_TextFrameInput in = {i, f, x};
        Kept<ID3v2_TextFrameInput> kept(in);
        ID3v2_Tag_set_text_frame(t, &in);
        kept.check();
        memset(&in, 0xA5, sizeof in);
    }
    M.set(text_frame(id, text, flags));
}

void set_named(ID3v2_Tag* t, Tag& M, int w, const Str& text)
{
    mc::op("set %s \"%s\"", NAMED_ID[w], show(text).c_str());
    In x(text);
    switch (w)
    {
        case 0: ID3v2_Tag_set_artist(t, x); break;
        case 1: ID3v2_Tag_set_album(t, x); break;
        case 2: ID3v2_Tag_set_title(t, x); break;
        case 3: ID3v2_Tag_set_track(t, x); break;
        case 4: ID3v2_Tag_set_album_artist(t, x); break;
        case 5: ID3v2_Tag_set_genre(t, x); break;
        case 6: ID3v2_Tag_set_year(t, x); break;
        case 7: ID3v2_Tag_set_disc_number(t, x); break;
        case 8: ID3v2_Tag_set_composer(t, x); break;
    }
    M.set(text_frame(NAMED_ID[w], text));
}

void set_comment(ID3v2_Tag* t, Tag& M, const Str& lang, const Str& comment)
{
    mc::op("set_comment(%s, \"%s\")", show(lang).c_str(), show(comment).c_str());
    In l(lang + '\0'), c(comment);
    ID3v2_Tag_set_comment(t, l, c);
    // The description is the empty string in the encoding of the comment
    M.set(comment_frame(lang, has_bom(comment) ? Str("\xFF\xFE\0\0", 4) : Str(1, '\0'), comment));
}

void set_comment_frame(ID3v2_Tag* t, Tag& M, bool add, const Str& lang, const Str& desc, const Str& comment, const Str& flags)
{
    mc::op("%s_comment_frame(%s, \"%s\", \"%s\")", add ? "add" : "set", show(lang).c_str(), show(desc).c_str(), show(comment).c_str());
    {
        In f(flags), l(lang), d(desc), c(comment);
        ID3v2_CommentFrameInput in = {f, l, d, c};
        Kept<ID3v2_CommentFrameInput> kept(in);
        if (add)
            ID3v2_Tag_add_comment_frame(t, &in);
        else
            ID3v2_Tag_set_comment_frame(t, &in);
        kept.check();
        memset(&in, 0xA5, sizeof in);
    }
    Frame x = comment_frame(lang, desc, comment, flags);
    if (add)
        M.add(x);
    else
        M.set(x);
}

void set_apic_frame(ID3v2_Tag* t, Tag& M, bool add, const Str& mime, int type, const Str& desc, const Str& pic, const Str& flags)
{
    mc::op("%s_apic_frame(%s, %d, \"%s\", %zu bytes)", add ? "add" : "set", show(mime).c_str(), type, show(desc).c_str(), pic.size());
    {
        In f(flags), mi(mime), d(desc), p(pic);
        ID3v2_ApicFrameInput in = {f, mi, d, (char) type, (int) pic.size(), p};
        Kept<ID3v2_ApicFrameInput> kept(in);
        if (add)
            ID3v2_Tag_add_apic_frame(t, &in);
        else
            ID3v2_Tag_set_apic_frame(t, &in);
        kept.check();
        memset((void*) &in, 0xA5, sizeof in);
    }
    Frame x = apic_frame(mime, type & 0xFF, desc, pic, flags);
    if (add)
        M.add(x);
    else
        M.set(x);
}

void set_cover(ID3v2_Tag* t, Tag& M, const Str& mime, const Str& pic)
{
    mc::op("set_album_cover(%s, %zu bytes)", show(mime).c_str(), pic.size());
    {
        In mi(mime), p(pic);
        ID3v2_Tag_set_album_cover(t, mi, pic.size(), p);
    }
    M.set(apic_frame(mime, 3, Str("\xFF\xFE\0\0", 4), pic));
}

void del_frame(ID3v2_Tag* t, Tag& M, const Str& id)
{
    mc::op("delete_frame(%s)", show(id).c_str());
    {
        In i(id + '\0');
        ID3v2_Tag_delete_frame(t, i);
    }
    M.del(id);
}

void del_named(ID3v2_Tag* t, Tag& M, int w)
{
    mc::op("delete %s", NAMED_ID[w]);
    switch (w)
    {
        case 0: ID3v2_Tag_delete_artist(t); break;
        case 1: ID3v2_Tag_delete_album(t); break;
        case 2: ID3v2_Tag_delete_title(t); break;
        case 3: ID3v2_Tag_delete_track(t); break;
        case 4: ID3v2_Tag_delete_album_artist(t); break;
        case 5: ID3v2_Tag_delete_genre(t); break;
        case 6: ID3v2_Tag_delete_year(t); break;
        case 7: ID3v2_Tag_delete_disc_number(t); break;
        case 8: ID3v2_Tag_delete_composer(t); break;
    }
    M.del(NAMED_ID[w]);
}

void del_comment(ID3v2_Tag* t, Tag& M)
{
    mc::op("delete_comment");
    ID3v2_Tag_delete_comment(t);
    M.del("COMM");
}

void del_comment_at(ID3v2_Tag* t, Tag& M, int i)
{
    mc::op("delete_comment_frame(%d)", i);
    ID3v2_Tag_delete_comment_frame(t, i);
    M.del("COMM", i);
}

void del_cover(ID3v2_Tag* t, Tag& M)
{
    mc::op("delete_album_cover");
    ID3v2_Tag_delete_album_cover(t);
    M.del("APIC");
}

void del_apic_at(ID3v2_Tag* t, Tag& M, int i)
{
    mc::op("delete_apic_frame(%d)", i);
    ID3v2_Tag_delete_apic_frame(t, i);
    M.del("APIC", i);
}

// ---------------------------------------------------------------------------------------- files

Str path(const char* name) { return mc::scratch() + "/" + name; }

static std::set<Str> known_files;

Str stranger()
{
    Str res;
    DIR* d = opendir(mc::scratch().c_str());
    if (!d) return res;
    while (dirent* e = readdir(d))
        if (e->d_name[0] != '.' || strlen(e->d_name) > 2)
            if (!known_files.count(path(e->d_name))) res = e->d_name;
    closedir(d);
    return res;
}

void (*after_put)(const Str& p);

void put_file(const Str& p, const Str& b)
{
    if (!known_files.count(p)) known_files.insert(p);
    int fd = open(p.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    if (fd < 0) abort();
    size_t n = 0;
    while (n < b.size())
    {
        ssize_t k = write(fd, b.data() + n, b.size() - n);
        if (k <= 0) abort();
        n += k;
    }
    close(fd);
    if (after_put) after_put(p);
}

bool get_file(const Str& p, Str& b)
{
    b.clear();
    int fd = open(p.c_str(), O_RDONLY);
    if (fd < 0) return false;
    struct stat st;
    fstat(fd, &st);
    b.resize(st.st_size);
    size_t n = 0;
    while (n < b.size())
    {
        ssize_t k = read(fd, &b[n], b.size() - n);
        if (k <= 0) break;
        n += k;
    }
    b.resize(n);
    close(fd);
    return true;
}

Str read_file(const Str& p)
{
    Str b;
    if (!get_file(p, b)) mc::violation("the file is gone");
    return b;
}

ID3v2_Tag* parse(const Str& b)
{
    In x(b);
    return ID3v2_read_tag_from_buffer(x, b.size());
}

Str pattern(int kind, size_t n)
{
    Str o(n, '\0');
    for (size_t i = 0; i < n; i++)
        switch (kind)
        {
            case 0: o[i] = (char) (i * 7 + 1 + (i >> 8)); break; // ramp
            case 1: o[i] = (char) 0xFF; break;
            case 2: o[i] = 0; break;
            case 3: o[i] = (char) (i % 2 ? 0xFB : 0xFF); break; // mp3 sync words
            case 4: o[i] = "ID3\x03\0\0\0\0\0\0"[i % 10]; break;
            case 5: o[i] = "3DI\x04\0\x10\0\0\0\x20"[i % 10]; break;
            case 6: o[i] = "\r\n\x1a\x04\xff\xfe\0\n"[i % 8]; break;
            case 7: o[i] = "TIT2\0\0\0\x02\0\0\0aTAG"[i % 15]; break;
        }
    return o;
}

// ---------------------------------------------------------------------------------------- bases

std::pair<Wire, Frame> stored(const Frame& mem, const Str& body) { return {Wire{mem.id, body, mem.flags}, mem}; }
std::pair<Wire, Frame> stored(const Frame& mem) { return stored(mem, mem.body()); }

Base make_base(const char* name, int major, const std::vector<std::pair<Wire, Frame>>& f, int padding, int flags, int ext)
{
    Base b;
    b.name = name;
    std::vector<Wire> w;
    Str e = ext_header(major, ext);
    if (ext) flags |= 0x40;
    for (auto& x : f)
    {
        w.push_back(x.first);
        b.model.f.push_back(x.second);
    }
    b.bytes = tag_bytes(major, w, padding, flags, e);
    b.model.major = major;
    b.model.flags = flags;
    b.model.padding = padding;
    b.model.tag_size = b.bytes.size() - 10 - (major == 4 && (flags & 0x10) ? 10 : 0);
    b.model.ext = ext ? (major == 4 ? e.size() : e.size() - 4) : 0;
    return b;
}

static Frame with_enc(Frame f, int enc)
{
    f.enc = enc;
    return f;
}

const std::vector<Base>& bases()
{
    static std::vector<Base> v;
    if (!v.empty()) return v;
    Base s;
    s.name = "scratch";
    v.push_back(s);
    for (int major = 3; major <= 4; major++)
    {
        auto T = [&](const char* id, const Str& t) { return stored(text_frame(id, t)); };
        // no terminators on disk
        auto U = [&](const char* id, const Str& t) {
            Frame f = text_frame(id, t);
            Str b = f.body();
            return stored(f, b.substr(0, b.size() - (f.enc ? 2 : 1)));
        };
        Frame c1 = comment_frame("eng", latin("d"), latin("first"));
        Frame c2 = comment_frame("spa", utf16("desc"), utf16("second"), Str("\x00\x40", 2));
        Frame p1 = apic_frame(latin("image/png"), 3, latin(""), Str("\x89PNG\0\0\xff\xfe", 8));
        Frame p2 = apic_frame(latin("image/jpeg"), 4, utf16("back"), Str("\0\0", 2));
        Frame raw = raw_frame("PRIV", Str("owner\0\xff\xfe\0\0\x01", 11), Str("\x80\x00", 2));
        Frame raw2 = raw_frame("UFID", Str("\0", 1));
        Frame txxx = text_frame("TXXX", Str("key\0value\0", 10));
        v.push_back(make_base(major == 3 ? "v3 plain" : "v4 plain", major,
            {T("TIT2", latin("title")), T("TPE1", utf16("artist")), stored(c1), stored(p1), stored(raw)}, 100));
        v.push_back(make_base(major == 3 ? "v3 duplicates" : "v4 duplicates", major,
            {stored(raw), U("TIT2", latin("one")), stored(c1), stored(p1), U("TIT2", utf16("two")), stored(c2),
             stored(p2), stored(txxx), stored(raw2), stored(c1), stored(raw)}, 0));
        v.push_back(make_base(major == 3 ? "v3 empty" : "v4 empty", major, {}, 3000));
        v.push_back(make_base(major == 3 ? "v3 ext" : "v4 ext", major, {T("TIT2", latin("t")), stored(c1)}, 10, 0, 2));
    }
    {
        Frame be = with_enc(text_frame("TALB", Str("\0a\0b\0\0", 6)), 2);
        Frame u8 = with_enc(text_frame("TCOM", Str("\xc3\xb1\0", 3)), 3);
        Frame cbe = with_enc(comment_frame("deu", Str("\0d\0\0", 4), Str("\0c\0\0", 4)), 2);
        Frame c8 = with_enc(comment_frame("fra", latin("\xc3\xa9"), latin("\xe2\x82\xac")), 3);
        Frame pbe = with_enc(apic_frame(latin("image/gif"), 0, Str("\x01\0\0\0", 4), "GIF89a"), 2);
        Frame p8 = with_enc(apic_frame(latin(""), 255, latin("x"), "\xff\xd8"), 3);
        v.push_back(make_base("v4 encodings", 4,
            {stored(be), stored(u8), stored(cbe), stored(c8), stored(pbe), stored(p8)}, 20));
        v.push_back(make_base("v4 footer", 4, {stored(text_frame("TIT2", latin("f"))), stored(u8)}, 0, 0x10));
    }
    return v;
}

ID3v2_Tag* start(const Base& b, Tag& M)
{
    M = b.model;
    mc::op("start: %s", b.name);
    if (b.bytes.empty()) return ID3v2_Tag_new_empty();
    ID3v2_Tag* t = parse(b.bytes);
    if (!t) mc::violation("no tag found in base %s", b.name);
    return t;
}

} // namespace m
