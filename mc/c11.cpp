// C11: frames that were not edited survive a rewrite.
// Judged on the bytes of the file: the frames found there by a reader that only knows frame headers.
#include "names.hpp"
#include "scenario.hpp"
using namespace m;

static std::vector<Wire> frames_of(const Str& b)
{
    std::vector<Wire> v;
    CHECK(supported(b), "there is no tag in the file");
    int major = b[3];
    auto num = [&](size_t at, int bits) {
        unsigned x = 0;
        for (int i = 0; i < 4; i++) x = (x << bits) | (unsigned char) b[at + i];
        return (size_t) x;
    };
    size_t end = 10 + num(6, 7), at = 10;
    CHECK(end <= b.size(), "the tag does not fit in the file");
    while (end - at >= 10 && b[at])
    {
        size_t n = num(at + 4, major == 4 ? 7 : 8);
        CHECK(n <= end - at - 10, "frame %s of %zu bytes does not fit in the tag", show(b.substr(at, 4)).c_str(), n);
        v.push_back({b.substr(at, 4), b.substr(at + 10, n), b.substr(at + 8, 2)});
        at += 10 + n;
    }
    return v;
}

// The body on disk may only have gained the terminator of its last string
static bool survived(const Wire& was, const Wire& is)
{
    if (was.id != is.id || was.flags != is.flags) return false;
    if (was.body == is.body) return true;
    char k = kind_of(was.id);
    if (k == 'R') return false;
    int enc = was.body.empty() ? 0 : was.body[0];
    Str z((enc == 1 || enc == 2) ? 2 : 1, '\0');
    return is.body == was.body + z;
}

static Str show(const Wire& w) { return w.id + " flags " + m::show(w.flags) + " [" + m::show(w.body) + "]"; }

// What edits do to the list of frames of the file; edited frames are not compared here.
struct Item
{
    Wire w;
    bool edited;
};

// `touched` is the model after the edits: frames that differ from the ones at the start were edited.
static void compare(const Str& file, const std::vector<Item>& want)
{
    auto got = frames_of(read_file(file));
    CHECK(got.size() == want.size(), "the file has %zu frames, expected %zu", got.size(), want.size());
    for (size_t i = 0; i < got.size(); i++)
        if (!want[i].edited)
            CHECK(survived(want[i].w, got[i]), "frame %zu was %s, now it is %s", i, show(want[i].w).c_str(), show(got[i]).c_str());
        else
            CHECK(got[i].id == want[i].w.id, "frame %zu is %s, expected %s", i, show(got[i]).c_str(), want[i].w.id.c_str());
    mc::step();
}

struct Files
{
    std::vector<Item> items;
    int find(const Str& id, int nth = 0)
    {
        for (size_t i = 0; i < items.size(); i++)
            if (items[i].w.id == id && nth-- == 0) return i;
        return -1;
    }
    void set(const Str& id)
    {
        int i = find(id);
        if (i < 0) items.push_back({Wire{id, ""}, true});
        else items[i].edited = true;
    }
    void add(const Str& id) { items.push_back({Wire{id, ""}, true}); }
    void del(const Str& id, int nth = 0)
    {
        int i = find(id, nth);
        if (i >= 0) items.erase(items.begin() + i);
    }
};

static const int OPS = 16;
static void change(ID3v2_Tag* t, Files& F, int k)
{
    Tag dummy;
    switch (k)
    {
        case 0: mc::op("nothing"); break;
        case 1: set_named(t, dummy, 2, latin("new title")); F.set("TIT2"); break;
        case 2: del_named(t, dummy, 2); F.del("TIT2"); break;
        case 3: set_comment_frame(t, dummy, true, "eng", latin("d"), latin("c")); F.add("COMM"); break;
        case 4: set_comment(t, dummy, "eng", utf16("c")); F.set("COMM"); break;
        case 5: del_comment_at(t, dummy, 0); F.del("COMM", 0); break;
        case 6: del_comment_at(t, dummy, 1); F.del("COMM", 1); break;
        case 7: set_cover(t, dummy, latin("image/png"), "new"); F.set("APIC"); break;
        case 8: set_apic_frame(t, dummy, true, latin("m"), 4, latin("d"), "p"); F.add("APIC"); break;
        case 9: del_apic_at(t, dummy, 1); F.del("APIC", 1); break;
        case 10: del_frame(t, dummy, "PRIV"); F.del("PRIV"); break;
        case 11: set_text(t, dummy, "TSSE", latin("lib")); F.set("TSSE"); break;
        case 12: del_named(t, dummy, 0); F.del("TPE1"); break;
        case 13: del_cover(t, dummy); F.del("APIC"); break;
        case 14: set_named(t, dummy, 0, utf16("x")); F.set("TPE1"); break;
        case 15: del_frame(t, dummy, "TXXX"); F.del("TXXX"); break;
    }
}

// Reads the file, applies edits, writes, and judges; twice.
static void rewrite(const Str& bytes, const std::vector<Wire>& w, int depth, int rounds = 2, const Place* place = nullptr)
{
    Str file = place ? place->name : path("f");
    put_file(place ? place->file : file, bytes + "audio");
    Files F;
    for (auto& x : w) F.items.push_back({x, false});
    for (int r = 0; r < rounds; r++)
    {
        ID3v2_Tag* t = ID3v2_read_tag(file.c_str());
        CHECK(t, "no tag was found");
        int n = r == 0 ? depth : 1;
        for (int i = 0; i < n; i++) change(t, F, r == 0 ? mc::choose(OPS) : std::vector<int>{0, 1, 3}[mc::choose(3)]);
        ID3v2_write_tag(file.c_str(), t);
        ID3v2_Tag_free(t);
        compare(file, F.items);
    }
    Str b = read_file(file);
    mc::state(mc::hash(b));
    mc::outcome(mc::hash(b));
}

// what is on disk
static std::vector<Wire> on_disk(const Base& b)
{
    std::vector<Wire> w;
    Str plain = b.bytes;
    int major = plain[3];
    size_t at = 10 + (b.model.ext ? (major == 4 ? b.model.ext : b.model.ext + 4) : 0);
    for (size_t i = 0; i < b.model.f.size(); i++)
    {
        size_t n = 0;
        for (int i = 0; i < 4; i++) n = (n << (major == 4 ? 7 : 8)) | (unsigned char) plain[at + 4 + i];
        w.push_back({plain.substr(at, 4), plain.substr(at + 10, n), plain.substr(at + 8, 2)});
        at += 10 + n;
    }
    return w;
}

SPACE(C11, edits, "every starting tag that was read from a file, every sequence of edits up to the depth and a write, then another edit and write")
{
    int k = 1 + mc::choose(bases().size() - 1);
    const Base& b = bases()[k];
    Str plain = b.bytes;
    std::vector<Wire> w = on_disk(b);
    rewrite(plain, w, mc::tier(2, 3));
}

static Wire some(int major, int k)
{
    switch (k)
    {
        case 0: return {"TIT2", Str("\0title", 6)};
        case 1: return {"TIT2", Str("\x01\xff\xfe" "t\0\0\0", 7)};
        case 2: return {"COMM", Str("\0eng\0c", 6), Str("\0\x80", 2)};
        case 3: return {"COMM", Str("\x01spa\xfe\xff\0d\0\0\xfe\xff\0c", 14)};
        case 4: return {"APIC", Str("\0m\0\x03\0p\0q", 8)};
        case 5: return {"APIC", Str("\x01m\0\x04\xff\xfe" "d\0\0\0pic", 13), Str("\x40\0", 2)};
        case 6: return {"PRIV", Str("\0\xff\0", 3), Str("\x20\x01", 2)};
        case 7: return {"COMR", Str("\0xxxxxxxxx", 10)};
        case 8: return {"TXXX", Str("\0key\0value", 10)};
        case 9: return {"AENC", Str("a\0bb", 4)};
        case 10: return {"TPE1", Str("\0a\0b\0c\0", 7)};
        default: return major == 4 ? Wire{"TCON", Str("\x03\xc3\xb1\0x", 5)} : Wire{"WXXX", Str("\0\0http", 6)};
    }
}

SPACE(C11, mixes, "every tag of up to three (thorough: four) frames of twelve kinds, in both versions, with every single edit")
{
    int major = 3 + mc::choose(2), n = 1 + mc::choose(mc::tier(3, 4));
    std::vector<Wire> w;
    for (int i = 0; i < n; i++) w.push_back(some(major, mc::choose(12)));
    rewrite(tag_bytes(major, w, 4), w, 1, 1);
}

SPACE(C11, kept, "text, comment, picture and other frames of every length up to 300 and around every size boundary, in every encoding, beside a frame that is edited")
{
    static const std::vector<size_t> L = lengths(300, false);
    int major = 3 + mc::choose(2), enc = mc::choose(major == 4 ? 4 : 2), kind = mc::choose(5);
    size_t n = mc::pick(L);
    if (!mc::thorough() && n > 5000 && (enc || kind == 2)) return mc::skip();
    Str z(enc == 1 || enc == 2 ? 2 : 1, '\0'), bom = enc == 1 ? Str("\xfe\xff") : Str(), s = bom, e(1, (char) enc);
    for (size_t i = 0; i < n; i++) s += enc == 1 || enc == 2 ? Str("\0", 1) + (char) ('a' + i % 26) : Str(1, (char) ('a' + i % 26));
    Wire x;
    if (kind == 0) x = {"TPE1", e + s + (n % 2 ? z : "")};
    if (kind == 1) x = {"COMM", e + "eng" + s + z + bom + (n % 2 ? z : ""), Str("\0\x01", 2)};
    if (kind == 2) x = {"COMM", e + "eng" + bom + z + s + (n % 2 ? z : "")};
    if (kind == 3) x = {"APIC", e + latin(Str(n % 50, 'm')) + (char) n + s + z + pattern(0, n)};
    if (kind == 4) x = {"GEOB", e + pattern(enc, n), Str("\x01\0", 2)};
    std::vector<Wire> w = {x, {"TIT2", Str("\0t", 2)}, x};
    Str file = path("f");
    put_file(file, tag_bytes(major, w, 4) + "audio");
    Files F;
    for (auto& y : w) F.items.push_back({y, false});
    ID3v2_Tag* t = ID3v2_read_tag(file.c_str());
    CHECK(t, "no tag was found");
    change(t, F, 1 + mc::choose(2));
    ID3v2_write_tag(file.c_str(), t);
    ID3v2_Tag_free(t);
    compare(file, F.items);
    mc::state(mc::hash(x.body));
    mc::outcome(mc::hash(x.body));
}

SPACE(C11, bytes, "frames with every byte value in every position of their body, id and flags, beside a frame that is edited")
{
    int major = 3 + mc::choose(2), v = mc::choose(256), where = mc::choose(9);
    char c = (char) v;
    Wire x;
    switch (where)
    {
        case 0: x = {"PRIV", Str(1, c)}; break;
        case 1: x = {"PRIV", Str("a") + c + "b", Str(1, c) + Str(1, '\0')}; break;
        case 2: x = {"UFID", Str("ab") + c, Str(1, '\0') + c}; break;
        case 3: x = {"TPE1", Str("\0a", 2) + c + "b"}; break;
        case 4: x = {"TPE1", Str("\x01\xff\xfe\x01", 4) + c + c + Str("\x01", 1)}; break;
        case 5: x = {"COMM", Str(1, '\0') + c + c + c + "d" + (v ? c : 'x') + Str("\0c", 2)}; break;
        case 6: x = {"COMM", Str("\x01" "eng\xff\xfe\x01", 7) + c + Str("\0\0\xff\xfe\x01", 5) + c}; break;
        case 7: x = {"APIC", Str("\0i", 2) + (v ? c : 'x') + Str(1, '\0') + c + "d" + (v ? c : 'x') + Str(1, '\0') + c + c}; break;
        case 8:
            if (!((c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9'))) return mc::skip();
            x = {Str("W") + c + c + c, "data"};
            break;
    }
    std::vector<Wire> w = {{"TIT2", Str("\0t", 2)}, x, x};
    Str file = path("f");
    put_file(file, tag_bytes(major, w, 4) + "audio");
    Files F;
    for (auto& y : w) F.items.push_back({y, false});
    ID3v2_Tag* t = ID3v2_read_tag(file.c_str());
    CHECK(t, "no tag was found");
    change(t, F, mc::choose(3));
    ID3v2_write_tag(file.c_str(), t);
    ID3v2_Tag_free(t);
    compare(file, F.items);
    mc::state(mc::hash(x.body, v));
    mc::outcome(mc::hash(x.body));
}

SPACE(C11, many, "tags with up to 260 (thorough: 1030) frames that stay while one of them is edited, at every place for the small ones")
{
    std::vector<int> c;
    for (int i = 1; i <= 24; i++) c.push_back(i);
    for (int i : {127, 128, 129, 255, 256, 257, 260}) c.push_back(i);
    if (mc::thorough()) for (int i : {1023, 1024, 1030}) c.push_back(i);
    int major = 3 + mc::choose(2), n = mc::pick(c), at = n <= 24 ? mc::choose(n) : std::vector<int>{0, 1, n / 2, n - 1}[mc::choose(4)];
    std::vector<Wire> w;
    for (int i = 0; i < n; i++)
    {
        Wire x = some(major, 2 + i % 10);
        x.body += x.id == "COMM" && x.body[0] == 1 ? utf16(Str(i, '.')).substr(2, 2 * i) : Str(i, '.');
        w.push_back(x);
    }
    w[at] = {"TIT2", Str("\0the title", 10)};
    Str file = path("f");
    put_file(file, tag_bytes(major, w, 4) + "audio");
    Files F;
    for (auto& y : w) F.items.push_back({y, false});
    ID3v2_Tag* t = ID3v2_read_tag(file.c_str());
    CHECK(t, "no tag was found");
    change(t, F, 1 + mc::choose(3));
    ID3v2_write_tag(file.c_str(), t);
    ID3v2_Tag_free(t);
    compare(file, F.items);
    mc::state(mc::hash(read_file(file)));
    mc::outcome(n * 1000 + at);
}

SPACE(C11, values, "multi valued and user defined texts of every shape: up to four values of several lengths, in every encoding, terminated or not")
{
    int major = 3 + mc::choose(2), enc = mc::choose(major == 4 ? 4 : 2), n = 1 + mc::choose(4);
    Str z(enc == 1 || enc == 2 ? 2 : 1, '\0'), s(1, (char) enc);
    for (int i = 0; i < n; i++)
    {
        if (i) s += z;
        if (enc == 1) s += "\xff\xfe";
        int k = std::vector<int>{0, 1, 2, 7}[mc::choose(4)];
        for (int j = 0; j < k; j++) s += enc == 1 ? Str("v\0", 2) : enc == 2 ? Str("\0v", 2) : Str("v");
    }
    if (mc::choose(2)) s += z;
    std::vector<Wire> w = {{mc::choose(2) ? "TXXX" : "TCOM", s}, {"TIT2", Str("\0t", 2)}};
    rewrite(tag_bytes(major, w, 4), w, 0, 2);
}

SPACE(C11, ids, "frames of every id of the standards (and some that are common without being there), twice in a tag, beside frames that are edited")
{
    Str id = standard_id();
    int major = 3 + mc::choose(2), k = mc::choose(3);
    Str a[] = {Str("\0body", 5), Str("\1\xff\xfe" "a\0\0\0", 7), Str("\0", 1)};
    std::vector<Wire> w = {{"TIT2", Str("\0t", 2)}, {id, a[k], Str("\x40\x01", 2)}, {"PRIV", "p"}, {id, a[(k + 1) % 3]}, {"TPE1", Str("\0a", 2)}};
    rewrite(tag_bytes(major, w, 4), w, 1, 2);
}

SPACE(C11, mimic, "tags that are also consistent, with other contents, when the sizes of their frames are read in the way of the other version")
{
    Base b = mimic_tag();
    if (b.bytes.size()) rewrite(b.bytes, on_disk(b), 1, mc::tier(1, 2));
}

SPACE(C11, marks, "frames that hold headers, footers and marks of tags, patterns of unsynchronisation and padding, with flags that announce compression, encryption and the like")
{
    Base b = marks_tag();
    rewrite(b.bytes, on_disk(b), 1, 1);
}

SPACE(C11, big, "pictures, comments and texts of 4 MB to 128 MB (thorough: to the limit of the format), and other frames")
{
    Base b = big_tag();
    std::vector<Wire> w = on_disk(b);
    Str file = path("f");
    put_file(file, b.bytes + "audio");
    Files F;
    for (auto& x : w) F.items.push_back({x, false});
    ID3v2_Tag* t = ID3v2_read_tag(file.c_str());
    CHECK(t, "no tag was found");
    change(t, F, 14);
    ID3v2_write_tag(file.c_str(), t);
    ID3v2_Tag_free(t);
    compare(file, F.items);
    mc::state(b.bytes.size());
    mc::outcome(b.bytes.size());
}

SPACE(C11, runs, "strings and pictures that begin with, end with or are made of a run of any of the characters that someone could want to trim or to shorten, of every length up to 140 (thorough: 300)")
{
    Base b = run_tag();
    if (b.bytes.empty()) return;
    std::vector<Wire> w = on_disk(b);
    Str file = path("f");
    put_file(file, b.bytes + "audio");
    Files F;
    for (auto& x : w) F.items.push_back({x, false});
    ID3v2_Tag* t = ID3v2_read_tag(file.c_str());
    CHECK(t, "no tag was found");
    change(t, F, 14);
    ID3v2_write_tag(file.c_str(), t);
    ID3v2_Tag_free(t);
    compare(file, F.items);
    mc::state(mc::hash(b.bytes));
    mc::outcome(mc::hash(b.bytes));
}

SPACE(C11, hollow, "tags with every sequence of up to three (thorough: four) frames with and without a body, with paddings up to 12 and more: frames without a body survive wherever they are, the last bytes of the tag included")
{
    static const Wire P[] = {{"PRIV", ""}, {"WXXX", "", Str("\x40\x01", 2)}, {"TIT2", Str("\0t", 2)}, {"PRIV", "p"}, {"GEOB", ""}};
    static const int paddings[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 20, 2048};
    int major = 3 + mc::choose(2), padding = mc::pick(paddings), n = 1 + mc::choose(mc::tier(3, 4));
    std::vector<Wire> w;
    for (int i = 0; i < n; i++) w.push_back(mc::pick(P));
    rewrite(tag_bytes(major, w, padding), w, 1, 2);
}

SPACE(C11, names, "files with names of every length, with every kind of character and of every type, relative, absolute, not normalized, deep, through links")
{
    Place p;
    const int base[] = {2, 6, 9};
    const Base& b = bases()[base[mc::choose(3)]];
    rewrite(b.bytes, on_disk(b), 0, 2, &p);
}
