// C13: the compatibility layer gives the same results as the main API.
// Every call of the old API runs next to the equivalent one of the main API, on another file, and
// next to the model; after each one, everything visible on the three sides has to be the same.
#include "scenario.hpp"
#include "compat.hpp"
#include "names.hpp"
using namespace m;

// named setters of the main API for the fields of the old one (comment and cover apart)
static const int NAMED[compat::COUNT] = {2, 0, 1, 4, 5, 3, 6, -1, 7, 8, -1};

struct Pair
{
    ID3v2_tag* c = nullptr;  // old
    ID3v2_Tag* t = nullptr;  // main
    Tag M;                   // model
    Str cf = path("old"), tf = path("main");

    ~Pair()
    {
        if (c) free_tag(c);
        if (t) ID3v2_Tag_free(t);
    }
    void files(const Str& b)
    {
        put_file(cf, b);
        put_file(tf, b);
    }
    void set(int w, const Str& text)
    {
        compat::set(c, w, text);
        if (w == 7) set_comment(t, M, "eng", text);
        else set_named(t, M, NAMED[w], text);
    }
    void cover(const Str& mime, const Str& pic)
    {
        compat::cover(c, mime, pic);
        set_cover(t, M, mime, pic);
    }
    void write()
    {
        mc::op("set_tag / write_tag");
        set_tag(cf.c_str(), c);
        ID3v2_write_tag(tf.c_str(), t);
        M.written();
        same_files("written");
    }
    void remove()
    {
        mc::op("remove_tag / delete_tag");
        remove_tag(cf.c_str());
        ID3v2_delete_tag(tf.c_str());
        same_files("without tag");
    }
    void same_files(const char* what)
    {
        Str a = read_file(cf), b = read_file(tf);
        CHECK(a == b, "the files %s by both APIs differ (%zu and %zu bytes): [%s] and [%s]", what, a.size(), b.size(), show(a, 80).c_str(), show(b, 80).c_str());
        mc::step();
    }
    // loads again from the files
    void load(bool buffer)
    {
        mc::op("load again%s", buffer ? " from a buffer" : "");
        if (c) free_tag(c);
        if (t) ID3v2_Tag_free(t);
        if (buffer)
        {
            Str b = read_file(cf);
            In x(b);
            c = load_tag_with_buffer(x, b.size());
        }
        else
            c = load_tag(cf.c_str());
        t = ID3v2_read_tag(tf.c_str());
        CHECK(!c == !t, "the old API %s a tag and the main one %s", c ? "finds" : "does not find", t ? "does" : "does not");
        if (t) M = observe(t).t;
        if (c) header();
    }
    void header()
    {
        auto *a = c->tag_header;
        auto *b = t->header;
        CHECK(!memcmp(a->tag, b->identifier, 3) && a->major_version == b->major_version && a->minor_version == b->minor_version && a->flags == b->flags &&
              (unsigned) a->tag_size == b->tag_size && (unsigned) a->extended_header_size == b->extended_header_size, "the headers of both APIs differ");
        mc::step();
    }
    static void same_frame(ID3v2_frame* f, const Frame& x, const char* where)
    {
        Str body = x.body();
        CHECK(!memcmp(f->frame_id, x.id.data(), 4), "%s: id %s, expected %s", where, show(Str(f->frame_id, 4)).c_str(), x.id.c_str());
        CHECK(!memcmp(f->flags, x.flags.data(), 2), "%s: wrong flags in %s", where, x.id.c_str());
        CHECK(f->size == (int) body.size(), "%s: size of %s is %d, expected %zu", where, x.id.c_str(), f->size, body.size());
        CHECK(!memcmp(f->data, body.data(), body.size()), "%s: data of %s is [%s], expected [%s]", where, x.id.c_str(), show(Str(f->data, f->size)).c_str(), show(body).c_str());
    }
    void check()
    {
        if (!c) return;
        same(t, M, FRAMES, "main API");
        // the getters and the contents they lead to
        for (int w = 0; w < compat::COUNT; w++)
        {
            int i = M.find(compat::ID[w]);
            ID3v2_frame* f = compat::get(c, w);
            CHECK(!f == (i < 0), "the getter of %s %s", compat::ID[w], f ? "returns a frame that is not there" : "returns NULL");
            if (!f) continue;
            same_frame(f, M.f[i], "getter");
            Frame x = compat::content(f, w);
            CHECK(x == M.f[i], "the content of the frame is %s, expected %s", x.show().c_str(), M.f[i].show().c_str());
        }
        // all the frames
        size_t n = 0;
        for (ID3v2_frame_list* l = c->frames; l && l->frame; l = l->next, n++)
        {
            CHECK(n < M.f.size(), "the list of the old API has more than %zu frames", M.f.size());
            same_frame(l->frame, M.f[n], "list");
        }
        CHECK(n == M.f.size(), "the list of the old API has %zu frames, expected %zu", n, M.f.size());
        mc::step(2);
        mc::state(M.hash());
    }
};

static const int OPS = 20;
static void apply(Pair& p, int k)
{
    switch (k)
    {
        case 0: p.set(0, latin("a title")); break;
        case 1: p.set(0, utf16("t")); break;
        case 2: p.set(1, latin("artist")); break;
        case 3: p.set(2, utf16("album", true)); break;
        case 4: p.set(3, latin("")); break;
        case 5: p.set(4, latin("(12)genre")); break;
        case 6: p.set(5, latin("1/2")); break;
        case 7: p.set(6, latin("1999")); break;
        case 8: p.set(7, latin("comment")); break;
        case 9: p.set(7, utf16("c", true)); break;
        case 10: p.set(8, utf16("disc")); break;
        case 11: p.set(9, latin("composer")); break;
        case 12: p.cover(latin("image/jpeg"), Str("\xff\xd8\0\0", 4)); break;
        case 13: p.cover(latin("image/png"), ""); break;
        case 14: p.write(); break;
        case 15: p.remove(); break;
        case 16:
            p.write();
            p.load(false);
            break;
        case 17:
            p.write();
            p.load(true);
            break;
        case 18: p.set(0, latin("a longer title than the other one")); break;
        case 19: p.set(4, utf16("")); break;
    }
}

SPACE(C13, sequences, "new tags and every starting tag loaded, every sequence of up to three (thorough: four) of twenty calls in both APIs")
{
    const Base& b = mc::pick(bases());
    Pair p;
    p.files(b.bytes + "audio");
    mc::op("start: %s", b.name);
    if (b.bytes.empty())
    {
        p.c = new_tag();
        p.t = ID3v2_Tag_new_empty();
    }
    else
    {
        p.load(mc::choose(2));
        CHECK(p.c, "no tag was loaded");
        Str d = diff(observe(p.t).t.f, b.model.f);
        CHECK(d.empty(), "main API: %s", d.c_str());
    }
    p.check();
    int n = mc::tier(3, 4);
    for (int i = 0; i < n; i++)
    {
        apply(p, mc::choose(OPS));
        p.check();
    }
    p.write();
    mc::outcome(mc::hash(read_file(p.cf)));
}

SPACE(C13, fields, "every pair of fields set in every order with every kind of string, twice, on new and loaded tags, then written and loaded")
{
    int from = std::vector<int>{0, 1, 6}[mc::choose(3)];
    const Base& b = bases()[from];
    Pair p;
    p.files(b.bytes + "audio");
    if (from) p.load(false);
    else
    {
        p.c = new_tag();
        p.t = ID3v2_Tag_new_empty();
    }
    CHECK(p.c, "no tag was loaded");
    int w1 = mc::choose(11), w2 = mc::choose(11), k = mc::choose(4);
    auto value = [&](int w, int i) {
        if (w == 10) p.cover(latin(i & 1 ? "image/png" : "image/jpeg"), pattern(i, 5 + i));
        else p.set(w, (k + i) % 3 == 0 ? latin(i ? "x" : "value") : utf16(i ? "yy" : "v", (k + i) % 3 == 2));
        p.check();
    };
    value(w1, 0);
    value(w2, 1);
    value(w1, 2);
    p.write();
    p.check();
    p.load(k & 1);
    p.check();
    mc::outcome(mc::hash(read_file(p.cf)));
}

SPACE(C13, lengths, "strings and pictures of every length up to 300 and around every size boundary, in every field")
{
    static const std::vector<size_t> L = lengths(300, false);
    size_t n = mc::pick(L);
    int w = n > 300 && !mc::thorough() ? (int) (n % 3) * 5 : mc::choose(11), enc = mc::choose(3);
    if (w == 5) w = 7;
    Pair p;
    p.files("audio");
    p.c = new_tag();
    p.t = ID3v2_Tag_new_empty();
    if (w == 10) p.cover(latin("image/png"), pattern(enc, n));
    else p.set(w, string_of(enc, n));
    p.set(2, latin("next"));
    p.check();
    p.write();
    p.load(enc == 1);
    p.check();
    mc::outcome(mc::hash(read_file(p.cf)));
}

SPACE(C13, bytes, "every byte value in strings of both encodings and in pictures and MIME types")
{
    int v = mc::choose(256), w = mc::choose(11), k = mc::choose(3);
    char c = (char) v;
    Pair p;
    p.files("audio");
    p.c = new_tag();
    p.t = ID3v2_Tag_new_empty();
    Str s;
    if (k == 0) s = latin(Str("a") + (v ? c : 'x') + "b");
    if (k == 1) s = Str("\xff\xfe", 2) + c + Str("\x01", 1) + Str(2, '\0');
    if (k == 2) s = Str("\xfe\xff\x01", 3) + c + Str(2, '\0');
    if (w == 10) p.cover(latin(Str("m") + (v ? c : 'x')), Str(1, c) + c + "z");
    else p.set(w, s);
    p.check();
    p.write();
    p.load(k == 2);
    p.check();
    mc::outcome(mc::hash(read_file(p.cf)));
}

// Any bytes: both APIs have to agree on what there is
static void agree(const Str& b)
{
    Pair p;
    p.files(b);
    mc::op("file [%s]", show(b, 60).c_str());
    for (int buffer = 0; buffer < 2; buffer++)
    {
        p.load(buffer);
        if (p.c)
        {
            size_t n = 0;
            ID3v2_FrameList* l = p.t->frames;
            for (ID3v2_frame_list* x = p.c->frames; x && x->frame; x = x->next, n++)
            {
                CHECK(l && l->frame, "the old API has more frames than the main one");
                CHECK(!memcmp(x->frame->frame_id, l->frame->header->id, 4) && !memcmp(x->frame->flags, l->frame->header->flags, 2) && x->frame->size == l->frame->header->size,
                      "frame %zu has different headers in both APIs", n);
                l = l->next;
            }
            CHECK(!l || !l->frame, "the old API has less frames than the main one");
            for (int w = 0; w < compat::COUNT; w++) compat::content(compat::get(p.c, w), w);
        }
        mc::step();
    }
    if (p.c) p.write();
    p.remove();
    mc::state(mc::hash(b));
    mc::outcome(mc::hash(read_file(p.cf)));
}

SPACE(C13, truncated, "every prefix of every starting tag, in a file and in a buffer")
{
    const Base& b = mc::pick(bases());
    agree(b.bytes.substr(0, mc::choose(std::min<size_t>(b.bytes.size(), 450) + 1)));
}

SPACE(C13, corrupted, "every byte of some starting tags replaced by 10 (thorough: all) values")
{
    Str x = bases()[std::vector<int>{1, 2, 6, 8}[mc::choose(4)]].bytes;
    int i = mc::choose(std::min<size_t>(x.size(), 300));
    static const unsigned char v[] = {0, 1, 2, 3, 0x7f, 0x80, 0xff, 0xfe, 'T', 0x10};
    int c = mc::thorough() ? mc::choose(256) : v[mc::choose(10)];
    if (i >= 6 && i < 8 && c > 1) return mc::skip();
    x[i] = (char) c;
    if (!syncsafe(x)) return mc::skip();
    agree(x + "audio");
}

SPACE(C13, nothing, "missing files, files without tag and missing frames give NULL, and nothing is created")
{
    int k = mc::choose(7);
    Str f = path("nothing"), got;
    unlink(f.c_str());
    static const Str data[] = {"", "a", "not a tag, only audio", Str("ID3\x02\0\0\0\0\0\0", 10), Str("ID3\x03\0\0\0\0\0", 9), Str("ID3\x05\0\0\0\0\0\0", 10)};
    if (k) put_file(f, data[k - 1]);
    mc::op("%s", k ? show(data[k - 1]).c_str() : "missing file");
    CHECK(!load_tag(f.c_str()), "load_tag finds a tag");
    if (k)
    {
        In x(data[k - 1]);
        CHECK(!load_tag_with_buffer(x, x.n), "load_tag_with_buffer finds a tag");
    }
    remove_tag(f.c_str());
    CHECK(get_file(f, got) == (k != 0) && got == (k ? data[k - 1] : Str()), "remove_tag changed the file");
    ID3v2_tag* t = new_tag();
    for (int w = 0; w < compat::COUNT; w++) CHECK(!compat::get(t, w), "the getter of %s finds a frame in an empty tag", compat::ID[w]);
    CHECK(!parse_text_frame_content(NULL) && !parse_comment_frame_content(NULL) && !parse_apic_frame_content(NULL), "the content of no frame is not NULL");
    free_tag(t);
    free_frame(NULL);
    mc::step(4);
    mc::state(k);
    mc::outcome(k);
}

SPACE(C13, covers, "album covers from files of every size up to 300 and more, with names of every shape")
{
    static const char* const names[] = {"c.png", "c.jpg", "c.jpeg", "c", "a.b.png", "c.png.jpg", "png", ".png", "c.PNG", "c.pngx", "c.", "cpng", "c.gif"};
    static const std::vector<size_t> L = lengths(300, false);
    Str name = mc::pick(names);
    size_t n = L[mc::choose(name == "c.png" ? L.size() : 20)];
    Pair p;
    p.files("audio");
    p.c = new_tag();
    p.t = ID3v2_Tag_new_empty();
    Str pic = pattern(0, n), f = path(name.c_str());
    put_file(f, pic);
    if (mc::choose(2)) p.cover(latin("image/gif"), "old");
    {
        In x(latin(f));
        mc::op("tag_set_album_cover(%s), %zu bytes", name.c_str(), n);
        tag_set_album_cover(x, p.c);
    }
    bool png = name.size() >= 4 && name.substr(name.size() - 4) == ".png";
    set_cover(p.t, p.M, latin(png ? "image/png" : "image/jpeg"), pic);
    p.check();
    p.write();
    unlink(f.c_str());
    Tag before = p.M;
    {
        In x(latin(f)); // missing: nothing happens
        tag_set_album_cover(x, p.c);
    }
    p.check();
    mc::outcome(mc::hash(read_file(p.cf)));
}

SPACE(C13, many, "tags with many frames of every kind, loaded by both APIs")
{
    Tag M;
    ID3v2_Tag* t = any_number(M);
    Pair p;
    p.files("audio");
    ID3v2_write_tag(p.cf.c_str(), t);
    ID3v2_write_tag(p.tf.c_str(), t);
    ID3v2_Tag_free(t);
    p.load(mc::choose(2));
    CHECK(p.c, "no tag was loaded");
    p.check();
    p.set(0, latin("title"));
    p.set(7, latin("comment"));
    p.check();
    p.write();
    mc::outcome(M.hash());
}

SPACE(C13, names, "files with names of every length, with every kind of character, relative, absolute, not normalized, deep, through links")
{
    Place p;
    Pair x;
    put_file(p.file, bases()[6].bytes + "audio");
    x.files(bases()[6].bytes + "audio");
    x.cf = p.name;
    x.load(false);
    CHECK(x.c, "no tag was loaded");
    x.check();
    x.set(0, latin("title"));
    x.check();
    x.write();
    x.load(false);
    x.check();
    x.remove();
    x.remove();
    mc::outcome(mc::hash(p.name));
}

SPACE(C13, nofile, "names that do not lead to a file with data: nothing is loaded, created or removed")
{
    NotAFile x(false);
    Str before = listing();
    Pair p;
    CHECK(!load_tag(x.name.c_str()), "a tag was loaded");
    remove_tag(x.name.c_str());
    p.c = new_tag();
    p.t = ID3v2_Tag_new_empty();
    p.set(0, latin("title"));
    set_tag(x.name.c_str(), p.c);
    ID3v2_write_tag(x.name.c_str(), p.t);
    CHECK(listing() == before, "something was created or removed: [%s], before [%s]", show(listing(), 100).c_str(), show(before, 100).c_str());
    p.M.written();
    p.check();
    mc::step(3);
    mc::state(x.k);
    mc::outcome(x.k);
}

SPACE(C13, values, "values that mean something to other programs in every field and with every kind of string")
{
    static const char* const T[] = {
        "", " ", "0", "1", "03/12", "(17)", "(17)Rock", "17", "((x)", "(RX)", "Rock", "1999", "2001-12-31", "2001-12-31T10:20:30", " padded ", "tab\t", "a\nb", "AC/DC", "a;b", "%s%n%d", "null", "-1", "eng", "XXX", "TIT2",
        "ID3", "\xc3\xa9", "\xe9", "\x7f", "iTunNORM", "description", "image/png", "-->", "\x03utf", "\x01\x02"};
    static const char* const mimes[] = {"", "image/jpeg", "image/jpg", "image/png", "image/gif", "image/", "-->", "PNG", "JPG", "IMAGE/PNG", "text/plain"};
    static const Str pics[] = {"", Str("\xff\xd8\xff\xe0\0\x10JFIF\0", 11), Str("\x89PNG\r\n\x1a\n\0\0\0\rIHDR", 16), "GIF89a", "http://example.org/a.png", Str(5, '\0'), Str("data\0\0\0", 7), Str("\0\0data", 6), Str(1, '\0')};
    int w = mc::choose(11), enc = mc::choose(3), from = mc::choose(2);
    Pair p;
    p.files(from ? bases()[6].bytes + "audio" : "audio");
    if (from) p.load(false);
    else
    {
        p.c = new_tag();
        p.t = ID3v2_Tag_new_empty();
    }
    if (w == 10) p.cover(latin(mc::pick(mimes)), mc::pick(pics));
    else
    {
        Str s = mc::pick(T);
        p.set(w, enc ? utf16(s, enc == 2) : latin(s));
    }
    p.check();
    p.write();
    p.load(enc == 1);
    p.check();
    mc::outcome(mc::hash(read_file(p.cf)));
}

SPACE(C13, replacements, "every field set by both APIs when the tag that was loaded already has it, with the same value or another one, with the same or other flags, encodings, languages, descriptions and types, once or twice")
{
    int w = mc::choose(11), enc = mc::choose(3), other = mc::choose(2), to = mc::choose(3), flags = mc::choose(2), copies = 1 + mc::choose(2), extra = mc::choose(3), major = 3 + mc::choose(2);
    auto value = [&](const char* v, int e) { return e ? utf16(v, e == 2) : latin(v); };
    Frame f;
    if (w == 7) f = comment_frame(extra == 1 ? "spa" : "eng", value(extra == 2 ? "description" : "", enc), value("text", enc));
    else if (w == 10) f = apic_frame(latin(extra == 1 ? "image/jpeg" : "image/png"), extra == 2 ? 4 : 3, value(extra ? "description" : "", enc), "picture");
    else f = text_frame(compat::ID[w], value("text", enc));
    if (flags) f.flags = Str("\x40\x01", 2);
    std::vector<std::pair<Wire, Frame>> v = {stored(raw_frame("PRIV", "first"))};
    for (int i = 0; i < copies; i++) v.push_back(stored(f));
    v.push_back(stored(raw_frame("PRIV", "last")));
    Pair p;
    p.files(make_base("loaded", major, v, 30).bytes + "audio");
    p.load(false);
    for (int i = 0; i < 2; i++)
    {
        if (w == 10) p.cover(latin(to == 2 ? "image/gif" : "image/png"), other ? "another" : "picture");
        else p.set(w, value(other ? "other" : "text", to));
        p.check();
        p.write();
    }
    p.load(true);
    p.check();
    mc::outcome(mc::hash(read_file(p.cf)));
}

SPACE(C13, big, "strings and pictures of 4 MB to 32 MB (thorough: to the limit of the format), set and loaded, covers also from files")
{
    size_t n = mc::pick(big_sizes((1 << 25) + 1));
    int field = mc::choose(n > 30000000 ? 2 : 4), how = mc::choose(2);
    mc::decided();
    mc::patience(mc::tier(300, 2000));
    mc::op("%zu bytes", n);
    Pair p;
    p.files("audio");
    p.c = new_tag();
    p.t = ID3v2_Tag_new_empty();
    if (field == 0) p.cover(latin("image/png"), pattern(0, n));
    if (field == 1)
    {
        Str pic = pattern(0, n), f = path("c.png");
        put_file(f, pic);
        In x(latin(f));
        mc::op("tag_set_album_cover(%s), %zu bytes", f.c_str(), n);
        tag_set_album_cover(x, p.c);
        set_cover(p.t, p.M, latin("image/png"), pic);
    }
    if (field == 2) p.set(2, latin(Str(n, 't')));
    if (field == 3) p.set(7, latin(Str(n, 'c')));
    p.set(0, latin("next"));
    p.check();
    p.write();
    p.load(how);
    p.check();
    mc::outcome(n);
}

SPACE(C13, runs, "strings and pictures that begin with, end with or are made of a run of any of the characters that someone could want to trim or to shorten, of every length up to 140 (thorough: 300)")
{
    Frame f = run_frame();
    if (f.id.empty()) return;
    if (f.kind == 'C' && f.text.size() < 8 && f.desc.size() > 8) return mc::skip(); // the old API sets no descriptions
    Pair p;
    p.files("audio");
    p.c = new_tag();
    p.t = ID3v2_Tag_new_empty();
    if (f.kind == 'T') p.set(2, f.text);
    if (f.kind == 'C') p.set(7, f.text);
    if (f.kind == 'A') p.cover(f.mime, f.text);
    p.check();
    p.write();
    p.load(0);
    p.check();
    mc::outcome(mc::hash(read_file(p.cf)));
}
