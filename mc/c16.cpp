// C16: independent tags and files do not interfere.
#include "scenario.hpp"
#include "compat.hpp"
#include "names.hpp"
#include "rewrite.hpp"
#include "threads.hpp"
#include <fcntl.h>
#include <malloc.h>
#include <map>
#include <sys/stat.h>
#include <unistd.h>
using namespace m;

// --- two threads -----------------------------------------------------------------------------
namespace {

// One history: a sequence of operations on its own file and tags. Everything it sees goes to the log.
struct History
{
    int kind, who;
    Str file, log;

    History(int k, int w) : kind(k), who(w)
    {
        Str dir = path(w ? "b" : "a");
        mkdir(dir.c_str(), 0700);
        file = dir + "/f";
        static const Str with = tag_bytes(3, {{"TIT2", Str("\0old title", 10)}, {"COMM", Str("\0engd\0the comment", 17)}, {"APIC", Str("\0image/png\0\x03p\0PNGDATA", 21)}, {"PRIV", "private"}}, 20);
        static const Str with2 = tag_bytes(4, {{"PRIV", "xx"}, {"COMM", Str("\1spa\xFF\xFE" "d\0\0\0\xFF\xFEh\0o\0l\0a\0", 22)}, {"TIT2", Str("\1\xFF\xFEZ\0", 5)}}, 60);
        Str audio = w ? Str("another audio data, longer than the first one") : Str("audio");
        put_file(file, (kind == 0 || kind == 3 ? Str() : w ? with2 : with) + audio);
        put_file(file + ".png", w ? Str("another picture") : Str("picture"));
    }
    Str s(const char* a) const { return latin(Str(who ? "thread two " : "1 ") + a); }
    Str u(const char* a) const { return utf16(Str(who ? "2" : "thread one ") + a); }
    void note(const Str& x) { log += "[" + x + "]"; }
    void tag(ID3v2_Tag* t)
    {
        if (!t) return note("no tag");
        Obs o = observe(t);
        note(o.t.show());
        for (int i : o.sizes) note(std::to_string(i));
    }
    void contents()
    {
        Str b;
        note(get_file(file, b) ? show(b, 6000) : Str("no file"));
    }
    void compat_tag(ID3v2_tag* t)
    {
        if (!t) return note("no tag");
        for (int w : {0, 1, 7, 10})
        {
            ID3v2_frame* f = compat::get(t, w);
            note(f ? compat::content(f, w).show() : Str("-"));
        }
    }

    void run()
    {
        using threads::operation;
        const char* f = file.c_str();
        switch (kind)
        {
            case 0: // a new tag
            {
                operation();
                ID3v2_Tag* t = ID3v2_Tag_new_empty();
                operation();
                Str title = s("title"), artist = u("artist"), lang = who ? "spa" : "eng", com = u("comment");
                ID3v2_Tag_set_title(t, &title[0]);
                ID3v2_Tag_set_artist(t, &artist[0]);
                operation();
                ID3v2_Tag_set_comment(t, &lang[0], &com[0]);
                tag(t);
                operation();
                ID3v2_write_tag(f, t);
                operation();
                ID3v2_Tag_free(t);
                contents();
                break;
            }
            case 1: // read, look and delete
            {
                operation();
                ID3v2_Tag* t = ID3v2_read_tag(f);
                tag(t);
                if (!t) break;
                operation();
                ID3v2_FrameList *c = ID3v2_Tag_get_comment_frames(t), *p = ID3v2_Tag_get_apic_frames(t);
                for (auto* l : {c, p})
                    for (auto* x = l; x && x->frame; x = x->next) note(observe(x->frame).show());
                operation();
                ID3v2_Tag_delete_title(t);
                ID3v2_Tag_delete_comment(t);
                for (auto* l : {c, p})
                    if (l) ID3v2_FrameList_unlink(l);
                tag(t);
                operation();
                ID3v2_Tag_free(t);
                ID3v2_delete_tag(f);
                contents();
                break;
            }
            case 2: // edit and write over the file
            {
                operation();
                ID3v2_Tag* t = ID3v2_read_tag(f);
                if (!t) { note("no tag"); break; }
                Str mime = latin("image/png"), desc = s("d"), pic = who ? Str("\1\2\3\4") : Str("pic"), title = u("title");
                operation();
                ID3v2_Tag_set_title(t, &title[0]);
                char flags[2] = {0, 0};
                ID3v2_ApicFrameInput in = {flags, &mime[0], &desc[0], 4, (int) pic.size(), &pic[0]};
                ID3v2_Tag_add_apic_frame(t, &in);
                operation();
                ID3v2_write_tag(f, t);
                operation();
                ID3v2_Tag_free(t);
                contents();
                t = ID3v2_read_tag(f);
                tag(t);
                if (t) ID3v2_Tag_free(t);
                break;
            }
            case 3: // old API, new tag
            {
                operation();
                ID3v2_tag* t = new_tag();
                Str title = s("title"), com = u("comment"), pic = file + ".png";
                operation();
                tag_set_title(&title[0], 0, t);
                tag_set_comment(&com[0], 1, t);
                operation();
                tag_set_album_cover(pic.c_str(), t);
                operation();
                compat_tag(t);
                set_tag(f, t);
                operation();
                free_tag(t);
                contents();
                break;
            }
            case 4: // old API, existing tag
            {
                operation();
                ID3v2_tag* t = load_tag(f);
                operation();
                compat_tag(t);
                if (!t) break;
                Str artist = u("artist");
                operation();
                tag_set_artist(&artist[0], 1, t);
                compat_tag(t);
                operation();
                free_tag(t);
                remove_tag(f);
                contents();
                break;
            }
            case 5: // buffers, headers and strings
            {
                Str all;
                get_file(file, all);
                operation();
                ID3v2_Tag* t = ID3v2_read_tag_from_buffer(&all[0], all.size());
                ID3v2_TagHeader* h = ID3v2_read_tag_header(f);
                Str x = s("to convert");
                operation();
                char* a = ID3v2_to_unicode(&x[0]);
                int n = ID3v2_strlen(a), k = ID3v2_strlent(&x[0]);
                note(std::to_string(n) + " " + std::to_string(k));
                operation();
                note(Str(a, n + 2));
                if (h) note(Str(h->identifier, 3) + std::to_string(h->major_version) + " " + std::to_string(h->tag_size));
                operation();
                tag(t);
                if (h) ID3v2_TagHeader_free(h);
                if (t) ID3v2_Tag_free(t);
                free(a);
                break;
            }
        }
    }
    static const int KINDS = 6;
};

struct Solo
{
    Str log;
    long steps[3];
    bool ready = false;
};

// What the history gives when nothing else runs
const Solo& solo(int k, int w)
{
    static Solo S[History::KINDS][2];
    Solo& s = S[k][w];
    if (!s.ready)
    {
        mallopt(M_PERTURB, 0xA5); // what is freed does not stay readable
        for (int l = 0; l < 3; l++)
        {
            History warm(k, w);
            warm.run(); // outside: everything that is initialized once
            History h(k, w);
            s.steps[l] = threads::count((threads::Level) l, [&] { h.run(); });
            if (warm.log != h.log) mc::violation("history %d gives something else the second time: %s, then %s", k, warm.log.c_str(), h.log.c_str());
            s.log = h.log;
        }
        s.ready = true;
    }
    return s;
}

void two(threads::Level l, int preemptions)
{
    int a = mc::choose(History::KINDS), b = mc::choose(History::KINDS);
    const Solo &A = solo(a, 0), &B = solo(b, 1);
    std::vector<long> seg;
    for (int i = 0; i <= preemptions - 1; i++)
        seg.push_back(i == 0 ? mc::choose(A.steps[l] + 1) : 1 + mc::choose(i & 1 ? B.steps[l] : A.steps[l]));
    Str plan;
    for (long s : seg) plan += " " + std::to_string(s);
    mc::op("threads: histories %d and %d, stopped after%s steps", a, b, plan.c_str());
    History x(a, 0), y(b, 1);
    if (!threads::run(l, seg, [&] { x.run(); }, [&] { y.run(); })) mc::skip(); // it is another schedule
    CHECK(x.log == A.log, "thread one (history %d, with %d in the other, stopped after%s steps) sees %s; by itself: %s", a, b, plan.c_str(), show(x.log, 3000).c_str(), show(A.log, 3000).c_str());
    CHECK(y.log == B.log, "thread two (history %d, with %d in the other, stopped after%s steps) sees %s; by itself: %s", b, a, plan.c_str(), show(y.log, 3000).c_str(), show(B.log, 3000).c_str());
    mc::step(A.steps[l] + B.steps[l]);
    uint64_t h = mc::hash(plan, a * 16 + b);
    mc::state(h);
    mc::outcome(mc::hash(x.log, mc::hash(y.log)));
}
} // namespace

SPACE(C16, accesses, "two threads with every pair of six histories; the first one is stopped at every memory access of the library, and the other one runs to its end in between")
{
    two(threads::FINE, 1);
}

SPACE(C16, calls, "two threads with every pair of six histories; every schedule with two preemptions (thorough: three) at operations, system calls and accesses to global variables")
{
    two(threads::COARSE, mc::tier(2, 3));
}

SPACE_THOROUGH(C16, functions, "two threads with every pair of six histories; every schedule with two preemptions at the entry or exit of every function of the library")
{
    two(threads::CALLS, 2);
}

// --- one thread, several objects -------------------------------------------------------------
namespace {

// A tag and its file, both APIs, and values that calls returned and that are still in use
struct Object
{
    int who;
    Str file, expected;
    ID3v2_Tag* t = nullptr;
    Tag M;
    ID3v2_tag* c = nullptr; // the third object has only this one
    Tag C;

    void start_(int w)
    {
        who = w;
        file = path(w == 0 ? "one" : w == 1 ? "two" : "three");
        const Base& b = bases()[w == 0 ? 2 : w == 1 ? 6 : 1];
        expected = b.bytes + Str(w == 0 ? "audio" : w == 1 ? "other audio data" : "x");
        put_file(file, expected);
        if (w < 2)
            t = start(b, M);
        else
        {
            c = load_tag(file.c_str());
            CHECK(c, "no tag was loaded");
            C = b.model;
        }
    }
    static const int MAIN = 9, OLD = 6;
    int ops() const { return who < 2 ? MAIN : OLD; }

    struct Held
    {
        char* p;
        Str v;
        bool free_it;
    };
    std::vector<Held> held;
    ID3v2_FrameList* list = nullptr;
    std::vector<Frame> list_v;
    ID3v2_TagHeader* h = nullptr;
    unsigned h_size = 0;
    ID3v2_frame_text_content* tc = nullptr;
    Str tc_v;

    void apply(int k)
    {
        mc::op("object %d: operation %d", who, k);
        const char* f = file.c_str();
        Str v = who == 0 ? "first" : who == 1 ? "the second" : "third one";
        if (who < 2) switch (k)
            {
                case 0: set_named(t, M, 2, latin(v)); break;
                case 1: set_comment_frame(t, M, true, who ? "spa" : "eng", latin("d"), utf16(v)); break;
                case 2: del_apic_at(t, M, 0); break;
                case 3:
                    ID3v2_write_tag(f, t);
                    M.written();
                    expected = wire_of(M) + audio_of(expected);
                    break;
                case 4:
                {
                    drop_list();
                    ID3v2_Tag* u = ID3v2_read_tag(f);
                    CHECK(!u == !supported(expected), "a tag is %s", u ? "found" : "not found");
                    if (u)
                    {
                        ID3v2_Tag_free(t);
                        t = u;
                        M = observe(parse_once(expected)).t;
                    }
                    break;
                }
                case 5:
                    ID3v2_delete_tag(f);
                    expected = audio_of(expected);
                    break;
                case 6:
                {
                    Str s = latin(v);
                    char* u = ID3v2_to_unicode(&s[0]);
                    held.push_back({u, utf16(v), true});
                    break;
                }
                case 7:
                    drop_list();
                    list = ID3v2_Tag_get_comment_frames(t);
                    list_v.clear();
                    for (auto& x : M.f)
                        if (x.id == "COMM") list_v.push_back(x);
                    break;
                case 8:
                    if (h) ID3v2_TagHeader_free(h);
                    h = ID3v2_read_tag_header(f);
                    h_size = h ? h->tag_size : 0;
                    break;
            }
        else switch (k)
            {
                case 0:
                    compat::set(c, 0, latin(v));
                    C.set(text_frame("TIT2", latin(v)));
                    drop_tc();
                    break;
                case 1:
                    compat::set(c, 7, utf16(v));
                    C.set(comment_frame("eng", utf16(""), utf16(v)));
                    break;
                case 2:
                    compat::cover(c, latin("image/png"), v);
                    C.set(apic_frame(latin("image/png"), 3, utf16(""), v));
                    break;
                case 3:
                    set_tag(f, c);
                    C.written();
                    expected = wire_of(C) + audio_of(expected);
                    break;
                case 4:
                    remove_tag(f);
                    expected = audio_of(expected);
                    break;
                case 5:
                {
                    drop_tc();
                    ID3v2_frame* x = tag_get_title(c);
                    CHECK(x, "no title");
                    tc = parse_text_frame_content(x);
                    tc_v = Str(tc->data, tc->size);
                    break;
                }
            }
    }
    // a comment list keeps the frames of the tag: it only lives until they are edited
    void drop_list()
    {
        if (list) ID3v2_FrameList_unlink(list);
        list = nullptr;
    }
    void drop_tc()
    {
        if (!tc) return;
        free(tc->data);
        free(tc);
        tc = nullptr;
    }
    static ID3v2_Tag* parse_once(const Str& b)
    {
        static ID3v2_Tag* last;
        if (last) ID3v2_Tag_free(last);
        return last = parse(b);
    }
    void check(const char* when)
    {
        char w[100];
        snprintf(w, sizeof w, "%s, object %d", when, who);
        if (t) same(t, M, ALL & ~TAGSIZE, w);
        Str now = read_file(file);
        CHECK(now == expected, "%s: the file has %zu bytes [%s], expected %zu [%s]", w, now.size(), show(now, 200).c_str(), expected.size(), show(expected, 200).c_str());
        if (c)
            for (int i : {0, 1, 7, 10})
            {
                int at = C.find(compat::ID[i]);
                ID3v2_frame* f = compat::get(c, i);
                CHECK(!f == (at < 0), "%s: the getter of %s %s", w, compat::ID[i], f ? "returns a frame" : "returns NULL");
                if (!f) continue;
                Frame x = compat::content(f, i);
                CHECK(x == C.f[at], "%s: %s, expected %s", w, x.show().c_str(), C.f[at].show().c_str());
            }
        for (auto& x : held) CHECK(Str(x.p, x.v.size()) == x.v, "%s: the unicode string a call returned is now [%s], it was [%s]", w, show(Str(x.p, x.v.size())).c_str(), show(x.v).c_str());
        if (h) CHECK(h->tag_size == h_size && !memcmp(h->identifier, "ID3", 3), "%s: a header that was read changed", w);
        if (list)
        {
            size_t n = 0;
            for (auto* l = list; l && l->frame; l = l->next, n++)
            {
                CHECK(n < list_v.size(), "%s: the list of comments grew", w);
                CHECK(observe(l->frame) == list_v[n], "%s: comment %zu of the list changed", w, n);
            }
            CHECK(n == list_v.size(), "%s: the list of comments has %zu frames, it had %zu", w, n, list_v.size());
        }
        if (tc) CHECK(Str(tc->data, tc->size) == tc_v, "%s: the parsed content of a frame changed", w);
        mc::step();
    }
    void end()
    {
        drop_list();
        drop_tc();
        for (auto& x : held) free(x.p);
        if (h) ID3v2_TagHeader_free(h);
        if (t) ID3v2_Tag_free(t);
        if (c) free_tag(c);
    }
};
} // namespace

SPACE(C16, objects, "every sequence of up to four (thorough: five) operations on two tags of the main API and one of the old one, each with its file: all of them, and the values still held, are compared with the model of each object after every operation")
{
    static bool once = (mallopt(M_PERTURB, 0xA5), true);
    (void) once;
    Object o[3];
    for (int i = 0; i < 3; i++) o[i].start_(i);
    int n = mc::tier(4, 5);
    for (int i = 0; i < n; i++)
    {
        int k = mc::choose(2 * Object::MAIN + Object::OLD);
        int w = k < Object::MAIN ? 0 : k < 2 * Object::MAIN ? 1 : 2;
        o[w].apply(k - w * Object::MAIN);
        char when[60];
        snprintf(when, sizeof when, "after operation %d of object %d", k - w * Object::MAIN, w);
        for (auto& x : o) x.check(when);
        uint64_t h = 0;
        for (auto& x : o) h = mc::hash(x.expected, mc::hash(&h, 8, x.M.hash() ^ x.C.hash() * 31));
        mc::state(h);
    }
    uint64_t h = 0;
    for (auto& x : o) h = mc::hash(x.expected, h);
    mc::outcome(h);
    for (auto& x : o) x.end();
}

SPACE(C16, neighbours, "every call on a file, while someone else has a file with any of the names that the call creates, replaces or removes (every one, and every pair): that file stays as it was")
{
    using sysio::Call;
    if (chdir(mc::scratch().c_str())) abort();
    int kind = mc::choose(Rewrite::KINDS + 4);
    static const size_t A[] = {0, 10, 5000, 70000};
    Rewrite r(kind < Rewrite::KINDS ? kind : 2, pattern(2, mc::pick(A)));
    if (mc::choose(2)) r.file = "f"; // in the current directory
    std::map<Str, Str> others;
    Str before = listing();
    mc::deviations(2);
    int calls = 0;
    sysio::run(
        [&](Call& c) -> long {
            if (++calls > 20000) mc::violation("more than 20000 system calls");
            if (c.kind != sysio::OPEN && c.kind != sysio::RENAME && c.kind != sysio::UNLINK) return 0;
            if (c.kind == sysio::OPEN && c.nr != SYS_creat && !((c.nr == SYS_open ? c.a[1] : c.a[2]) & O_CREAT)) return 0;
            struct stat st;
            if (c.path == r.file || stat(c.path.c_str(), &st) == 0 || others.count(c.path)) return 0;
            if (!mc::choose_dev(2)) return 0;
            mc::op("  someone else has a file %s", c.path.c_str());
            Str v = "the file of someone else at " + c.path;
            put_file(c.path, v);
            others[c.path] = v;
            return 0;
        },
        [](Call&, long) {},
        [&] {
            const char* f = r.file.c_str();
            if (kind < Rewrite::KINDS) r.call();
            else if (kind == Rewrite::KINDS)
            {
                if (auto* h = ID3v2_read_tag_header(f)) ID3v2_TagHeader_free(h);
            }
            else if (kind == Rewrite::KINDS + 1)
            {
                if (auto* t = ID3v2_read_tag(f)) ID3v2_Tag_free(t);
            }
            else
            {
                ID3v2_tag* t = kind == Rewrite::KINDS + 2 ? load_tag(f) : new_tag();
                if (t && kind != Rewrite::KINDS + 2) tag_set_album_cover(f, t);
                if (t) free_tag(t);
            }
        }
    );
    mc::step(calls);
    for (auto& x : others)
    {
        Str now;
        CHECK(get_file(x.first, now) && now == x.second, "the file %s of someone else was changed or removed: [%s]", x.first.c_str(), show(now).c_str());
        unlink(x.first.c_str());
    }
    CHECK(listing() == before, "there are other files than before: %s", show(listing(), 100).c_str());
    Str now = read_file(r.file);
    if (kind < Rewrite::KINDS) CHECK(now == r.after || (!others.empty() && now == r.before), "%s: the file has %zu bytes, expected %zu", r.name(), now.size(), r.after.size());
    else CHECK(now == r.before, "a call that only reads changed the file");
    mc::state(mc::hash(now, others.size()));
    mc::outcome(mc::hash(&calls, sizeof calls, kind));
    r.release();
    if (chdir("/")) abort();
}

SPACE(C16, crowd, "up to 300 (thorough: 3000) objects of every kind alive at the same time, edited in order or in the opposite one, written, read and checked: each one is still itself")
{
    std::vector<int> N;
    for (int i = 1; i <= 20; i++) N.push_back(i);
    for (int i : {31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300}) N.push_back(i);
    if (mc::thorough()) for (int i : {1000, 1024, 1025, 3000}) N.push_back(i);
    int n = mc::pick(N);
    bool reversed = mc::choose(2), files = mc::choose(2);
    struct One
    {
        ID3v2_Tag* t;
        Tag M;
        ID3v2_TagHeader* h;
        ID3v2_FrameList* l;
        char* u;
        Str us, file;
        ID3v2_tag* c;
        ID3v2_frame_text_content* tc;
        Str expected;
    };
    std::vector<One> o(n);
    auto each = [&](auto f) {
        for (int i = 0; i < n; i++) f(o[reversed ? n - 1 - i : i], reversed ? n - 1 - i : i);
    };
    for (int i = 0; i < n; i++)
    {
        One& x = o[i];
        Str v = "object " + std::to_string(i);
        x.t = start(bases()[i % 3 == 0 ? 0 : i % 3 == 1 ? 2 : 6], x.M);
        set_named(x.t, x.M, i % 9, i & 1 ? latin(v) : utf16(v));
        set_comment_frame(x.t, x.M, true, "eng", latin(v), latin("comment of " + v));
        Str s = latin(v);
        x.u = ID3v2_to_unicode(&s[0]);
        x.us = utf16(v);
        x.l = ID3v2_Tag_get_comment_frames(x.t);
        x.c = new_tag();
        compat::set(x.c, 0, latin(v));
        x.tc = parse_text_frame_content(tag_get_title(x.c));
        x.h = nullptr;
        if (files || i == 0)
        {
            x.file = path(("f" + std::to_string(i)).c_str());
            x.expected = "audio " + v;
            put_file(x.file, x.expected);
        }
    }
    each([&](One& x, int i) {
        Str v = "object " + std::to_string(i);
        Frame last;
        for (auto& f : x.M.f) if (f.id == "COMM") last = f;
        ID3v2_FrameList* l = x.l;
        CHECK(l && l->frame, "the list of comments of object %d of %d is empty", i, n);
        while (l->next) l = l->next;
        CHECK(observe(l->frame) == last, "the list of comments of object %d of %d is of another one", i, n);
        ID3v2_FrameList_unlink(x.l);
        set_named(x.t, x.M, (i + 1) % 9, latin("again " + v));
        set_cover(x.t, x.M, latin("image/png"), v);
        if (x.file.empty()) return;
        ID3v2_write_tag(x.file.c_str(), x.t);
        x.M.written();
        x.expected = wire_of(x.M) + x.expected;
        x.h = ID3v2_read_tag_header(x.file.c_str());
    });
    each([&](One& x, int i) {
        Str v = "object " + std::to_string(i);
        same(x.t, x.M, FRAMES | SIZES, "one of many tags");
        CHECK(Str(x.u, x.us.size()) == x.us, "the unicode string %d of %d is another one", i, n);
        CHECK(Str(x.tc->data, x.tc->size) == latin(v), "the parsed content %d of %d is another one", i, n);
        Frame f = compat::content(tag_get_title(x.c), 0);
        CHECK(f.text == latin(v), "the title of the tag of the old API %d of %d is %s", i, n, f.show().c_str());
        mc::step(4);
        if (x.file.empty()) return;
        Str b = read_file(x.file);
        CHECK(b == x.expected, "the file %d of %d has %zu bytes, expected %zu", i, n, b.size(), x.expected.size());
        CHECK(x.h && x.h->tag_size == x.t->header->tag_size, "the header of file %d of %d is of another one", i, n);
        ID3v2_Tag* r = ID3v2_read_tag(x.file.c_str());
        CHECK(r, "no tag is found in file %d of %d", i, n);
        ID3v2_Tag_free(x.t);
        x.t = r;
    });
    each([&](One& x, int) {
        same(x.t, x.M, FRAMES | SIZES, "one of many tags, at the end");
        ID3v2_Tag_free(x.t);
        if (x.h) ID3v2_TagHeader_free(x.h);
        free(x.u);
        free(x.tc->data);
        free(x.tc);
        free_tag(x.c);
        if (!x.file.empty()) unlink(x.file.c_str());
    });
    mc::state(n * 4 + reversed * 2 + files);
    mc::outcome(n);
}

SPACE(C16, twins, "two tags that hold the same values, short or long, set or read from the same bytes: what is done to one of them, its end included, does not change the other")
{
    static bool once = (mallopt(M_PERTURB, 0xA5), true);
    (void) once;
    two_tags(mc::choose(2));
}
