// C18: results depend only on the inputs.
// The same calls run several times over memory (heap and stack) that holds something else each time,
// at other addresses, with another errno, locale, mask and directory, and after other work. Everything observable must be equal.
#include "compat.hpp"
#include "scenario.hpp"
#include <alloca.h>
#include <errno.h>
#include <fcntl.h>
#include <locale.h>
#include <malloc.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
using namespace m;

namespace {
int fill = -1; // byte that all memory holds, or -1: leave it alone
size_t shift;  // extra bytes, so that addresses and neighbours change
int world;     // the clocks, the process and the variables of the environment are others in each one
bool other() { return fill >= 0 && mc::in_library && world; }

__attribute__((noinline)) void scribble_stack()
{
    char* p = (char*) alloca(48 * 1024);
    memset(p, fill, 48 * 1024);
    asm volatile("" : : "r"(p) : "memory");
}

void enter()
{
    if (fill < 0) return;
    scribble_stack();
    errno = fill;
}
} // namespace

extern "C" {
time_t __real_time(time_t*);
time_t __wrap_time(time_t* p)
{
    time_t t = __real_time(NULL) + (other() ? world * 40000000L + 12345 : 0);
    if (p) *p = t;
    return t;
}
clock_t __real_clock();
clock_t __wrap_clock() { return __real_clock() + (other() ? world * 1234567L : 0); }
int __real_gettimeofday(struct timeval*, void*);
int __wrap_gettimeofday(struct timeval* p, void* z)
{
    int r = __real_gettimeofday(p, z);
    if (other()) p->tv_sec += world * 40000000L + 12345, p->tv_usec = (p->tv_usec + world) % 1000000;
    return r;
}
int __real_clock_gettime(clockid_t, struct timespec*);
int __wrap_clock_gettime(clockid_t c, struct timespec* p)
{
    int r = __real_clock_gettime(c, p);
    if (other()) p->tv_sec += world * 40000000L + 12345;
    return r;
}
pid_t __real_getpid();
pid_t __wrap_getpid() { return __real_getpid() + (other() ? world * 7 : 0); }
pid_t __real_getppid();
pid_t __wrap_getppid() { return __real_getppid() + (other() ? world * 3 : 0); }
uid_t __real_getuid();
uid_t __wrap_getuid() { return __real_getuid() + (other() ? world : 0); }
uid_t __real_geteuid();
uid_t __wrap_geteuid() { return __real_geteuid() + (other() ? world : 0); }
int __real_isatty(int);
int __wrap_isatty(int fd) { return other() ? world == 1 : __real_isatty(fd); }
char* __real_getenv(const char*);
char* __wrap_getenv(const char* s)
{
    char* r = __real_getenv(s);
    // where files go is not touched
    if (r || !other() || strstr(s, "TMP") || strstr(s, "TEMP") || strstr(s, "DIR") || strstr(s, "HOME") || strstr(s, "PATH")) return r;
    return world == 1 ? (char*) "1" : (char*) "no";
}

void* __real_malloc(size_t);
void* __real_realloc(void*, size_t);
void __real_free(void*);

void* __wrap_malloc(size_t n)
{
    if (fill < 0 || !mc::in_library) return __real_malloc(n);
    char* p = (char*) __real_malloc(n + shift);
    if (p) memset(p, fill, malloc_usable_size(p));
    return p;
}
void* __wrap_calloc(size_t a, size_t b)
{
    size_t n;
    if (__builtin_mul_overflow(a, b, &n)) return NULL;
    void* p = __wrap_malloc(n);
    if (p) memset(p, 0, n); // what follows the block is not zero
    return p;
}
void* __wrap_realloc(void* q, size_t n)
{
    if (fill < 0 || !mc::in_library) return __real_realloc(q, n);
    char* p = (char*) __wrap_malloc(n);
    if (p && q)
    {
        memcpy(p, q, std::min(n, malloc_usable_size(q)));
        __real_free(q);
    }
    return p;
}
void __wrap_free(void* p)
{
    if (p && fill >= 0 && mc::in_library) memset(p, fill, malloc_usable_size(p));
    __real_free(p);
}
char* __wrap_strdup(const char* s)
{
    size_t n = strlen(s) + 1;
    return (char*) memcpy(__wrap_malloc(n), s, n);
}
char* __wrap_strndup(const char* s, size_t m)
{
    size_t n = strnlen(s, m);
    char* p = (char*) __wrap_malloc(n + 1);
    memcpy(p, s, n);
    p[n] = 0;
    return p;
}
}

namespace {
// What can be seen, as text
struct Log
{
    Str s;
    void num(const char* k, long v) { s += Str(k) + "=" + std::to_string(v) + " "; }
    void bytes(const char* k, const char* p, long n)
    {
        num(k, n);
        if (n > 0 && n < (1 << 24) && p) s += "[" + Str(p, n) + "] ";
    }
    void frame(ID3v2_Frame* f)
    {
        if (!f || !f->header)
        {
            s += "no frame ";
            return;
        }
        Str id(f->header->id, 4);
        bytes("id", id.data(), 4);
        bytes("flags", f->header->flags, 2);
        num("size", f->header->size);
        char k = kind_of(id);
        if (k == 'T')
        {
            auto* d = ((ID3v2_TextFrame*) f)->data;
            num("enc", d->encoding);
            bytes("text", d->text, d->size);
        }
        else if (k == 'C')
        {
            auto* d = ((ID3v2_CommentFrame*) f)->data;
            num("enc", d->encoding);
            bytes("lang", d->language, 3);
            bytes("desc", d->short_description, f->header->size - 4 - d->size);
            bytes("comment", d->comment, d->size);
        }
        else if (k == 'A')
        {
            auto* d = ((ID3v2_ApicFrame*) f)->data;
            num("enc", d->encoding);
            num("type", d->picture_type);
            long mime = strlen(d->mime_type) + 1;
            if (has_bom(Str(d->mime_type, std::min(mime, 2l)))) mime = ID3v2_strlent(d->mime_type);
            bytes("mime", d->mime_type, mime);
            bytes("desc", d->description, f->header->size - 2 - mime - d->picture_size);
            bytes("picture", d->data, d->picture_size);
        }
        else
            bytes("data", (char*) f->data, f->header->size);
    }
    void header(ID3v2_TagHeader* h)
    {
        if (!h)
        {
            s += "no header ";
            return;
        }
        bytes("mark", h->identifier, 3);
        num("major", h->major_version);
        num("minor", h->minor_version);
        num("flags", h->flags);
        num("size", h->tag_size);
        num("ext", h->extended_header_size);
    }
    void tag(ID3v2_Tag* t)
    {
        if (!t)
        {
            s += "no tag ";
            return;
        }
        header(t->header);
        num("padding", t->padding_size);
        for (auto* l = t->frames; l && l->frame; l = l->next) frame(l->frame);
        auto* l = ID3v2_Tag_get_comment_frames(t);
        for (auto* x = l; x && x->frame; x = x->next) s += "c";
        ID3v2_FrameList_unlink(l);
        s += "\n";
    }
    void file(const Str& p)
    {
        Str b;
        bool there = get_file(p, b);
        num("there", there);
        s += "file " + std::to_string(b.size()) + " [" + b + "]\n";
    }
    void old(ID3v2_tag* t)
    {
        if (!t)
        {
            s += "no old tag ";
            return;
        }
        auto* h = t->tag_header;
        bytes("mark", h->tag, 3);
        num("major", h->major_version);
        num("minor", h->minor_version);
        num("flags", h->flags);
        num("size", h->tag_size);
        num("ext", h->extended_header_size);
        for (auto* l = t->frames; l && l->frame; l = l->next)
        {
            bytes("id", l->frame->frame_id, 4);
            bytes("flags", l->frame->flags, 2);
            bytes("data", l->frame->data, l->frame->size);
        }
        for (int w = 0; w < compat::COUNT; w++)
        {
            ID3v2_frame* f = compat::get(t, w);
            num("got", f != NULL);
            if (!f) continue;
            if (w == 7)
            {
                auto* c = parse_comment_frame_content(f);
                num("enc", c->text->encoding);
                bytes("lang", c->language, 3);
                bytes("text", c->text->data, c->text->size);
                free(c->text);
                free(c);
            }
            else if (w == 10)
            {
                auto* c = parse_apic_frame_content(f);
                num("enc", c->encoding);
                num("type", c->picture_type);
                bytes("data", c->data, c->picture_size);
                free(c);
            }
            else
            {
                auto* c = parse_text_frame_content(f);
                num("enc", c->encoding);
                bytes("text", c->data, c->size);
                free(c->data);
                free(c);
            }
        }
        s += "\n";
    }
};

// Work on other objects
void prelude(int k)
{
    if (k == 0) return;
    Tag M;
    Str f = path("prelude");
    put_file(f, pattern(0, 700) + Str(k * 100, 'p'));
    ID3v2_Tag* t = start(bases()[k == 1 ? 2 : 9], M);
    Tag dummy;
    set_comment_frame(t, dummy, true, "xxx", utf16("something else"), utf16(Str(300, 'o')), Str("\x55\x55", 2));
    set_apic_frame(t, dummy, true, latin("image/other"), 9, latin("other"), pattern(1, 900), Str("\x77\x77", 2));
    set_text(t, dummy, "TOPE", latin(Str(200, 't')), Str("\x66\x66", 2));
    ID3v2_write_tag(f.c_str(), t);
    ID3v2_Tag* u = ID3v2_read_tag(f.c_str());
    if (k == 2) ID3v2_Tag_free(t);
    ID3v2_delete_tag(f.c_str());
    if (u) ID3v2_Tag_free(u);
    if (k == 1) ID3v2_Tag_free(t);
    ID3v2_tag* c = new_tag();
    compat::set(c, 7, latin("old api"));
    free_tag(c);
    ID3v2_read_tag("/nonexistent/x");
}

// What a process has around it
void environment(size_t i)
{
    setlocale(LC_ALL, i == 1 ? "C.UTF-8" : "C");
    umask(i == 1 ? 077 : 022);
    if (chdir(i == 1 ? mc::scratch().c_str() : "/")) abort();
    setenv("TZ", i == 1 ? "EST5" : "UTC", 1);
    srand(i + 1);
    srandom(i + 1);
    world = i;
    setenv("LANG", i == 2 ? "tr_TR.UTF-8" : "C", 1);
    // some run without a standard input, so that the first file they open takes its place
    static const int in = fcntl(0, F_DUPFD_CLOEXEC, 100);
    if (i == 1) close(0);
    else if (in >= 0) dup2(in, 0);
    // some have files open already, so that those of the library get other numbers
    static int busy[9];
    for (int& fd : busy)
    {
        if (fd > 0) close(fd);
        fd = i == 2 ? open("/dev/null", O_RDONLY | O_CLOEXEC) : 0;
    }
}

// What a file has besides its contents: dates and permissions
void surroundings(const Str& p)
{
    static const timespec when[][2] = {{{1000000001, 5}, {1000000002, 0}}, {{1500000004, 0}, {1500000003, 7}}, {{4, 0}, {7, 0}}, {{2100000000, 1}, {2000000001, 999999999}}};
    static const mode_t mode[] = {0600, 0644, 0777, 0640};
    utimensat(AT_FDCWD, p.c_str(), when[world], 0);
    chmod(p.c_str(), mode[world]);
}

// Runs the calls over different memory and compares what can be seen
template <class F> void repeat(F run)
{
    static const struct
    {
        int fill;
        size_t shift;
        int prelude;
    } worlds[] = {{0x00, 0, 0}, {0xFF, 16, 1}, {0xA5, 72, 2}, {0x01, 8, 0}};
    Str first;
    mc::Tape tape;
    struct Off
    {
        ~Off() { mc::tape = nullptr; }
    } off;
    for (size_t i = 0; i < (mc::thorough() ? 4 : 3); i++)
    {
        fill = worlds[i].fill;
        shift = worlds[i].shift;
        mc::on_enter = enter;
        m::after_put = surroundings;
        prelude(worlds[i].prelude);
        environment(i);
        Log l;
        mc::tape = &tape;
        tape.play = i > 0;
        tape.pos = 0;
        run(l);
        mc::tape = nullptr;
        environment(0);
        mc::on_enter = nullptr;
        m::after_put = nullptr;
        fill = -1;
        mc::step();
        if (i == 0)
        {
            first = l.s;
            mc::state(mc::hash(first));
            mc::outcome(mc::hash(first));
        }
        else if (l.s != first)
        {
            size_t k = 0;
            while (k < first.size() && k < l.s.size() && first[k] == l.s[k]) k++;
            size_t from = k > 60 ? k - 60 : 0;
            mc::violation("the results depend on what memory held before, or on previous work (0x%02x and 0x%02x): [%s] and [%s]", worlds[0].fill, worlds[i].fill,
                          show(first.substr(from, 160), 160).c_str(), show(l.s.substr(from, 160), 160).c_str());
        }
    }
}

// Write, read, delete
void cycle(Log& l, ID3v2_Tag* t, const Str& before)
{
    Str f = path("f");
    put_file(f, before);
    l.tag(t);
    ID3v2_write_tag(f.c_str(), t);
    l.file(f);
    l.tag(t);
    ID3v2_TagHeader* h = ID3v2_read_tag_header(f.c_str());
    l.header(h);
    if (h) ID3v2_TagHeader_free(h);
    ID3v2_Tag* u = ID3v2_read_tag(f.c_str());
    l.tag(u);
    if (u) ID3v2_Tag_free(u);
    ID3v2_delete_tag(f.c_str());
    l.file(f);
}

void read_all(Log& l, const Str& b)
{
    Str f = path("f");
    put_file(f, b);
    ID3v2_Tag* t = ID3v2_read_tag(f.c_str());
    ID3v2_TagHeader* h = ID3v2_read_tag_header(f.c_str());
    l.header(h);
    if (h) ID3v2_TagHeader_free(h);
    ID3v2_tag* c = load_tag(f.c_str());
    l.old(c);
    if (c) free_tag(c);
    ID3v2_Tag* u = parse(b);
    l.tag(u);
    if (u) ID3v2_Tag_free(u);
    l.tag(t);
    if (t)
    {
        Tag dummy;
        edit(t, dummy, 5);
        edit(t, dummy, 2);
        ID3v2_write_tag(f.c_str(), t);
        l.tag(t);
        ID3v2_Tag_free(t);
        l.file(f);
    }
    ID3v2_delete_tag(f.c_str());
    l.file(f);
}
} // namespace

SPACE(C18, edits, "every starting tag and every sequence of edits up to the depth, written, read and deleted, over three kinds of memory and previous work")
{
    const Base& b = mc::pick(bases());
    int n = mc::tier(2, 3), e[3] = {};
    for (int i = 0; i < n; i++) e[i] = mc::choose(edit_count());
    repeat([&](Log& l) {
        Tag M;
        ID3v2_Tag* t = start(b, M);
        l.tag(t);
        for (int i = 0; i < n; i++)
        {
            edit(t, M, e[i]);
            l.tag(t);
        }
        cycle(l, t, b.bytes + "audio");
        ID3v2_Tag_free(t);
    });
}

SPACE(C18, truncated, "every prefix of every starting tag, read in all the ways by both APIs, edited, written and deleted")
{
    const Base& x = mc::pick(bases());
    Str b = x.bytes.substr(0, mc::choose(std::min<size_t>(x.bytes.size(), 450) + 1));
    mc::op("[%s]", show(b, 100).c_str());
    repeat([&](Log& l) { read_all(l, b); });
}

SPACE(C18, corrupted, "every byte of the starting tags replaced by 10 (thorough: all) values, read in all the ways by both APIs, edited, written and deleted")
{
    const Base& x = mc::pick(bases());
    if (x.bytes.empty()) return mc::skip();
    Str b = x.bytes;
    int i = mc::choose(std::min<size_t>(b.size(), 300));
    static const unsigned char v[] = {0, 1, 2, 3, 0x7f, 0x80, 0xff, 0xfe, 'T', 0x10};
    int c = mc::thorough() ? mc::choose(256) : v[mc::choose(10)];
    if (i >= 6 && i < 8 && c > 1) return mc::skip();
    b[i] = (char) c;
    mc::op("[%s]", show(b, 100).c_str());
    repeat([&](Log& l) { read_all(l, b + "audio"); });
}

SPACE(C18, lengths, "strings and pictures of every length up to 300 and around every size boundary, in both APIs")
{
    static const std::vector<size_t> L = lengths(300, false);
    size_t n = mc::pick(L);
    int enc = mc::choose(3), field = mc::choose(n > 5000 && !mc::thorough() ? 1 : 4), base = mc::choose(2);
    repeat([&](Log& l) {
        Tag M;
        ID3v2_Tag* t = start(version(base), M);
        Str s = string_of(enc, n), small = enc ? utf16("s", enc == 2) : latin("s");
        if (field == 0) set_named(t, M, 2, s);
        if (field == 1) set_comment_frame(t, M, true, "eng", small, s);
        if (field == 2) set_comment_frame(t, M, true, "eng", s, small);
        if (field == 3) set_apic_frame(t, M, true, latin(Str(n % 100, 'm')), 3, s, pattern(enc, n));
        set_cover(t, M, latin("image/png"), pattern(enc, n));
        cycle(l, t, "audio");
        ID3v2_Tag_free(t);
        In x(s);
        char* u = ID3v2_to_unicode(x);
        l.bytes("unicode", u, ID3v2_strlent(u));
        if (u != x.p) free(u);
    });
}

SPACE(C18, shapes, "every string of up to three (thorough: four) units over the bytes that could be mistaken for something, in every argument")
{
    static const char iso[] = {'\x01', '\x02', 'a', '\xfe', '\xff'};
    static const Str units[] = {Str("\x01\x00", 2), Str("\x00\x01", 2), Str("\xff\xfe", 2), Str("\xfe\xff", 2), Str("aa", 2)};
    int enc = mc::choose(2), n = mc::choose(mc::tier(4, 5)), base = mc::choose(2);
    Str s = enc ? "\xFF\xFE" : "";
    for (int i = 0; i < n; i++)
        if (enc) s += mc::pick(units);
        else s += mc::pick(iso);
    if (!enc && has_bom(s)) return mc::skip();
    s += Str(enc ? 2 : 1, '\0');
    repeat([&](Log& l) {
        Tag M;
        ID3v2_Tag* t = start(version(base), M);
        set_named(t, M, 2, s);
        set_comment(t, M, "eng", s);
        set_comment_frame(t, M, true, "eng", s, s);
        set_apic_frame(t, M, true, latin("image/png"), 1, s, s);
        cycle(l, t, "audio");
        ID3v2_Tag_free(t);
        In x(s);
        l.num("strlen", ID3v2_strlen(x));
        char* u = ID3v2_to_unicode(x);
        l.bytes("unicode", u, ID3v2_strlent(u));
        if (u != x.p) free(u);
    });
}

SPACE(C18, audio, "files of every length up to 300 with and without tag, written and deleted")
{
    size_t n = mc::choose(301);
    int kind = mc::choose(5), with = mc::choose(3);
    static const int which[] = {0, 2, 10};
    const Base& b = bases()[which[with]];
    repeat([&](Log& l) {
        Tag M;
        ID3v2_Tag* t = start(bases()[1], M);
        cycle(l, t, b.bytes + pattern(kind, n));
        ID3v2_Tag_free(t);
        Str f = path("g");
        put_file(f, b.bytes + pattern(kind, n));
        ID3v2_delete_tag(f.c_str());
        l.file(f);
    });
}

SPACE(C18, compat, "every sequence of up to three (thorough: four) calls of the old API, written and loaded")
{
    const Base& b = bases()[std::vector<int>{0, 2, 6}[mc::choose(3)]];
    int n = mc::tier(3, 4), e[4] = {};
    for (int i = 0; i < n; i++) e[i] = mc::choose(12);
    put_file(path("c.png"), pattern(0, 77));
    repeat([&](Log& l) {
        Str f = path("f");
        put_file(f, b.bytes + "audio");
        ID3v2_tag* t = b.bytes.empty() ? new_tag() : load_tag(f.c_str());
        l.old(t);
        for (int i = 0; i < n; i++)
        {
            if (e[i] < 10) compat::set(t, e[i], i & 1 ? utf16("value") : latin("v"));
            else if (e[i] == 10) compat::cover(t, latin("image/png"), pattern(1, 40));
            else
            {
                In x(latin(path("c.png")));
                tag_set_album_cover(x, t);
            }
            l.old(t);
        }
        set_tag(f.c_str(), t);
        l.file(f);
        free_tag(t);
        t = load_tag(f.c_str());
        l.old(t);
        if (t) free_tag(t);
    });
}

SPACE(C18, named, "every pair of named setters with strings of every kind, and the deletion of the first one, in both versions and both APIs")
{
    static const Str S[] = {latin("value"), utf16("value"), utf16("value", true), latin(""), utf16("")};
    int a = mc::choose(9), b = mc::choose(9), base = mc::choose(2), del = mc::choose(2);
    const Str &s = mc::pick(S), &z = S[mc::choose(2)];
    repeat([&](Log& l) {
        Tag M;
        ID3v2_Tag* t = start(version(base), M);
        set_named(t, M, a, s);
        set_named(t, M, b, z);
        if (del) del_named(t, M, a);
        cycle(l, t, "audio");
        ID3v2_Tag_free(t);
    });
}

SPACE(C18, ids, "frames of every id of the standards, twice in a tag, read in all the ways by both APIs, edited, written and deleted")
{
    Str id = standard_id();
    Base b = id_tag(3 + mc::choose(2), id, mc::choose(3));
    mc::op("id %s", id.c_str());
    repeat([&](Log& l) { read_all(l, b.bytes + "audio"); });
}

static void any(ID3v2_Tag* (*make)(Tag&))
{
    repeat([&](Log& l) {
        Tag M;
        ID3v2_Tag* t = make(M);
        if (!t) return;
        cycle(l, t, "audio");
        ID3v2_Tag_free(t);
    });
}

SPACE(C18, values, "values that mean something to other programs, in every field, with every kind of string: numbers of tracks, years, genres, MIME types, languages, descriptions, pictures of every format")
{
    any(any_value);
}

SPACE(C18, bytes, "every byte value in every field: texts, comments, descriptions, MIME types, languages, flags, picture types and pictures")
{
    any(any_byte);
}

SPACE(C18, pictures, "every picture of up to four (thorough: five) bytes over 00 01 FF FE and the letters of ids, with every kind of description")
{
    any(any_picture);
}

SPACE(C18, many, "tags with every number of frames up to 130 and around 255, 1000 and 4096, of every kind")
{
    any(any_number);
}

SPACE(C18, replacements, "frames of each kind, set or read, replaced by one that differs in every subset of its fields (the same one included), with values of the same length or not")
{
    any(any_replacement);
}

// Things that may have been done before with other objects, some of them failing
namespace {
const int BEFORE = 26;
void did(int k)
{
    Tag dummy;
    Str f = path("other");
    auto drop = [](ID3v2_Tag* t) { if (t) ID3v2_Tag_free(t); };
    auto with = [&](const Base& b, auto what) {
        ID3v2_Tag* t = start(b, dummy);
        what(t);
        ID3v2_Tag_free(t);
    };
    auto unicode = [](Str s) {
        char* u = ID3v2_to_unicode(&s[0]);
        ID3v2_strlen(u);
        ID3v2_strlent(&s[0]);
        if (u != &s[0]) free(u);
    };
    mc::op("before: %d", k);
    unlink(f.c_str());
    switch (k)
    {
        case 0: drop(ID3v2_read_tag("/nonexistent/x")); break;
        case 1: with(bases()[6], [&](ID3v2_Tag* t) { ID3v2_write_tag("/nonexistent/x", t); }); break;
        case 2: ID3v2_delete_tag("/nonexistent/x"); break;
        case 3: with(bases()[2], [&](ID3v2_Tag* t) { ID3v2_write_tag("/", t); }); break;
        case 4: drop(parse(bases()[2].bytes.substr(0, 40))); break;
        case 5: drop(parse(Str("ID3\x04\0\x40\0\0\x0f\x7f\x7f\x7f\x7f\x7f\x7fTIT2\xff\xff\xff\xff", 23))); break;
        case 6: drop(parse(Str("ID3\x02\0\0\0\0\0\x0aTT2\0\0\2\0a\0\0", 20))); break;
        case 7: unicode(latin(Str(5000, 'u'))); break;
        case 8: unicode(utf16("already", true)); break;
        case 9: with(bases()[0], [&](ID3v2_Tag* t) { set_cover(t, dummy, latin("image/gif"), Str(200000, 'p')); put_file(f, "x"); ID3v2_write_tag(f.c_str(), t); drop(ID3v2_read_tag(f.c_str())); }); break;
        case 10: with(bases()[0], [&](ID3v2_Tag* t) { for (int i = 0; i < 400; i++) set_comment_frame(t, dummy, true, "xyz", utf16("d", true), utf16("c", true)); }); break;
        case 11: with(bases()[6], [&](ID3v2_Tag* t) { for (int i = 0; i < 100; i++) edit(t, dummy, 8); }); break;
        case 12: with(bases()[6], [&](ID3v2_Tag* t) { del_frame(t, dummy, "NONE"); del_comment_at(t, dummy, 77); del_apic_at(t, dummy, -5); }); break;
        case 13: with(bases()[9], [&](ID3v2_Tag* t) { t->padding_size = 100000; put_file(f, "x"); ID3v2_write_tag(f.c_str(), t); }); break;
        case 14: with(bases()[9], [&](ID3v2_Tag* t) { put_file(f, bases()[10].bytes + "audio"); ID3v2_write_tag(f.c_str(), t); ID3v2_delete_tag(f.c_str()); ID3v2_delete_tag(f.c_str()); }); break;
        case 15:
        {
            ID3v2_tag* c = new_tag();
            tag_set_album_cover("/nonexistent/x.png", c);
            parse_text_frame_content(NULL);
            parse_comment_frame_content(NULL);
            parse_apic_frame_content(NULL);
            free_tag(c);
            break;
        }
        case 16:
        {
            ID3v2_tag* c = new_tag();
            for (int w = 0; w < 10; w++) compat::set(c, w, w & 1 ? utf16("x", true) : latin("y"));
            compat::cover(c, latin("image/gif"), "gif");
            put_file(f, "x");
            set_tag(f.c_str(), c);
            free_tag(c);
            c = load_tag(f.c_str());
            Log l;
            l.old(c);
            free_tag(c);
            remove_tag(f.c_str());
            break;
        }
        case 17: load_tag("/nonexistent/x"); break;
        case 18:
            put_file(f, bases()[6].bytes + "audio");
            for (int i = 0; i < 300; i++) ID3v2_TagHeader_free(ID3v2_read_tag_header(f.c_str()));
            break;
        case 19:
            put_file(f, bases()[6].bytes + "audio");
            for (int i = 0; i < 300; i++) ID3v2_Tag_free(ID3v2_read_tag(f.c_str()));
            break;
        case 20: drop(parse("")); drop(parse("ID3")); break;
        case 21: for (int i = 0; i < 300; i++) ID3v2_Tag_free(ID3v2_Tag_new_empty()); break;
        case 22: for (int i = 0; i < 300; i++) unicode(latin(std::to_string(i))); break;
        case 23: with(bases()[2], [&](ID3v2_Tag* t) { put_file(f, Str(100, 'a')); for (int i = 0; i < 300; i++) ID3v2_write_tag(f.c_str(), t); }); break;
        case 24: with(bases()[4], [&](ID3v2_Tag* t) { for (int i = 0; i < 300; i++) { ID3v2_FrameList_unlink(ID3v2_Tag_get_comment_frames(t)); ID3v2_Tag_get_title_frame(t); } }); break;
        case 25: for (int v = 3; v < 5; v++) with(make_base("many", v, {stored(text_frame("TXXX", utf16("x"), Str("\xff\xff", 2))), stored(apic_frame(latin("m"), 255, utf16("d"), "pic"))}, 3), [&](ID3v2_Tag* t) { set_comment(t, dummy, "\xff\xfe\xfd", utf16("c", true)); put_file(f, "x"); ID3v2_write_tag(f.c_str(), t); }); break;
    }
}
}

SPACE(C18, before, "every pair (thorough: triple) of things that may have been done before with other objects, failures included: what a call gives is the same before and after them")
{
    int n = mc::tier(2, 3), k[3] = {}, what = mc::choose(6);
    for (int i = 0; i < n; i++) k[i] = mc::choose(BEFORE);
    auto run = [&] {
        Log l;
        if (what < 3)
        {
            Tag M;
            const Base& b = bases()[std::vector<int>{0, 2, 6}[what]];
            ID3v2_Tag* t = start(b, M);
            for (int e : {0, 2, 4, 7, 10, 11, 12, 22, 14, 15, 5, 16}) edit(t, M, e);
            cycle(l, t, b.bytes + "audio");
            ID3v2_Tag_free(t);
        }
        else if (what < 5) read_all(l, bases()[what == 3 ? 9 : 10].bytes + "audio");
        else
        {
            ID3v2_tag* c = new_tag();
            for (int w = 0; w < 10; w++) compat::set(c, w, w & 1 ? latin("old") : utf16("api"));
            compat::cover(c, latin("image/png"), "png");
            l.old(c);
            Str f = path("f");
            put_file(f, "audio");
            set_tag(f.c_str(), c);
            l.file(f);
            free_tag(c);
            Str s = latin("to convert");
            char* u = ID3v2_to_unicode(&s[0]);
            l.bytes("unicode", u, ID3v2_strlent(u));
            free(u);
        }
        return l.s;
    };
    Str first = run();
    for (int i = 0; i < n; i++)
    {
        did(k[i]);
        Str again = run();
        mc::step();
        if (again == first) continue;
        size_t at = 0;
        while (at < first.size() && at < again.size() && first[at] == again[at]) at++;
        mc::violation("the results are other ones after previous work (%d): [%s] and before [%s]", k[i], show(again.substr(at > 60 ? at - 60 : 0, 160), 160).c_str(), show(first.substr(at > 60 ? at - 60 : 0, 160), 160).c_str());
    }
    mc::state(mc::hash(k, sizeof k, what));
    mc::outcome(mc::hash(first));
}

SPACE(C18, twins, "frames that hold the same value, short or long, in every pair of fields, set or read, and what may be done to one of them")
{
    any(any_twins);
}
