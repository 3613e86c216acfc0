// C10: every resource is released exactly once and inputs are copied.
#include "scenario.hpp"
#include "rewrite.hpp"
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
using namespace m;
using sysio::Call;

extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*m)(const volatile void*, size_t), void (*f)(const volatile void*));

// Blocks acquired inside of library calls (libc on its behalf included) that have not been released.
// Open addressing, no memory of its own.
namespace {
const size_t SLOTS = 1 << 16;
struct Slot
{
    const volatile void* p;
    size_t n, serial;
} slot[SLOTS];
size_t live, serial;
bool ready, watching;
const volatile void* const GONE = (void*) 1;

size_t at(const volatile void* p) { return ((uintptr_t) p >> 4) * 0x9E3779B97F4A7C15ull >> 48; }

void acquired(const volatile void* p, size_t n)
{
    if (!watching || !mc::in_library || !p) return;
    size_t i = at(p);
    while (slot[i].p && slot[i].p != GONE) i = (i + 1) % SLOTS;
    slot[i] = {p, n, serial++};
    live++;
    if (live > SLOTS / 2) abort();
}

void released(const volatile void* p)
{
    if (!watching || !p || !live) return;
    for (size_t i = at(p); slot[i].p; i = (i + 1) % SLOTS)
        if (slot[i].p == p)
        {
            slot[i].p = GONE;
            live--;
            return;
        }
}

int lowest_fd()
{
    int fd = open("/dev/null", O_RDONLY);
    close(fd);
    return fd;
}

int fd0;

// The start of an execution: nothing is held
void begin()
{
    if (!ready)
    {
        ready = true;
        // let libc acquire what it keeps forever
        put_file(path("warm"), "audio");
        ID3v2_Tag* t = ID3v2_Tag_new_empty();
        ID3v2_Tag_set_title(t, "x");
        ID3v2_write_tag(path("warm").c_str(), t);
        ID3v2_write_tag(mc::scratch().c_str(), t);
        ID3v2_Tag_free(t);
        if ((t = ID3v2_read_tag(path("warm").c_str()))) ID3v2_Tag_free(t);
        ID3v2_delete_tag(path("warm").c_str());
        perror("warm");
        bases();
        __sanitizer_install_malloc_and_free_hooks(acquired, released);
    }
    memset(slot, 0, sizeof slot);
    live = serial = 0;
    fd0 = lowest_fd();
    watching = true;
}

// The end: everything the library acquired must have been released
void end()
{
    watching = false;
    if (live)
    {
        const Slot* s = nullptr;
        for (auto& x : slot)
            if (x.p && x.p != GONE && (!s || x.serial < s->serial)) s = &x;
        mc::violation("%zu blocks acquired by the library were never released; the first one has %zu bytes (acquisition %zu)", live, s->n, s->serial);
    }
    int fd = lowest_fd();
    CHECK(fd == fd0, "a file was left open (descriptor %d)", fd0);
    Str left = stranger();
    CHECK(left.empty(), "a file was left behind: %s", left.c_str());
    mc::step();
    mc::outcome(serial);
}

// The lists of the getters belong to the caller
void scribble_lists(ID3v2_Tag* t, const Tag& M)
{
    mc::op("get lists, change and unlink them");
    In id(Str("TIT2\0", 5));
    ID3v2_FrameList* l[] = {ID3v2_Tag_get_comment_frames(t), ID3v2_Tag_get_apic_frames(t), ID3v2_Tag_get_frames(t, id)};
    for (auto* x : l)
    {
        for (auto* n = x; n; n = n->next)
        {
            n->frame = (ID3v2_Frame*) 1;
            n->start = (ID3v2_FrameList*) 1;
        }
        ID3v2_FrameList_unlink(x);
    }
    same(t, M, FRAMES, "after freeing the lists of the getters");
}
} // namespace

SPACE(C10, edits, "every starting tag, every sequence of edits up to the depth, lists from the getters, writing and freeing")
{
    begin();
    Tag M;
    ID3v2_Tag* t = any_edits(M, 3);
    same(t, M, FRAMES, "after the edits"); // the strings passed have been overwritten and freed
    scribble_lists(t, M);
    Str file = path("f");
    put_file(file, "audio");
    ID3v2_write_tag(file.c_str(), t);
    mc::state(M.hash());
    ID3v2_Tag_free(t);
    end();
}

SPACE(C10, histories, "every sequence of up to four (thorough: five) file, header, list, string and edit operations, including failing ones, then everything is freed")
{
    begin();
    Str file = path("f"), other = path("g"), missing = path("missing");
    const Base& b = bases()[std::vector<int>{2, 6, 10}[mc::choose(3)]];
    put_file(file, b.bytes + "audio");
    put_file(other, "no tag here");
    Tag M;
    ID3v2_Tag* t = start(b, M);
    int n = mc::tier(4, 5);
    for (int i = 0; i < n; i++)
    {
        int k = mc::choose(16);
        mc::op("operation %d", k);
        switch (k)
        {
            case 0: i = n; break; // nothing else
            case 1: ID3v2_write_tag(file.c_str(), t); break;
            case 2: ID3v2_write_tag(missing.c_str(), t); break;
            case 3: ID3v2_write_tag(mc::scratch().c_str(), t); break; // a directory
            case 4: ID3v2_delete_tag(file.c_str()); break;
            case 5: ID3v2_delete_tag(other.c_str()); break;
            case 6: ID3v2_delete_tag(missing.c_str()); break;
            case 7:
                if (ID3v2_Tag* x = ID3v2_read_tag(file.c_str())) ID3v2_Tag_free(x);
                break;
            case 8:
                if (ID3v2_Tag* x = ID3v2_read_tag(other.c_str())) ID3v2_Tag_free(x);
                if (ID3v2_Tag* x = ID3v2_read_tag(missing.c_str())) ID3v2_Tag_free(x);
                if (ID3v2_Tag* x = ID3v2_read_tag(mc::scratch().c_str())) ID3v2_Tag_free(x);
                break;
            case 9:
                for (const Str& p : {file, other, missing, mc::scratch()})
                    if (ID3v2_TagHeader* h = ID3v2_read_tag_header(p.c_str())) ID3v2_TagHeader_free(h);
                break;
            case 10: scribble_lists(t, M); break;
            case 11:
            {
                In x(latin("text"));
                char* u = ID3v2_to_unicode(x);
                if (u != x.p) free(u);
                break;
            }
            case 12: edit(t, M, 4); break;
            case 13: edit(t, M, 6); break;
            case 14: edit(t, M, 8); break;
            case 15: edit(t, M, 22); break;
        }
        if (k == 1) M.written();
        unlink(missing.c_str());
    }
    mc::state(M.hash());
    ID3v2_Tag_free(t);
    end();
}

// Whatever the bytes are: read, touch, write, free
static void lifecycle(const Str& b)
{
    mc::op("bytes [%s]", show(b, 60).c_str());
    begin();
    Str file = path("f");
    put_file(file, b);
    ID3v2_Tag* t;
    {
        In x(b);
        t = ID3v2_read_tag_from_buffer(x, b.size());
    }
    ID3v2_Tag* u = ID3v2_read_tag(file.c_str());
    ID3v2_TagHeader* h = ID3v2_read_tag_header(file.c_str());
    ID3v2_tag* c = load_tag(file.c_str());
    if (c) free_tag(c);
    if (h) ID3v2_TagHeader_free(h);
    if (u) ID3v2_Tag_free(u);
    mc::state(mc::hash(b));
    if (t)
    {
        Tag dummy;
        edit(t, dummy, 0);
        edit(t, dummy, 5);
        edit(t, dummy, 9);
        ID3v2_write_tag(file.c_str(), t);
        ID3v2_Tag_free(t);
    }
    ID3v2_delete_tag(file.c_str());
    end();
}

SPACE(C10, truncated, "every prefix of every starting tag: read in all the ways, edited, written and freed")
{
    const Base& b = mc::pick(bases());
    lifecycle(b.bytes.substr(0, mc::choose(std::min<size_t>(b.bytes.size(), 500) + 1)));
}

SPACE(C10, corrupted, "every byte of the starting tags replaced by 10 (thorough: 40) values that matter: read in all the ways, edited, written and freed")
{
    const Base& b = bases()[mc::choose(bases().size())];
    if (b.bytes.empty()) return mc::skip();
    Str x = b.bytes;
    int i = mc::choose(std::min<size_t>(x.size(), 420)), k = mc::choose(mc::tier(10, 40));
    static const unsigned char v[] = {0, 1, 2, 3, 0x7f, 0x80, 0xff, 0xfe, 'T', 0x10, 'C', 'A', 4, 5, 8, 10, 11, 16, 20, 32, 64, 96, 127, 129, 130, 192, 200, 240, 253, 'a', 'z', '0', '9', 'P', 'M', 'I', 6, 7, 9, 12};
    if (i >= 6 && i < 8 && v[k] > 1) return mc::skip(); // only small allocations
    x[i] = (char) v[k];
    lifecycle(x);
}

SPACE(C10, sizes, "strings and pictures of every length up to 300 and around every size boundary: copied, written, read and freed")
{
    begin();
    Tag M;
    ID3v2_Tag* t = any_length(M);
    same(t, M, FRAMES, "after the edits");
    Str file = path("f");
    put_file(file, "audio");
    ID3v2_write_tag(file.c_str(), t);
    ID3v2_Tag_free(t);
    t = ID3v2_read_tag(file.c_str());
    if (t) ID3v2_Tag_free(t);
    end();
}

SPACE(C10, many, "tags with every number of frames up to 130 and more: lists from the getters, writing, reading and freeing")
{
    begin();
    Tag M;
    ID3v2_Tag* t = any_number(M);
    scribble_lists(t, M);
    Str file = path("f");
    put_file(file, "audio");
    ID3v2_write_tag(file.c_str(), t);
    ID3v2_Tag_free(t);
    t = ID3v2_read_tag(file.c_str());
    if (t) ID3v2_Tag_free(t);
    end();
}

SPACE(C10, compat, "every sequence of up to three (thorough: four) calls of the old API on new and loaded tags, with every parsed content freed by its owner")
{
    begin();
    Str file = path("f");
    const Base& b = bases()[std::vector<int>{0, 1, 2, 6}[mc::choose(4)]];
    put_file(file, b.bytes + "audio");
    ID3v2_tag* t = b.bytes.empty() ? new_tag() : load_tag(file.c_str());
    CHECK(t, "no tag was loaded");
    int n = mc::tier(3, 4);
    for (int i = 0; i < n; i++)
    {
        int k = mc::choose(11);
        mc::op("compat operation %d", k);
        switch (k)
        {
            case 0: i = n; break;
            case 1: compat::set(t, 0, latin("title")); break;
            case 2: compat::set(t, 7, utf16("comment")); break;
            case 3: compat::cover(t, latin("image/png"), "picture"); break;
            case 4:
            {
                put_file(path("c.png"), "the picture");
                In name(latin(path("c.png")));
                tag_set_album_cover(name, t);
                break;
            }
            case 5: // contents
                for (int w = 0; w < compat::COUNT; w++) compat::content(compat::get(t, w), w);
                break;
            case 6: set_tag(file.c_str(), t); break;
            case 7: remove_tag(file.c_str()); break;
            case 8:
                if (ID3v2_tag* x = load_tag(file.c_str())) free_tag(x);
                break;
            case 9:
            {
                Str all = read_file(file);
                In x(all);
                if (ID3v2_tag* y = load_tag_with_buffer(x, all.size())) free_tag(y);
                break;
            }
            case 10:
                free_tag(t);
                t = new_tag();
                break;
        }
    }
    free_tag(t);
    mc::state(serial);
    end();
}

SPACE(C10, inputs, "every byte value in every argument: tags keep their own copies of strings and pictures that are overwritten and freed right after the call")
{
    begin();
    Tag M;
    ID3v2_Tag* t = any_byte(M);
    if (!t) { watching = false; return; }
    same(t, M, FRAMES, "after the edits");
    scribble_lists(t, M);
    mc::state(M.hash());
    ID3v2_Tag_free(t);
    end();
}

SPACE(C10, aliasing, "edits whose inputs are strings, pictures, flags and ids of the tag itself, twice, then an edit of the alphabet")
{
    begin();
    Tag M;
    ID3v2_Tag* t = start(mc::pick(bases()), M);
    for (int i = 0; i < 2; i++) own_values(t, M);
    edit(t, M, mc::choose(edit_count()));
    same(t, M, FRAMES, "after the edits");
    mc::state(M.hash());
    ID3v2_Tag_free(t);
    end();
}

SPACE(C10, faults, "every system call of every call that uses files fails, once or from then on: everything is released, and no file is left behind")
{
    static const size_t A[] = {0, 100, 5000, 13000};
    const int SLOTS = 16;
    bool sticky = mc::choose(2);
    int slot = mc::choose(SLOTS), k = mc::choose(Rewrite::KINDS + 5);
    mc::deviations(mc::tier(1, 2));
    begin();
    Str audio = pattern(2, mc::pick(A));
    Rewrite r(k < Rewrite::KINDS ? k : k == Rewrite::KINDS + 4 ? 6 : 2, audio);
    int calls = 0, stuck[16] = {};
    bool deviated = false, dirty = false;
    In name(latin(r.file));
    sysio::run(
        [&](Call& c) -> long {
            calls++;
            if (calls > 4000) mc::violation("more than 4000 system calls");
            if (stuck[c.kind]) return stuck[c.kind];
            long v[4];
            int n = 1;
            v[0] = 0;
            switch (c.kind)
            {
                case sysio::OPEN: v[n++] = EACCES; break;
                case sysio::CREATE_TEMP: v[n++] = EOPNOTSUPP, v[n++] = ENOSPC; break;
                case sysio::READ: v[n++] = EIO; break;
                case sysio::WRITE: v[n++] = ENOSPC; break;
                case sysio::SEEK: v[n++] = EINVAL; break;
                case sysio::TRUNCATE: v[n++] = EFBIG; break;
                case sysio::RENAME: v[n++] = EXDEV; break;
                case sysio::UNLINK: v[n++] = EACCES; break;
                case sysio::SYNC:
                case sysio::CLOSE: v[n++] = EIO; break;
                default: break;
            }
            long d = v[deviated || calls % SLOTS == slot ? mc::choose_dev(n) : 0];
            if (d) deviated = true;
            if (c.kind == sysio::UNLINK && d) dirty = true; // what cannot be removed stays
            if (d && sticky && d != EOPNOTSUPP && c.kind != sysio::CLOSE) stuck[c.kind] = d;
            mc::op("  %s%s", c.show().c_str(), d ? ": fails" : "");
            return d;
        },
        [](Call&, long) {},
        [&] {
            switch (k - Rewrite::KINDS)
            {
                case 0:
                    if (ID3v2_TagHeader* h = ID3v2_read_tag_header(name)) ID3v2_TagHeader_free(h);
                    break;
                case 1:
                    if (ID3v2_Tag* t = ID3v2_read_tag(name)) ID3v2_Tag_free(t);
                    break;
                case 2:
                    if (ID3v2_tag* t = load_tag(name)) free_tag(t);
                    break;
                case 3:
                    ID3v2_delete_tag(name);
                    ID3v2_delete_tag(name);
                    break;
                case 4: tag_set_album_cover(name, r.c); break;
                default: r.call();
            }
        }
    );
    if (!dirty) CHECK(sysio::left_behind().empty(), "a file was left behind: %s", sysio::left_behind().c_str());
    mc::step(calls);
    mc::state(mc::hash(&calls, sizeof calls, k));
    r.release();
    end();
}

SPACE(C10, named, "every pair of named setters with strings of every kind, the second one also deleted or the first one replaced, beside others, in both versions")
{
    begin();
    Tag M;
    ID3v2_Tag* t = any_named(M);
    same(t, M, FRAMES, "after the edits");
    scribble_lists(t, M);
    Str file = path("f");
    put_file(file, "audio");
    ID3v2_write_tag(file.c_str(), t);
    mc::state(M.hash());
    ID3v2_Tag_free(t);
    end();
}

SPACE(C10, ids, "frames of every id of the standards, read twice in a tag, then left alone, replaced, deleted or set beside")
{
    begin();
    Tag M;
    ID3v2_Tag* t = any_id(M);
    same(t, M, FRAMES, "after the edits");
    scribble_lists(t, M);
    Str file = path("f");
    put_file(file, "audio");
    ID3v2_write_tag(file.c_str(), t);
    mc::state(M.hash());
    ID3v2_Tag_free(t);
    end();
}

SPACE(C10, values, "values that mean something to other programs, in every field, with every kind of string: numbers of tracks, years, genres, MIME types, languages, descriptions, pictures of every format")
{
    begin();
    Tag M;
    ID3v2_Tag* t = any_value(M);
    same(t, M, FRAMES, "after the edits");
    scribble_lists(t, M);
    Str file = path("f");
    put_file(file, "audio");
    ID3v2_write_tag(file.c_str(), t);
    mc::state(M.hash());
    ID3v2_Tag_free(t);
    end();
}

SPACE(C10, replacements, "frames of each kind, set or read, replaced by one that differs in every subset of its fields (the same one included), with values of the same length or not")
{
    begin();
    Tag M;
    ID3v2_Tag* t = any_replacement(M);
    same(t, M, FRAMES, "after the edits");
    scribble_lists(t, M);
    Str file = path("f");
    put_file(file, "audio");
    ID3v2_write_tag(file.c_str(), t);
    mc::state(M.hash());
    ID3v2_Tag_free(t);
    end();
}

SPACE(C10, twins, "frames that hold the same value, short or long, in every pair of fields, set or read, and what may be done to one of them")
{
    begin();
    Tag M;
    ID3v2_Tag* t = any_twins(M);
    same(t, M, FRAMES, "after the edits");
    scribble_lists(t, M);
    Str file = path("f");
    put_file(file, "audio");
    ID3v2_write_tag(file.c_str(), t);
    mc::state(M.hash());
    ID3v2_Tag_free(t);
    end();
}

SPACE(C10, two, "two tags that hold the same values, short or long, set or read from the same bytes: what is done to one of them, its end included, does not change the other")
{
    begin();
    two_tags(mc::choose(2));
    end();
}

SPACE(C10, headers, "new tags made with a header that was read, of every supported version, with any flags, sizes and padding, and edits on them")
{
    begin();
    Tag M;
    ID3v2_Tag* t = any_header(M);
    same(t, M, FRAMES, "after the edits");
    Str file = path("f");
    put_file(file, "audio");
    ID3v2_write_tag(file.c_str(), t);
    mc::state(M.hash());
    ID3v2_Tag_free(t);
    end();
}
