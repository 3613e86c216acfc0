// C14: failed file operations never damage the file.
#include "rewrite.hpp"
#include "names.hpp"
#include <errno.h>
#include <unistd.h>
using namespace m;
using sysio::Call;

namespace {

const Str* target;         // the file that must not be damaged
const Str *old_, *new_;
bool touched, safe;        // it has been changed / all of the new contents have been somewhere else
int errors, calls;
bool sticky;               // a kind of operation that failed keeps failing
int stuck[16];
int no_new_files;          // once a file could not be created none can, with or without name
bool only_short;
const int SLOTS = 24;
int slot;
bool deviated;

void look()
{
    if (!touched)
    {
        Str now;
        bool there = sysio::slurp(*target, now);
        touched = !there || now != *old_;
        if (there && now == *new_ && *new_ != *old_) safe = true;
    }
}

// Every answer of the system to a call. Answer 0 is the normal one.
long decide(Call& c)
{
    calls++;
    if (calls > 20000) mc::violation("more than 20000 system calls");
    if (!touched && !safe) safe = sysio::stored_elsewhere(*new_, *target);
    long v[12], full = 0;
    int n = 1;
    v[0] = 0;
    // Once the original is being replaced by the complete new contents an error is out of the domain
    bool may_fail = !only_short && !(touched && safe);
    if (may_fail && no_new_files && sysio::makes_file(c))
    {
        errors++;
        mc::op("  %s: fails too (errno %d)", c.show().c_str(), no_new_files);
        return no_new_files;
    }
    if (may_fail && stuck[c.kind])
    {
        errors++;
        mc::op("  %s: fails again (errno %d)", c.show().c_str(), stuck[c.kind]);
        return stuck[c.kind];
    }
    if ((c.kind == sysio::READ || c.kind == sysio::WRITE) && c.size > 1)
    {
        v[n++] = -1;
        if (c.size > 3) v[n++] = -(long) (c.size / 2);
        if (c.size > 2) v[n++] = -(long) (c.size - 1);
    }
    if (may_fail) switch (c.kind)
        {
            case sysio::OPEN: v[n++] = EACCES, v[n++] = EMFILE, v[n++] = EINTR; break;
            case sysio::CREATE_TEMP: v[n++] = EOPNOTSUPP, v[n++] = ENOSPC; break;
            case sysio::READ: v[n++] = EIO, v[n++] = EINTR; break;
            case sysio::WRITE:
                v[n++] = ENOSPC, v[n++] = EIO, v[n++] = EINTR;
                // there is no room for all of it: a part of it now, and nothing from then on
                if (sticky && c.size > 1) v[n++] = full = -(long) ((c.size + 2) / 3);
                break;
            case sysio::SEEK: v[n++] = EINVAL; break;
            case sysio::TRUNCATE: v[n++] = EFBIG; break;
            case sysio::RENAME: v[n++] = EXDEV; break;
            case sysio::SYNC: v[n++] = EIO; break;
            case sysio::CLOSE: v[n++] = EIO; break;
            default: break;
        }
    // where the first one happens is decided before (modulo the slots), which makes it easy to share out the work
    long d = v[deviated || calls % SLOTS == slot ? mc::choose_dev(n) : 0];
    if (d) deviated = true;
    if (d > 0)
    {
        errors++;
        // without files without name, the others still work
        if (c.kind == sysio::CREATE_TEMP && d != EOPNOTSUPP) no_new_files = d;
        if (sticky && d != EOPNOTSUPP && d != EINTR && c.kind != sysio::CLOSE) stuck[c.kind] = d;
        mc::op("  %s: fails (errno %ld)", c.show().c_str(), d);
    }
    else if (d < 0)
    {
        mc::op("  %s: only %ld%s", c.show().c_str(), -d, d == full ? ", and no more" : "");
        if (d == full) stuck[c.kind] = ENOSPC, errors++;
    }
    else
        mc::op("  %s", c.show().c_str());
    return d;
}

template <class F> void with_faults(const Str& file, const Str& before, const Str& after, F f)
{
    target = &file;
    old_ = &before;
    new_ = &after;
    touched = safe = deviated = false;
    errors = calls = 0;
    memset(stuck, 0, sizeof stuck);
    no_new_files = 0;
    int fds = sysio::open_files();
    sysio::run(decide, [](Call& c, long r) {
        if (sysio::may_change(c, *target)) look();
        if (r >= 0 && sysio::truncates(c, *target)) touched = true; // even if there was nothing in it
    }, f);
    look();
    CHECK(sysio::open_files() == fds, "a file was left open");
    mc::step(calls);
}

void rewrite(const Str& audio)
{
    Rewrite r(mc::choose(Rewrite::KINDS), audio);
    with_faults(r.file, r.before, r.after, [&] { r.call(); });
    Str now;
    CHECK(get_file(r.file, now), "the file is gone after %s (%d failures)", r.name(), errors);
    if (errors == 0)
        CHECK(now == r.after, "%s: with short transfers only, the file has %zu bytes [%s], expected %zu [%s]", r.name(), now.size(), show(now).c_str(), r.after.size(), show(r.after).c_str());
    else
        CHECK(
            now == r.before || now == r.after,
            "%s: after %d failures the file has %zu bytes [%s]; it had %zu [%s], and a complete rewrite has %zu [%s]",
            r.name(), errors, now.size(), show(now).c_str(), r.before.size(), show(r.before).c_str(), r.after.size(), show(r.after).c_str()
        );
    mc::state(mc::hash(now, errors));
    mc::outcome(mc::hash(&calls, sizeof calls, now == r.after));
    // The failure is over: the same call does its work
    if (now == r.before)
    {
        r.call();
        now = read_file(r.file);
        CHECK(now == r.after, "%s: once the failure is over, the file has %zu bytes [%s], expected %zu", r.name(), now.size(), show(now).c_str(), r.after.size());
        mc::step();
    }
    r.release();
}

} // namespace

SPACE(C14, single, "every system call of every rewriting call fails or transfers less, once or from then on, with audio of every size around the buffers")
{
    static const size_t A[] = {0, 1, 10, 4095, 4096, 4097, 8192, 20000, 70000};
    only_short = false;
    sticky = mc::choose(2);
    slot = mc::choose(SLOTS);
    mc::deviations(1);
    rewrite(pattern(2, mc::pick(A)));
}

SPACE(C14, pairs, "every pair of failures and short transfers of the system calls of every rewriting call (thorough: every triple on small files)")
{
    static const size_t A[] = {0, 5000, 13000};
    only_short = false;
    sticky = mc::choose(2);
    slot = mc::choose(SLOTS);
    mc::deviations(2);
    rewrite(pattern(2, A[mc::choose(mc::tier(2, 3))]));
}

SPACE_THOROUGH(C14, triples, "every triple of failures and short transfers, on small files")
{
    static const size_t A[] = {5, 5000};
    only_short = false;
    sticky = mc::choose(2);
    slot = mc::choose(SLOTS);
    mc::deviations(3);
    rewrite(pattern(2, mc::pick(A)));
}

SPACE(C14, slow, "all the transfers are short at once: one byte, half or all but one byte, reading, writing or both")
{
    static const size_t A[] = {0, 1, 100, 5000, 9000};
    int how = mc::choose(3), which = 1 + mc::choose(3);
    Rewrite r(mc::choose(Rewrite::KINDS), pattern(2, mc::pick(A)));
    target = &r.file;
    long n = 0;
    sysio::run(
        [&](Call& c) -> long {
            n++;
            if (c.kind != sysio::READ && c.kind != sysio::WRITE) return 0;
            if (!(which & (c.kind == sysio::READ ? 1 : 2)) || c.size < 2) return 0;
            return how == 0 ? -1 : how == 1 ? -(long) ((c.size + 1) / 2) : -(long) (c.size - 1);
        },
        [](Call&, long) {},
        [&] { r.call(); }
    );
    mc::step(n);
    Str now = read_file(r.file);
    CHECK(now == r.after, "%s: with short transfers, the file has %zu bytes [%s], expected %zu [%s]", r.name(), now.size(), show(now).c_str(), r.after.size(), show(r.after).c_str());
    mc::state(mc::hash(now));
    mc::outcome(n);
    r.release();
}

SPACE(C14, readers, "every failure and short transfer, alone and in pairs, of the calls that only read: the file is never changed, the call returns, short transfers change nothing")
{
    static const std::vector<Str> F = {
        tag_bytes(3, {{"TIT2", Str("\0old", 4)}}, 20) + pattern(2, 50),
        tag_bytes(4, {{"TALB", Str("\0old", 4)}, {"PRIV", Str(5000, 'p')}}, 4000) + pattern(2, 50),
        pattern(2, 5000),
        "short"};
    const Str& bytes = mc::pick(F);
    Str file = path("f");
    put_file(file, bytes);
    only_short = false;
    sticky = mc::choose(2);
    slot = mc::choose(SLOTS);
    int k = mc::choose(4);
    mc::deviations(2);
    bool tagged = supported(bytes);
    ID3v2_TagHeader* h = nullptr;
    ID3v2_Tag* t = nullptr;
    ID3v2_tag* c = nullptr;
    if (k == 3) c = new_tag();
    Str name = path("cover.png");
    put_file(name, bytes);
    const Str& f = k == 3 ? name : file;
    In arg(latin(name));
    with_faults(f, bytes, bytes, [&] {
        if (k == 0) h = ID3v2_read_tag_header(file.c_str());
        if (k == 1) t = ID3v2_read_tag(file.c_str());
        if (k == 2) c = load_tag(file.c_str());
        if (k == 3) tag_set_album_cover(arg, c);
    });
    CHECK(read_file(f) == bytes, "reading changed the file");
    if (!errors)
    {
        if (k == 0) CHECK(!h == !tagged, "header %s with short reads", h ? "found" : "not found");
        if (k == 1)
        {
            CHECK(!t == !tagged, "tag %s with short reads", t ? "found" : "not found");
            if (t)
            {
                ID3v2_Tag* u = parse(bytes);
                same(t, observe(u).t, ALL, "with short reads");
                ID3v2_Tag_free(u);
            }
        }
        if (k == 2) CHECK(!c == !tagged, "tag %s with short reads", c ? "found" : "not found");
        if (k == 3)
        {
            ID3v2_frame* p = tag_get_album_cover(c);
            CHECK(p, "no cover after short reads");
            Frame x = compat::content(p, 10);
            CHECK(x.text == bytes, "the cover has %zu bytes after short reads, expected %zu", x.text.size(), bytes.size());
        }
    }
    else if (k == 3)
    {
        ID3v2_frame* p = tag_get_album_cover(c);
        if (p) CHECK(compat::content(p, 10).text == bytes, "a cover that could not be read was set to something else");
    }
    mc::state(mc::hash(bytes, errors));
    mc::outcome(mc::hash(&calls, sizeof calls, k));
    if (h) ID3v2_TagHeader_free(h);
    if (t) ID3v2_Tag_free(t);
    if (c) free_tag(c);
}

// Everything that can be done to a file, or with one as a cover
static void everything(const Str& name)
{
    Tag M;
    ID3v2_Tag* t = start(bases()[6], M);
    ID3v2_tag* c = new_tag();
    {
        In arg(latin(name));
        int first = mc::choose(5);
        for (int i = 0; i < 2; i++)
            switch ((first + i) % 5)
            {
                case 0: ID3v2_write_tag(arg, t); break;
                case 1: ID3v2_delete_tag(arg); break;
                case 2: set_tag(arg, c); break;
                case 3: remove_tag(arg); break;
                case 4: tag_set_album_cover(arg, c); break;
            }
    }
    mc::step(2);
    if (ID3v2_frame* p = tag_get_album_cover(c)) mc::violation("a cover was set from something that is not a file (%zu bytes)", compat::content(p, 10).text.size());
    same(t, M, FRAMES, "tag after an operation that failed");
    ID3v2_Tag_free(t);
    free_tag(c);
}

SPACE(C14, places, "names that do not lead to a file with data (missing, directories, links to nothing, too long, below files, empty), in every pair of calls")
{
    NotAFile x(false);
    Str before = listing();
    everything(x.name);
    CHECK(listing() == before, "something was created or removed: [%s], before [%s]", show(listing(), 100).c_str(), show(before, 100).c_str());
    CHECK(read_file(path("some")) == "some data", "another file was changed");
    mc::state(x.k);
    mc::outcome(x.k);
}

SPACE(C14, modes, "files with every combination of permissions of their owner: as they were when they cannot be read, or not be written (unless all of the new contents are there)")
{
    static const Str b[] = {tag_bytes(3, {{"TIT2", Str("\0a", 2)}}, 20) + "audio", tag_bytes(4, {}, 0), "no tag here, but audio", ""};
    const Str& x = mc::pick(b);
    int mode = mc::choose(8) << 6, what = mc::choose(2);
    Str file = path("m"), want = audio_of(x);
    unlink(file.c_str());
    put_file(file, x);
    chmod(file.c_str(), mode);
    mc::op("mode %o", mode);
    Tag M;
    ID3v2_Tag* t = start(bases()[6], M);
    {
        Unprivileged u;
        if (what) ID3v2_delete_tag(file.c_str());
        else ID3v2_write_tag(file.c_str(), t);
    }
    M.written();
    if (!what) want = wire_of(M) + want;
    Str got = read_file(file);
    CHECK(got == x || got == want, "the file has %zu bytes [%s]: neither what it had nor the new contents", got.size(), show(got).c_str());
    CHECK((mode & 0600) != 0600 || got == want, "the operation did nothing");
    if (!(mode & 0400)) CHECK(got == x, "a file that cannot be read was changed");
    unlink(file.c_str());
    ID3v2_Tag_free(t);
    mc::step();
    mc::state(mode);
    mc::outcome(got == want);
}
