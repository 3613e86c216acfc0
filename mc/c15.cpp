// C15: a crash during a write leaves the old or the new file.
//
// What a process that dies leaves behind is what the kernel has: the contents of the file are looked at after
// every system call that may have changed it, and writes are also cut short at several points (a torn write is
// the state between the two parts). Data in buffers of the process is lost, as in a crash.
#include "rewrite.hpp"
#include <errno.h>
#include <unistd.h>
using namespace m;
using sysio::Call;

namespace {

const int SLOTS = 24;

void crash_points(const Str& audio, int slot, bool failing = false)
{
    bool sticky = failing && mc::choose(2);
    int errors = 0, stuck[16] = {}, no_new_files = 0;
    Rewrite r(mc::choose(Rewrite::KINDS), audio);
    bool touched = false, stored = false, deviated = false, window = false;
    int calls = 0;
    Str key = Str("rewrite-window-") + (Rewrite::is_delete(r.kind) ? "delete" : "write");

    auto look = [&](const Call& c) {
        Str now;
        bool there = sysio::slurp(r.file, now);
        mc::step();
        mc::state(mc::hash(now, there));
        if (there && now == r.after)
        {
            if (now != r.before) touched = true;
            return;
        }
        if (there && now == r.before && !touched) return;
        CHECK(there, "%s: the file does not exist after %s", r.name(), c.show().c_str());
        if (!touched)
        {
            touched = true;
            CHECK(
                stored || sysio::stored_elsewhere(r.after, r.file),
                "%s: the file was changed by \"%s\" before all of the new contents were stored elsewhere: a crash leaves %zu bytes [%s]",
                r.name(), c.show().c_str(), now.size(), show(now).c_str()
            );
        }
        // The file is neither: known, as long as it is being filled in order with contents that are complete
        CHECK(
            now == r.after.substr(0, now.size()),
            "%s: a crash after \"%s\" leaves %zu bytes that are not the beginning of the new contents [%s]",
            r.name(), c.show().c_str(), now.size(), show(now).c_str()
        );
        window = true;
    };

    sysio::run(
        [&](Call& c) -> long {
            calls++;
            if (calls > 20000) mc::violation("more than 20000 system calls");
            if (!touched && !stored) stored = sysio::stored_elsewhere(r.after, r.file);
            if (failing)
            {
                // Once the original is being replaced by the complete new contents an error is out of the domain
                if (touched && stored) return 0;
                if (no_new_files && sysio::makes_file(c)) return errors++, no_new_files;
                if (stuck[c.kind]) return errors++, stuck[c.kind];
                int e = 0;
                switch (c.kind)
                {
                    case sysio::OPEN: e = EACCES; break;
                    case sysio::CREATE_TEMP: e = ENOSPC; break;
                    case sysio::READ: e = EIO; break;
                    case sysio::WRITE: e = ENOSPC; break;
                    case sysio::SEEK: e = EINVAL; break;
                    case sysio::TRUNCATE: e = EFBIG; break;
                    case sysio::RENAME: e = EXDEV; break;
                    case sysio::SYNC: e = EIO; break;
                    case sysio::CLOSE: e = EIO; break;
                    default: return 0;
                }
                if (calls % SLOTS != slot && !deviated) return 0;
                if (!mc::choose_dev(2)) return 0;
                deviated = true;
                errors++;
                if (sticky && c.kind != sysio::CLOSE) stuck[c.kind] = e;
                if (c.kind == sysio::CREATE_TEMP) no_new_files = e;
                mc::op("  %s: fails (errno %d)", c.show().c_str(), e);
                return e;
            }
            if (c.kind != sysio::WRITE || c.size < 2) return 0;
            long v[8];
            int n = 1;
            v[0] = 0;
            v[n++] = -1;
            if (c.size > 10) v[n++] = -10;
            if (c.size > 4) v[n++] = -(long) (c.size / 2);
            if (c.size > 2) v[n++] = -(long) (c.size - 1);
            long d = v[deviated || calls % SLOTS == slot ? mc::choose_dev(n) : 0];
            if (d) deviated = true;
            return d;
        },
        [&](Call& c, long res) {
            mc::op("  %s = %ld", c.show().c_str(), res);
            if (sysio::may_change(c, r.file)) look(c);
        },
        [&] { r.call(); }
    );
    mc::step(calls);
    // A crash right after the call
    Str now;
    CHECK(get_file(r.file, now), "the file is gone after %s", r.name());
    CHECK(now == r.after || (errors && now == r.before), "%s has returned and the file has %zu bytes [%s], expected %zu [%s]", r.name(), now.size(), show(now).c_str(), r.after.size(), show(r.after).c_str());
    if (window) mc::finding(key.c_str());
    mc::outcome(mc::hash(&calls, sizeof calls, r.kind));
    r.release();
    CHECK(read_file(r.file) == now, "%s: the file changed after the call returned", r.name());
}

} // namespace

SPACE(C15, points, "every point between two system calls, and one torn write at every write, of every rewriting call, with audio of every size around the buffers")
{
    static const size_t A[] = {0, 1, 10, 2021, 4095, 4096, 4097, 8192, 20000, 70000};
    int slot = mc::choose(SLOTS);
    mc::deviations(1);
    crash_points(pattern(2, mc::pick(A)), slot);
}

SPACE(C15, torn, "every point between two system calls with every pair (thorough: triple) of torn writes")
{
    static const size_t A[] = {5000, 0, 20000, 9000};
    int slot = mc::choose(SLOTS);
    mc::deviations(mc::tier(2, 3));
    crash_points(pattern(5, A[mc::choose(mc::tier(3, 4))]), slot);
}

SPACE(C15, sizes, "every size of the audio up to 300 (thorough: 3000) and around every buffer size, every point between two system calls")
{
    static const std::vector<size_t> L = [] {
        auto v = lengths(mc::tier(300, 3000), false);
        return v;
    }();
    mc::deviations(0);
    crash_points(pattern(mc::choose(2) ? 5 : 2, mc::pick(L)), -1);
}

SPACE(C15, failures, "every point between two system calls of every rewriting call, when one or two (thorough: three) of them have failed, once or from then on")
{
    static const size_t A[] = {0, 5, 4096, 20000};
    int slot = mc::choose(SLOTS);
    mc::deviations(mc::tier(2, 3));
    crash_points(pattern(2, mc::pick(A)), slot, true);
}
