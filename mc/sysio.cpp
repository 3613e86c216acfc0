#include "sysio.hpp"
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/unistd.h>
#include <signal.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <ucontext.h>
#include <unistd.h>

#ifndef PR_SET_SYSCALL_USER_DISPATCH
#define PR_SET_SYSCALL_USER_DISPATCH 59
#endif
#ifndef SYS_USER_DISPATCH
#define SYS_USER_DISPATCH 2
#endif

asm(".pushsection .text\n"
    ".balign 64\n"
    ".globl sysio_restorer\n"
    "sysio_restorer:\n"
    "  nop\n"
    "  movq $15, %rax\n"
    "  syscall\n"
    "  nop\n nop\n nop\n nop\n"
    ".globl sysio_restorer_end\n"
    "sysio_restorer_end:\n"
    "  nop\n"
    ".popsection\n");
extern "C" void sysio_restorer();
extern "C" void sysio_restorer_end();

namespace sysio {

static __thread volatile char selector; // 0 lets system calls through
static __thread pid_t owner;
void (*any_call)(long nr);
static Before before;
static After after;
static bool mine[4096];        // descriptors opened in this scope
static std::set<std::string> paths, created;
static std::string root;

static long raw(long n, long a, long b, long c, long d, long e, long f)
{
    long r;
    register long r10 asm("r10") = d;
    register long r8 asm("r8") = e;
    register long r9 asm("r9") = f;
    asm volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return r;
}

const char* name(Kind k)
{
    static const char* const N[] = {"open", "open temp", "read", "write", "seek", "truncate", "rename", "unlink", "sync", "close", "other"};
    return N[k];
}

std::string Call::show() const
{
    std::string s = name(kind);
    if (!path.empty()) s += " " + path.substr(path.rfind('/') + 1);
    if (kind != OPEN && kind != CREATE_TEMP && kind != RENAME && kind != UNLINK) s += " of descriptor " + std::to_string(fd);
    if (kind == READ || kind == WRITE) s += " (" + std::to_string(size) + " bytes)";
    return s;
}

static bool ours(const char* p)
{
    std::string s = p;
    return s.compare(0, root.size(), root) == 0 || s.compare(0, 5, "/tmp/") == 0 || s == "/tmp" || s.compare(0, 9, "/var/tmp/") == 0 || s[0] != '/';
}

// Is it a call on the files of the library? Everything else goes to the kernel untouched.
static bool classify(Call& c)
{
    auto fd = [&](int f) {
        c.fd = f;
        return f >= 0 && f < 4096 && mine[f];
    };
    auto transfer = [&](Kind k) {
        c.kind = k;
        c.size = c.a[2];
        return fd(c.a[0]);
    };
    auto path = [&](Kind k, long p) {
        c.kind = k;
        if (!ours((const char*) p)) return false;
        c.path = (const char*) p;
        return true;
    };
    switch (c.nr)
    {
        case SYS_open:
            path(OPEN, c.a[0]);
            if ((c.a[1] & O_TMPFILE) == O_TMPFILE) c.kind = CREATE_TEMP;
            return !c.path.empty();
        case SYS_creat: return path(OPEN, c.a[0]);
        case SYS_openat:
            path(OPEN, c.a[1]);
            if ((c.a[2] & O_TMPFILE) == O_TMPFILE) c.kind = CREATE_TEMP;
            return !c.path.empty();
        case SYS_memfd_create:
            c.kind = CREATE_TEMP;
            c.path = "/tmp/memfd";
            return true;
        case SYS_read:
        case SYS_pread64: return transfer(READ);
        case SYS_write:
        case SYS_pwrite64: return transfer(WRITE);
        case SYS_readv:
        case SYS_writev:
        case SYS_preadv:
        case SYS_pwritev:
        {
            transfer(c.nr == SYS_readv || c.nr == SYS_preadv ? READ : WRITE);
            c.size = 0;
            for (long i = 0; i < c.a[2]; i++) c.size += ((struct iovec*) c.a[1])[i].iov_len;
            return fd(c.a[0]);
        }
        case SYS_sendfile:
            transfer(WRITE);
            c.size = c.a[3];
            return fd(c.a[0]);
        case SYS_copy_file_range:
            c.kind = WRITE;
            c.size = c.a[4];
            return fd(c.a[2]);
        case SYS_lseek: c.kind = SEEK; return fd(c.a[0]);
        case SYS_ftruncate:
        case SYS_fallocate: c.kind = TRUNCATE; return fd(c.a[0]);
        case SYS_truncate: return path(TRUNCATE, c.a[0]);
        case SYS_fsync:
        case SYS_fdatasync: c.kind = SYNC; return fd(c.a[0]);
        case SYS_rename:
        case SYS_link: return path(RENAME, c.a[1]);
        case SYS_renameat:
        case SYS_renameat2:
        case SYS_linkat: return path(RENAME, c.a[3]);
        case SYS_unlink: return path(UNLINK, c.a[0]);
        case SYS_unlinkat: return path(UNLINK, c.a[1]);
        case SYS_close: c.kind = CLOSE; return fd(c.a[0]);
        case SYS_dup: c.kind = OTHER; return fd(c.a[0]);
        case SYS_dup2:
        case SYS_dup3: c.kind = OTHER; return fd(c.a[0]);
        case SYS_fcntl: c.kind = OTHER; return fd(c.a[0]) && (c.a[1] == F_DUPFD || c.a[1] == F_DUPFD_CLOEXEC);
    }
    return false;
}

static long limited(const Call& c, long n)
{
    switch (c.nr)
    {
        case SYS_readv: return raw(SYS_read, c.a[0], (long) ((struct iovec*) c.a[1])[0].iov_base, std::min(n, (long) ((struct iovec*) c.a[1])[0].iov_len), 0, 0, 0);
        case SYS_writev: return raw(SYS_write, c.a[0], (long) ((struct iovec*) c.a[1])[0].iov_base, std::min(n, (long) ((struct iovec*) c.a[1])[0].iov_len), 0, 0, 0);
        case SYS_preadv:
        case SYS_pwritev: return raw(c.nr, c.a[0], c.a[1], c.a[2], c.a[3], c.a[4], c.a[5]);
        case SYS_sendfile: return raw(c.nr, c.a[0], c.a[1], c.a[2], n, 0, 0);
        case SYS_copy_file_range: return raw(c.nr, c.a[0], c.a[1], c.a[2], c.a[3], n, c.a[5]);
    }
    return raw(c.nr, c.a[0], c.a[1], n, c.a[3], c.a[4], c.a[5]);
}

static long serve(long nr, long* a)
{
    Call c;
    c.nr = nr;
    c.fd = -1;
    c.size = 0;
    c.kind = OTHER;
    for (int i = 0; i < 6; i++) c.a[i] = a[i];
    bool file = classify(c);
    struct stat st;
    bool creates = file && (c.kind == OPEN || c.kind == RENAME) && stat(c.path.c_str(), &st) != 0;
    if (any_call) any_call(nr);
    if (!file) return raw(nr, a[0], a[1], a[2], a[3], a[4], a[5]);
    long d = c.kind == OTHER ? 0 : before(c), r;
    if (d > 0 && c.kind == CLOSE)
    {
        raw(nr, a[0], 0, 0, 0, 0, 0); // the descriptor is gone all the same
        r = -d;
    }
    else if (d > 0)
        r = -d;
    else if (d < 0)
        r = limited(c, -d);
    else
        r = raw(nr, a[0], a[1], a[2], a[3], a[4], a[5]);
    if ((c.kind == OPEN || c.kind == CREATE_TEMP || c.kind == OTHER) && r >= 0 && r < 4096)
    {
        mine[r] = true;
        c.fd = r;
        if (c.kind == OPEN) paths.insert(c.path);
    }
    if (creates && r >= 0) created.insert(c.path);
    if (c.kind == CLOSE) mine[c.fd] = false;
    after(c, r);
    return r;
}

static bool memory_call(long nr)
{
    switch (nr)
    {
        case SYS_mmap:
        case SYS_munmap:
        case SYS_mprotect:
        case SYS_brk:
        case SYS_madvise:
        case SYS_mremap: return true;
        case SYS_futex: return !any_call;
    }
    return false;
}

static void handler(int, siginfo_t* si, void* u)
{
    selector = 0;
    int lib = mc::in_library;
    mc::in_library = 0; // what is done here is not done by the library
    greg_t* g = ((ucontext_t*) u)->uc_mcontext.gregs;
    long a[6] = {g[REG_RDI], g[REG_RSI], g[REG_RDX], g[REG_R10], g[REG_R8], g[REG_R9]};
    long nr = si->si_syscall;
    // Nothing may be allocated here if the allocator is what is waiting for memory
    g[REG_RAX] = memory_call(nr) ? raw(nr, a[0], a[1], a[2], a[3], a[4], a[5]) : serve(nr, a);
    mc::in_library = lib;
    selector = 1;
}

bool available()
{
    static char s;
    return raw(SYS_prctl, PR_SET_SYSCALL_USER_DISPATCH, 1, 0, 0, (long) &s, 0) == 0 && raw(SYS_prctl, PR_SET_SYSCALL_USER_DISPATCH, 0, 0, 0, 0, 0) == 0;
}

static void enable()
{
    struct
    {
        void* h;
        unsigned long flags;
        void (*restorer)();
        unsigned long mask;
    } k = {(void*) handler, SA_SIGINFO | 0x04000000, sysio_restorer, 0};
    long from = (long) &sysio_restorer, len = (long) &sysio_restorer_end - from;
    if (raw(SYS_rt_sigaction, SIGSYS, (long) &k, 0, 8, 0, 0) ||
        raw(SYS_prctl, PR_SET_SYSCALL_USER_DISPATCH, 1, from, len, (long) &selector, 0))
    {
        fprintf(stderr, "syscall user dispatch is not available\n");
        _exit(43);
    }
}

static void begin()
{
    selector = 0;
    pid_t me = raw(SYS_gettid, 0, 0, 0, 0, 0, 0);
    if (owner != me)
    {
        enable();
        owner = me;
    }
    selector = 1;
}

Scope::Scope(const Before& b, const After& a, bool this_thread)
{
    before = b;
    after = a;
    memset(mine, 0, sizeof mine);
    paths.clear();
    created.clear();
    root = mc::scratch();
    mc::begin_defer();
    if (this_thread) begin();
}

Scope::~Scope()
{
    selector = 0;
}

ThreadScope::ThreadScope() { begin(); }
ThreadScope::~ThreadScope() { selector = 0; }

Pause::Pause() : was(selector) { selector = 0; }
Pause::~Pause() { selector = was; }

bool slurp(const std::string& p, std::string& out)
{
    out.clear();
    int fd = open(p.c_str(), O_RDONLY | O_CLOEXEC);
    if (fd < 0) return false;
    struct stat st;
    if (fstat(fd, &st) == 0 && S_ISREG(st.st_mode))
    {
        out.resize(st.st_size);
        size_t n = 0;
        while (n < out.size())
        {
            ssize_t k = read(fd, &out[n], out.size() - n);
            if (k <= 0) break;
            n += k;
        }
        out.resize(n);
    }
    close(fd);
    return true;
}

bool stored_elsewhere(const std::string& what, const std::string& not_path)
{
    struct stat d, st;
    bool have = stat(not_path.c_str(), &d) == 0;
    std::string s;
    auto look = [&](const std::string& p) {
        if (stat(p.c_str(), &st) || !S_ISREG(st.st_mode)) return false;
        if (have && st.st_dev == d.st_dev && st.st_ino == d.st_ino) return false;
        if ((size_t) st.st_size != what.size()) return false;
        return slurp(p, s) && s == what;
    };
    for (int i = 0; i < 4096; i++)
        if (mine[i] && look("/proc/self/fd/" + std::to_string(i))) return true;
    for (auto& p : paths)
        if (look(p)) return true;
    return false;
}

bool may_change(const Call& c, const std::string& path)
{
    if (c.kind == READ || c.kind == SEEK || c.kind == SYNC || c.kind == CLOSE) return false;
    if (c.kind != WRITE) return true;
    struct stat a, b;
    return stat(path.c_str(), &a) || fstat(c.fd, &b) || (a.st_dev == b.st_dev && a.st_ino == b.st_ino);
}

bool truncates(const Call& c, const std::string& path)
{
    if (c.kind != OPEN || c.path != path) return false;
    return c.nr == SYS_creat || ((c.nr == SYS_open ? c.a[1] : c.a[2]) & O_TRUNC);
}

bool makes_file(const Call& c)
{
    if (c.kind == CREATE_TEMP) return true;
    if (c.kind != OPEN) return false;
    struct stat st;
    return (c.nr == SYS_creat || ((c.nr == SYS_open ? c.a[1] : c.a[2]) & O_CREAT)) && stat(c.path.c_str(), &st) != 0;
}

std::string left_behind()
{
    struct stat st;
    for (auto& p : created)
        if (stat(p.c_str(), &st) == 0) return p;
    return "";
}

int open_files()
{
    int n = 0;
    DIR* d = opendir("/proc/self/fd");
    if (!d) return -1;
    while (readdir(d)) n++;
    closedir(d);
    return n;
}

} // namespace sysio
