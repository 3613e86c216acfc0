// C20: calls touch nothing but the objects and the file they are given.
#include "compat.hpp"
#include "names.hpp"
#include "scenario.hpp"
#include "sysio.hpp"
#include <errno.h>
#include <fenv.h>
#include <fcntl.h>
#include <getopt.h>
#include <locale.h>
#include <signal.h>
#include <stdio_ext.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/xattr.h>
#include <time.h>
#include <unistd.h>
using namespace m;

// ------------------------------------------------------------------------------------ operations

namespace {

// The calls of both APIs on tags and files, good and bad
struct World
{
    Str file = path("f"), plain = path("g"), broken = path("h"), liar = path("i"), empty = path("e"), missing = path("missing"), dir = path("d"), picture = path("c.png");
    Tag M;
    ID3v2_Tag* t;
    ID3v2_tag* c;
    bool failing = false; // the last operation met a failure

    explicit World(const Base& b)
    {
        put_file(file, b.bytes + "the audio");
        put_file(plain, "no tag at all, only audio");
        put_file(broken, tag_bytes(3, {{"TIT2", Str("\0title", 6)}}, 30).substr(0, 19));
        put_file(liar, header_bytes(3, 0, 0, 100) + frame_bytes(3, "TIT2", Str("\0title", 6)) + Str("TALB\x7f\xff\xff\xff\0\0x", 11) + Str(200, 'a'));
        put_file(empty, "");
        put_file(picture, Str("\x89PNG\r\n\x1a\n\0\1", 10));
        mkdir(dir.c_str(), 0700);
        t = start(b, M);
        c = new_tag();
    }
    ~World()
    {
        ID3v2_Tag_free(t);
        free_tag(c);
    }
    static int count() { return 24 + 37; }
    void read(const Str& f)
    {
        In n(latin(f));
        if (ID3v2_Tag* x = ID3v2_read_tag(n)) ID3v2_Tag_free(x);
    }
    void header(const Str& f)
    {
        In n(latin(f));
        if (ID3v2_TagHeader* x = ID3v2_read_tag_header(n)) ID3v2_TagHeader_free(x);
    }
    void load(const Str& f)
    {
        In n(latin(f));
        if (ID3v2_tag* x = load_tag(n))
        {
            for (int w = 0; w < compat::COUNT; w++) compat::content(compat::get(x, w), w);
            free_tag(x);
        }
    }
    void write(const Str& f)
    {
        In n(latin(f));
        ID3v2_write_tag(n, t);
    }
    void remove(const Str& f)
    {
        In n(latin(f));
        ID3v2_delete_tag(n);
    }
    void act(int k)
    {
        failing = false;
        if (k < 24) return edit(t, M, k);
        k -= 24;
        static const char* const name[] = {"write", "delete", "delete where there is none", "delete from an empty file", "read", "read a plain file", "read a broken file", "read a lying file", "read an empty file",
                                           "headers", "read a buffer", "read a broken buffer", "header of a buffer", "getters", "lists", "strings", "compat set", "compat cover", "compat cover of a file", "compat load",
                                           "compat load others", "compat write", "compat remove", "compat new", "new with padding", "write a plain file", "write a broken file", "write an empty file",
                                           "write a missing file", "write a directory", "delete a missing file", "delete a directory", "read what is missing", "compat load what is missing", "compat cover of a missing file",
                                           "compat cover of a directory", "delete a lying file"};
        static_assert(sizeof name / sizeof *name == 37, "");
        mc::op("%s", name[k]);
        Str all = k == 10 || k == 12 ? read_file(file) : Str();
        switch (k)
        {
            case 0: write(file); M.written(); break;
            case 1: remove(file); break;
            case 2: remove(plain); break;
            case 3: remove(empty); break;
            case 4: read(file); break;
            case 5: read(plain); break;
            case 6: read(broken); break;
            case 7: read(liar); break;
            case 8: read(empty); break;
            case 9: for (auto& f : {file, plain, broken, liar, empty}) header(f); break;
            case 10:
            {
                In x(all);
                if (ID3v2_Tag* y = ID3v2_read_tag_from_buffer(x, all.size())) ID3v2_Tag_free(y);
                if (ID3v2_tag* y = load_tag_with_buffer(x, all.size())) free_tag(y);
                break;
            }
            case 11:
            {
                all = read_file(liar);
                In x(all);
                if (ID3v2_Tag* y = ID3v2_read_tag_from_buffer(x, all.size())) ID3v2_Tag_free(y);
                if (ID3v2_tag* y = load_tag_with_buffer(x, all.size())) free_tag(y);
                break;
            }
            case 12:
            {
                In x((all + Str(10, '\0')).substr(0, 10));
                if (ID3v2_TagHeader* h = ID3v2_read_tag_header_from_buffer(x)) ID3v2_TagHeader_free(h);
                break;
            }
            case 13:
                for (int i = 0; i < 11; i++) get_named(t, i);
                break;
            case 14:
            {
                In id(Str("TIT2\0", 5));
                ID3v2_FrameList_unlink(ID3v2_Tag_get_comment_frames(t));
                ID3v2_FrameList_unlink(ID3v2_Tag_get_apic_frames(t));
                ID3v2_FrameList_unlink(ID3v2_Tag_get_frames(t, id));
                ID3v2_Tag_get_frame(t, id);
                break;
            }
            case 15:
                for (const Str& s : {latin("text"), latin(""), utf16("text"), utf16("", true), latin("\x80\xff")})
                {
                    In x(s);
                    ID3v2_strlen(x);
                    ID3v2_strlent(x);
                    char* u = ID3v2_to_unicode(x);
                    if (u != x.p) free(u);
                }
                break;
            case 16:
                for (int w = 0; w < 10; w++) compat::set(c, w, w & 1 ? utf16("value") : latin("value"));
                break;
            case 17: compat::cover(c, latin("image/png"), "picture"); break;
            case 18:
            {
                In n(latin(picture));
                tag_set_album_cover(n, c);
                break;
            }
            case 19: load(file); break;
            case 20: for (auto& f : {plain, broken, liar, empty}) load(f); break;
            case 21:
            {
                In n(latin(file));
                set_tag(n, c);
                break;
            }
            case 22:
            {
                In n(latin(file));
                remove_tag(n);
                break;
            }
            case 23:
                free_tag(c);
                c = new_tag();
                break;
            case 24:
                ID3v2_Tag_free(t);
                t = ID3v2_Tag_new(nullptr, 100);
                M = Tag();
                M.padding = 100;
                break;
            case 25: write(plain); M.written(); break;
            case 26: write(broken); M.written(); break;
            case 27: write(empty); M.written(); break;
            default:
                failing = true;
                switch (k)
                {
                    case 28: write(missing); break;
                    case 29: write(dir); break;
                    case 30: remove(missing); break;
                    case 31: remove(dir); break;
                    case 32:
                        for (auto& f : {missing, dir}) read(f), header(f);
                        break;
                    case 33:
                        for (auto& f : {missing, dir}) load(f);
                        break;
                    case 34:
                    {
                        In n(latin(missing));
                        tag_set_album_cover(n, c);
                        break;
                    }
                    case 35:
                    {
                        In n(latin(dir));
                        tag_set_album_cover(n, c);
                        break;
                    }
                    case 36: remove(liar); break;
                }
        }
    }
};

// ----------------------------------------------------------------------------- state of the process

Str slurp(const char* f)
{
    Str s;
    int fd = open(f, O_RDONLY);
    char b[4096];
    ssize_t n;
    while (fd >= 0 && (n = read(fd, b, sizeof b)) > 0) s.append(b, n);
    if (fd >= 0) close(fd);
    return s;
}

template <class T> Str raw(const T& x) { return Str((const char*) &x, sizeof x); }

typedef std::vector<std::pair<const char*, Str>> State;

const char* const OWN = "own";

State process()
{
    State s;
    char b[4200];
    s.push_back({"the working directory", getcwd(b, sizeof b) ? b : "?"});
    // umask, identities, signals blocked, ignored and caught, capabilities, threads
    Str st = slurp("/proc/self/status"), kept;
    for (size_t i = 0; i < st.size();)
    {
        size_t e = st.find('\n', i);
        if (e == Str::npos) e = st.size();
        Str l = st.substr(i, e - i);
        for (const char* k : {"Umask:", "Uid:", "Gid:", "Groups:", "Threads:", "SigQ:", "SigPnd:", "ShdPnd:", "SigBlk:", "SigIgn:", "SigCgt:", "CapEff:", "CapPrm:", "CapInh:", "NoNewPrivs:", "Seccomp:", "FDSize:"})
            if (!l.compare(0, strlen(k), k) && l.compare(0, 5, "SigQ:")) kept += l + "\n";
        i = e + 1;
    }
    s.push_back({"the state in /proc/self/status", kept});
    Str h;
    for (int i = 1; i < 65; i++)
    {
        struct sigaction a;
        memset((void*) &a, 0, sizeof a);
        if (!sigaction(i, nullptr, &a)) h += raw(a.sa_handler) + raw(a.sa_flags);
    }
    stack_t ss;
    memset((void*) &ss, 0, sizeof ss);
    sigaltstack(nullptr, &ss);
    s.push_back({"the handlers of signals", h + raw(ss.ss_sp) + raw(ss.ss_flags)});
    s.push_back({"the locale", Str(setlocale(LC_ALL, nullptr)) + raw(uselocale((locale_t) 0))});
    Str e = raw(environ);
    for (char** x = environ; *x; x++) e += Str(*x) + "\n";
    s.push_back({"the environment", e});
    Str r;
    for (int i = 0; i < RLIMIT_NLIMITS; i++)
    {
        struct rlimit l = {};
        getrlimit((__rlimit_resource) i, &l);
        r += raw(l.rlim_cur) + raw(l.rlim_max);
    }
    errno = 0;
    s.push_back({"the limits and the priority", r + raw(getpriority(PRIO_PROCESS, 0))});
    s.push_back({"the mode of floating point", raw(fegetround()) + raw(fegetexcept())});
    Str tm;
    for (auto w : {ITIMER_REAL, ITIMER_VIRTUAL, ITIMER_PROF})
    {
        struct itimerval v = {};
        getitimer(w, &v);
        tm += v.it_value.tv_sec || v.it_value.tv_usec ? "running" : "stopped";
    }
    s.push_back({"the timers", tm});
    Str d;
    DIR* dir = opendir("/proc/self/fd");
    int own = dirfd(dir);
    std::vector<Str> fds;
    while (dirent* x = readdir(dir))
    {
        if (x->d_name[0] == '.' || atoi(x->d_name) == own) continue;
        Str l = x->d_name;
        ssize_t n = readlinkat(own, x->d_name, b, sizeof b);
        l += " " + Str(b, n < 0 ? 0 : n);
        fds.push_back(l);
    }
    closedir(dir);
    std::sort(fds.begin(), fds.end());
    for (auto& x : fds)
    {
        int fd = atoi(x.c_str());
        d += x + " at " + std::to_string(lseek(fd, 0, SEEK_CUR)) + " flags " + std::to_string(fcntl(fd, F_GETFL)) + "/" + std::to_string(fcntl(fd, F_GETFD)) + "\n";
    }
    s.push_back({"the open files", d});
    s.push_back({"the child processes", waitpid(-1, nullptr, WNOHANG) < 0 && errno == ECHILD ? "none" : "some"});
    s.push_back({"stdio", raw(__fbufsize(stdout)) + raw(__flbf(stdout)) + raw(__fbufsize(stderr)) + raw(__flbf(stderr)) + raw(ferror(stdout)) + raw(ferror(stderr)) + raw(ftell(stdin)) + raw(feof(stdin)) + raw(stdout) + raw(stderr) + raw(stdin)});
    s.push_back({"the options of getopt", raw(optind) + raw(opterr) + raw(optopt) + raw(optarg)});
    s.push_back({"the time zone", raw(timezone) + raw(daylight) + Str(tzname[0]) + tzname[1]});
    return s;
}

// What the program has under way while it calls the library
struct Program
{
    char words[32] = "one,two,three";
    char date[1] = {};
    struct tm* when;
    struct tm was;
    int r1, l1;
    FILE *f, *pending;
    long at;
    int pending_fd, out, err, was0, was1, was2;
    bool on = false;

    explicit Program(const Str& file)
    {
        was0 = dup(0), was1 = dup(1), was2 = dup(2);
        int in = memfd_create("stdin", MFD_CLOEXEC);
        if (write(in, "abcdefgh", 8) != 8 || lseek(in, 0, SEEK_SET)) abort();
        out = memfd_create("stdout", MFD_CLOEXEC);
        err = memfd_create("stderr", MFD_CLOEXEC);
        if (was0 < 0 || was1 < 0 || was2 < 0 || out < 0 || err < 0) abort();
        fflush(stdin);
        dup2(in, 0);
        close(in);
        rewind(stdin);
        if (getc(stdin) != 'a') abort();
        f = fopen(file.c_str(), "r+b");
        fseek(f, 3, SEEK_SET);
        getc(f);
        at = ftell(f);
        fflush(f);
        fseek(f, at, SEEK_SET);
        pending_fd = memfd_create("pending", MFD_CLOEXEC);
        pending = fdopen(pending_fd, "w");
        fputs("not yet", pending);
        tzset();
        time_t t = 1000000000;
        when = gmtime(&t);
        was = *when;
        srand(7);
        r1 = rand();
        srand(7);
        srand48(7);
        l1 = lrand48();
        srand48(7);
        strtok(words, ",");
    }
    void enter()
    {
        fflush(stdout);
        dup2(out, 1);
        dup2(err, 2);
    }
    void leave()
    {
        fflush(stdout);
        fflush(stderr);
        dup2(was1, 1);
        dup2(was2, 2);
    }
    void check(bool failing)
    {
        struct stat s;
        fstat(out, &s);
        CHECK(s.st_size == 0, "something was printed (%ld bytes)", (long) s.st_size);
        fstat(err, &s);
        CHECK(failing || s.st_size == 0, "something was printed as an error while nothing failed (%ld bytes)", (long) s.st_size);
        CHECK(ftruncate(err, 0) == 0 && lseek(err, 0, SEEK_SET) == 0, "cannot start again");
    }
    void end()
    {
        CHECK(getc(stdin) == 'b', "the standard input has been read");
        struct stat st;
        CHECK(!fstat(pending_fd, &st) && st.st_size == 0, "what the program holds back has been written");
        CHECK(ftell(f) == at, "the position in the caller's file has changed");
        CHECK(rand() == r1, "the random numbers of the program have changed");
        CHECK(lrand48() == l1, "the random numbers of the program have changed");
        char* w = strtok(nullptr, ",");
        CHECK(w && !strcmp(w, "two"), "the strings the program was splitting have changed");
        CHECK(!memcmp(when, &was, sizeof was), "the broken down time of the program has changed");
    }
    ~Program()
    {
        fclose(f);
        fclose(pending);
        dup2(was0, 0);
        rewind(stdin);
        for (int x : {was0, was1, was2, out, err}) close(x);
    }
};

} // namespace

SPACE(C20, process, "every sequence of two (thorough: three) calls of both APIs out of 61, good and failing ones, on five starting tags: the state of the process (descriptors and their positions, working directory, umask, signals, locale, environment, limits, timers, rounding, random numbers, strtok, stdio, children) is the same after each one, and nothing is printed")
{
    const Base& b = bases()[std::vector<int>{0, 1, 2, 6, 10}[mc::choose(5)]];
    World w(b);
    int n = mc::tier(2, 3);
    Program p(w.picture);
    State before = process();
    std::vector<int> ks;
    for (int i = 0; i < n; i++) ks.push_back(mc::choose(World::count()));
    mc::decided();
    for (int k : ks)
    {
        p.enter();
        struct Back
        {
            Program& p;
            ~Back() { p.leave(); }
        };
        {
            Back x{p};
            w.act(k);
        }
        p.check(w.failing);
        State now = process();
        for (size_t j = 0; j < now.size(); j++)
            if (now[j].second != before[j].second)
                mc::violation("%s: now [%s], before [%s]", now[j].first, show(now[j].second, 600).c_str(), show(before[j].second, 600).c_str());
        mc::step();
    }
    p.end();
    mc::state(w.M.hash());
    mc::outcome(mc::hash(read_file(w.file)));
}

// Whatever a file holds, no call changes the state of the process or prints on its output
static void whatever(const Str& bytes)
{
    Str file = path("f"), own = path("own");
    put_file(file, bytes);
    put_file(own, "a file of the program");
    Program p(own);
    State before = process();
    p.enter();
    {
        struct Back
        {
            Program& p;
            ~Back() { p.leave(); }
        } x{p};
        In n(latin(file));
        if (ID3v2_TagHeader* h = ID3v2_read_tag_header(n)) ID3v2_TagHeader_free(h);
        if (ID3v2_tag* c = load_tag(n))
        {
            for (int w = 0; w < compat::COUNT; w++) compat::content(compat::get(c, w), w);
            tag_set_title((char*) "title", 0, c);
            set_tag(n, c);
            free_tag(c);
        }
        put_file(file, bytes);
        if (ID3v2_Tag* t = ID3v2_read_tag(n))
        {
            for (int i = 0; i < 11; i++) get_named(t, i);
            ID3v2_Tag_delete_title(t);
            ID3v2_write_tag(n, t);
            ID3v2_Tag_free(t);
        }
        put_file(file, bytes);
        ID3v2_delete_tag(n);
        put_file(file, bytes);
        ID3v2_tag* c = new_tag();
        tag_set_album_cover(n, c);
        free_tag(c);
        In b(bytes + Str(10, '\0'));
        if (ID3v2_TagHeader* h = ID3v2_read_tag_header_from_buffer(b)) ID3v2_TagHeader_free(h);
        if (ID3v2_Tag* t = ID3v2_read_tag_from_buffer(b, bytes.size())) ID3v2_Tag_free(t);
        if (ID3v2_tag* t = load_tag_with_buffer(b, bytes.size())) free_tag(t);
    }
    p.check(true); // of the file, it is up to the library what is an error
    State now = process();
    for (size_t j = 0; j < now.size(); j++)
        if (now[j].second != before[j].second)
            mc::violation("%s: now [%s], before [%s]", now[j].first, show(now[j].second, 600).c_str(), show(before[j].second, 600).c_str());
    p.end();
    mc::step(10);
    mc::state(mc::hash(bytes));
    mc::outcome(mc::hash(slurp(file.c_str())));
}

SPACE(C20, truncated, "files that end after every byte of every starting tag: whatever the calls of both APIs make of them, the state of the process stays the same and nothing is printed on its output")
{
    const Base& b = mc::pick(bases());
    Str all = b.bytes + "audio";
    whatever(all.substr(0, mc::choose((int) all.size() + 1)));
}

SPACE(C20, corrupted, "every byte of every starting tag replaced by ten (thorough: forty) other values: as in truncated")
{
    const Base& b = mc::pick(bases());
    Str all = b.bytes + "audio";
    static const unsigned char V[] = {0, 1, 2, 3, 4, 0x7f, 0x80, 0xff, 'I', ' ', 5, 6, 7, 8, 9, 10, 11, 13, 16, 0x1f, 0x20, 0x2f, '0', '9', ':', 'A', 'T', 'W', 'C', 'Z', 'a', 'z', '-', '+', '.', 0x40, 0xc0, 0xe0, 0xfe, 0x81};
    if (all.size() == 5) return mc::skip();
    int at = mc::choose((int) all.size() - 5);
    char v = (char) V[mc::choose(mc::tier(10, 40))];
    if (all[at] == v) return mc::skip();
    all[at] = v;
    whatever(all);
}

SPACE(C20, versions, "tags of every major version and of six revisions, with every flags of the versions 2 to 5, and with every declared size up to 300: as in truncated")
{
    Str frame = frame_bytes(3, "TIT2", Str("\0title", 6)), all;
    switch (mc::choose(3))
    {
        case 0:
        {
            int v = mc::choose(256);
            all = header_bytes(3, 0, 0, 40) + frame + Str(40 - frame.size(), '\0') + "audio";
            all[3] = (char) v;
            static const int minor[] = {0, 1, 2, 3, 0x7f, 0xff};
            all[4] = (char) mc::pick(minor);
            break;
        }
        case 1:
        {
            int v = 2 + mc::choose(4);
            all = header_bytes(3, 0, 0, 40) + frame + Str(40 - frame.size(), '\0') + "audio";
            all[3] = (char) v;
            all[5] = (char) mc::choose(256);
            break;
        }
        default:
        {
            int v = 3 + mc::choose(2);
            all = header_bytes(v, 0, 0, mc::choose(301)) + frame_bytes(v, "TIT2", Str("\0title", 6)) + Str(40 - frame.size(), '\0') + "audio";
        }
    }
    whatever(all);
}

// ------------------------------------------------------------------------------------------ inputs

namespace {
struct ReadOnly
{
    ReadOnly() { read_only_inputs = true; }
    ~ReadOnly() { read_only_inputs = false; }
};

void finish(ID3v2_Tag* t, const Tag& M)
{
    if (!t) return;
    same(t, M, FRAMES, "after the calls");
    check_getters(t, M);
    Str f = path("f");
    put_file(f, "audio");
    {
        In n(latin(f));
        ID3v2_write_tag(n, t);
        if (ID3v2_Tag* u = ID3v2_read_tag(n)) ID3v2_Tag_free(u);
    }
    Str all = read_file(f);
    {
        In x(all);
        if (ID3v2_Tag* u = ID3v2_read_tag_from_buffer(x, all.size())) ID3v2_Tag_free(u);
        if (ID3v2_tag* u = load_tag_with_buffer(x, all.size())) free_tag(u);
    }
    mc::state(M.hash());
    mc::outcome(mc::hash(all));
    mc::step(6);
    ID3v2_Tag_free(t);
}
} // namespace

SPACE(C20, inputs, "every sequence of two (thorough: three) calls of both APIs, with every string, picture, buffer, id, flags and name in memory that cannot be written, at the end of its page")
{
    ReadOnly r;
    World w(bases()[std::vector<int>{0, 1, 2, 6, 10}[mc::choose(5)]]);
    for (int i = 0; i < mc::tier(2, 3); i++) w.act(mc::choose(World::count()));
    same(w.t, w.M, FRAMES, "after the calls");
    mc::step(2);
    mc::state(w.M.hash());
}

SPACE(C20, bytes, "every byte value in every argument, in memory that cannot be written")
{
    ReadOnly r;
    Tag M;
    finish(any_byte(M), M);
}

SPACE(C20, shapes, "every string of up to five (thorough: six) units over the bytes that could be mistaken for terminators, marks and encodings, in memory that cannot be written")
{
    ReadOnly r;
    Tag M;
    finish(any_shape(M), M);
}

SPACE(C20, values, "values that mean something to other programs, in every field, in memory that cannot be written")
{
    ReadOnly r;
    Tag M;
    finish(any_value(M), M);
}

SPACE(C20, lengths, "every length of text, comment, description, MIME type and picture up to 300 and around every size where something changes, in memory that cannot be written")
{
    ReadOnly r;
    Tag M;
    finish(any_length(M), M);
}

SPACE(C20, strings, "strings of every length up to 1100 and every pair of bytes given to the helpers and to the old API, in memory that cannot be written")
{
    ReadOnly r;
    int k = mc::choose(2);
    Str s;
    if (k) s = Str(mc::choose(1101), 'a');
    else
    {
        s = Str(1, (char) mc::choose(256));
        s += (char) mc::choose(256);
    }
    int enc = mc::choose(3);
    if (enc == 0 && (has_bom(s) || s.find('\0') != Str::npos)) return mc::skip();
    s = enc == 0 ? latin(s) : Str(enc == 2 ? "\xFE\xFF" : "\xFF\xFE", 2) + s + Str(2 + s.size() % 2, '\0');
    {
        In x(s);
        mc::step(3);
        mc::state(mc::hash(s));
        ID3v2_strlen(x);
        ID3v2_strlent(x);
        char* u = ID3v2_to_unicode(x);
        if (u != x.p) free(u);
    }
    ID3v2_tag* c = new_tag();
    for (int w = 0; w < 10; w++) compat::set(c, w, s);
    compat::cover(c, latin("image/png"), s);
    free_tag(c);
}

// ------------------------------------------------------------------------------------------- files

namespace {

// Everything in the scratch directory but the contents of one file
Str around(const Str& but, bool contents)
{
    std::vector<Str> v;
    DIR* d = opendir(mc::scratch().c_str());
    while (dirent* e = readdir(d))
    {
        if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue;
        Str f = path(e->d_name), l = e->d_name;
        struct stat s;
        if (lstat(f.c_str(), &s)) continue;
        char b[4096];
        snprintf(b, sizeof b, " mode %o, owner %d:%d, %d names, file %lu", s.st_mode, s.st_uid, s.st_gid, (int) s.st_nlink, (unsigned long) s.st_ino);
        l += b;
        if (S_ISLNK(s.st_mode))
        {
            ssize_t n = readlink(f.c_str(), b, sizeof b);
            l += " -> " + Str(b, n < 0 ? 0 : n);
        }
        else
        {
            ssize_t n = getxattr(f.c_str(), "user.note", b, sizeof b);
            if (n >= 0) l += " note " + Str(b, n);
        }
        struct stat t;
        bool it = !stat(but.c_str(), &t) && t.st_ino == s.st_ino;
        if (S_ISREG(s.st_mode) && (contents || !it))
        {
            snprintf(b, sizeof b, " %ld bytes, %016lx, of %ld.%09ld", (long) s.st_size, (unsigned long) mc::hash(slurp(f.c_str())), (long) s.st_mtim.tv_sec, (long) s.st_mtim.tv_nsec);
            l += b;
        }
        v.push_back(l);
    }
    closedir(d);
    std::sort(v.begin(), v.end());
    Str r;
    for (auto& x : v) r += x + "\n";
    return r;
}

void clear_scratch()
{
    DIR* d = opendir(mc::scratch().c_str());
    while (dirent* e = readdir(d))
        if (strcmp(e->d_name, ".") && strcmp(e->d_name, ".."))
        {
            Str f = path(e->d_name);
            if (unlink(f.c_str())) rmdir(f.c_str());
        }
    closedir(d);
}

} // namespace

SPACE(C20, files, "files with every permission bits, of another owner, with a second name, reached through links, with an attribute, of a past date, with neighbours; every sequence of two (thorough: three) calls on them: only the contents of the file change, and only by the calls that write (reading leaves even the date as it was)")
{
    clear_scratch();
    static const int modes[] = {0600, 0400, 0644, 0664, 0666, 0444, 0755, 0777, 0700, 0640, 0200, 0622, 0611, 0577, 0000, 01644};
    int mode = mc::pick(modes), via = mc::choose(6), what = mc::choose(5);
    static const Str contents[] = {"audio without a tag", tag_bytes(3, {{"TIT2", Str("\0old", 4)}}, 20) + "audio", tag_bytes(4, {{"TALB", Str("\0old", 4)}, {"PRIV", Str(5000, 'p')}}, 4000, 0x10) + "audio", "", tag_bytes(3, {{"TIT2", Str("\0old", 4)}}, 20)};
    Str file = path("f"), name = file;
    put_file(file, contents[what]);
    for (const char* n : {"f.mp3", "g", "tmp"}) put_file(path(n), Str("a neighbour ") + n);
    put_file(path("c.png"), "a picture");
    chmod(path("g").c_str(), 0444);
    setxattr(file.c_str(), "user.note", "of the user", 11, 0);
    if (via & 1 && chown(file.c_str(), 12345, 23456)) {} // where that is allowed
    switch (via)
    {
        case 0: break;
        case 1: if (link(file.c_str(), path("twin").c_str())) abort(); break;
        case 2: if (symlink("f", (name = path("link")).c_str())) abort(); break;
        case 3: if (symlink("f", path("link").c_str()) || symlink(path("link").c_str(), (name = path("link2")).c_str())) abort(); break;
        case 4: if (link(file.c_str(), (name = path("twin")).c_str())) abort(); break;
        case 5: if (link(file.c_str(), path("twin").c_str()) || symlink("twin", (name = path("link")).c_str())) abort(); break;
    }
    chmod(file.c_str(), mode);
    struct timespec past[2] = {{1000000000, 123456789}, {1000000000, 987654321}};
    utimensat(AT_FDCWD, file.c_str(), past, 0);
    Tag M;
    ID3v2_Tag* t = start(bases()[0], M);
    set_named(t, M, 2, latin("title"));
    ID3v2_tag* c = new_tag();
    compat::set(c, 0, latin("title"));
    mc::op("mode %o, reached as %d, contents %d", mode, via, what);
    for (int i = 0; i < mc::tier(2, 3); i++)
    {
        int k = mc::choose(12);
        static const char* const N[] = {"read", "header", "load", "cover from the file", "write", "delete", "compat write", "compat remove", "write a bigger tag", "read, edit and write", "write beside", "cover from a neighbour"};
        mc::op("%s", N[k]);
        bool writes = k >= 4 && k <= 9;
        Str before = around(file, !writes);
        In n(latin(name));
        switch (k)
        {
            case 0: if (ID3v2_Tag* x = ID3v2_read_tag(n)) ID3v2_Tag_free(x); break;
            case 1: if (ID3v2_TagHeader* x = ID3v2_read_tag_header(n)) ID3v2_TagHeader_free(x); break;
            case 2: if (ID3v2_tag* x = load_tag(n)) free_tag(x); break;
            case 3: tag_set_album_cover(n, c); break;
            case 4: ID3v2_write_tag(n, t); break;
            case 5: ID3v2_delete_tag(n); break;
            case 6: set_tag(n, c); break;
            case 7: remove_tag(n); break;
            case 8:
                set_cover(t, M, latin("image/png"), pattern(1, 9000));
                ID3v2_write_tag(n, t);
                break;
            case 9:
                if (ID3v2_Tag* x = ID3v2_read_tag(n))
                {
                    ID3v2_Tag_delete_title(x);
                    ID3v2_write_tag(n, x);
                    ID3v2_Tag_free(x);
                }
                break;
            case 10:
            {
                In other(latin(path("missing")));
                ID3v2_write_tag(other, t);
                ID3v2_delete_tag(other);
                break;
            }
            case 11:
            {
                In other(latin(path("c.png")));
                tag_set_album_cover(other, c);
                break;
            }
        }
        Str after = around(file, !writes);
        CHECK(before == after, "files: now\n%sbefore\n%s", after.c_str(), before.c_str());
        mc::step();
    }
    Str now = slurp(file.c_str());
    mc::state(mc::hash(now, mode * 64 + via));
    mc::outcome(mc::hash(now));
    free_tag(c);
    ID3v2_Tag_free(t);
    clear_scratch();
}

// ------------------------------------------------------------------------------------ system calls

static long forbidden;
static void look(long nr)
{
    switch (nr)
    {
        case SYS_kill: case SYS_tkill: case SYS_tgkill: case SYS_rt_sigaction: case SYS_alarm: case SYS_setitimer: case SYS_timer_create: case SYS_timer_settime:
        case SYS_socket: case SYS_connect: case SYS_sendto: case SYS_socketpair: case SYS_fork: case SYS_vfork: case SYS_clone: case SYS_clone3: case SYS_execve: case SYS_execveat:
        case SYS_chdir: case SYS_fchdir: case SYS_chroot: case SYS_umask: case SYS_setuid: case SYS_setgid: case SYS_setresuid: case SYS_setresgid: case SYS_setgroups: case SYS_setpriority:
        case SYS_sched_setaffinity: case SYS_sched_setscheduler: case SYS_mount: case SYS_umount2: case SYS_sync: case SYS_ptrace: case SYS_personality: case SYS_sethostname: case SYS_settimeofday:
        case SYS_clock_settime: case SYS_reboot: case SYS_setsid: case SYS_setpgid: case SYS_exit: case SYS_exit_group: case SYS_wait4: case SYS_waitid: case SYS_pause: case SYS_mlockall:
        case SYS_inotify_init1: case SYS_unshare: case SYS_setns: case SYS_seccomp:
            forbidden = nr;
    }
}

SPACE(C20, kernel, "every call of both APIs, after every other one, with every system call it makes looked at: none starts or signals processes, uses the network, or changes, for however short a time, the state that the whole process shares (working directory, umask, handlers, timers, identity), and none opens for writing anything but the file, files without name and new files")
{
    World w(bases()[std::vector<int>{1, 6}[mc::choose(2)]]);
    int a = mc::choose(World::count()), b = mc::choose(World::count());
    mc::decided();
    w.act(a);
    forbidden = -1;
    sysio::any_call = look;
    Str wrong;
    std::set<Str> ours;
    sysio::run(
        [&](sysio::Call& c) -> long {
            bool writable = c.kind == sysio::OPEN && (c.nr == SYS_open ? c.a[1] : c.nr == SYS_openat ? c.a[2] : c.nr == SYS_creat ? O_WRONLY : O_RDONLY) & O_ACCMODE;
            struct stat st;
            if (writable && lstat(c.path.c_str(), &st) == 0 && !ours.count(c.path) && c.path != w.file && c.path != w.plain && c.path != w.broken && c.path != w.empty && c.path != w.liar && c.path != w.missing && c.path != w.dir)
                wrong = c.path;
            if (writable) ours.insert(c.path);
            return 0;
        },
        [&](sysio::Call&, long) {},
        [&] { w.act(b); }
    );
    sysio::any_call = nullptr;
    CHECK(wrong.empty(), "%s is opened for writing", wrong.c_str());
    CHECK(forbidden < 0, "system call %ld", forbidden);
    mc::step(2);
    mc::state(w.M.hash());
}

SPACE(C20, faults, "every system call of every call of both APIs that uses files fails, once or from then on: even then the state of the process stays the same, nothing is printed on its output, and no other file is touched")
{
    const int SLOTS = 8;
    bool sticky = mc::choose(2);
    static const int with_files[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 18, 19, 20, 21, 22, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36};
    int slot = mc::choose(SLOTS), k = 24 + mc::pick(with_files);
    mc::deviations(mc::tier(2, 3));
    clear_scratch();
    World w(bases()[6]);
    const int op = k - 24;
    const Str target = op == 2 || op == 25 ? w.plain : op == 3 || op == 27 ? w.empty : op == 26 ? w.broken : op == 36 ? w.liar : w.file;
    if (op == 1 || op == 22 || op == 36) w.act(24); // as large as it gets
    Program p(w.picture);
    Str files = around(target, false);
    sysio::run([](sysio::Call&) { return 0L; }, [](sysio::Call&, long) {}, [] {}); // which installs its handler
    State before = process();
    int calls = 0, stuck[16] = {};
    bool deviated = false, dirty = false;
    p.enter();
    {
        struct Back
        {
            Program& p;
            ~Back() { p.leave(); }
        } x{p};
        sysio::run(
            [&](sysio::Call& c) -> long {
                if (++calls > 4000) mc::violation("more than 4000 system calls");
                if (c.fd >= 0 && c.fd < 3) return 0;
                if (stuck[c.kind]) return stuck[c.kind];
                long v[4];
                int n = 1;
                v[0] = 0;
                switch (c.kind)
                {
                    case sysio::OPEN: v[n++] = EACCES, v[n++] = EMFILE; break;
                    case sysio::CREATE_TEMP: v[n++] = EOPNOTSUPP, v[n++] = ENOSPC; break;
                    case sysio::READ: v[n++] = EIO; break;
                    case sysio::WRITE: v[n++] = ENOSPC; break;
                    case sysio::SEEK: v[n++] = EINVAL; break;
                    case sysio::TRUNCATE: v[n++] = EFBIG; break;
                    case sysio::RENAME: v[n++] = EXDEV; break;
                    case sysio::UNLINK: v[n++] = EACCES; break;
                    case sysio::SYNC:
                    case sysio::CLOSE: v[n++] = EIO; break;
                    default: break;
                }
                long d = v[deviated || calls % SLOTS == slot ? mc::choose_dev(n) : 0];
                if (d) deviated = true;
                if (c.kind == sysio::UNLINK && d) dirty = true; // what cannot be removed stays
                if (d && sticky && d != EOPNOTSUPP && c.kind != sysio::CLOSE) stuck[c.kind] = d;
                mc::op("  %s%s", c.show().c_str(), d ? ": fails" : "");
                return d;
            },
            [](sysio::Call&, long) {},
            [&] { w.act(k); }
        );
    }
    p.check(w.failing || deviated);
    State now = process();
    for (size_t j = 0; j < now.size(); j++)
        if (now[j].second != before[j].second)
            mc::violation("%s: now [%s], before [%s]", now[j].first, show(now[j].second, 600).c_str(), show(before[j].second, 600).c_str());
    Str after = around(target, false);
    CHECK(dirty || after == files, "files: now\n%sbefore\n%s", after.c_str(), files.c_str());
    p.end();
    mc::step(calls);
    mc::state(mc::hash(&calls, sizeof calls, k));
}
