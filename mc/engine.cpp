#include "engine.hpp"
#include <algorithm>
#include <cstdarg>
#include <dirent.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>

namespace mc {

static const int MAXD = 1 << 14;

struct Shared
{
    volatile uint64_t execs, nodes, steps, skipped, beat;
    volatile uint32_t depth;
    volatile int patience; // seconds without progress that are too many
    volatile int status; // 0 running, 1 finished, 2 violation, 3 divergence, 4 stopped by the time cap
    uint32_t maxdepth;
    uint32_t ch[MAXD], nn[MAXD];
    char msg[16384];
    char sample[8192];
    struct
    {
        char key[48];
        uint64_t n;
    } finding[16];
};

struct Frame
{
    int c, n;
};

struct Cut
{
};
struct Stop
{
};

static std::vector<Space>& spaces()
{
    static std::vector<Space> s;
    return s;
}

Register::Register(const char* p, const char* n, const char* w, void (*fn)(), bool t)
{
    spaces().push_back({p, n, w, fn, t});
}

void (*before_execution)() = nullptr;

static Shared* sh;
static std::vector<Frame> stack_;
static size_t fixed_, pos_, cut_ = SIZE_MAX;
static int dev_bound, dev_used;
static bool defer_, pending_;
static bool g_thorough, g_tracing, g_skipped;
static int g_worker;
static std::string g_trace, g_scratch;
static std::unordered_set<uint64_t> g_states, g_outcomes;

bool thorough() { return g_thorough; }
int tier(int q, int t) { return g_thorough ? t : q; }
const std::string& scratch() { return g_scratch; }
int worker() { return g_worker; }
bool tracing() { return g_tracing; }
void deviations(int b) { dev_bound = b; }

uint64_t hash(const void* p, size_t n, uint64_t h)
{
    const unsigned char* c = (const unsigned char*) p;
    // 8 bytes at a time, multiply-xorshift
    h ^= n * 0x9E3779B97F4A7C15ull;
    while (n >= 8)
    {
        uint64_t v;
        memcpy(&v, c, 8);
        h = (h ^ v) * 0xff51afd7ed558ccdull;
        h ^= h >> 32;
        c += 8;
        n -= 8;
    }
    uint64_t v = 0;
    memcpy(&v, c, n);
    h = (h ^ v) * 0xc4ceb9fe1a85ec53ull;
    h ^= h >> 29;
    return h;
}

void violation(const char* fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(sh->msg, sizeof sh->msg, fmt, ap);
    va_end(ap);
    sh->status = 2;
    _exit(42);
}

void op(const char* fmt, ...)
{
    if (!g_tracing) return;
    char b[1024];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    if (g_trace.size() < 6000) g_trace += std::string(b) + "\n";
    snprintf(sh->sample, sizeof sh->sample, "%s", g_trace.c_str());
}

void step(uint64_t n) { sh->steps += n; sh->beat++; }
void state(uint64_t h) { g_states.insert(h); }
void outcome(uint64_t h) { g_outcomes.insert(h); }
void skip() { g_skipped = true; }
void patience(int s)
{
    sh->patience = s;
    if (cut_ != SIZE_MAX) alarm(s + 5);
}
void decided()
{
    if (cut_ != SIZE_MAX) throw Cut();
}
int in_library;
void (*on_enter)();

void finding(const char* key)
{
    for (auto& f : sh->finding)
    {
        if (!f.key[0]) snprintf(f.key, sizeof f.key, "%s", key);
        if (!strcmp(f.key, key))
        {
            f.n++;
            return;
        }
    }
    violation("too many kinds of findings");
}

static void publish()
{
    size_t d = std::min(stack_.size(), (size_t) MAXD);
    sh->depth = d;
    for (size_t i = 0; i < d; i++) sh->ch[i] = stack_[i].c, sh->nn[i] = stack_[i].n;
}

void begin_defer() { defer_ = true; }
void end_defer()
{
    defer_ = false;
    if (pending_) throw Cut();
}

Tape* tape;
static int choose_(int n);

int choose(int n)
{
    if (n <= 1) return 0;
    if (tape && tape->play)
    {
        if (tape->pos == tape->v.size())
        {
            snprintf(sh->msg, sizeof sh->msg, "divergence: more choices than the first time");
            sh->status = 3;
            _exit(43);
        }
        return tape->v[tape->pos++];
    }
    int r = choose_(n);
    if (tape) tape->v.push_back(r);
    return r;
}

static int choose_(int n)
{
    if (pos_ == cut_)
    {
        if (!defer_) throw Cut();
        pending_ = true;
        return 0;
    }
    if (pos_ < stack_.size())
    {
        Frame& f = stack_[pos_];
        if (f.n == 0) f.n = n;
        if (f.n != n || f.c >= n)
        {
            snprintf(
                sh->msg,
                sizeof sh->msg,
                "divergence: choice %zu had %d alternatives, now %d",
                pos_,
                f.n,
                n
            );
            sh->status = 3;
            _exit(43);
        }
        sh->depth = pos_ + 1;
        return stack_[pos_++].c;
    }
    if (stack_.size() >= (size_t) MAXD)
    {
        snprintf(sh->msg, sizeof sh->msg, "too many choices in one execution");
        sh->status = 3;
        _exit(43);
    }
    stack_.push_back({0, n});
    sh->ch[pos_] = 0;
    sh->nn[pos_] = n;
    sh->depth = pos_ + 1;
    sh->nodes += n;
    pos_++;
    return 0;
}

int choose_dev(int n)
{
    if (dev_used >= dev_bound) return 0;
    int c = choose(n);
    if (c) dev_used++;
    return c;
}

static void run_once(const Space& s)
{
    pos_ = 0;
    dev_bound = 1 << 30;
    dev_used = 0;
    defer_ = pending_ = false;
    g_skipped = false;
    sh->beat++;
    sh->patience = 40;
    in_library = 0;
    on_enter = nullptr;
    if (cut_ != SIZE_MAX) alarm(45); // nobody watches the search for prefixes
    if (before_execution) before_execution();
    s.fn();
    sh->execs++;
    if (g_skipped) sh->skipped++;
    if (stack_.size() > sh->maxdepth) sh->maxdepth = stack_.size();
}

static bool advance()
{
    while (stack_.size() > fixed_)
    {
        Frame& f = stack_.back();
        if (f.c + 1 < f.n)
        {
            f.c++;
            return true;
        }
        stack_.pop_back();
    }
    return false;
}

static double now()
{
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec / 1e9;
}

// All prefixes of length d (or complete executions that are shorter).
static std::vector<std::vector<Frame>> prefixes(const Space& s, size_t d, size_t max)
{
    std::vector<std::vector<Frame>> out;
    stack_.clear();
    fixed_ = 0;
    cut_ = d;
    do
    {
        try
        {
            run_once(s);
        }
        catch (Cut&)
        {
        }
        out.push_back(stack_);
    } while (advance() && out.size() <= max);
    cut_ = SIZE_MAX;
    return out;
}

static void rmtree(const std::string& d)
{
    DIR* dir = opendir(d.c_str());
    if (dir)
    {
        while (struct dirent* e = readdir(dir))
        {
            std::string n = e->d_name;
            if (n == "." || n == "..") continue;
            std::string p = d + "/" + n;
            struct stat st;
            if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode))
                rmtree(p);
            else
                unlink(p.c_str());
        }
        closedir(dir);
    }
    rmdir(d.c_str());
}

static std::string jstr(const std::string& s)
{
    std::string o = "\"";
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\')
            o += '\\', o += c;
        else if (c == '\n')
            o += "\\n";
        else if (c < 0x20 || c >= 0x7f)
        {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", c);
            o += b;
        }
        else
            o += c;
    }
    return o + "\"";
}

static void write_all(int fd, const void* p, size_t n)
{
    const char* c = (const char*) p;
    while (n)
    {
        ssize_t k = write(fd, c, n);
        if (k <= 0) _exit(44);
        c += k;
        n -= k;
    }
}

static void save_set(const std::string& file, const std::unordered_set<uint64_t>& s)
{
    int fd = open(file.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    std::vector<uint64_t> v(s.begin(), s.end());
    if (!v.empty()) write_all(fd, v.data(), v.size() * 8);
    close(fd);
}

static void load_set(const std::string& file, std::unordered_set<uint64_t>& s)
{
    FILE* f = fopen(file.c_str(), "rb");
    if (!f) return;
    uint64_t v;
    while (fread(&v, 8, 1, f) == 1) s.insert(v);
    fclose(f);
}

static std::string slurp(const std::string& file, size_t max = 6000)
{
    std::string o;
    FILE* f = fopen(file.c_str(), "rb");
    if (!f) return o;
    o.resize(max);
    o.resize(fread(&o[0], 1, max, f));
    fclose(f);
    return o;
}

static std::string choices(Shared* s)
{
    std::string o;
    for (uint32_t i = 0; i < s->depth && i < (uint32_t) MAXD; i++)
        o += (i ? "," : "") + std::to_string(s->ch[i]);
    return o;
}

static void enter_worker(int w, const std::string& base, bool quiet)
{
    g_worker = w;
    g_scratch = base + "/w" + std::to_string(w);
    mkdir(g_scratch.c_str(), 0700);
    if (chdir(g_scratch.c_str())) _exit(44); // whatever is created by a relative name stays there
    int in = open("/dev/null", O_RDONLY); // the workers share no position in a file
    dup2(in, 0);
    close(in);
    if (quiet)
    {
        int fd = open((base + "/err" + std::to_string(w)).c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
        dup2(fd, 2);
        int nul = open("/dev/null", O_WRONLY);
        dup2(nul, 1);
        close(fd);
        close(nul);
    }
}

// One worker: its share of the tasks, in a fixed order, so that its history can be repeated.
static void work(const Space& s, const std::vector<std::vector<Frame>>& tasks, int w, int n, double deadline)
{
    for (size_t t = w; t < tasks.size(); t += n)
    {
        stack_ = tasks[t];
        fixed_ = stack_.size();
        publish();
        do
        {
            uint64_t k = sh->execs + 1;
            g_tracing = (k & (k - 1)) == 0;
            if (g_tracing) g_trace.clear();
            publish();
            run_once(s);
            if ((k & 63) == 0 && deadline > 0 && now() > deadline)
            {
                sh->status = 4;
                return;
            }
        } while (advance());
    }
    sh->status = 1;
}

static std::string describe_exit(int st)
{
    char b[200];
    if (WIFSIGNALED(st))
        snprintf(b, sizeof b, "the process was killed by signal %d", WTERMSIG(st));
    else
        snprintf(b, sizeof b, "the process ended by itself with status %d", WEXITSTATUS(st));
    return b;
}

struct Result
{
    std::string space;
    int kind; // 0 fine, 1 violation, 2 error
    std::string msg, trace, choices, err;
    int w, n;
};

static Result explore(const Space& s, int n, const std::string& base, double cap, std::string& json)
{
    Result r;
    r.kind = 0;
    r.space = s.name;
    r.n = n;
    r.w = 0;
    double t0 = now();
    std::vector<Shared*> S(n + 1);
    for (int i = 0; i <= n; i++)
    {
        S[i] = (Shared*) mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        S[i]->status = 0;
    }

    // Split the tree: prefixes are found by running the space up to a depth, in a child.
    std::vector<std::vector<Frame>> tasks(1);
    for (size_t d = 1; d <= 8 && n > 1; d++)
    {
        // This is done alone, so it must not take long once there is something to share out
        size_t max = tasks.size() >= (size_t) n * 4 ? n * 200 : 2000000;
        int fd[2];
        if (pipe(fd)) exit(44);
        fflush(0);
        pid_t pid = fork();
        if (pid == 0)
        {
            close(fd[0]);
            sh = S[n];
            enter_worker(n, base, true);
            auto p = prefixes(s, d, max);
            uint32_t c = p.size();
            write_all(fd[1], &c, 4);
            for (auto& x : p)
            {
                c = x.size();
                write_all(fd[1], &c, 4);
                if (c) write_all(fd[1], x.data(), c * sizeof(Frame));
            }
            _exit(0);
        }
        close(fd[1]);
        FILE* f = fdopen(fd[0], "rb");
        uint32_t c;
        std::vector<std::vector<Frame>> p;
        bool ok = fread(&c, 4, 1, f) == 1;
        for (uint32_t i = 0, k; ok && i < c; i++)
        {
            ok = fread(&k, 4, 1, f) == 1;
            std::vector<Frame> x(ok ? k : 0);
            if (ok && k) ok = fread(x.data(), sizeof(Frame), k, f) == k;
            p.push_back(x);
        }
        fclose(f);
        int st;
        waitpid(pid, &st, 0);
        // A violation on the way (the execution of a short prefix): let the workers find it.
        if (!ok || st != 0 || p.size() > max) break;
        bool deeper = p.size() > tasks.size();
        tasks = p;
        if (tasks.size() >= (size_t) n * 24 || (!deeper && d > 3)) break;
    }

    std::vector<pid_t> pid(n);
    double deadline = cap > 0 ? t0 + cap : 0;
    fflush(0);
    for (int w = 0; w < n; w++)
    {
        pid[w] = fork();
        if (pid[w] == 0)
        {
            sh = S[w];
            enter_worker(w, base, true);
            work(s, tasks, w, n, deadline);
            save_set(base + "/states" + std::to_string(w), g_states);
            save_set(base + "/outcomes" + std::to_string(w), g_outcomes);
            _exit(sh->status == 4 ? 45 : 0);
        }
    }
    std::vector<uint64_t> last(n, 0);
    std::vector<double> when(n, now());
    int left = n, failed = -1, fst = 0;
    bool hang = false, capped = false;
    while (left > 0 && failed < 0)
    {
        int st;
        pid_t p = waitpid(-1, &st, WNOHANG);
        if (p > 0)
        {
            for (int w = 0; w < n; w++)
                if (pid[w] == p)
                {
                    pid[w] = 0;
                    left--;
                    if (WIFEXITED(st) && WEXITSTATUS(st) == 45 && S[w]->status == 4)
                        capped = true;
                    else if (!WIFEXITED(st) || WEXITSTATUS(st) != 0 || S[w]->status != 1)
                        failed = w, fst = st;
                }
            continue;
        }
        usleep(2000);
        for (int w = 0; w < n; w++)
        {
            if (!pid[w]) continue;
            if (S[w]->beat != last[w])
                last[w] = S[w]->beat, when[w] = now();
            else if (now() - when[w] > std::max(40, (int) S[w]->patience))
                failed = w, hang = true;
        }
    }
    for (int w = 0; w < n; w++)
        if (pid[w]) kill(pid[w], SIGKILL), waitpid(pid[w], 0, 0);

    uint64_t ex = 0, nodes = 0, steps = 0, skipped = 0;
    uint32_t md = 0;
    for (int w = 0; w < n; w++)
    {
        ex += S[w]->execs;
        nodes += S[w]->nodes;
        steps += S[w]->steps;
        skipped += S[w]->skipped;
        md = std::max(md, S[w]->maxdepth);
    }
    std::unordered_set<uint64_t> states, outcomes;
    for (int w = 0; w < n; w++)
    {
        load_set(base + "/states" + std::to_string(w), states);
        load_set(base + "/outcomes" + std::to_string(w), outcomes);
    }
    if (failed >= 0)
    {
        Shared* f = S[failed];
        r.w = failed;
        r.kind = f->status == 3 ? 2 : 1;
        r.choices = choices(f);
        r.err = slurp(base + "/err" + std::to_string(failed));
        if (hang)
            r.msg = "no progress for a long time (endless loop)", r.kind = 3;
        else if (f->status >= 2)
            r.msg = f->msg;
        else
            r.msg = describe_exit(fst);
    }
    char b[1024];
    snprintf(
        b,
        sizeof b,
        "{\"name\":%s,\"executions\":%lu,\"choice_nodes\":%lu,\"steps\":%lu,\"skipped\":%lu,"
        "\"states\":%zu,\"outcomes\":%zu,\"max_choices\":%u,\"tasks\":%zu,\"workers\":%d,\"exhaustive\":%s,\"wall_s\":%.2f,",
        jstr(s.name).c_str(),
        ex,
        nodes,
        steps,
        skipped,
        states.size(),
        outcomes.size(),
        md,
        tasks.size(),
        n,
        capped || failed >= 0 ? "false" : "true",
        now() - t0
    );
    json = b;
    json += "\"what\":" + jstr(s.what) + ",\"samples\":[" + jstr(S[0]->sample);
    if (n > 1) json += "," + jstr(S[n - 1]->sample);
    json += "],\"findings\":{";
    std::vector<std::pair<std::string, uint64_t>> found;
    for (int w = 0; w < n; w++)
        for (auto& x : S[w]->finding)
        {
            if (!x.key[0]) continue;
            size_t i = 0;
            while (i < found.size() && found[i].first != x.key) i++;
            if (i == found.size()) found.push_back({x.key, 0});
            found[i].second += x.n;
        }
    for (size_t i = 0; i < found.size(); i++) json += (i ? "," : "") + jstr(found[i].first) + ":" + std::to_string(found[i].second);
    json += "}}";
    for (auto* p : S) munmap(p, sizeof(Shared));
    return r;
}

// Runs one execution (or the whole history of a worker up to it) in a fresh process.
static int replay(const Space& s, const std::string& base, const std::vector<int>& ch, double limit, std::string& out)
{
    sh = (Shared*) mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    fflush(0);
    pid_t p = fork();
    if (p == 0)
    {
        enter_worker(0, base, true);
        for (int c : ch) stack_.push_back({c, 0});
        fixed_ = stack_.size();
        g_tracing = true;
        run_once(s);
        _exit(0);
    }
    double t0 = now();
    int st = 0;
    while (waitpid(p, &st, WNOHANG) == 0)
    {
        if (now() - t0 > std::max(limit, 1. * sh->patience))
        {
            kill(p, SIGKILL);
            waitpid(p, &st, 0);
            out = std::string(sh->sample) + "\n=> no answer in " + std::to_string((int) limit) + " s (endless loop)";
            return 1;
        }
        usleep(1000);
    }
    out = sh->sample;
    if (st == 0) return 0;
    out += std::string("\n=> ") + (sh->status >= 2 ? std::string(sh->msg) : describe_exit(st));
    std::string err = slurp(base + "/err0");
    if (!err.empty()) out += "\n" + err;
    return sh->status == 3 ? 2 : 1;
}

} // namespace mc

using namespace mc;

int main(int argc, char** argv)
{
    std::string prop, base, out, space, ch;
    int n = 8;
    double cap = 0;
    bool rep = false;
    for (int i = 1; i < argc; i++)
    {
        std::string a = argv[i];
        auto next = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--property") prop = next();
        else if (a == "--tier") g_thorough = next() == "thorough";
        else if (a == "--workers") n = atoi(next().c_str());
        else if (a == "--scratch") base = next();
        else if (a == "--out") out = next();
        else if (a == "--space") space = next();
        else if (a == "--cap") cap = atof(next().c_str());
        else if (a == "--replay") { ch = next(); rep = true; }
        else return 2;
    }
    if (base.empty()) return 2;
    if (rep)
    {
        std::vector<int> v;
        for (size_t p = 0; p < ch.size();)
        {
            v.push_back(atoi(ch.c_str() + p));
            size_t q = ch.find(',', p);
            if (q == std::string::npos) break;
            p = q + 1;
        }
        for (auto& s : spaces())
            if (prop == s.property && space == s.name)
            {
                std::string o;
                int rc = replay(s, base, v, 120, o);
                printf("%s\n", o.c_str());
                rmtree(base + "/w0");
                return rc;
            }
        return 2;
    }
    FILE* f = fopen(out.c_str(), "w");
    if (!f) return 2;
    fprintf(f, "{\"spaces\":[");
    bool first = true;
    Result bad;
    bad.kind = 0;
    for (auto& s : spaces())
    {
        if (prop != s.property || (s.thorough_only && !g_thorough)) continue;
        if (!space.empty() && space != s.name) continue;
        std::string j;
        Result r = explore(s, n, base, cap, j);
        fprintf(f, "%s%s", first ? "" : ",\n", j.c_str());
        fflush(f);
        first = false;
        for (int w = 0; w <= n; w++)
        {
            rmtree(base + "/w" + std::to_string(w));
            unlink((base + "/states" + std::to_string(w)).c_str());
            unlink((base + "/outcomes" + std::to_string(w)).c_str());
        }
        if (r.kind)
        {
            bad = r;
            if (r.kind != 2) break; // the number of choices changed: no answer from this space, maybe from another
        }
    }
    fprintf(f, "]");
    if (bad.kind)
        fprintf(
            f,
            ",\"failure\":{\"kind\":%d,\"space\":%s,\"message\":%s,\"choices\":%s,\"stderr\":%s,\"worker\":%d,\"workers\":%d}",
            bad.kind,
            jstr(bad.space).c_str(),
            jstr(bad.msg).c_str(),
            jstr(bad.choices).c_str(),
            jstr(bad.err).c_str(),
            bad.w,
            bad.n
        );
    fprintf(f, "}\n");
    fclose(f);
    return 0;
}
