// A small stateless model checker for sequential code.
//
// A "space" is a function that drives the real library and takes every decision that is left open
// (which operation, which argument, which answer of the environment, which thread runs) by calling
// choose(n). The engine runs the function once for every sequence of answers, depth first, until the
// tree of choices is exhausted. There is no randomness anywhere.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <string>
#include <vector>

namespace mc {

// --- decisions -------------------------------------------------------------------------------
int choose(int n);                 // 0..n-1, all of them are explored
// The same decisions again: what is chosen while recording is answered again while playing
struct Tape
{
    std::vector<int> v;
    size_t pos = 0;
    bool play = false;
};
extern Tape* tape;
int choose_dev(int n);             // 0 is the default answer, any other one costs a deviation
void deviations(int bound);        // bound for the current execution (default: unlimited)
template <class T, size_t N> const T& pick(const T (&a)[N]) { return a[choose((int) N)]; }
template <class T> const T& pick(const std::vector<T>& a) { return a[choose((int) a.size())]; }

// --- observations ----------------------------------------------------------------------------
[[noreturn]] void violation(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
#define CHECK(cond, ...)                     \
    do                                       \
    {                                        \
        if (!(cond)) mc::violation(__VA_ARGS__); \
    } while (0)
void op(const char* fmt, ...) __attribute__((format(printf, 1, 2))); // one step of the trace
bool tracing();                    // is the trace of this execution being kept?
void step(uint64_t n = 1);         // a transition executed on the real code and compared
void state(uint64_t hash);         // a (model or observed) state reached
void outcome(uint64_t hash);       // final observation of an execution
void patience(int seconds);        // how long a call may take in this execution (40 otherwise)
void decided();                    // there are no more choices to make in this execution (saves time)
void skip();                       // the execution is outside of the domain of the property (counted apart)
void finding(const char* key);     // a violation that known-findings.txt may list under this key
// Choices taken where no exception can be thrown (in a signal handler): between these two a cut waits for the end
void begin_defer();
void end_defer();
extern int in_library;             // calls of the harness into the library under way (see guard.hpp)

uint64_t hash(const void* p, size_t n, uint64_t seed = 1469598103934665603ull);
inline uint64_t hash(const std::string& s, uint64_t seed = 1469598103934665603ull)
{
    return hash(s.data(), s.size(), seed);
}

// --- configuration ---------------------------------------------------------------------------
bool thorough();
int tier(int quick, int thorough_value);
const std::string& scratch();      // private scratch directory of this worker
int worker();

struct Space
{
    const char* property;
    const char* name;
    const char* what;
    void (*fn)();
    bool thorough_only;
};
struct Register
{
    Register(const char* property, const char* name, const char* what, void (*fn)(), bool t = false);
};
#define SPACE(prop, nm, what)                                                   \
    static void space_##prop##_##nm();                                          \
    static mc::Register reg_##prop##_##nm(#prop, #nm, what, space_##prop##_##nm); \
    static void space_##prop##_##nm()
#define SPACE_THOROUGH(prop, nm, what)                                                \
    static void space_##prop##_##nm();                                                \
    static mc::Register reg_##prop##_##nm(#prop, #nm, what, space_##prop##_##nm, true); \
    static void space_##prop##_##nm()

// Called before every execution, in the worker (reset of the environment of the harness).
extern void (*before_execution)();

} // namespace mc
