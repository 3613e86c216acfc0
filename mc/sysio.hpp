// The system calls of the library, one by one. While a Scope is alive every system call of the thread is
// sent back to the process by the kernel (syscall user dispatch), and the ones on files go through a hook that
// may look at the files, fail the call or shorten it. Nothing depends on which functions of the C library are used.
#pragma once
#include "engine.hpp"
#include <functional>
#include <set>
#include <string>

namespace sysio {

enum Kind
{
    OPEN,
    CREATE_TEMP, // open of a file without name
    READ,
    WRITE,
    SEEK,
    TRUNCATE,
    RENAME,
    UNLINK,
    SYNC,
    CLOSE,
    OTHER
};
const char* name(Kind k);

struct Call
{
    Kind kind;
    long nr;
    long a[6];
    int fd;            // of the call (after it, also the one an open returns)
    size_t size;       // bytes requested by transfers
    std::string path;  // of the calls that take one
    std::string show() const;
};

// Before the call: 0 to go on, a positive errno to fail it, or -n to limit a transfer to n bytes.
typedef std::function<long(Call&)> Before;
typedef std::function<void(Call&, long result)> After;

struct Scope
{
    Scope(const Before& b, const After& a, bool this_thread = true);
    ~Scope();
};

// More threads under the hooks of the Scope, one at a time
struct ThreadScope
{
    ThreadScope();
    ~ThreadScope();
};
extern void (*any_call)(long nr); // told of every other system call, except the ones for memory

// No system call is sent back while it is alive
struct Pause
{
    char was;
    Pause();
    ~Pause();
};

// Run f with the hooks installed. A cut of the exploration inside takes effect when f is over.
template <class F> void run(const Before& b, const After& a, F f)
{
    {
        Scope s(b, a);
        f();
    }
    mc::end_defer();
}

// For the hooks
bool slurp(const std::string& path, std::string& out);
bool stored_elsewhere(const std::string& what, const std::string& not_path); // in a file opened in this scope
bool may_change(const Call& c, const std::string& path); // can the call have changed this file?
bool truncates(const Call& c, const std::string& path);  // an open that empties this file
bool makes_file(const Call& c);                          // a file without name, or an open or a rename that creates one
std::string left_behind(); // a file created in this scope that is still there, and was not there before
int open_files();  // file descriptors of the process
bool available();

} // namespace sysio
