// Two real threads under a scheduler that decides at which of their steps each of them is stopped. Only one
// runs at a time. The steps are the memory accesses of the library (it is compiled with -fsanitize=thread and
// the functions that its code calls at every access are here, there is no race detector), the entries and exits
// of its functions, and the system calls it makes.
#pragma once
#include "engine.hpp"
#include <functional>
#include <vector>

namespace threads {

enum Level
{
    COARSE, // operations, system calls, accesses to global variables, functions of libc with state
    CALLS,  // and every function of the library entered or left
    FINE    // and every access to memory out of the own stack
};

typedef std::function<void()> Body;

// Steps of the body when it runs by itself
long count(Level l, const Body& b);

// Runs both bodies. The first one is stopped after segment[0] steps, then the second one runs for segment[1],
// and so on; the last segment goes on until the end. False if some segment was longer than its thread.
bool run(Level l, const std::vector<long>& segment, const Body& a, const Body& b);

void operation(); // a step: the start of an operation of the body
long globals();   // accesses to global variables seen so far

} // namespace threads
