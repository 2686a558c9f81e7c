// A controlled scheduler for OpenMP regions plus a happens-before monitor of every memory access made inside them
// (runtime in sched_rt.cpp; the library is compiled with -fsanitize=thread, whose callbacks the runtime supplies).
#pragma once
#include <string>
#include <vector>
#include <cstdint>
namespace sched {
struct Stats { uint64_t regions, multi, accesses, atomics, switches, waits, atomicShared, races; };
Stats& stats();
void setThreads(int n);                         // the number of threads OpenMP reports from now on
void setOrder(std::vector<int> const& prio);    // whenever a thread stops, the first enabled one in this order runs
void setPreempt(long at, int to);               // at the at-th atomic operation made inside regions switch to thread `to` (at < 0: never)
void setRecord(bool on);                        // monitor the accesses
void beginRun();                                // resets the count of atomic operations
long atomicOps();                               // atomic operations inside regions since beginRun
bool sharedAtomics();                           // some location was used atomically by two threads (one writing) since beginRun
std::vector<std::pair<void*, void*>> sharedSites();   // (kernel, instruction) of such uses
std::vector<std::string> takeRaces();
}
