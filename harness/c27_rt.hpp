// The controlled scheduler of C27: interface.
#pragma once
#include <cstddef>
#include <cstdint>
namespace rt {
enum { MAXT = 3, MAXDEC = 6000, MAXCONF = 4096, RESLEN = 16384 };
struct Dec { uint8_t cur, curen, mask, chosen; };
/// what a child process reports
struct Shm
{
    // outcome
    uint32_t done;               // all threads finished
    char violation[512];         // data race, deadlock, error ...
    uint32_t reslen[MAXT]; char res[MAXT][RESLEN];
    // decisions
    uint32_t ndec, truncated; Dec dec[MAXDEC];
    // bytes accessed by two threads, one of them writing
    uint32_t nconf; uintptr_t conf[MAXCONF];
    // statistics
    uint64_t accesses, shared_accesses, syncs;
    // static bytes that differ after the run (solo runs)
    uint32_t nstat; uintptr_t stat[MAXCONF];
};
using Fn = void (*)(int tid, void *arg);
/// run the threads under the schedule `prefix` (then: no preemption); called in a child process
void run(int n, Fn fn, void *arg, uint8_t const* prefix, size_t nprefix, uintptr_t const* conf, size_t nconf, Shm *out, bool statics);
void result(int tid, char const* s, size_t n);  // a thread's result
void yield();                                   // an explicit schedule point
void fail(char const* msg);                     // reports and ends the process
}
