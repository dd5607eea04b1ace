// Controlled scheduler and happens-before monitor: interface.  race_rt.cpp stands in for the ThreadSanitizer runtime.
// Code compiled with -fsanitize=thread calls it before every memory access, so that one thread runs at a time,
// every access is recorded, and the scheduler decides at every access who goes on.
#pragma once
#include <cstddef>
#include <cstdint>

namespace race
{
constexpr int kThreads = 400;  // logical threads of one run
constexpr int kConf = 1024;    // places two threads contend for
constexpr int kChoices = 4096; // scheduling decisions of one run
constexpr int kText = 1500;

enum Mode
{
    Serial,   // threads run one after the other in the order given
    At,       // thread order[0] is stopped before its access number `at`, order[1] runs (to its own access `at2` if nonzero), then back
    Explore,  // decisions at every access to a place of `conf`, following choice[0..nprefix), then the first option
};

struct Box // shared between the process that explores and the process that runs
{
    // in
    int threads, mode;
    int order[kThreads];
    uint64_t at, at2;
    int bound; // preemptions
    int nprefix;
    uint8_t choice[kChoices];
    // in and out: places of contention (granule numbers), grows
    int nconf;
    uint64_t conf[kConf];
    int conf_full;
    uint64_t last_conf[2]; // why the last of them is one
    int last_kind[2];
    // out
    int nchoice;
    uint8_t options[kChoices];
    int choices_full;
    uint64_t accesses[kThreads];    // all recorded accesses of a thread
    uint64_t points[kThreads];      // ... to places that are not the thread's own
    uint64_t granules, syncs, switches;
    int race;                       // 1: data race
    int ra, rb, rakind, rbkind;     // threads; 1 write 2 atomic 4 free
    uint64_t raddr, rapc, rbpc;
    int rstatic;
    int deadlock;
    int full;                       // the monitor ran out of room
    int finished;
    uint64_t hash[kThreads];
    char text[8][kText];
};

// Runs body(0..threads-1) in threads of their own under the scheduler; returns when all have finished.
void run(Box* b, void (*body)(int tid, void* ctx), void* ctx);
// Called by a body when its observed work is over: nothing is recorded from here on.
void done();
} // namespace race
