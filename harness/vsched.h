// Controlled scheduler: serialises all threads of the program under test and decides, at every synchronisation
// operation, which one runs next.  Works by interposing the pthread functions and the clocks; the code under test is
// compiled unchanged.
#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace sched {
    enum Policy { RANDOM, PCT, DFS, SCRIPT, LOCKHUNT };

    struct Config {
        int policy = RANDOM;
        uint64_t seed = 1;
        bool coarse = false;         // no preemption while the running thread holds a mutex
        double stay = 0.5;           // RANDOM: probability of not switching at a scheduling point
        int pct_depth = 3, pct_len = 200;
        double spurious = 0.0;       // probability of a spurious wake-up of a waiter at a scheduling point
        double clock_jitter = 0.0;   // probability that reading the clock advances it
        double jitter_step = 0.25;
        long max_steps = 400000;
        std::vector<int> script;     // DFS prefix (choice indices) or SCRIPT (thread ids)
        int preempt_bound = 2;       // DFS
    };

    struct Choice { int n; int chosen; bool preempt_possible; int cur_idx; };

    void start(const Config& cfg);        // the calling thread becomes managed thread 0
    void stop();
    bool active();
    int self();                           // managed id, -1 if unmanaged
    int held();                           // mutexes held by the running thread
    double now();
    void advance(double sec);             // advance the virtual clock
    void prefer(bool on);                 // while on, thread 0 runs whenever it can
    void point();                         // explicit scheduling point
    const std::vector<Choice>& choices();
    long steps();
    uint64_t rnd();                       // scheduler-side random numbers

    extern void (*on_stuck)(const char* kind, const std::string& detail);
    // synchronisation hooks (used by the race recorder)
    extern void (*on_want)(int tid, void* obj);          // a blocking acquisition is about to be tried
    extern void (*on_acquire)(int tid, void* obj);
    extern void (*on_release)(int tid, void* obj);
    extern void (*on_fork)(int parent, int child);
    extern void (*on_join)(int parent, int child);
    extern void (*on_thread_begin)(int tid);
}
