#include "vsched.h"
#include <pthread.h>
#include <dlfcn.h>
#include <linux/futex.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <time.h>
#include <errno.h>
#include <atomic>
#include <chrono>
#include <map>
#include <unordered_map>
#include <sstream>
#include <cstring>
#include <algorithm>

namespace sched {
    enum Status { READY, BLK_MUTEX, BLK_COND, BLK_JOIN, BLK_SLEEP, BLK_RW, DONE };
    struct Thread {
        int id;
        std::atomic<int> go{0};
        Status st = READY;
        void* obj = nullptr;          // mutex / cond / rwlock waited for
        void* relock = nullptr;       // mutex to re-acquire after a condition wait
        bool rw_write = false;
        Thread* target = nullptr;
        bool timed = false; double deadline = 0; bool timed_out = false;
        int held = 0;
        uint64_t prio = 0;
        pthread_t pt{};
        void* (*fn)(void*) = nullptr; void* arg = nullptr;
        void* ret = nullptr;
    };
    struct Mutex { int owner = -1; int depth = 0; };
    struct RW { int writer = -1; int readers = 0; };

    static bool g_active = false;
    static Config cfg;
    static std::vector<Thread*> threads;
    static std::unordered_map<void*, Mutex>* mutexes;
    static std::unordered_map<void*, RW>* rws;
    static uint64_t rng_state;
    static double clk = 1000.0;
    static long nsteps = 0;
    static std::vector<Choice> rec;
    static size_t script_pos = 0;
    static std::vector<long> pct_points;
    static int preemptions = 0, n_spurious = 0;
    static bool g_prefer = false;
    void prefer(bool on) { g_prefer = on; }
    static thread_local Thread* me __attribute__((tls_model("initial-exec"))) = nullptr;

    void (*on_stuck)(const char*, const std::string&) = nullptr;
    void (*on_want)(int, void*) = nullptr;
    void (*on_acquire)(int, void*) = nullptr;
    void (*on_release)(int, void*) = nullptr;
    void (*on_fork)(int, int) = nullptr;
    void (*on_join)(int, int) = nullptr;
    void (*on_thread_begin)(int) = nullptr;

    uint64_t rnd() {
        uint64_t z = (rng_state += 0x9e3779b97f4a7c15ULL);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
        return z ^ (z >> 31);
    }
    static double rndu() { return (rnd() >> 11) * (1.0 / 9007199254740992.0); }

    static void futex_wait(std::atomic<int>* a) {
        while (a->load(std::memory_order_acquire) == 0)
            syscall(SYS_futex, (int*) a, FUTEX_WAIT, 0, nullptr, nullptr, 0);
        a->store(0, std::memory_order_relaxed);
    }
    static void futex_wake(std::atomic<int>* a) {
        a->store(1, std::memory_order_release);
        syscall(SYS_futex, (int*) a, FUTEX_WAKE, 1, nullptr, nullptr, 0);
    }

    bool active() { return g_active; }
    int self() { return me ? me->id : -1; }
    int held() { return me ? me->held : 0; }
    double now() { return clk; }
    void advance(double s) { clk += s; }
    const std::vector<Choice>& choices() { return rec; }
    long steps() { return nsteps; }

    static bool enabled(Thread* t) {
        switch (t->st) {
            case READY: return true;
            case BLK_MUTEX: { auto it = mutexes->find(t->obj); return it == mutexes->end() || it->second.owner < 0; }
            case BLK_COND: return false;
            case BLK_JOIN: return t->target->st == DONE;
            case BLK_SLEEP: return clk >= t->deadline;
            case BLK_RW: { RW& r = (*rws)[t->obj]; return t->rw_write ? (r.writer < 0 && r.readers == 0) : r.writer < 0; }
            case DONE: return false;
        }
        return false;
    }
    static void expire_timed() {
        for (Thread* t : threads)
            if (t->st == BLK_COND && t->timed && clk >= t->deadline) { t->st = BLK_MUTEX; t->obj = t->relock; t->timed_out = true; }
    }
    static std::string describe() {
        std::ostringstream ss;
        static const char* nm[] = {"ready","mutex","cond","join","sleep","rw","done"};
        for (Thread* t : threads) {
            ss << "T" << t->id << ":" << nm[t->st] << " held=" << t->held;
            if (t->st == BLK_MUTEX) ss << " owner=T" << (*mutexes)[t->obj].owner;
            ss << "; ";
        }
        return ss.str();
    }
    static void stuck(const char* kind) {
        std::string d = describe();
        if (on_stuck) on_stuck(kind, d);
        _exit(77);
    }

    // Chooses the next thread.  'cur' may be blocked or done.
    static Thread* pick(Thread* cur) {
        if (++nsteps > cfg.max_steps) stuck("Livelock");
        expire_timed();
        if (cfg.spurious > 0 && n_spurious < 40) for (Thread* t : threads)   // finitely many, so that they cannot starve anybody
            if (t->st == BLK_COND && rndu() < cfg.spurious) { n_spurious++; t->st = BLK_MUTEX; t->obj = t->relock; }
        std::vector<Thread*> en;
        while (true) {
            for (Thread* t : threads) if (enabled(t)) en.push_back(t);
            if (!en.empty()) break;
            double dl = -1;
            for (Thread* t : threads)
                if ((t->st == BLK_COND && t->timed) || t->st == BLK_SLEEP) if (dl < 0 || t->deadline < dl) dl = t->deadline;
            if (dl < 0) stuck("Stuck");
            if (dl > clk) clk = dl;
            expire_timed();
        }
        bool cur_en = cur && cur->st == READY;
        if (cur_en && cfg.coarse && cur->held > 0) return cur;
        if (en.size() == 1) return en[0];
        if (g_prefer && en[0]->id == 0) return en[0];
        switch (cfg.policy) {
            case DFS: {
                // current thread first, so that choice 0 means "no preemption"
                std::vector<Thread*> ord;
                if (cur_en) ord.push_back(cur);
                for (Thread* t : en) if (!(cur_en && t == cur)) ord.push_back(t);
                int n = ord.size();
                if (cur_en && preemptions >= cfg.preempt_bound) n = 1;
                int c = 0;
                if (script_pos < cfg.script.size()) c = cfg.script[script_pos];
                if (c >= n) c = n - 1;
                script_pos++;
                rec.push_back({n, c, cur_en, 0});
                if (cur_en && c > 0) preemptions++;
                return ord[c];
            }
            case SCRIPT: {
                while (script_pos < cfg.script.size()) {
                    int want = cfg.script[script_pos];
                    if (want < 0) { clk += 0.125; script_pos++; continue; }   // a clock tick
                    for (Thread* t : en) if (t->id == want) {
                        // consume one script entry per change of thread
                        if (t != cur) script_pos++;
                        else if (script_pos + 1 < cfg.script.size() && rndu() < 0.3) script_pos++;
                        return t;
                    }
                    script_pos++;
                }
                if (cur_en && rndu() < 0.7) return cur;
                return en[rnd() % en.size()];
            }
            case PCT: {
                for (size_t i = 0; i < pct_points.size(); i++)
                    if (pct_points[i] == nsteps && cur) cur->prio = i;   // below every initial priority
                Thread* best = en[0];
                for (Thread* t : en) if (t->prio > best->prio) best = t;
                // fairness against spinning: occasionally demote a thread that never blocks
                if (nsteps % 5000 == 0) best->prio = 0;
                return best;
            }
            case LOCKHUNT: {
                double p = cur && cur->held >= 2 ? 0.35 : (cur && cur->held == 1 ? 0.8 : 0.6);
                if (cur_en && rndu() < p) return cur;
                return en[rnd() % en.size()];
            }
            default:
                if (cur_en && rndu() < cfg.stay) return cur;
                return en[rnd() % en.size()];
        }
    }

    static void resume(Thread* t) {   // bookkeeping when t is chosen
        if (t->st == BLK_MUTEX) { Mutex& m = (*mutexes)[t->obj]; m.owner = t->id; m.depth = 1; t->held++;
                                  if (on_acquire) on_acquire(t->id, t->obj); }
        else if (t->st == BLK_RW) { RW& r = (*rws)[t->obj]; if (t->rw_write) r.writer = t->id; else r.readers++;
                                  if (on_acquire) on_acquire(t->id, t->obj); }
        else if (t->st == BLK_JOIN) { if (on_join) on_join(t->id, t->target->id); }
        t->st = READY; t->obj = nullptr; t->timed = false;
    }
    static void reschedule() {
        Thread* cur = me;
        Thread* nx = pick(cur);
        resume(nx);
        if (nx != cur) { futex_wake(&nx->go); futex_wait(&cur->go); }
    }
    void point() { if (me && g_active) reschedule(); }

    void start(const Config& c) {
        cfg = c; rng_state = c.seed * 0x2545F4914F6CDD1DULL + 12345;
        mutexes = new std::unordered_map<void*, Mutex>(); rws = new std::unordered_map<void*, RW>();
        Thread* t = new Thread(); t->id = 0; threads.push_back(t);
        t->prio = 1000 + rnd() % 1000000;
        if (c.policy == PCT) for (int i = 0; i < c.pct_depth; i++) pct_points.push_back(1 + rnd() % c.pct_len);
        me = t; g_active = true;
    }
    void stop() { g_active = false; me = nullptr; }

    // ---- real functions
    template <class F> static F real(F& cache, const char* name, const char* ver = nullptr) {
        if (!cache) cache = (F) (ver ? dlvsym(RTLD_NEXT, name, ver) : dlsym(RTLD_NEXT, name));
        if (!cache) cache = (F) dlsym(RTLD_NEXT, name);
        return cache;
    }
    static void* trampoline(void* a) {
        Thread* t = (Thread*) a;
        futex_wait(&t->go);
        me = t;
        if (on_thread_begin) on_thread_begin(t->id);
        t->ret = t->fn(t->arg);
        // finished: hand over without waiting
        t->st = DONE;
        Thread* nx = pick(t);
        resume(nx);
        me = nullptr;
        futex_wake(&nx->go);
        return t->ret;
    }
}
using namespace sched;

extern "C" {
typedef int (*fn_m)(pthread_mutex_t*);
typedef int (*fn_c)(pthread_cond_t*);
typedef int (*fn_cw)(pthread_cond_t*, pthread_mutex_t*);
typedef int (*fn_ctw)(pthread_cond_t*, pthread_mutex_t*, const struct timespec*);
typedef int (*fn_ccw)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*);
typedef int (*fn_rw)(pthread_rwlock_t*);
static fn_m r_lock, r_trylock, r_unlock;
static fn_c r_signal, r_broadcast;
static fn_cw r_wait; static fn_ctw r_timedwait; static fn_ccw r_clockwait;
static fn_rw r_rd, r_wr, r_rwun;
static int (*r_create)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
static int (*r_join)(pthread_t, void**);

int pthread_mutex_lock(pthread_mutex_t* m) noexcept {
    if (!me || !g_active) return real(r_lock, "pthread_mutex_lock")(m);
    Mutex& mx = (*mutexes)[m];
    if (on_want && !(mx.owner == me->id && (m->__data.__kind & 1))) on_want(me->id, m);
    if (mx.owner == me->id) {
        if (m->__data.__kind & 1) { mx.depth++; return 0; }     // recursive mutex
        me->st = BLK_MUTEX; me->obj = m; reschedule(); return 0;  // self deadlock: will be reported
    }
    reschedule();   // scheduling point before the acquisition
    Mutex& my = (*mutexes)[m];
    if (my.owner < 0) { my.owner = me->id; my.depth = 1; me->held++; if (on_acquire) on_acquire(me->id, m); return 0; }
    me->st = BLK_MUTEX; me->obj = m;
    reschedule();
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) noexcept {
    if (!me || !g_active) return real(r_trylock, "pthread_mutex_trylock")(m);
    reschedule();
    Mutex& mx = (*mutexes)[m];
    if (mx.owner < 0) { mx.owner = me->id; mx.depth = 1; me->held++; if (on_acquire) on_acquire(me->id, m); return 0; }
    if (mx.owner == me->id && (m->__data.__kind & 1)) { mx.depth++; return 0; }
    return EBUSY;
}
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept {
    if (!me || !g_active) return real(r_unlock, "pthread_mutex_unlock")(m);
    Mutex& mx = (*mutexes)[m];
    if (mx.owner != me->id) {
        if (on_stuck) on_stuck("BadUnlock", "unlock of a mutex not held by the thread");
        _exit(77);
    }
    if (--mx.depth > 0) return 0;
    mx.owner = -1; me->held--;
    if (on_release) on_release(me->id, m);
    reschedule();
    return 0;
}
static int cond_wait_common(pthread_cond_t* c, pthread_mutex_t* m, bool timed, double deadline) {
    Mutex& mx = (*mutexes)[m];
    mx.owner = -1; mx.depth = 0; me->held--;
    if (on_release) on_release(me->id, m);
    me->st = BLK_COND; me->obj = c; me->relock = m; me->timed = timed; me->deadline = deadline; me->timed_out = false;
    reschedule();
    return me->timed_out ? ETIMEDOUT : 0;
}
static double ts2d(const struct timespec* t) { return t->tv_sec + t->tv_nsec * 1e-9; }
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    if (!me || !g_active) return real(r_wait, "pthread_cond_wait", "GLIBC_2.3.2")(c, m);
    return cond_wait_common(c, m, false, 0);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) {
    if (!me || !g_active) return real(r_timedwait, "pthread_cond_timedwait", "GLIBC_2.3.2")(c, m, t);
    return cond_wait_common(c, m, true, ts2d(t));
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* t) {
    if (!me || !g_active) return real(r_clockwait, "pthread_cond_clockwait")(c, m, k, t);
    return cond_wait_common(c, m, true, ts2d(t));
}
static void wake(Thread* t) { t->st = BLK_MUTEX; t->obj = t->relock; }
int pthread_cond_signal(pthread_cond_t* c) noexcept {
    if (!me || !g_active) return real(r_signal, "pthread_cond_signal", "GLIBC_2.3.2")(c);
    reschedule();
    std::vector<Thread*> w;
    for (Thread* t : threads) if (t->st == BLK_COND && t->obj == c) w.push_back(t);
    if (!w.empty()) wake(w[rnd() % w.size()]);
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) noexcept {
    if (!me || !g_active) return real(r_broadcast, "pthread_cond_broadcast", "GLIBC_2.3.2")(c);
    reschedule();
    for (Thread* t : threads) if (t->st == BLK_COND && t->obj == c) wake(t);
    return 0;
}
int pthread_create(pthread_t* p, const pthread_attr_t* a, void* (*f)(void*), void* arg) noexcept {
    if (!me || !g_active) return real(r_create, "pthread_create")(p, a, f, arg);
    Thread* t = new Thread();
    t->id = threads.size(); t->fn = f; t->arg = arg; t->prio = 1000 + rnd() % 1000000;
    int rc = real(r_create, "pthread_create")(p, a, trampoline, t);
    if (rc) { delete t; return rc; }
    t->pt = *p;
    threads.push_back(t);
    if (on_fork) on_fork(me->id, t->id);
    reschedule();
    return 0;
}
int pthread_join(pthread_t p, void** ret) {
    if (!me || !g_active) return real(r_join, "pthread_join")(p, ret);
    Thread* t = nullptr;
    for (Thread* x : threads) if (x->id != 0 && pthread_equal(x->pt, p)) t = x;   // the latest with this handle
    if (!t) return real(r_join, "pthread_join")(p, ret);
    me->st = BLK_JOIN; me->target = t;
    reschedule();
    int rc = real(r_join, "pthread_join")(p, ret);
    t->pt = 0;
    return rc;
}
static int rw_lock(pthread_rwlock_t* l, bool wr) {
    if (on_want) on_want(me->id, l);
    reschedule();
    me->st = BLK_RW; me->obj = l; me->rw_write = wr;
    reschedule();
    me->held++;
    return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* l) noexcept {
    if (!me || !g_active) return real(r_rd, "pthread_rwlock_rdlock")(l);
    return rw_lock(l, false);
}
int pthread_rwlock_wrlock(pthread_rwlock_t* l) noexcept {
    if (!me || !g_active) return real(r_wr, "pthread_rwlock_wrlock")(l);
    return rw_lock(l, true);
}
int pthread_rwlock_unlock(pthread_rwlock_t* l) noexcept {
    if (!me || !g_active) return real(r_rwun, "pthread_rwlock_unlock")(l);
    RW& r = (*rws)[l];
    if (r.writer == me->id) r.writer = -1; else r.readers--;
    me->held--;
    if (on_release) on_release(me->id, l);
    reschedule();
    return 0;
}
int sched_yield() noexcept { if (me && g_active) reschedule(); return 0; }
static void vsleep(double s) { me->st = BLK_SLEEP; me->deadline = clk + s; reschedule(); }
int nanosleep(const struct timespec* t, struct timespec*) {
    if (me && g_active) { vsleep(ts2d(t)); return 0; }
    return syscall(SYS_nanosleep, t, nullptr);
}
int clock_nanosleep(clockid_t k, int flags, const struct timespec* t, struct timespec*) {
    if (me && g_active) {
        if (flags & TIMER_ABSTIME) { me->st = BLK_SLEEP; me->deadline = ts2d(t); reschedule(); }
        else vsleep(ts2d(t));
        return 0;
    }
    return syscall(SYS_clock_nanosleep, k, flags, t, nullptr);
}
int usleep(useconds_t u) {
    struct timespec t = {(time_t)(u / 1000000), (long)(u % 1000000) * 1000};
    return nanosleep(&t, nullptr);
}
}

static void jitter() {
    if (me && g_active && cfg.clock_jitter > 0 && rndu() < cfg.clock_jitter) clk += cfg.jitter_step;
}
static long long vns() { return (long long) (clk * 1e9 + 0.5); }
namespace std { namespace chrono { inline namespace _V2 {
    system_clock::time_point system_clock::now() noexcept {
        if (me && g_active) { jitter(); return time_point(duration(vns())); }
        struct timespec t; syscall(SYS_clock_gettime, CLOCK_REALTIME, &t);
        return time_point(duration((long long) t.tv_sec * 1000000000LL + t.tv_nsec));
    }
    steady_clock::time_point steady_clock::now() noexcept {
        if (me && g_active) { jitter(); return time_point(duration(vns())); }
        struct timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t);
        return time_point(duration((long long) t.tv_sec * 1000000000LL + t.tv_nsec));
    }
}}}
