// The instrumentation calls of -fsanitize=thread, recorded instead of checked: accesses per thread and segment (between
// synchronisation operations), and the synchronisation operations themselves.  finish() keeps what matters (memory touched by
// several threads, at least once written) and emits it for specs/Race.tla, which decides what is ordered by what.
// This file is compiled without instrumentation.
#include "vrace.h"
#include "varena.h"
#include "vtrace.h"
#include <algorithm>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <dlfcn.h>
#include <map>
#include <unordered_map>
#include <unordered_set>
#include <vector>

namespace race {
    static bool rec = false;
    bool recording() { return rec; }

    struct Acc { int t; uintptr_t a; unsigned n; bool w; bool at; void* pc; };      // at: atomic access
    struct Sync { char k; int t; uintptr_t o; int u; };                    // k: a acquire, r release, f fork, j join
    struct Ev { bool sync; Acc a; Sync s; };
    template <class T> struct Raw : std::allocator<T> {                    // the recorder's own memory stays out of the arena
        template <class U> struct rebind { using other = Raw<U>; };
        Raw() {} template <class U> Raw(const Raw<U>&) {}
        T* allocate(size_t n) { return (T*) malloc(n * sizeof(T)); }
        void deallocate(T* p, size_t) { free(p); }
    };
    static std::vector<Ev, Raw<Ev>>* evs;
    struct Key { uintptr_t a; unsigned n; bool w; bool at; bool operator==(const Key& o) const { return a == o.a && n == o.n && w == o.w && at == o.at; } };
    struct KH { size_t operator()(const Key& k) const { return (k.a * 0x9e3779b97f4a7c15ULL) ^ (k.n * 4 + k.w * 2 + k.at); } };
    typedef std::unordered_set<Key, KH, std::equal_to<Key>, Raw<Key>> Seen;
    static Seen* seen[64];
    static size_t MAX_EV = 3000000; static bool overflow = false;

    static inline void access(void* p, unsigned n, bool w, void* pc, bool at = false) {
        if (!rec) return;
        int t = sched::self();
        if (t < 0 || t >= 64) return;
        Key k{(uintptr_t) p, n, w, at};
        if (!seen[t]->insert(k).second) return;
        if (!w && !at && seen[t]->count(Key{k.a, n, true, false})) return;           // a write of the same segment subsumes it
        if (evs->size() >= MAX_EV) { overflow = true; rec = false; return; }
        Ev e; e.sync = false; e.a = Acc{t, k.a, n, w, at, pc}; evs->push_back(e);
    }
    static void sync(char k, int t, void* o, int u) {
        if (!rec || t < 0) return;
        Ev e; e.sync = true; e.s = Sync{k, t, (uintptr_t) o, u}; evs->push_back(e);
        if (t < 64) seen[t]->clear();
        if (k == 'f' || k == 'j') if (u >= 0 && u < 64) seen[u]->clear();
    }
    static void acq(int t, void* o) { sync('a', t, o, -1); }
    static void rel(int t, void* o) { sync('r', t, o, -1); }
    static void fork_(int t, int c) { sync('f', t, nullptr, c); }
    static void join_(int t, int c) { sync('j', t, nullptr, c); }

    void begin() {
        evs = new std::vector<Ev, Raw<Ev>>();
        for (auto& s : seen) s = new Seen();
        sched::on_acquire = acq; sched::on_release = rel; sched::on_fork = fork_; sched::on_join = join_;
        arena::on(); rec = true;
    }
    static std::string where(void* pc) {
        Dl_info i;
        if (!dladdr(pc, &i) || !i.dli_sname) return "?";
        int st = 0; char* d = abi::__cxa_demangle(i.dli_sname, nullptr, nullptr, &st);
        std::string s = d ? d : i.dli_sname; free(d);
        size_t k = s.find('('); if (k != std::string::npos) s = s.substr(0, k);
        if (s.size() > 60) s = s.substr(s.size() - 60);
        return s;
    }
    void finish() {
        rec = false; arena::off();
        sched::on_acquire = nullptr; sched::on_release = nullptr; sched::on_fork = nullptr; sched::on_join = nullptr;
        auto& E = *evs; size_t n = E.size();
        std::vector<char> keep(n, 1);
        // releases nobody else acquires afterwards and acquisitions of what nobody else released order nothing
        {
            struct L { std::vector<std::pair<size_t,int>> a, r; };
            std::unordered_map<uintptr_t, L> ob; int others = 0;
            for (size_t i = 0; i < n; i++) if (E[i].sync) { if (E[i].s.k == 'f') others++; else if (E[i].s.k == 'j') others--; else if (others == 0) keep[i] = 0; }   // alone: ordered anyway
            for (size_t i = 0; i < n; i++) if (keep[i] && E[i].sync && E[i].s.o) (E[i].s.k == 'a' ? ob[E[i].s.o].a : ob[E[i].s.o].r).push_back({i, E[i].s.t});
            for (auto& p : ob) {
                // for an acquisition only the latest earlier release of each other thread matters
                auto& R = p.second.r; auto& A = p.second.a; std::map<int, size_t> lastr; size_t ri = 0;
                for (auto& x : R) keep[x.first] = 0;
                for (auto& y : A) {
                    while (ri < R.size() && R[ri].first < y.first) { lastr[R[ri].second] = R[ri].first; ri++; }
                    for (auto& q : lastr) if (q.first != y.second) keep[q.second] = 1;
                }
                for (auto& x : p.second.a) { bool use = false; for (auto& y : p.second.r) { if (y.first > x.first) break; if (y.second != x.second) { use = true; break; } } keep[x.first] = use; }
            }
        }
        // accesses while no other thread exists are ordered with everything; repeated accesses between two releases say nothing new
        {
            std::unordered_map<Key, char, KH> had[64]; int others = 0;
            for (size_t i = 0; i < n; i++) {
                if (E[i].sync) {
                    if (!keep[i]) continue;
                    if (E[i].s.k == 'f') others++; else if (E[i].s.k == 'j') others--;
                    if (E[i].s.k == 'r' || E[i].s.k == 'f') had[E[i].s.t].clear();
                    continue;
                }
                auto& x = E[i].a;
                if (others == 0) { keep[i] = 0; continue; }
                if (!had[x.t].emplace(Key{x.a, x.n, x.w, x.at}, 1).second || (!x.w && had[x.t].count(Key{x.a, x.n, true, x.at}))) keep[i] = 0;
            }
        }
        // bytes touched by several threads, written at least once, not only atomically
        struct B { int t0 = -1; bool multi = false, w = false, plain = false; };
        std::unordered_map<uintptr_t, B> bytes; bytes.reserve(1 << 18);
        for (size_t i = 0; i < n; i++) if (keep[i] && !E[i].sync) for (unsigned k = 0; k < E[i].a.n; k++) {
            B& b = bytes[E[i].a.a + k];
            if (b.t0 < 0) b.t0 = E[i].a.t; else if (b.t0 != E[i].a.t) b.multi = true;
            b.w = b.w || E[i].a.w; b.plain = b.plain || !E[i].a.at;
        }
        // group neighbouring bytes with the same accesses into one cell
        std::map<uintptr_t, std::vector<int>> sh;
        for (size_t i = 0; i < n; i++) if (keep[i] && !E[i].sync) for (unsigned k = 0; k < E[i].a.n; k++) {
            B& b = bytes[E[i].a.a + k]; if (b.multi && b.w && b.plain) sh[E[i].a.a + k].push_back(i);
        }
        std::unordered_map<uintptr_t, int> cell; int nc = 0; uintptr_t prev = 0; const std::vector<int>* pv = nullptr;
        for (auto& p : sh) { if (!(pv && prev + 1 == p.first && *pv == p.second)) nc++; cell[p.first] = nc; prev = p.first; pv = &p.second; }
        // cells accessed in the same segments in the same way are equivalent: one of them is emitted
        std::vector<char> emit_cell(nc + 1, 0);
        {
            std::vector<int> segno(64, 0); std::vector<std::vector<uint32_t>> sig(nc + 1);
            for (size_t i = 0; i < n; i++) {
                if (!keep[i]) continue;
                if (E[i].sync) { segno[E[i].s.t]++; if (E[i].s.u >= 0 && E[i].s.u < 64) segno[E[i].s.u]++; continue; }
                int last = 0;
                for (unsigned k = 0; k < E[i].a.n; k++) {
                    auto it = cell.find(E[i].a.a + k);
                    if (it == cell.end() || it->second == last) continue;
                    last = it->second;
                    sig[last].push_back(((uint32_t) segno[E[i].a.t] << 8) | (E[i].a.t << 2) | (E[i].a.w << 1) | E[i].a.at);
                }
            }
            std::map<std::vector<uint32_t>, int> first;
            for (int c = 1; c <= nc; c++) if (first.emplace(sig[c], c).second) emit_cell[c] = 1;
        }
        std::unordered_map<uintptr_t, int> obj; std::unordered_map<void*, std::string> nm;
        size_t kept = 0;
        std::vector<int> num(nc + 1, 0); int nn = 0; for (int c = 1; c <= nc; c++) if (emit_cell[c]) num[c] = ++nn;
        trace::emit(trace::obj().str("e", "BEGIN").i("t", 0).i("cells", nn));
        for (size_t i = 0; i < n; i++) {
            if (!keep[i]) continue;
            auto& e = E[i];
            if (e.sync) {
                auto j = trace::obj();
                int o = 0; if (e.s.o) { auto it = obj.emplace(e.s.o, (int) obj.size() + 1).first; o = it->second; }
                j.str("e", e.s.k == 'a' ? "ACQ" : e.s.k == 'r' ? "REL" : e.s.k == 'f' ? "FORK" : "JOIN").i("t", e.s.t).i("o", o).i("u", e.s.u);
                trace::emit(j);
            } else {
                int last = 0;
                for (unsigned k = 0; k < e.a.n; k++) {
                    auto it = cell.find(e.a.a + k);
                    if (it == cell.end() || it->second == last) continue;
                    last = it->second;
                    if (!emit_cell[last]) continue;
                    auto w = nm.find(e.a.pc); if (w == nm.end()) w = nm.emplace(e.a.pc, where(e.a.pc)).first;
                    trace::emit(trace::obj().str("e", e.a.w ? "WR" : "RD").i("t", e.a.t).i("m", num[last]).b("at", e.a.at).str("f", w->second));
                    kept++;
                }
            }
        }
        trace::emit(trace::obj().str("e", "END").i("t", 0).i("kept", kept).i("total", n).b("overflow", overflow));
    }
}
// ---- the instrumentation interface
using race::access;
#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n) void __tsan_read##n(void* p) { access(p, n, false, PC); } void __tsan_write##n(void* p) { access(p, n, true, PC); } \
    void __tsan_unaligned_read##n(void* p) { access(p, n, false, PC); } void __tsan_unaligned_write##n(void* p) { access(p, n, true, PC); } \
    void __tsan_volatile_read##n(void* p) { access(p, n, false, PC); } void __tsan_volatile_write##n(void* p) { access(p, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, unsigned long n) { access(p, n, false, PC); }
void __tsan_write_range(void* p, unsigned long n) { access(p, n, true, PC); }
void __tsan_vptr_update(void** p, void* v) { if (*p != v) access(p, 8, true, PC); }
void __tsan_vptr_read(void** p) { access(p, 8, false, PC); }

// Atomics.  Reference counts (acquire-release additions) order nothing by being incremented; the last decrement acquires what
// the others released.  Everything else orders according to its memory order.
static bool is_acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static bool is_rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static void before(void* a, int mo) { if (race::rec && is_rel(mo)) race::rel(sched::self(), a); }
static void after(void* a, int mo) { if (race::rec && is_acq(mo)) race::acq(sched::self(), a); }
#define ATOM(T, B) \
  T __tsan_atomic##B##_load(const volatile T* a, int mo) { T v = *a; access((void*) a, sizeof(T), false, PC, true); after((void*) a, mo); return v; } \
  void __tsan_atomic##B##_store(volatile T* a, T v, int mo) { before((void*) a, mo); access((void*) a, sizeof(T), true, PC, true); *a = v; } \
  T __tsan_atomic##B##_exchange(volatile T* a, T v, int mo) { before((void*) a, mo); access((void*) a, sizeof(T), true, PC, true); T o = *a; *a = v; after((void*) a, mo); return o; } \
  T __tsan_atomic##B##_fetch_add(volatile T* a, T v, int mo) { T o = *a; access((void*) a, sizeof(T), true, PC, true); \
      if (mo == __ATOMIC_ACQ_REL) { if (v == (T) -1) { before((void*) a, mo); *a = o + v; if (o == 1) after((void*) a, mo); } else *a = o + v; return o; } \
      before((void*) a, mo); *a = o + v; after((void*) a, mo); return o; } \
  T __tsan_atomic##B##_fetch_sub(volatile T* a, T v, int mo) { T o = *a; access((void*) a, sizeof(T), true, PC, true); before((void*) a, mo); *a = o - v; after((void*) a, mo); return o; } \
  T __tsan_atomic##B##_fetch_and(volatile T* a, T v, int mo) { T o = *a; access((void*) a, sizeof(T), true, PC, true); before((void*) a, mo); *a = o & v; after((void*) a, mo); return o; } \
  T __tsan_atomic##B##_fetch_or(volatile T* a, T v, int mo) { T o = *a; access((void*) a, sizeof(T), true, PC, true); before((void*) a, mo); *a = o | v; after((void*) a, mo); return o; } \
  T __tsan_atomic##B##_fetch_xor(volatile T* a, T v, int mo) { T o = *a; access((void*) a, sizeof(T), true, PC, true); before((void*) a, mo); *a = o ^ v; after((void*) a, mo); return o; } \
  int __tsan_atomic##B##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int fm) { access((void*) a, sizeof(T), true, PC, true); \
      if (*a == *c) { before((void*) a, mo); *a = v; after((void*) a, mo); return 1; } *c = *a; after((void*) a, fm); return 0; } \
  int __tsan_atomic##B##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int fm) { return __tsan_atomic##B##_compare_exchange_strong(a, c, v, mo, fm); }
ATOM(uint8_t, 8) ATOM(uint16_t, 16) ATOM(uint32_t, 32) ATOM(uint64_t, 64)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

// initialisation of function-local statics
int __cxa_guard_acquire(uint64_t* g) { if (*(volatile uint8_t*) g) { after(g, __ATOMIC_ACQUIRE); return 0; } return 1; }
void __cxa_guard_release(uint64_t* g) { before(g, __ATOMIC_RELEASE); *(volatile uint8_t*) g = 1; }
void __cxa_guard_abort(uint64_t*) {}
}
