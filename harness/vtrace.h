// Trace recording and isolated execution (one forked child per execution).
#pragma once
#include "vsched.h"
#include <cstdint>
#include <cstdio>
#include <functional>
#include <string>
#include <vector>

namespace trace {
    // JSON building: doubles are emitted as [hi,lo] pairs of 32-bit integers (see specs/Dbl.tla)
    struct J {
        std::string s; bool first = true; char close;
        explicit J(char open = '{') : s(1, open), close(open == '{' ? '}' : ']') {}
        void sep() { if (!first) s += ','; first = false; }
        void key(const char* k) { sep(); s += '"'; s += k; s += "\":"; }
        J& i(const char* k, long long v) { key(k); s += std::to_string(v); return *this; }
        J& b(const char* k, bool v) { key(k); s += v ? "true" : "false"; return *this; }
        J& d(const char* k, double v) { key(k); s += dbl(v); return *this; }
        J& str(const char* k, const std::string& v) { key(k); s += quote(v); return *this; }
        J& raw(const char* k, const std::string& v) { key(k); s += v; return *this; }
        J& ei(long long v) { sep(); s += std::to_string(v); return *this; }
        J& ed(double v) { sep(); s += dbl(v); return *this; }
        J& estr(const std::string& v) { sep(); s += quote(v); return *this; }
        J& eraw(const std::string& v) { sep(); s += v; return *this; }
        J& rest(const std::string& o) { if (o.size() > 2) { sep(); s.append(o, 1, o.size() - 2); } return *this; }   // the fields of another object
        std::string done() const { return s + close; }
        static std::string dbl(double v);
        static std::string quote(const std::string& v);
    };
    inline J obj() { return J('{'); }
    inline J arr() { return J('['); }

    void emit(const std::string& json);                 // append an event to the current trace
    inline void emit(const J& j) { emit(j.done()); }
    size_t size();
    extern bool mute;                                   // events are not recorded
    extern int access_rate;                             // with vfine.cpp: about one in so many memory accesses is a scheduling point (0: none)
    extern int fill;                                    // byte that fresh and released memory is filled with in the child
    extern size_t max_events;                           // a longer trace is cut (ends in a Cut event)

    struct Result {
        int status = 0;              // 0 ok; otherwise the trace ends in a Stuck/Crash/Hang event
        std::string events;          // JSON array
        std::vector<sched::Choice> choices;
    };
    // Runs body in a forked child under the controlled scheduler (if cfg != nullptr) and returns its trace.
    Result run(const sched::Config* cfg, const std::function<void()>& body, double wall_limit = 20.0);
    void write(FILE* out, const std::string& hdr, const Result& r);

    struct Rng {                     // harness-side generator (splitmix64)
        uint64_t s;
        explicit Rng(uint64_t seed) : s(seed * 0xd1342543de82ef95ULL + 0x1234567) { s = next() ^ (seed << 32); s = next(); }
        uint64_t next();
        int below(int n) { return (int) (next() % (uint64_t) n); }
        int range(int a, int b) { return a + below(b - a + 1); }
        double u() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
        bool chance(double p) { return u() < p; }
        template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
    };
    inline int ticks(double sec) { return (int) (sec * 8 + 0.5); }
}
