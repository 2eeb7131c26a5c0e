#include "vtrace.h"
#include <csignal>
#include <cstring>
#include <exception>
#include <malloc.h>
#include <poll.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace trace {
    static std::string g_events; static size_t g_n = 0; static int g_fd = -1; static bool g_flushed = false;

    std::string J::dbl(double v) {
        uint64_t b; memcpy(&b, &v, 8);
        if (v != v) b = 0x7ff8000000000000ULL;
        return "[" + std::to_string((int32_t) (b >> 32)) + "," + std::to_string((int32_t) b) + "]";
    }
    std::string J::quote(const std::string& v) {
        std::string r = "\"";
        for (unsigned char c : v) {
            if (c == '"' || c == '\\') { r += '\\'; r += c; }
            else if (c == '\n') r += "\\n"; else if (c == '\t') r += "\\t";
            else if (c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
            else r += c;
        }
        return r + "\"";
    }
    uint64_t Rng::next() {
        uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
        return z ^ (z >> 31);
    }
    size_t max_events = 60000; static int g_hangs = 0;
    static void ev_end(const char* kind, const std::string& detail);
    static void append(const std::string& j) { if (g_n++) g_events += ','; g_events += j; }
    bool mute = false; int fill = 0x5a, access_rate = 0;
    void emit(const std::string& j) { if (mute) return; append(j); if (g_n == max_events) ev_end("Cut", ""); }
    size_t size() { return g_n; }

    static void wr(const char* p, size_t n) { while (n) { ssize_t k = ::write(g_fd, p, n); if (k <= 0) _exit(78); p += k; n -= k; } }
    static void flush(int status) {
        if (g_flushed) return;
        g_flushed = true;
        std::string out = std::to_string(status) + "\n";
        for (auto& c : sched::choices()) out += std::to_string(c.n) + ":" + std::to_string(c.chosen) + ":" + (c.preempt_possible ? "1" : "0") + ",";
        out += "\n[" + g_events + "]\n";
        wr(out.data(), out.size());
    }
    static void ev_end(const char* kind, const std::string& detail) {
        append(obj().str("e", kind).str("what", detail).i("w", sched::self()).done());
        flush(1);
        _exit(0);
    }
    static void stuck(const char* kind, const std::string& d) { ev_end(kind, d); }
    static void on_term() {
        std::string what = "terminate";
        if (auto e = std::current_exception()) {
            try { std::rethrow_exception(e); } catch (std::exception& x) { what = x.what(); } catch (...) { what = "unknown exception"; }
        }
        if (what.size() > 200) what.resize(200);
        ev_end("Crash", what);
    }
    static void on_sig(int s) {
        if (g_flushed) _exit(0);
        ev_end("Crash", "signal " + std::to_string(s));
    }

    Result run(const sched::Config* cfg, const std::function<void()>& body, double wall) {
        Result r;
        int p[2]; if (pipe(p)) { perror("pipe"); _exit(2); }
        fflush(nullptr);
        pid_t pid = fork();
        if (pid == 0) {
            close(p[0]); g_fd = p[1];
            mallopt(M_PERTURB, fill);          // fresh and released memory holds garbage
            std::set_terminate(on_term);
            static char alt[65536]; stack_t ss{}; ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
            struct sigaction sa{}; sa.sa_handler = on_sig; sa.sa_flags = SA_ONSTACK;
            for (int s : {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL}) sigaction(s, &sa, nullptr);
            if (!freopen("/dev/null", "w", stdout)) {}
            sched::on_stuck = stuck;
            if (cfg) sched::start(*cfg);
            body();
            if (cfg) sched::stop();
            flush(0);
            _exit(0);
        }
        close(p[1]);
        std::string data; char buf[65536];
        struct timespec t0, t1; clock_gettime(CLOCK_MONOTONIC, &t0);
        bool hang = false;
        while (true) {
            clock_gettime(CLOCK_MONOTONIC, &t1);
            double el = (t1.tv_sec - t0.tv_sec) + (t1.tv_nsec - t0.tv_nsec) * 1e-9;
            if (el > wall) { hang = true; break; }
            struct pollfd pf = {p[0], POLLIN, 0};
            int k = poll(&pf, 1, (int) ((wall - el) * 1000) + 1);
            if (k < 0) continue;
            if (k == 0) { hang = true; break; }
            ssize_t n = read(p[0], buf, sizeof buf);
            if (n <= 0) break;
            data.append(buf, n);
        }
        close(p[0]);
        if (hang) kill(pid, SIGKILL);
        int st = 0; waitpid(pid, &st, 0);
        size_t a = data.find('\n'), b = a == std::string::npos ? a : data.find('\n', a + 1);
        if (hang || b == std::string::npos || data.back() != '\n') {
            r.status = 2;
            r.events = std::string("[{\"e\":\"") + (hang ? "Hang" : "Crash") + "\",\"what\":\"" + (hang ? "wall-clock limit" : "child died") + "\",\"w\":-1}]";
            return r;
        }
        r.status = atoi(data.c_str());
        std::string ch = data.substr(a + 1, b - a - 1);
        const char* q = ch.c_str();
        while (*q) { int n, c, e; if (sscanf(q, "%d:%d:%d,", &n, &c, &e) != 3) break; r.choices.push_back({n, c, e != 0, 0}); q = strchr(q, ','); if (!q) break; q++; }
        r.events = data.substr(b + 1, data.size() - b - 2);
        return r;
    }
    void write(FILE* out, const std::string& hdr, const Result& r) {
        fprintf(out, "{\"hdr\":%s,\"ev\":%s}\n", hdr.c_str(), r.events.c_str());
        if (r.status == 2 && ++g_hangs >= 3) { fclose(out); _exit(0); }      // enough of these: do not spend the shard's time on more
    }
}
