// Drives ThtsPool through its public API under the controlled scheduler and records what a user can observe.
#include "vtrace.h"
#include "thts.h"
#include "algorithms/uct/uct_decision_node.h"
#include "algorithms/uct/uct_manager.h"
#include <condition_variable>
#include <cstring>
#include <fstream>
#include <iostream>
#include <mutex>
#include <sstream>
#include <thread>

using namespace std;
using namespace thts;
using trace::obj; using trace::arr; using trace::emit;

struct Op { string k; int a = 0, b = 0, c = 0; };   // Run: trials, time(ticks,-1 inf), mode(0 nonblocking,1 blocking,2 gated nonblocking)
struct Program {
    int workers = 1; int depth = 0; bool prefer = false; bool jitter = false; bool logs = false;
    vector<int> dur;       // ticks per trial, cyclic
    vector<Op> ops;
    string hdr(const sched::Config& c) const {
        auto o = arr(); for (auto& x : ops) o.eraw(obj().str("k", x.k).i("a", x.a).i("b", x.b).i("c", x.c).done());
        auto d = arr(); for (int x : dur) d.ei(x);
        return obj().str("fam", "pool").i("n", workers).i("depth", depth).b("prefer", prefer).b("jitter", jitter).b("logs", logs)
            .raw("dur", d.done()).raw("ops", o.done()).i("policy", c.policy).i("seed", (long long) (c.seed & 0x7fffffff)).b("coarse", c.coarse).done();
    }
};

static const Program* P;
static int trial_no = 0, next_prob = 0;
static mutex* gate_m; static condition_variable* gate_cv; static bool gate_open = true; static int run_started = 0;

static int tm_() { return trace::ticks(sched::now() - 1000.0); }
static int first_acq[64];               // per thread: time of its first lock acquisition since its last trial / the last request
static void acq(int w, void*) { if (w >= 0 && w < 64 && first_acq[w] < 0) first_acq[w] = tm_(); }
static trace::J ev(const char* k) { auto j = obj(); j.str("e", k).i("w", sched::self()).i("tm", tm_()); return j; }

static int steps[64];                   // per thread: transitions of its current trial
struct PCtx : ThtsEnvContext {
    int t, p;
    PCtx(int t, int p) : t(t), p(p) {}
    ~PCtx() override { emit(ev("TE").i("t", t).i("p", p).i("k", steps[sched::self()])); first_acq[sched::self()] = -1; }
};
// states are 10 * problem + number of steps, so that several problems can share one environment
struct PEnv : ThtsEnv {
    PEnv() : ThtsEnv(true) {}
    static shared_ptr<const State> st(int i) { return static_pointer_cast<const State>(make_shared<const IntState>(i)); }
    static int full(shared_ptr<const State> s) { return static_pointer_cast<const IntState>(s)->state; }
    static int si(shared_ptr<const State> s) { return full(s) % 10; }
    shared_ptr<const State> get_initial_state_itfc() const override { return st(0); }
    bool is_sink_state_itfc(shared_ptr<const State> s) const override { return si(s) >= 2; }
    shared_ptr<ActionVector> get_valid_actions_itfc(shared_ptr<const State> s) const override {
        auto v = make_shared<ActionVector>();
        if (si(s) < 2) v->push_back(static_pointer_cast<const Action>(make_shared<const IntAction>(0)));
        return v;
    }
    shared_ptr<StateDistr> get_transition_distribution_itfc(shared_ptr<const State> s, shared_ptr<const Action>) const override {
        auto d = make_shared<StateDistr>(); (*d)[st(full(s) + 1)] = 1.0; return d;
    }
    shared_ptr<const State> sample_transition_distribution_itfc(shared_ptr<const State> s, shared_ptr<const Action>, RandManager&) const override {
        return st(full(s) + 1);
    }
    double get_reward_itfc(shared_ptr<const State> s, shared_ptr<const Action>, shared_ptr<const Observation>) const override {
        if (sched::self() >= 0) { steps[sched::self()]++; emit(ev("Act").i("p", full(s) / 10)); }
        return 1.0;
    }
    shared_ptr<ThtsEnvContext> sample_context_itfc(shared_ptr<const State> s) const override {
        int t = trial_no++, id = full(s) / 10;
        steps[sched::self()] = 0;
        emit(ev("TS").i("t", t).i("p", id).i("fa", first_acq[sched::self()]));
        {
            unique_lock<mutex> lk(*gate_m);
            run_started++; gate_cv->notify_all();
            while (!gate_open) gate_cv->wait(lk);
        }
        sched::advance(P->dur[t % P->dur.size()] / 8.0);
        sched::point();
        return make_shared<PCtx>(t, id);
    }
};
struct PNode : UctDNode {
    int p;
    PNode(shared_ptr<UctManager> m, shared_ptr<const State> s, int p) : UctDNode(m, s, 0, 0), p(p) {}
    void visit_itfc(ThtsEnvContext& ctx) override {
        UctDNode::visit_itfc(ctx);
        emit(ev("Act").i("p", p));
    }
};

struct PLog : ThtsLogger {
    int p; shared_ptr<ThtsDNode> r;
    PLog(int p, shared_ptr<ThtsDNode> r) : ThtsLogger(), p(p), r(r) {}
    void log(shared_ptr<ThtsDNode> n) override { emit(ev("Log").i("p", p).b("root", n == r)); ThtsLogger::log(n); }
};
struct Prob { shared_ptr<UctManager> m; shared_ptr<UctDNode> r; shared_ptr<ThtsLogger> l; bool mcts; };
static Prob mkprob(int depth, shared_ptr<ThtsEnv> env = nullptr, bool mcts = false) {
    int id = next_prob++;
    if (!env) env = static_pointer_cast<ThtsEnv>(make_shared<PEnv>());
    UctManagerArgs a(env);
    a.seed = 7; a.max_depth = depth; a.mcts_mode = mcts;
    auto m = make_shared<UctManager>(a);
    auto r = make_shared<PNode>(m, PEnv::st(10 * id), id);
    shared_ptr<ThtsLogger> l;
    if (P->logs && id % 3 != 2) { l = make_shared<PLog>(id, static_pointer_cast<ThtsDNode>(r)); l->set_trials_delta(1); }
    return {m, static_pointer_cast<UctDNode>(r), l, mcts};
}

static void body() {
    gate_m = new mutex(); gate_cv = new condition_variable();
    Prob pr = mkprob(P->depth);
    for (int& x : first_acq) x = -1;
    sched::on_acquire = acq;
    emit(ev("NewC").i("n", P->workers).i("p", 0).b("mcts", pr.mcts));
    unique_ptr<ThtsPool> pool = make_unique<ThtsPool>(pr.m, static_pointer_cast<ThtsDNode>(pr.r), P->workers, pr.l);
    emit(ev("NewR"));
    vector<thread> joiners; int nj = 0;
    vector<Prob> keep = {pr};
    auto drain = [&]() { for (auto& t : joiners) t.join(); joiners.clear(); };
    int cid = 0, last_n = 0;
    for (const Op& op : P->ops) {
        if (op.k == "Run") {
            bool gated = op.c == 2;
            if (gated) { unique_lock<mutex> lk(*gate_m); gate_open = false; }
            int c = cid++;
            run_started = 0; last_n = op.a;
            for (int& x : first_acq) x = -1;
            emit(ev("RunC").i("c", c).i("N", op.a).i("lim", op.b < 0 ? 1000000 : op.b).b("bl", op.c == 1));
            if (op.b < 0) {
                if (op.a == 99999) pool->run_trials(numeric_limits<int>::max(), numeric_limits<double>::max(), op.c == 1);
                else pool->run_trials(op.a, numeric_limits<double>::max(), op.c == 1);
            } else pool->run_trials(op.a == 99999 ? numeric_limits<int>::max() : op.a, op.b / 8.0, op.c == 1);
            emit(ev("RunR").i("c", c).b("bl", op.c == 1));
            if (gated) { unique_lock<mutex> lk(*gate_m); gate_open = true; gate_cv->notify_all(); }
        } else if (op.k == "Join") {
            int c = cid++;
            emit(ev("JoinC").i("c", c)); pool->join(); emit(ev("JoinR").i("c", c));
        } else if (op.k == "Joiner") {
            int c = cid++;
            joiners.emplace_back([c, &pool]() { emit(ev("JoinC").i("c", c)); pool->join(); emit(ev("JoinR").i("c", c)); });
            nj++;
        } else if (op.k == "Drain") {
            drain();
        } else if (op.k == "Set") {
            // every other new problem is a new tree with other settings in the same environment
            Prob np = op.a ? mkprob(P->depth, keep.back().m->thts_env, !keep.back().mcts) : mkprob(P->depth);
            int id = next_prob - 1;
            emit(ev("SetC").i("p", id).b("mcts", np.mcts));
            bool ok = true;
            try { pool->set_new_env(np.m, static_pointer_cast<ThtsDNode>(np.r), np.l); } catch (const exception&) { ok = false; }
            keep.push_back(np);
            emit(ev("SetR").i("p", id).b("ok", ok));
        } else if (op.k == "Sleep") {
            sched::advance(op.a / 8.0); sched::point();
        } else if (op.k == "Spin") {
            for (int i = 0; i < op.a; i++) sched::point();
        } else if (op.k == "Await") {      // the caller waits, without using the pool, until the budget has been started
            unique_lock<mutex> lk(*gate_m);
            while (run_started < last_n) gate_cv->wait(lk);
        } else if (op.k == "Work") {
            emit(ev("WLC"));
            bool v; { lock_guard<mutex> lk(pool->work_left_lock); v = pool->work_left(); }
            emit(ev("WL").b("v", v));
        }
    }
    drain();
    if (P->prefer) sched::prefer(true);
    emit(ev("DelC"));
    pool.reset();
    emit(ev("DelR"));
    sched::prefer(false);
    for (int i = 0; i < 10; i++) sched::point();
    sched::advance(5.0);
    for (int i = 0; i < 10; i++) sched::point();
    emit(ev("End"));
}

static Program gen(trace::Rng& g) {
    Program p;
    p.workers = g.pick(vector<int>{1, 1, 2, 2, 2, 3, 3, 4, 6});
    p.depth = g.pick(vector<int>{0, 0, 1, 2});
    p.prefer = g.chance(0.5); p.logs = g.chance(0.3);
    int nd = g.range(1, 4);
    bool timed = g.chance(0.6);
    for (int i = 0; i < nd; i++) p.dur.push_back(timed ? g.range(0, 3) : g.pick(vector<int>{0, 0, 1}));
    int n = g.range(1, 4);
    bool busy = false, joiner = false;
    for (int i = 0; i < n; i++) {
        // optional re-target / sleep before
        if (g.chance(0.25)) p.ops.push_back({"Set", g.range(0, 1)});
        if (g.chance(0.15)) p.ops.push_back({"Sleep", g.range(1, 4)});
        if (!busy) {
            int N = g.pick(vector<int>{0, 1, 1, 2, 3, 5, 8, 12, -3, 20});
            int lim = -1;
            if (timed) lim = g.pick(vector<int>{-1, 0, 1, 2, 3, 4, 6, 9, -1});
            if (lim >= 0 && g.chance(0.3)) { N = 99999; for (int& d : p.dur) if (d == 0) d = 1; }
            int mode = g.pick(vector<int>{0, 1, 1, 2});
            p.ops.push_back({"Run", N, lim, mode});
            busy = mode != 1;
            while (g.chance(0.3)) { p.ops.push_back({"Joiner"}); joiner = true; }
        }
        if (busy) {
            if (g.chance(0.3)) p.ops.push_back({"Spin", g.range(1, 30)});
            if (g.chance(0.3)) p.ops.push_back({"Sleep", g.range(0, 4)});
            if (g.chance(0.35)) p.ops.push_back({"Set", g.range(0, 1)});
            if (p.ops.size() && g.chance(0.25)) {
                const Op* r = nullptr; for (auto& o : p.ops) if (o.k == "Run") r = &o;
                if (r && r->b < 0 && r->a != 99999) p.ops.push_back({"Await"});
            }
            if (i + 1 < n && !joiner && g.chance(0.3)) { busy = false; continue; }      // the next request replaces this one
            if (i + 1 < n || g.chance(0.6)) { p.ops.push_back({"Join"}); busy = false; }
        }
        if (joiner && !busy) { p.ops.push_back({"Drain"}); joiner = false; }
        if (!busy && g.chance(0.2)) p.ops.push_back({"Join"});
        if (g.chance(0.2)) p.ops.push_back({"Work"});
    }
    if (busy && g.chance(0.3) ) { // destroy a busy pool with an unbounded budget
        for (auto& o : p.ops) if (o.k == "Run" && &o == &p.ops.back()) o.a = 99999;
    }
    return p;
}
static bool has_unbounded_inf(const Program& p) {
    for (size_t i = 0; i < p.ops.size(); i++) if (p.ops[i].k == "Run" && p.ops[i].a == 99999 && p.ops[i].b < 0)
        for (size_t j = i + 1; j < p.ops.size(); j++) if (p.ops[j].k == "Join" || p.ops[j].k == "Joiner") return true;
    return false;
}
static sched::Config gencfg(trace::Rng& g, Program& p) {
    sched::Config c;
    c.seed = g.next();
    int k = g.below(10);
    if (k < 5) { c.policy = sched::RANDOM; c.stay = g.pick(vector<double>{0.0, 0.2, 0.5, 0.8, 0.95}); }
    else if (k < 8) { c.policy = sched::PCT; c.pct_depth = g.range(1, 5); c.pct_len = g.pick(vector<int>{60, 150, 400}); }
    else { c.policy = sched::LOCKHUNT; }
    c.coarse = g.chance(0.25);
    if (g.chance(0.3)) c.spurious = g.pick(vector<double>{0.01, 0.05, 0.2});
    if (g.chance(0.35)) { p.jitter = true; c.clock_jitter = g.pick(vector<double>{0.05, 0.2, 0.5}); c.jitter_step = g.range(1, 4) / 8.0; }
    return c;
}

int main(int argc, char** argv) {
    string mode = "random", out = "-", progs; bool ax = false; uint64_t seed = 1; int from = 0, count = 100, limit = 2000, bound = 2;
    for (int i = 1; i + 1 < argc; i += 2) {
        string a = argv[i], v = argv[i + 1];
        if (a == "--mode") mode = v; else if (a == "--out") out = v; else if (a == "--seed") seed = stoull(v);
        else if (a == "--from") from = stoi(v); else if (a == "--count") count = stoi(v); else if (a == "--limit") limit = stoi(v);
        else if (a == "--bound") bound = stoi(v); else if (a == "--progs") progs = v; else if (a == "--access") ax = v == "1";
    }
    trace::max_events = 2500;
    FILE* f = out == "-" ? stdout : fopen(out.c_str(), "w");
    if (mode == "random") {
        for (int i = from; i < from + count; i++) {
            trace::Rng g(seed * 1000003ULL + i);
            Program p; do { p = gen(g); } while (has_unbounded_inf(p));
            sched::Config c = gencfg(g, p);
            if (ax) { c.max_steps = 4000000; trace::access_rate = vector<int>{3, 10, 40, 200}[i % 4]; }
            P = &p;
            auto r = trace::run(&c, body);
            trace::write(f, p.hdr(c), r);
        }
    } else if (mode == "script") {
        // each line of progs: workers depth prefer | durs | ops "k a b c;..." | script ids
        ifstream in(progs); string line; int idx = 0;
        while (getline(in, line)) {
            if (idx++ % count != from) continue;
            Program p; vector<string> part; stringstream ss(line); string x;
            while (getline(ss, x, '|')) part.push_back(x);
            stringstream h(part[0]); int pf, jt = 0; h >> p.workers >> p.depth >> pf >> jt; p.prefer = pf; p.jitter = jt;
            stringstream d(part[1]); int v; while (d >> v) p.dur.push_back(v);
            stringstream o(part[2]); while (getline(o, x, ';')) { stringstream q(x); Op op; if (q >> op.k >> op.a >> op.b >> op.c) p.ops.push_back(op); }
            sched::Config c; c.seed = seed + idx; c.policy = sched::SCRIPT;
            stringstream sc(part[3]); while (sc >> v) c.script.push_back(v);
            P = &p;
            auto r = trace::run(&c, body);
            trace::write(f, p.hdr(c), r);
        }
    } else if (mode == "dfs") {
        // systematic exploration (preemption bounded) of small programs; identical traces are written once
        vector<Program> ps;
        auto add = [&](int w, vector<int> dur, vector<Op> ops, bool jit = false) { Program p; p.workers = w; p.dur = dur; p.ops = ops; p.jitter = jit; ps.push_back(p); };
        add(1, {1}, {{"Run", 1, -1, 1}});
        add(1, {1}, {{"Run", 2, 1, 1}});
        add(1, {1}, {{"Run", 2, 1, 0}, {"Set"}, {"Join"}, {"Set"}});
        add(2, {1}, {{"Run", 1, -1, 1}});
        add(2, {1}, {{"Run", 2, -1, 0}, {"Sleep", 1}, {"Join"}});
        add(2, {2}, {{"Run", 3, 1, 0}, {"Sleep", 1}, {"Join"}, {"Run", 1, -1, 1}});
        add(2, {1}, {{"Run", 2, -1, 0}});
        add(2, {1}, {{"Run", 12, -1, 0}, {"Spin", 3}});
        add(2, {1}, {{"Run", 2, 1, 0}, {"Sleep", 1}, {"Set"}});
        add(1, {0}, {{"Run", 1, 1, 0}, {"Joiner"}, {"Sleep", 2}, {"Join"}, {"Drain"}});
        add(3, {1}, {{"Run", 2, 1, 1}, {"Set"}, {"Run", 1, -1, 1}});
        add(1, {1}, {{"Run", 4, -1, 0}, {"Spin", 2}, {"Run", 1, -1, 1}});
        add(2, {1}, {{"Run", 6, 1, 0}, {"Run", 1, -1, 0}, {"Join"}});
        add(2, {0}, {{"Join"}, {"Set"}, {"Run", 1, -1, 1}});
        Program p = ps[from % ps.size()];
        P = &p;
        vector<pair<int,int>> stack;   // (chosen, n)
        int runs = 0; bool exhausted = false;
        std::vector<string> seen; std::hash<string> hs; std::vector<size_t> hashes;
        while (runs < limit) {
            sched::Config c; c.policy = sched::DFS; c.preempt_bound = bound; c.seed = 5;
            for (auto& q : stack) c.script.push_back(q.first);
            auto r = trace::run(&c, body);
            runs++;
            size_t hh = hs(r.events);
            if (find(hashes.begin(), hashes.end(), hh) == hashes.end()) { hashes.push_back(hh); trace::write(f, p.hdr(c), r); }
            if (r.status == 2) { exhausted = false; break; }
            vector<pair<int,int>> st2;
            for (auto& ch : r.choices) st2.push_back({ch.chosen, ch.n});
            while (!st2.empty() && st2.back().first + 1 >= st2.back().second) st2.pop_back();
            if (st2.empty()) { exhausted = true; break; }
            st2.back().first++;
            stack = st2;
        }
        fprintf(stderr, "dfs prog=%d runs=%d distinct=%zu exhausted=%d\n", (int) (from % ps.size()), runs, hashes.size(), exhausted);
    }
    if (f != stdout) fclose(f);
    return 0;
}
