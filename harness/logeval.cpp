// The search log (kind log) and Monte-Carlo evaluation (kinds eval, evaldet, evalfreq), real code, controlled scheduler.
// See specs/Logger.tla and specs/Evaluate.tla for the events.
#include "scen.h"
#include "mc_eval.h"
#include "thts_logger.h"
#include "algorithms/uct/uct_logger.h"
#include "algorithms/ments/ments_logger.h"
#include "algorithms/ments/dbments_logger.h"
#include <iostream>
#include <sstream>

using namespace std;
using namespace thts;
using namespace sn;

static const sc::Opt* O;
static uint64_t G;
static int tm_() { return trace::ticks(sched::now() - 1000.0); }

// ---------------------------------------------------------------- the search log
struct Step { int op; int a = 0, b = 0, c = 0; };      // 0 run(trials, limit ticks or -1, blocking) 1 sleep 2 retarget(logger: 0 same, 1 new, 2 none) 3 set trials delta
struct LogPlan {
    int kind = 0; int workers = 1, delta = 0, dticks = 0; vector<int> dur; vector<Step> st;
    string hdr() const {
        auto s = arr(); for (auto& x : st) s.eraw(arr().ei(x.op).ei(x.a).ei(x.b).ei(x.c).done());
        auto d = arr(); for (int x : dur) d.ei(x);
        return obj().i("lk", kind).i("w", workers).i("delta", delta).i("dt", dticks).raw("dur", d.done()).raw("st", s.done()).done();
    }
};
static LogPlan L;
static int lg_trial = 0;
struct LEnv : SEnv {
    using SEnv::SEnv;
    shared_ptr<ThtsEnvContext> sample_context_itfc(shared_ptr<const State> s) const override {
        int t = lg_trial++;
        emit(obj().str("e", "TB").i("t", tid()).i("c", t).i("tm", tm_()));
        sched::advance(L.dur[t % L.dur.size()] / 8.0); sched::point();
        return make_shared<TCtx>(t, false);
    }
};
static void* logging_lock_at = nullptr;
static void lk(int w, void* m) { if (m == logging_lock_at) emit(obj().str("e", "LK").i("t", w).i("tm", tm_())); }
static void lr(int w, void* m) { if (m == logging_lock_at) emit(obj().str("e", "LR").i("t", w).i("tm", tm_())); }
static int lg_next = 0;
template <class N> static string stat(const N& n, int lkind) {      // visits, backups, value, dp value
    auto j = arr(); j.ei(n.num_visits);
    if constexpr (is_base_of_v<UctDNode, N>) j.ei(n.num_backups).ed(n.avg_return).ed(0.0);
    else {
        auto& m = static_cast<const MentsDNode&>(n); j.ei(m.num_backups).ed(m.soft_value);
        if constexpr (is_base_of_v<DPDNode, N>) j.ed(static_cast<const DPDNode&>(n).dp_value); else j.ed(0.0);
    }
    return j.done();
}
static string entry(const shared_ptr<LoggerEntry>& e) {            // runtime in ticks (-1: not a whole tick), as double, visits, backups, value, dp value; kind
    double t = e->runtime.count() * 8; int ti = (int) llround(t); if (fabs(t - ti) > 1e-6) ti = -1;
    auto j = arr(); j.ei(ti).ed(e->runtime.count()).ei(e->num_visits);
    if (auto* u = dynamic_cast<UctLoggerEntry*>(e.get())) j.ei(u->num_backups).ed(u->avg_return).ed(0.0).ei(1);
    else if (auto* d = dynamic_cast<DBMentsLoggerEntry*>(e.get())) j.ei(d->num_backups).ed(d->soft_value).ed(d->dp_value).ei(3);
    else if (auto* m = dynamic_cast<MentsLoggerEntry*>(e.get())) j.ei(m->num_backups).ed(m->soft_value).ed(0.0).ei(2);
    else j.ei(0).ed(0.0).ed(0.0).ei(0);
    return j.done();
}
template <class N> static int nbk(const N& n) {
    if constexpr (is_base_of_v<UctDNode, N>) return n.num_backups; else return static_cast<const MentsDNode&>(n).num_backups;
}
template <class LG, class D> struct TL : LG {
    int id, kind;
    TL(int kind) : kind(kind) { id = ++lg_next; }
    void add_origin_entry() override {
        LG::add_origin_entry();
        emit(obj().str("e", "ORG").i("t", tid()).i("l", id).i("tm", tm_()).raw("en", entry(this->entries.back())).i("size", this->size()));
    }
    void log(shared_ptr<ThtsDNode> n) override {
        int before = this->size();
        auto* d = dynamic_cast<D*>(n.get());
        LG::log(n);
        emit(obj().str("e", "LOG").i("t", tid()).i("l", id).i("tm", tm_()).i("n", d ? d->id : 0).raw("x", d ? stat<typename D::B>(*d, kind) : "[0,0,[0,0],[0,0]]")
            .raw("en", entry(this->entries.back())).i("size", this->size()).i("before", before));
    }
};
template <int K> struct LogRun {
    using A = Alg<K>; using D = TD<K>; using M = typename A::M;
    const sc::Opt& o; trace::Rng g;
    shared_ptr<LEnv> env;
    LogRun(const sc::Opt& o, uint64_t s) : o(o), g(s) { env = make_shared<LEnv>(o.T); env->init = o.root; }
    shared_ptr<M> mgr() { typename A::A a(static_pointer_cast<ThtsEnv>(env)); sc::fill(a, o); return make_shared<TM<M>>(a, g.next()); }
    shared_ptr<ThtsLogger> mk() {
        shared_ptr<ThtsLogger> r;
        if constexpr (K < 2) { if (L.kind == 1) r = make_shared<TL<UctLogger, D>>(1); }
        else {
            if (L.kind == 2) r = make_shared<TL<MentsLogger, D>>(2);
            if constexpr (K >= 5) if (L.kind == 3) r = make_shared<TL<DBMentsLogger, D>>(3);
        }
        if (!r) r = make_shared<TL<ThtsLogger, D>>(0);
        if (L.delta > 0) r->set_trials_delta(L.delta);
        if (L.dticks > 0) r->set_runtime_delta(L.dticks / 8.0);
        return r;
    }
    template <class P> static void watch(P& p) { if constexpr (requires { &p.logging_lock; }) logging_lock_at = &p.logging_lock; }
    void run() {
        quiet = true;
        auto m = mgr();
        vector<shared_ptr<ThtsDNode>> roots; vector<shared_ptr<ThtsLogger>> logs;
        auto root = [&]() { auto r = make_shared<D>(m, env->get_initial_state_itfc(), 0, o.ts); r->enrol(); roots.push_back(r);
            emit(obj().str("e", "ROOT").i("t", tid()).i("n", r->id).i("nv", r->num_visits).i("nb", nbk(*r)).b("leaf", r->is_leaf())); return static_pointer_cast<ThtsDNode>(r); };
        auto lg = [&]() { auto l = mk(); logs.push_back(l);
            emit(obj().str("e", "NEWL").i("t", tid()).i("l", lg_next).i("tm", tm_()).i("delta", L.delta).i("dt", L.dticks).i("size", l->size())); return l; };
        auto r = root(); auto l = lg();
        unique_ptr<ThtsPool> pool = make_unique<ThtsPool>(m, r, L.workers, l);
        watch(*pool);
        emit(obj().str("e", "USE").i("t", tid()).i("l", lg_next).i("n", static_cast<D*>(r.get())->id).i("w", L.workers).b("seen", logging_lock_at != nullptr));
        sched::on_acquire = lk; sched::on_release = lr;
        shared_ptr<ThtsLogger> cur = l; int curid = 1;
        for (auto& s : L.st) {
            if (s.op == 0) {
                emit(obj().str("e", "RUN").i("t", tid()).i("k", s.a).i("lim", s.b).i("tm", tm_()));
                pool->run_trials(s.a, s.b < 0 ? numeric_limits<double>::max() : s.b / 8.0, s.c == 1);
                if (s.c != 1) { for (int i = 0; i < 5; i++) sched::point(); pool->join(); }
                emit(obj().str("e", "RUNR").i("t", tid()).i("tm", tm_()).i("size", cur ? cur->size() : 0));
            } else if (s.op == 1) { sched::advance(s.a / 8.0); sched::point(); }
            else if (s.op == 2) {
                auto nr = root();
                if (s.a == 1) { cur = lg(); curid = lg_next; } else if (s.a == 2) { cur = nullptr; curid = 0; }
                pool->set_new_env(m, nr, cur);
                emit(obj().str("e", "USE").i("t", tid()).i("l", curid).i("n", static_cast<D*>(nr.get())->id).i("w", L.workers).b("seen", logging_lock_at != nullptr));
            } else if (s.op == 3 && cur) {
                cur->set_trials_delta(s.a);
                emit(obj().str("e", "SETD").i("t", tid()).i("l", curid).i("delta", s.a));
            }
        }
        pool.reset();
        sched::on_acquire = nullptr; sched::on_release = nullptr;
        for (size_t i = 0; i < logs.size(); i++) {
            auto es = arr(); for (auto& e : logs[i]->entries) es.eraw(entry(e));
            stringstream ss; logs[i]->write_to_ostream(ss);
            auto ls = arr(); string line; while (getline(ss, line)) ls.estr(line);
            bool nl = ss.str().empty() || ss.str().back() == '\n';
            emit(obj().str("e", "CSV").i("t", tid()).i("l", i + 1).raw("es", es.done()).raw("ls", ls.done()).b("nl", nl));
        }
        emit(obj().str("e", "END").i("t", tid()));
    }
};
static LogPlan genlog(trace::Rng& g, const sc::Opt& o) {
    LogPlan p;
    p.kind = o.alg < 2 ? g.pick(vector<int>{0, 1, 1}) : o.alg < 5 ? g.pick(vector<int>{0, 2, 2}) : g.pick(vector<int>{0, 2, 3, 3});
    p.workers = g.pick(vector<int>{1, 1, 2, 3, 4});
    int mode = g.below(4);                         // trials, time, both, both
    p.delta = mode == 1 ? 0 : g.pick(vector<int>{1, 1, 2, 3, 4, 7});
    p.dticks = mode == 0 ? 0 : g.pick(vector<int>{1, 2, 3, 5, 8, 20});
    int nd = g.range(1, 5); for (int i = 0; i < nd; i++) p.dur.push_back(g.pick(vector<int>{0, 0, 1, 1, 2, 3, 7}));
    int n = g.range(1, 5);
    for (int i = 0; i < n; i++) {
        if (i && g.chance(0.3)) p.st.push_back({1, g.range(1, 20)});
        if (i && g.chance(0.3)) p.st.push_back({2, g.below(3)});
        if (i && g.chance(0.15)) p.st.push_back({3, g.range(1, 5)});
        int lim = g.chance(0.35) ? g.pick(vector<int>{0, 1, 2, 4, 9}) : -1;
        p.st.push_back({0, g.pick(vector<int>{0, 1, 2, 3, 5, 8, 13, 20}), lim, g.chance(0.6) ? 1 : 0});
    }
    return p;
}

// ---------------------------------------------------------------- evaluation
struct EvalPlan {
    int maxlen = 5, searched = 20; bool dirty = false; vector<pair<int,int>> runs; se::Table T;
    string hdr() const {
        auto r = arr(); for (auto& x : runs) r.eraw(arr().ei(x.first).ei(x.second).done());
        return obj().i("maxlen", maxlen).i("searched", searched).b("dirty", dirty).raw("runs", r.done()).raw("eenv", T.json()).done();
    }
};
static EvalPlan E;
static bool evaluating = false;
struct EEnv : SEnv {
    using SEnv::SEnv;
    trace::J ev(const char* k) const { auto j = obj(); j.str("e", k).i("t", tid()); return j; }
    shared_ptr<ThtsEnvContext> sample_context_itfc(shared_ptr<const State> s) const override {
        if (!evaluating) return make_shared<TCtx>(0, false);
        int id = ++ctx_no;
        emit(ev("EC").i("c", id).i("s", sid(s)));
        sched::point();
        return make_shared<TCtx>(id, false);
    }
    shared_ptr<const State> sample_transition_distribution_itfc(shared_ptr<const State> s, shared_ptr<const Action> a, RandManager& rm) const override {
        if (!evaluating) return SEnv::sample_transition_distribution_itfc(s, a, rm);
        bool valid = false; for (int x : S(s).acts) valid = valid || x == aid(a);
        if (!valid) emit(ev("ET").i("s", sid(s)).i("a", aid(a)).i("o", -1));
        auto r = SEnv::sample_transition_distribution_itfc(s, a, rm);
        emit(ev("ET").i("s", sid(s)).i("a", aid(a)).i("o", sid(r)));
        sched::point();
        return r;
    }
    double get_reward_itfc(shared_ptr<const State> s, shared_ptr<const Action> a, shared_ptr<const Observation> ob) const override {
        double r = SEnv::get_reward_itfc(s, a, ob);
        if (evaluating) emit(ev("ER").i("s", sid(s)).i("a", aid(a)).i("o", ob ? se::state_id(T.stype, dynamic_cast<const State&>(*ob)) : -1).d("r", r));
        return r;
    }
};
template <int K> struct EvalRun {
    using A = Alg<K>; using D = TD<K>; using M = typename A::M;
    const sc::Opt& o; trace::Rng g;
    EvalRun(const sc::Opt& o, uint64_t s) : o(o), g(s) {}
    void collect(const ThtsDNode* d, vector<int>& ds, vector<int>& cs) {
        int id = did<K>(d); if (!id || find(ds.begin(), ds.end(), id) != ds.end()) return;
        ds.push_back(id);
        for (auto& p : d->children) { cs.push_back(cnid<K>(p.second.get())); for (auto& q : p.second->children) collect(q.second.get(), ds, cs); }
    }
    void run() {
        quiet = true; extreme = o.extreme;
        auto env = make_shared<EEnv>(o.T); env->init = o.root;
        auto eenv = make_shared<EEnv>(E.T); eenv->init = o.root;
        typename A::A a(static_pointer_cast<ThtsEnv>(env)); sc::fill(a, o);
        auto m = make_shared<TM<M>>(a, g.next());
        auto r = make_shared<D>(static_pointer_cast<M>(m), env->get_initial_state_itfc(), 0, o.ts); r->enrol();
        shared_ptr<ThtsDNode> root = r;
        if (E.searched) { ThtsPool pool(m, root, 1); pool.run_trials(E.searched); }
        vector<int> ds, cs; collect(root.get(), ds, cs);
        auto nodes = arr();
        for (int i : ds) {
            auto ch = arr();
            for (auto& p : reg[i].d->children) {
                auto q = arr(); for (auto& x : p.second->children) q.eraw(arr().ei(static_cast<TC<K>*>(p.second.get())->oid(*x.first)).ei(did<K>(x.second.get())).done());
                ch.eraw(arr().ei(env->aid(p.first)).eraw(q.done()).done());
            }
            nodes.eraw(obj().i("n", i).i("s", env->sid(reg[i].d->state)).raw("ch", ch.done()).done());
        }
        emit(obj().str("e", "TREE").i("t", tid()).i("root", r->id).raw("nodes", nodes.done()));
        shared_ptr<const ThtsEnv> ce = static_pointer_cast<const ThtsEnv>(eenv);
        EvalPolicy pol(root, ce, *m);
        if (E.dirty) {                                  // the caller has used its policy object before
            auto s = eenv->get_initial_state_itfc();
            for (int k = 0; k < 3 && !eenv->is_sink_state_itfc(s); k++) {
                TCtx c(0, false); auto act = pol.get_action(s, c); auto ns = eenv->sample_transition_distribution_itfc(s, act, *m);
                pol.update_step(act, static_pointer_cast<const Observation>(ns)); s = ns;
            }
        }
        MCEvaluator ev(ce, pol, E.maxlen, *m);
        log_rec = true; evaluating = true;
        for (auto& x : E.runs) {
            emit(obj().str("e", "EV").i("t", tid()).i("k", x.first).i("th", x.second));
            ev.run_rollouts(x.first, x.second);
            emit(obj().str("e", "EVR").i("t", tid()).d("mean", ev.get_mean_return()).d("sd", ev.get_stddev_return()));
        }
        emit(obj().str("e", "END").i("t", tid()));
    }
};
static EvalPlan geneval(trace::Rng& g, sc::Opt& o, const string& kind) {
    EvalPlan p;
    p.T = o.T;
    if (g.chance(0.5)) {                               // evaluated in another environment than the search's model: other outcomes, rewards, sinks
        for (auto& s : p.T.st) {
            if (s.sink && !s.acts.empty() && g.chance(0.3)) s.sink = false; else if (!s.acts.empty() && g.chance(0.05)) s.sink = true;
            for (size_t i = 0; i < s.acts.size(); i++) {
                if (g.chance(0.4)) { s.out[i] = {g.below((int) p.T.st.size())}; s.pr[i] = {1.0}; s.ro[i].clear(); }
                if (g.chance(0.4)) s.r[i] += g.range(-2, 2);
            }
        }
    }
    p.maxlen = g.pick(vector<int>{0, 1, 2, 3, 5, 8, 30});
    p.searched = g.pick(vector<int>{0, 1, 3, 10, 30, 60});
    p.dirty = g.chance(0.4);
    int n = g.range(1, 3);
    for (int i = 0; i < n; i++) p.runs.push_back({g.pick(vector<int>{0, 1, 2, 3, 5, 7, 12}), g.pick(vector<int>{1, 1, 2, 3, 4})});
    if (kind == "evaldet") for (auto& r : p.runs) r.second = 1;
    if (kind == "evalfreq") { p.searched = g.pick(vector<int>{0, 0, 1, 3}); p.maxlen = g.pick(vector<int>{2, 4, 6}); p.runs = {{1500, g.pick(vector<int>{1, 2})}}; o.extreme = 0; }
    return p;
}
static int perturb = 0; static bool logging = false;
template <int K> static void body1() { if (logging) LogRun<K>(*O, G).run(); else EvalRun<K>(*O, G).run(); }
static void body() {
    if (perturb) {
        trace::Rng g(perturb); static vector<void*> keep; vector<void*> drop;
        for (int i = 0; i < 3000; i++) { void* p = malloc(16 + g.below(400)); if (g.chance(0.5)) keep.push_back(p); else drop.push_back(p); }
        while (!drop.empty()) { int k = g.below(drop.size()); free(drop[k]); drop[k] = drop.back(); drop.pop_back(); }
    }
    switch (O->alg) {
        case 0: body1<0>(); break; case 1: body1<1>(); break; case 2: body1<2>(); break; case 3: body1<3>(); break;
        case 4: body1<4>(); break; case 5: body1<5>(); break; case 6: body1<6>(); break; default: body1<7>();
    }
}
int main(int argc, char** argv) {
    string kind = "log", out = "-"; bool ax = false; uint64_t seed = 1; int from = 0, count = 10;
    for (int i = 1; i + 1 < argc; i += 2) {
        string a = argv[i], v = argv[i + 1];
        if (a == "--kind") kind = v; else if (a == "--out") out = v; else if (a == "--seed") seed = stoull(v);
        else if (a == "--from") from = stoi(v); else if (a == "--count") count = stoi(v); else if (a == "--access") ax = v == "1";
    }
    logging = kind == "log";
    FILE* f = out == "-" ? stdout : fopen(out.c_str(), "w");
    for (int i = from; i < from + count; i++) {
        trace::Rng g(seed * 1000003ULL + i * 7919ULL + hash<string>()(kind) % 1000);
        sc::Opt o = sc::gen(g, {i % 8}, "search");
        o.kind = kind; o.coarse = g.chance(0.5);
        if (o.alg == 4) o.coarse = true;
        if (logging) L = genlog(g, o); else E = geneval(g, o, kind);
        if (kind == "evaldet") o.extreme = 0;
        sched::Config c = sc::gencfg(g, o);
        if (logging && g.chance(0.4)) { c.clock_jitter = g.pick(vector<double>{0.05, 0.2, 0.5}); c.jitter_step = g.range(1, 4) / 8.0; }   // time passes inside the logging lock too
        if (ax) { c.max_steps = 4000000; trace::access_rate = vector<int>{6, 25, 100, 400}[i % 4]; }
        O = &o; G = g.next();
        auto r = trace::run(&c, body, 60.0);
        auto h = obj();
        h.str("kind", kind).i("alg", o.alg).b("tt", o.tt).i("seed", o.seed).b("coarse", o.coarse).i("root", o.root).i("heur", o.heur).i("pseudo", o.pseudo)
         .raw("p", logging ? L.hdr() : E.hdr());
        if (kind == "evaldet") {
            sched::Config c2 = c; c2.seed = c.seed * 31 + 7; perturb = 1 + i;
            trace::fill = 0xa5; auto r2 = trace::run(&c2, body, 60.0); perturb = 0; trace::fill = 0x5a;
            fprintf(f, "{\"hdr\":%s,\"ev\":%s,\"evb\":%s}\n", h.done().c_str(), r.events.c_str(), r2.events.c_str());
        } else trace::write(f, h.done(), r);
    }
    if (f != stdout) fclose(f);
    return 0;
}
