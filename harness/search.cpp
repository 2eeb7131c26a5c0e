// Runs the real search (pool, nodes, managers) on generated scenarios under the controlled scheduler and records every
// node operation.  See specs/Search.tla for the events.
#include "scen.h"
#include <fstream>
#include <iostream>
#include <sstream>

using namespace std;
using namespace thts;
using namespace sn;

static const sc::Opt* O;
static uint64_t G;            // scenario seed for choices made while running

static string hexl(const string& s) {   // text as a sequence of lines
    auto j = arr(); string cur;
    for (char ch : s) { if (ch == '\n') { j.estr(cur); cur.clear(); } else cur += ch; }
    j.estr(cur);
    return j.done();
}
template <int K> struct Run {
    using A = Alg<K>; using D = TD<K>; using CN = TC<K>; using M = typename A::M;
    shared_ptr<SEnv> env; shared_ptr<TM<M>> mgr; trace::Rng g; const sc::Opt& o;
    Run(const sc::Opt& o, uint64_t s) : g(s), o(o) {
        env = make_shared<SEnv>(o.T); env->init = o.root;
        typename A::A args(static_pointer_cast<ThtsEnv>(env));
        sc::fill(args, o);
        mgr = make_shared<TM<M>>(args, g.next());
    }
    shared_ptr<D> mkroot(bool moved = false) {
        int s = o.root, ts = o.ts;
        if (moved && g.chance(0.5)) {                   // planning again from where the game has moved on to
            ts += g.pick(vector<int>{0, 1, 1, 2});
            int c = g.below(env->T.st.size()); if (!env->T.st[c].acts.empty()) s = c;
        }
        auto r = make_shared<D>(static_pointer_cast<M>(mgr), se::mk_state(env->T.stype, s), 0, ts);
        r->announce("ROOT", 0, -1, true, true, s, ts);
        return r;
    }
    // ---- read-only queries
    vector<int> alive(bool dn) { vector<int> v; for (size_t i = 1; i < reg.size(); i++) if (reg[i].alive && (reg[i].d != nullptr) == dn) v.push_back(i); return v; }
    void collect(const ThtsDNode* d, vector<int>& ds, vector<int>& cs) {
        int id = did<K>(d); if (!id || find(ds.begin(), ds.end(), id) != ds.end()) return;
        ds.push_back(id);
        for (auto& p : d->children) { int c = cnid<K>(p.second.get()); cs.push_back(c); for (auto& q : p.second->children) collect(q.second.get(), ds, cs); }
    }
    string live() { auto a = arr(); for (size_t i = 1; i < reg.size(); i++) if (reg[i].alive) a.ei(i); return a.done(); }
    void dump(const shared_ptr<ThtsDNode>& root, bool again, bool kept = false) {
        vector<int> ds, cs; collect(root.get(), ds, cs);
        auto a = arr();
        for (int i : ds) {
            auto* n = static_cast<D*>(reg[i].d); auto ch = arr();
            for (auto& p : n->children) ch.eraw(arr().ei(env->aid(p.first)).ei(cnid<K>(p.second.get())).done());
            int par = 0; if (auto p = sn::held(n->parent)) par = cnid<K>(p.get());
            a.eraw(obj().i("n", i).b("dn", true).i("s", env->sid(n->state)).i("d", n->decision_depth).i("ts", n->decision_timestep).i("p", par).i("a", -1).i("nv", n->get_num_visits()).i("nc", n->get_num_children())
                .raw("y", snap<typename A::D>(*n)).raw("ch", ch.done()).done());
        }
        for (int i : cs) {
            auto* n = static_cast<CN*>(reg[i].c); auto ch = arr();
            for (auto& p : n->children) ch.eraw(arr().ei(n->oid(*p.first)).ei(did<K>(p.second.get())).done());
            int par = 0; if (auto p = sn::held(n->parent)) par = did<K>(p.get());
            a.eraw(obj().i("n", i).b("dn", false).i("s", env->sid(n->state)).i("d", n->decision_depth).i("ts", n->decision_timestep).i("p", par).i("a", env->aid(n->action)).i("nv", n->num_visits).i("nc", n->get_num_children())
                .raw("y", snap<typename A::C>(*n)).raw("ch", ch.done()).done());
        }
        emit(obj().str("e", "SNAP").i("t", tid()).i("n", did<K>(root.get())).b("again", again).b("kept", kept).raw("nodes", a.done()));
    }
    void recommend(int id, int times) {
        auto* n = static_cast<D*>(reg[id].d);
        auto rs = arr();
        string x = snap<typename A::D>(*n);
        for (int i = 0; i < times; i++) { TCtx c(-2, false); auto a = n->recommend_action_itfc(c); rs.ei(a ? env->aid(a) : -1); }
        emit(obj().str("e", "REC").i("t", tid()).i("n", id).raw("rs", rs.done()).raw("x", x).raw("y", snap<typename A::D>(*n)).i("nc", n->get_num_children()));
    }
    void lookup(int id) {
        auto rs = arr();
        if (reg[id].d) {
            auto* n = static_cast<D*>(reg[id].d); int before = n->get_num_children();
            const auto& st = env->T.st[env->sid(n->state)];
            for (int a : st.acts) {
                auto act = se::mk_action(env->T.atype, a); bool has = n->has_child_node_itfc(act); int got = 0, got2 = 0;
                try { got = cnid<K>(n->get_child_node_itfc(act).get()); } catch (const exception&) { got = -1; }
                if (has) got2 = cnid<K>(n->create_child_node_itfc(act).get());
                rs.eraw(arr().ei(a).ei(has).ei(got).ei(got2).done());
            }
            bool bogus = n->has_child_node_itfc(se::mk_action(env->T.atype, 77));
            emit(obj().str("e", "LKP").i("t", tid()).i("n", id).b("dn", true).raw("rs", rs.done()).b("bogus", bogus).b("grew", n->get_num_children() != before));
        } else {
            auto* n = static_cast<CN*>(reg[id].c); int before = n->get_num_children();
            for (size_t s = 0; s < env->T.st.size(); s++) {
                shared_ptr<const Observation> ob = static_pointer_cast<const Observation>(se::mk_state(env->T.stype, s)); bool has = n->has_child_node_itfc(ob); int got = 0, got2 = 0;
                try { got = did<K>(n->get_child_node_itfc(ob).get()); } catch (const exception&) { got = -1; }
                if (has) got2 = did<K>(n->create_child_node_itfc(ob).get());
                rs.eraw(arr().ei(s).ei(has).ei(got).ei(got2).done());
            }
            emit(obj().str("e", "LKP").i("t", tid()).i("n", id).b("dn", false).raw("rs", rs.done()).b("bogus", false).b("grew", n->get_num_children() != before));
        }
    }
    void print(int id, int depth) {
        string s; bool dn = reg[id].d != nullptr;
        if (dn) s = static_cast<D*>(reg[id].d)->get_pretty_print_string(depth); else s = static_cast<CN*>(reg[id].c)->get_pretty_print_string(depth);
        string x = dn ? snap<typename A::D>(*static_cast<D*>(reg[id].d)) : snap<typename A::C>(*static_cast<CN*>(reg[id].c));
        emit(obj().str("e", "PP").i("t", tid()).i("n", id).b("dn", dn).i("depth", depth).raw("x", x).raw("s", hexl(s)));
    }
    void queries(const shared_ptr<ThtsDNode>& root) {
        if (g.chance(0.5)) sched::point();
        dump(root, false);
        vector<int> ds, cs; collect(root.get(), ds, cs);
        int rid = did<K>(root.get());
        vector<int> ask = {rid};
        for (int i = 0; i < 4; i++) ask.push_back(g.pick(ds));
        for (int id : ask) if (!env->T.st[env->sid(reg[id].d->state)].acts.empty()) recommend(id, 4);
        for (int i = 0; i < 3; i++) lookup(g.pick(ds));
        if (!cs.empty()) for (int i = 0; i < 2; i++) lookup(g.pick(cs));
        if (ds.size() < 60) { print(rid, g.range(0, 3)); print(g.pick(ds), g.range(0, 2)); if (!cs.empty()) print(g.pick(cs), g.range(0, 2)); }
        else { print(g.pick(ds), 0); print(rid, 0); if (!cs.empty()) print(g.pick(cs), 0); }
        dump(root, true);
    }
    // the table itself, printed (its entries may outlive their nodes)
    void table() { bool ok = true; try { stringstream ss; ss << mgr->dmap; } catch (...) { ok = false; } emit(obj().str("e", "TBL").i("t", tid()).b("ok", ok)); }
    void search() {
        shared_ptr<ThtsDNode> root = static_pointer_cast<ThtsDNode>(mkroot());
        unique_ptr<ThtsPool> pool; int pt = 0;
        vector<shared_ptr<ThtsDNode>> beside;
        for (size_t ri = 0; ri < o.rounds.size(); ri++) {
            auto r = o.rounds[ri];
            if (r.drop) {
                pool.reset(); pt = 0;
                if (r.drop == 1) { beside.clear(); root.reset(); emit(obj().str("e", "DROP").i("t", tid()).raw("keep", "[]").raw("live", live())); root = mkroot(true); }
                else if (r.drop == 2) {
                    vector<int> ds, cs; collect(root.get(), ds, cs);
                    int id = g.pick(ds);
                    shared_ptr<ThtsDNode> sub = reg[id].d->shared_from_this();
                    beside.clear(); root = sub;
                    emit(obj().str("e", "DROP").i("t", tid()).raw("keep", arr().ei(id).done()).raw("live", live()));
                    dump(root, false, true);
                } else { beside.push_back(root); root = mkroot(true); }
            }
            if (!pool || r.fresh_pool || pt != r.threads) { pool.reset(); pool = make_unique<ThtsPool>(mgr, root, r.threads); pt = r.threads; }
            emit(obj().str("e", "RUN").i("t", tid()).i("n", did<K>(root.get())).i("k", r.trials).i("th", r.threads));
            pool->run_trials(r.trials);
            emit(obj().str("e", "RUNR").i("t", tid()));
            queries(root);
            table();
        }
        pool.reset(); beside.clear(); root.reset();
        string lv = live();
        weak_ptr<TM<M>> wm = mgr; weak_ptr<SEnv> we = env; mgr.reset(); env.reset();
        emit(obj().str("e", "FREE").i("t", tid()).raw("live", lv).b("mgr", !wm.expired()).b("env", !we.expired()));
        emit(obj().str("e", "END").i("t", tid()));
    }
    // ---- frequencies: many draws at a fixed node
    void freq_event(int id, const char* what, const map<int,int>& cnt, int N, const vector<int>& pre) {
        auto c = arr(); for (auto& p : cnt) c.eraw(arr().ei(p.first).ei(p.second).done());
        auto q = arr(); for (int a : pre) q.ei(a);
        emit(obj().str("e", "FREQ").i("t", tid()).i("n", id).str("what", what).i("N", N).raw("cnt", c.done()).raw("pre", q.done()));
    }
    void freq() {
        log_policy = false;
        auto root = mkroot();
        auto& st = env->T.st[o.root];
        const int N = 2500;
        // nodes never searched: which action first, and what is recommended
        {
            vector<int> pre; map<int,int> cnt, rec; int mark = reg.size();
            int npre = g.below(st.acts.size());
            for (int i = 0; i < npre; i++) pre.push_back(st.acts[i]);
            quiet = true;
            for (int i = 0; i < N; i++) {
                auto r = make_shared<D>(static_pointer_cast<M>(mgr), env->get_initial_state_itfc(), 0, o.ts); r->enrol();
                { TCtx c(-2, false); rec[env->aid(r->recommend_action_itfc(c))]++; }
                if (K < 2) { TCtx c(-2, false); for (int a : pre) r->create_child_node_itfc(se::mk_action(env->T.atype, a)); r->visit_itfc(c); cnt[env->aid(r->select_action_itfc(c))]++; }
            }
            quiet = false;
            reg.resize(mark);
            freq_event(did<K>(root.get()), "rec0", rec, N, {});
            if (K < 2) freq_event(did<K>(root.get()), "first", cnt, N, pre);
        }
        // a searched node: every action has a child, then draw without backing up
        unique_ptr<ThtsPool> pool = make_unique<ThtsPool>(mgr, static_pointer_cast<ThtsDNode>(root), 1);
        emit(obj().str("e", "RUN").i("t", tid()).i("n", did<K>(root.get())).i("k", o.rounds[0].trials).i("th", 1));
        pool->run_trials(o.rounds[0].trials);
        emit(obj().str("e", "RUNR").i("t", tid()));
        for (int a : st.acts) root->create_child_node_itfc(se::mk_action(env->T.atype, a));
        dump(root, false);
        vector<int> ds, cs; collect(root.get(), ds, cs);
        vector<int> ask = {did<K>(root.get())};
        for (int i = 0; i < 2; i++) ask.push_back(g.pick(ds));
        for (int id : ask) {
            auto* n = static_cast<D*>(reg[id].d);
            if (env->T.st[env->sid(n->state)].acts.empty()) continue;
            map<int,int> cnt, rec;
            bool full = n->get_num_children() == (int) env->T.st[env->sid(n->state)].acts.size();
            quiet = true;
            for (int i = 0; i < N; i++) {
                TCtx c(-2, false); rec[env->aid(n->recommend_action_itfc(c))]++;
                if (full && (K != 3 || n->decision_depth == 0) && !n->is_leaf()) { TCtx c2(-2, false); cnt[env->aid(n->select_action_itfc(c2))]++; }
            }
            quiet = false;
            freq_event(id, "rec", rec, N, {});
            if (!cnt.empty()) freq_event(id, "select", cnt, N, {});
        }
        for (int i = 0; i < 2 && !cs.empty(); i++) {
            auto* n = static_cast<CN*>(reg[g.pick(cs)].c);
            map<int,int> cnt; bool full = true;
            const auto& s = env->T.st[env->sid(n->state)]; int ai = env->ai(s, env->aid(n->action));
            quiet = true;
            for (int k = 0; k < N; k++) { TCtx c(-2, false); cnt[n->oid(*n->sample_observation_itfc(c))]++; }
            quiet = false;
            freq_event(cnid<K>(n), "obs", cnt, N, {});
        }
        pool.reset();
        emit(obj().str("e", "END").i("t", tid()));
    }
};
template <int K> static void body1() {
    extreme = O->extreme; log_policy = O->policy;
    Run<K> r(*O, G);
    if (O->kind == "freq") r.freq(); else r.search();
}
static int perturb = 0; static uint64_t other_seed = 0; static vector<int> other_algs;
static void body();
static void other_search() {          // something else searched before in the same process
    trace::Rng g(other_seed); sc::Opt o = sc::gen(g, other_algs, "search"); for (auto& r : o.rounds) r.threads = 1;
    const sc::Opt* keep = O; uint64_t kg = G; int kp = perturb; O = &o; G = g.next(); perturb = 0;
    trace::mute = true; body(); trace::mute = false;
    O = keep; G = kg; perturb = kp; reg.assign(1, Reg{nullptr, nullptr, false}); ctx_no = 0;
}
static void body() {
    if (perturb) {                    // another memory layout
        trace::Rng g(perturb); static vector<void*> keep; vector<void*> drop;
        for (int i = 0; i < 3000; i++) { void* p = malloc(16 + g.below(400)); if (g.chance(0.5)) keep.push_back(p); else drop.push_back(p); }
        while (!drop.empty()) { int k = g.below(drop.size()); free(drop[k]); drop[k] = drop.back(); drop.pop_back(); }
        if (other_seed) other_search();
    }
    switch (O->alg) {
        case 0: body1<0>(); break; case 1: body1<1>(); break; case 2: body1<2>(); break; case 3: body1<3>(); break;
        case 4: body1<4>(); break; case 5: body1<5>(); break; case 6: body1<6>(); break; default: body1<7>();
    }
}

int main(int argc, char** argv) {
    string kind = "search", out = "-", algs = "0,1,2,3,4,5,6,7", force; bool ax = false; uint64_t seed = 1; int from = 0, count = 10;
    for (int i = 1; i + 1 < argc; i += 2) {
        string a = argv[i], v = argv[i + 1];
        if (a == "--kind") kind = v; else if (a == "--out") out = v; else if (a == "--seed") seed = stoull(v);
        else if (a == "--from") from = stoi(v); else if (a == "--count") count = stoi(v); else if (a == "--algs") algs = v; else if (a == "--force") force = v; else if (a == "--access") ax = v == "1";
    }
    vector<int> al; { stringstream ss(algs); string x; while (getline(ss, x, ',')) al.push_back(stoi(x)); }
    FILE* f = out == "-" ? stdout : fopen(out.c_str(), "w");
    for (int i = from; i < from + count; i++) {
        trace::Rng g(seed * 1000003ULL + i * 7919ULL + hash<string>()(kind) % 1000);
        vector<int> one = {al[i % al.size()]};
        sc::Opt o = sc::gen(g, one, kind);
        if (force.find("tt") != string::npos) o.tt = true;
        if (force.find("multi") != string::npos) for (auto& r : o.rounds) r.threads = max(r.threads, 2);
        if (force.find("two") != string::npos) o.two = true;
        if (kind == "pair") { o.two = true; o.policy = g.chance(0.5); }
        if (kind == "det") { o.extreme = 0; o.policy = g.chance(0.5); for (auto& r : o.rounds) r.threads = 1; }
        if (force.find("drop") != string::npos) {
            if (o.rounds.size() < 2) o.rounds.push_back(o.rounds[0]);
            for (size_t j = 1; j < o.rounds.size(); j++) if (!o.rounds[j].drop) { o.rounds[j].drop = g.range(1, 3); if (o.rounds[j].drop == 2 && o.alg == 3) o.rounds[j].drop = 1; }
        }
        if (kind == "freq") {
            o.extreme = 0; o.rounds.resize(1); o.rounds[0].threads = 1; o.root = 0; o.T.st[0].sink = false; if (o.maxd == 0) o.maxd = 2;
            if (g.chance(0.5)) for (auto& s : o.T.st) { for (double& r : s.r) r = 1.0; for (auto& v : s.ro) v.clear(); }
        }
        sched::Config c = sc::gencfg(g, o);
        if (ax) { c.max_steps = 4000000; trace::access_rate = vector<int>{6, 25, 100, 400}[i % 4]; }
        O = &o; G = g.next();
        auto r = trace::run(&c, body, 60.0);
        if (kind == "pair") {               // the negated game, with the other player to move first
            string hdr = o.hdr();
            sc::Opt o2 = o; o2.T.sign = -1.0; o2.ts = o.ts + 1; O = &o2;
            auto r2 = trace::run(&c, body, 60.0);
            fprintf(f, "{\"hdr\":%s,\"ev\":%s,\"evb\":%s}\n", hdr.c_str(), r.events.c_str(), r2.events.c_str());
        } else if (kind == "det") {         // the same search again: another memory layout and scheduling of the caller
            sched::Config c2 = c; c2.seed = c.seed * 31 + 7; c2.clock_jitter = 0.3; perturb = 1 + i; other_seed = i % 2 ? g.next() : 0; other_algs = {o.alg, o.alg, al[g.below(al.size())]};
            trace::fill = 0xa5; auto r2 = trace::run(&c2, body, 60.0); perturb = 0; trace::fill = 0x5a;
            fprintf(f, "{\"hdr\":%s,\"ev\":%s,\"evb\":%s}\n", o.hdr().c_str(), r.events.c_str(), r2.events.c_str());
        } else trace::write(f, o.hdr(), r);
    }
    if (f != stdout) fclose(f);
    return 0;
}
