// Search scenarios: environment table, algorithm options, rounds of trials.
#pragma once
#include "snodes.h"
#include <cmath>

namespace sc {
    using namespace std;
    using namespace thts;
    using trace::obj; using trace::arr;

    struct Round { int threads, trials; bool fresh_pool; int drop; };   // drop: 0 keep, 1 discard tree first, 2 continue from a subtree, 3 second tree beside
    struct Opt {
        int alg = 0, seed = 5;
        bool mcts = true, tt = false, two = false; int nmut = 1, maxd = -1, ts = 0, root = 0;
        int heur = 1; bool prior = false;
        double bias = -1, power = 0.5, eps = 0; int pseudo = 0; bool rmv = false;
        double temp = 1, pw = 0, meps = 0.5, reps = -1, maxe = 1, tmin = 1e-6, tsc = 1, trs = -1, dq = 0, off = 0; int tdf = 0, thr = 0; bool shift = false;
        double vt = 1, vmin = 1e-6, vsc = 1, vrs = -1; int vtdf = 1; bool dp = true;
        int extreme = 0; bool coarse = true; bool policy = true;
        vector<Round> rounds;
        se::Table T;
        string kind = "search";
        string hdr() const {
            auto o = obj();
            o.str("kind", kind).i("alg", alg).b("mcts", mcts).b("tt", tt).b("two", two).i("nmut", nmut).i("maxd", maxd < 0 ? 1000000 : maxd).i("ts", ts).i("root", root)
             .i("heur", heur).b("prior", prior).d("bias", bias).d("power", power).d("eps", eps).i("pseudo", pseudo).b("rmv", rmv)
             .d("temp", temp).d("pw", pw).d("meps", meps).d("reps", reps).d("maxe", maxe).d("tmin", tmin).d("tsc", tsc).d("trs", trs).d("dq", dq * T.sign).d("off", off)
             .i("tdf", tdf).i("thr", thr).b("shift", shift).d("vt", vt).d("vmin", vmin).d("vsc", vsc).d("vrs", vrs).i("vtdf", vtdf).b("dp", dp)
             .b("coarse", coarse).i("seed", seed).i("atype", T.atype).i("stype", T.stype).raw("env", T.json());
            auto r = arr(); for (auto& x : rounds) r.eraw(arr().ei(x.threads).ei(x.trials).ei(x.drop).done());
            o.raw("rounds", r.done());
            return o.done();
        }
    };

    inline TempDecayFnPtr decay(int k) { return k == 1 ? decayed_temp_inv_sqrt : k == 2 ? decayed_temp_inv_log : k == 3 ? decayed_temp_sigmoid : nullptr; }
    template <class A> void fill(A& a, const Opt& o) {
        a.seed = o.seed; a.mcts_mode = o.mcts; a.use_transposition_table = o.tt; a.num_transposition_table_mutexes = o.nmut; a.is_two_player_game = o.two;
        if (o.maxd >= 0) a.max_depth = o.maxd;
        a.heuristic_fn = o.heur == 0 ? nullptr : o.heur == 1 ? helper::zero_heuristic_fn : se::heuristic;
        a.prior_fn = o.prior ? se::prior : nullptr;
        if constexpr (is_base_of_v<UctManagerArgs, A>) {
            a.bias = o.bias; a.heuristic_psuedo_trials = o.pseudo; a.recommend_most_visited = o.rmv; a.epsilon_exploration = o.eps;
            if constexpr (is_base_of_v<PuctManagerArgs, A>) a.puct_power = o.power;
        } else {
            a.temp = o.temp; a.prior_policy_search_weight = o.pw; a.epsilon = o.meps; a.root_node_epsilon = o.reps; a.max_explore_prob = o.maxe;
            a.temp_decay_fn = decay(o.tdf); a.temp_decay_min_temp = o.tmin; a.temp_decay_visits_scale = o.tsc; a.temp_decay_root_node_visits_scale = o.trs;
            a.default_q_value = o.dq * o.T.sign; a.shift_pseudo_q_values = o.shift; a.psuedo_q_value_offset = o.off; a.recommend_visit_threshold = o.thr; a.recommend_most_visited = o.rmv;
            if constexpr (is_base_of_v<DentsManagerArgs, A>) {
                a.value_temp_decay_fn = decay(o.vtdf); a.value_temp_init = o.vt; a.value_temp_decay_min_temp = o.vmin;
                a.value_temp_decay_visits_scale = o.vsc; a.value_temp_decay_root_node_visits_scale = o.vrs; a.use_dp_value = o.dp;
            }
        }
    }

    inline se::Table gen_env(trace::Rng& g, bool uct, bool& needs_maxd, int size = 0) {
        se::Table t;
        t.stype = g.below(4); t.atype = g.below(3);
        int kind = g.pick(vector<int>{0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 3, 3, 4, 5});        // layered, cyclic, chain-ish, many actions, deep, many outcomes
        int n = size ? size : kind == 3 ? g.range(3, 6) : kind == 4 ? g.range(10, 18) : kind == 5 ? g.range(7, 12) : g.range(2, 9);
        int maxa = kind == 3 ? g.range(5, 12) : kind >= 4 ? g.range(1, 2) : g.range(1, 4);
        int rk = g.below(6);
        double scale = rk == 4 ? g.pick(vector<double>{100, 1e4, 1e6}) : 1.0;
        auto rew = [&]() -> double {
            switch (rk) { case 0: return g.range(-2, 3); case 1: return g.u() * 4 - 2; case 2: return g.pick(vector<double>{0, 0, 1}); case 3: return 1.0;
                          case 4: return (g.u() * 2 - 1) * scale; default: return -g.u() * 3; }
        };
        t.st.resize(n);
        needs_maxd = kind == 1;
        for (int s = 0; s < n; s++) {
            auto& x = t.st[s];
            x.h = g.pick(vector<double>{0.5, -1.5, 2.0, 3.25, -0.125, 7.0}) * scale;
            bool last = kind != 1 && s == n - 1;
            x.sink = last || (s > 0 && g.chance(kind == 4 ? 0.02 : 0.2));
            if (x.sink && g.chance(0.7)) continue;             // some sinks still list actions
            int na = g.range(1, maxa); if (kind == 3) na = maxa;
            for (int i = 0; i < na; i++) {
                x.acts.push_back(kind == 3 ? i : i * 2 + (s % 2));
                x.pri.push_back(g.pick(vector<double>{0.5, 1.0, 0.25, 0.9, 0.1}));
                vector<int> outs; int no = g.pick(vector<int>{1, 1, 2, 2, 3});
                if (kind == 2) no = 1 + (i == 0);
                if (kind == 4) no = 1;
                if (kind == 5) no = g.range(4, 10);
                for (int k = 0; k < no; k++) {
                    int o = kind == 1 ? g.below(n) : last ? s : min(n - 1, g.range(s + 1, min(n - 1, s + (kind == 4 ? 1 + (k > 0) : kind == 5 ? n : 3))));
                    if (find(outs.begin(), outs.end(), o) == outs.end()) outs.push_back(o);
                }
                vector<double> w; double z = 0; for (size_t k = 0; k < outs.size(); k++) { w.push_back(g.pick(vector<double>{1, 1, 2, 3, 0.1})); z += w.back(); }
                for (double& p : w) p /= z;
                if (outs.size() > 1 && g.chance(0.12)) { w.assign(outs.size(), 0.0); w[g.below(outs.size())] = 1.0; }   // listed but impossible outcomes
                x.out.push_back(outs); x.pr.push_back(w); x.r.push_back(rew());
                vector<double> ro; if (uct && g.chance(0.5)) for (size_t k = 0; k < outs.size(); k++) ro.push_back(rew());
                x.ro.push_back(ro);
            }
            if (g.chance(0.5)) { double z = 0; for (double p : x.pri) z += p; for (double& p : x.pri) p /= z; }
            if (x.pri.size() > 1 && g.chance(0.2)) x.pri[0] = g.pick(vector<double>{0.0, 1e-40, 1e-20});
        }
        if (g.chance(0.93)) t.st[0].sink = false;
        if (!t.st[0].sink && t.st[0].acts.empty()) { t.st[0].acts = {0}; t.st[0].pri = {1.0}; t.st[0].out = {{n - 1}}; t.st[0].pr = {{1.0}}; t.st[0].r = {1.0}; t.st[0].ro = {{}}; }
        for (auto& x : t.st) if (!x.sink && x.acts.empty()) x.sink = true;
        return t;
    }

    inline Opt gen(trace::Rng& g, const vector<int>& algs, const string& kind) {
        Opt o;
        o.alg = g.pick(algs);
        bool uct = o.alg < 2, nm, huge = kind == "long" && g.chance(0.4);     // huge: many trials on a shallow tree
        o.T = gen_env(g, uct, nm, huge ? g.range(2, 4) : 0);
        o.mcts = g.chance(0.6); o.tt = g.chance(0.45); o.two = g.chance(0.35); o.ts = g.pick(vector<int>{0, 0, 1, 2, 3});
        o.nmut = g.pick(vector<int>{1, 1, 2, 7});
        int cap = kind == "long" ? 4 : 6;
        o.maxd = nm ? g.range(1, cap) : g.chance(0.3) ? g.range(0, 3) : -1;
        if (huge) o.maxd = g.range(1, 2);
        o.heur = g.pick(vector<int>{0, 1, 2, 2}); o.prior = g.chance(0.3); o.rmv = g.chance(kind == "long" ? 0.7 : 0.4);
        o.seed = g.range(1, 1000000);
        if (uct) {
            o.bias = g.pick(vector<double>{-1, -1, -1, 0, 0.5, 2, 10}); o.power = g.pick(vector<double>{0.5, 0.5, 0.3, 1.0, 0.8}); o.pseudo = g.pick(vector<int>{0, 0, 1, 5});
            o.eps = g.pick(vector<double>{0, 0, 0, 0.1, 0.5, 1.0});
            if (o.prior && g.chance(0.3)) for (auto& s : o.T.st) for (double& p : s.pri) p *= 3;
        } else {
            o.temp = g.pick(vector<double>{1, 1, 0.1, 5, 0.01, 50}); o.pw = o.prior ? g.pick(vector<double>{0, 0.3, 1.0}) : 0;
            o.meps = g.pick(vector<double>{0.5, 0.5, 0.1, 2.0, 0.0, 20.0}); o.reps = g.pick(vector<double>{-1, -1, 1.5, 0.05}); o.maxe = g.pick(vector<double>{1, 1, 0.3, 0.0});
            o.tdf = g.pick(vector<int>{0, 0, 1, 2, 3}); o.tmin = g.pick(vector<double>{1e-6, 0.05, 0.5}); o.tsc = g.pick(vector<double>{1, 0.1, 3}); o.trs = g.pick(vector<double>{-1, -1, 0.5, 4});
            o.dq = g.pick(vector<double>{0, 0, 5, -5, 100}); o.shift = g.chance(0.5); o.off = g.pick(vector<double>{0, 1.5, -2}); o.thr = g.pick(vector<int>{0, 0, 2, 5, 50});
            o.vt = g.pick(vector<double>{1, 0.1, 4, 0}); o.vtdf = g.pick(vector<int>{1, 1, 0, 2, 3}); o.vmin = g.pick(vector<double>{1e-6, 0.05, 0.5}); o.vsc = g.pick(vector<double>{1, 0.1, 3});
            o.vrs = g.pick(vector<double>{-1, -1, 0.5, 4}); o.dp = g.chance(0.6);
            if (o.alg == 4) {                                   // sparse-max squares value-to-temperature ratios
                o.temp = max(o.temp, 0.1); o.tmin = max(o.tmin, 0.05);
                for (auto& s : o.T.st) { for (double& r : s.r) if (fabs(r) > 1e4) r *= 1e-3; if (fabs(s.h) > 1e4) s.h *= 1e-3; }
            }
            if (o.pw > 0) for (auto& s : o.T.st) {              // mixing the policy with a prior needs a distribution
                double z = 0; for (double& p : s.pri) { if (p < 1e-3) p = 0.05; z += p; }
                for (double& p : s.pri) p /= z;
            }
            if (o.prior && g.chance(0.15)) for (auto& s : o.T.st) if (!s.pri.empty() && o.pw == 0) s.pri.back() = 1e33;
        }
        o.extreme = g.pick(vector<int>{0, 0, 3, 15});
        int nr = g.pick(vector<int>{1, 1, 2, 3});
        if (kind == "long") nr = 1;

        for (int i = 0; i < nr; i++) {
            Round r;
            r.threads = kind == "long" ? g.pick(vector<int>{1, 1, 1, 3}) : g.pick(vector<int>{1, 1, 1, 2, 2, 3, 3, 4, 4, 7});
            r.trials = huge ? g.range(1100, 1800) : kind == "long" ? g.range(150, 400) : g.pick(vector<int>{1, 3, 8, 15, 30, 50});
            r.fresh_pool = g.chance(0.5);
            r.drop = i == 0 ? 0 : g.pick(vector<int>{0, 0, 1, 1, 2, 3});
            if (r.drop == 2 && o.alg == 3) r.drop = 1;          // RENTS needs the parent's policy in the context
            o.rounds.push_back(r);
        }
        o.kind = kind;
        o.coarse = kind != "fine";
        o.policy = o.coarse;
        return o;
    }
    inline sched::Config gencfg(trace::Rng& g, const Opt& o) {
        sched::Config c;
        c.seed = g.next(); c.coarse = o.coarse; c.max_steps = 4000000;
        int k = g.below(10);
        if (k < 6) { c.policy = sched::RANDOM; c.stay = g.pick(vector<double>{0.0, 0.2, 0.5, 0.8}); }
        else if (k < 9) { c.policy = sched::PCT; c.pct_depth = g.range(1, 6); c.pct_len = g.pick(vector<int>{300, 1500}); }
        else c.policy = sched::LOCKHUNT;
        return c;
    }
}
