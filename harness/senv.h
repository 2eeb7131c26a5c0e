// Table-driven environment used by the search harnesses, and the scenario it is part of.
#pragma once
#include "vtrace.h"
#include "thts.h"
#include "thts_env.h"
#include "thts_env_context.h"
#include "thts_types.h"
#include <cstring>
#include <limits>
#include <memory>
#include <string>
#include <vector>

namespace se {
    using namespace std;
    using namespace thts;

    struct St {
        bool sink = false; double h = 0.0;
        vector<int> acts; vector<double> pri;
        vector<vector<int>> out; vector<vector<double>> pr;
        vector<double> r; vector<vector<double>> ro;
    };
    struct Table {
        int stype = 0, atype = 0;
        vector<St> st;
        double sign = 1.0;                 // negated game (rewards, heuristics)
        string json() const {
            auto a = trace::arr();
            for (auto& s : st) {
                auto o = trace::obj();
                o.b("sink", s.sink).d("h", s.h * sign);
                auto ia = trace::arr(), ip = trace::arr(), io = trace::arr(), iq = trace::arr(), ir = trace::arr(), iro = trace::arr();
                for (int x : s.acts) ia.ei(x);
                for (double x : s.pri) ip.ed(x);
                for (double x : s.r) ir.ed(x * sign);
                for (auto& v : s.out) { auto q = trace::arr(); for (int x : v) q.ei(x); io.eraw(q.done()); }
                for (auto& v : s.pr) { auto q = trace::arr(); for (double x : v) q.ed(x); iq.eraw(q.done()); }
                for (auto& v : s.ro) { auto q = trace::arr(); for (double x : v) q.ed(x * sign); iro.eraw(q.done()); }
                o.raw("acts", ia.done()).raw("pri", ip.done()).raw("out", io.done()).raw("pr", iq.done()).raw("r", ir.done()).raw("ro", iro.done());
                a.eraw(o.done());
            }
            return a.done();
        }
    };

    // states and actions of a user, with a legal but poor hash: different ones collide
    struct CState : IntState { CState(int i) : IntState(i) {} size_t hash() const override { return state & 1; } };
    struct CAction : IntAction { CAction(int i) : IntAction(i) {} size_t hash() const override { return 7; } };

    inline shared_ptr<const State> mk_state(int stype, int i) {
        if (stype == 3) return static_pointer_cast<const State>(make_shared<const CState>(i));
        if (stype == 1) return static_pointer_cast<const State>(make_shared<const IntPairState>(i / 3, i % 3 - 1));
        if (stype == 2) return static_pointer_cast<const State>(make_shared<const Int3TupleState>(i / 4, (i / 2) % 2, i % 2));
        return static_pointer_cast<const State>(make_shared<const IntState>(i));
    }
    inline int state_id(int stype, const State& s) {
        if (stype == 1) { auto& p = dynamic_cast<const IntPairState&>(s).state; return p.first * 3 + p.second + 1; }
        if (stype == 2) { auto& p = dynamic_cast<const Int3TupleState&>(s).state; return get<0>(p) * 4 + get<1>(p) * 2 + get<2>(p); }
        return dynamic_cast<const IntState&>(s).state;
    }
    inline shared_ptr<const Action> mk_action(int atype, int i) {
        if (atype == 2) return static_pointer_cast<const Action>(make_shared<const CAction>(i));
        if (atype == 1) return static_pointer_cast<const Action>(make_shared<const StringAction>("act" + to_string(i)));
        return static_pointer_cast<const Action>(make_shared<const IntAction>(i));
    }
    inline int action_id(int atype, const Action& a) {
        if (atype == 1) return stoi(dynamic_cast<const StringAction&>(a).action.substr(3));
        return dynamic_cast<const IntAction&>(a).action;
    }

    struct TEnv : ThtsEnv {
        const Table& T;
        int init = 0;
        TEnv(const Table& T) : ThtsEnv(true), T(T) {}
        int sid(const shared_ptr<const State>& s) const { return state_id(T.stype, *s); }
        int aid(const shared_ptr<const Action>& a) const { return action_id(T.atype, *a); }
        const St& S(const shared_ptr<const State>& s) const { return T.st.at(sid(s)); }
        int ai(const St& s, int a) const { for (size_t i = 0; i < s.acts.size(); i++) if (s.acts[i] == a) return i; throw runtime_error("invalid action passed to environment"); }
        shared_ptr<const State> get_initial_state_itfc() const override { return mk_state(T.stype, init); }
        bool is_sink_state_itfc(shared_ptr<const State> s) const override { return S(s).sink; }
        shared_ptr<ActionVector> get_valid_actions_itfc(shared_ptr<const State> s) const override {
            auto v = make_shared<ActionVector>();
            for (int a : S(s).acts) v->push_back(mk_action(T.atype, a));
            return v;
        }
        shared_ptr<StateDistr> get_transition_distribution_itfc(shared_ptr<const State> s, shared_ptr<const Action> a) const override {
            auto d = make_shared<StateDistr>(); const St& x = S(s); int i = ai(x, aid(a));
            for (size_t k = 0; k < x.out[i].size(); k++) d->insert_or_assign(mk_state(T.stype, x.out[i][k]), x.pr[i][k]);
            return d;
        }
        shared_ptr<const State> sample_transition_distribution_itfc(shared_ptr<const State> s, shared_ptr<const Action> a, RandManager& rm) const override {
            const St& x = S(s); int i = ai(x, aid(a)); double u = rm.get_rand_uniform(), c = 0; int last = -1;
            for (size_t k = 0; k < x.out[i].size(); k++) if (x.pr[i][k] > 0) { last = k; c += x.pr[i][k]; if (u < c) break; }
            return mk_state(T.stype, x.out[i].at(last));
        }
        double get_reward_itfc(shared_ptr<const State> s, shared_ptr<const Action> a, shared_ptr<const Observation> o) const override {
            const St& x = S(s); int i = ai(x, aid(a)); double r = x.r[i];
            if (o != nullptr && !x.ro[i].empty()) {
                int os = state_id(T.stype, dynamic_cast<const State&>(*o));
                for (size_t k = 0; k < x.out[i].size(); k++) if (x.out[i][k] == os) { r += x.ro[i][k]; break; }
            }
            return r * T.sign;
        }
        shared_ptr<ThtsEnvContext> sample_context_itfc(shared_ptr<const State> s) const override { return ThtsEnv::sample_context_itfc(s); }
    };
    inline double heuristic(shared_ptr<const State> s, shared_ptr<ThtsEnv> env) {
        auto& e = dynamic_cast<TEnv&>(*env); return e.S(s).h * e.T.sign;
    }
    inline shared_ptr<ActionPrior> prior(shared_ptr<const State> s, shared_ptr<ThtsEnv> env) {
        auto& e = dynamic_cast<TEnv&>(*env); auto p = make_shared<ActionPrior>(); const St& x = e.S(s);
        for (size_t i = 0; i < x.acts.size(); i++) p->insert_or_assign(mk_action(e.T.atype, x.acts[i]), x.pri[i]);
        return p;
    }
}
