// Small table-driven environment for the demonstrations.
#pragma once
#include "thts.h"
#include "thts_env.h"
#include "thts_env_context.h"
#include "thts_types.h"
#include "helper_templates.h"
#include "algorithms/uct/uct_decision_node.h"
#include "algorithms/uct/uct_chance_node.h"
#include "algorithms/uct/puct_decision_node.h"
#include "algorithms/uct/puct_chance_node.h"
#include "algorithms/uct/puct_manager.h"
#include "algorithms/ments/ments_decision_node.h"
#include "algorithms/ments/ments_chance_node.h"
#include "algorithms/ments/ments_manager.h"
#include "algorithms/ments/rents/rents_decision_node.h"
#include "algorithms/ments/rents/rents_chance_node.h"
#include "algorithms/ments/tents/tents_decision_node.h"
#include "algorithms/ments/tents/tents_chance_node.h"
#include "algorithms/ments/dbments_decision_node.h"
#include "algorithms/ments/dbments_chance_node.h"
#include "algorithms/ments/dents/dents_decision_node.h"
#include "algorithms/ments/dents/dents_chance_node.h"
#include "algorithms/ments/dents/dents_manager.h"
#include "algorithms/est/est_decision_node.h"
#include "algorithms/est/est_chance_node.h"
#include <atomic>
#include <chrono>
#include <cmath>
#include <cstdio>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <thread>
#include <vector>
using namespace std;
using namespace thts;
struct Row { map<int, vector<pair<int, double>>> act; };        // action -> outcomes
struct DemoEnv : ThtsEnv {
    map<int, Row> t;
    function<double(int, int, int)> rew = [](int, int, int) { return 0.0; };     // state, action, outcome (-1: none given)
    function<void()> on_ctx = [] {};
    int init = 0;
    DemoEnv() : ThtsEnv(true) {}
    static int S(const shared_ptr<const State>& s) { return dynamic_cast<const IntState&>(*s).state; }
    static int A(const shared_ptr<const Action>& a) { return dynamic_cast<const IntAction&>(*a).action; }
    shared_ptr<const State> get_initial_state_itfc() const override { return make_shared<const IntState>(init); }
    bool is_sink_state_itfc(shared_ptr<const State> s) const override { auto i = t.find(S(s)); return i == t.end() || i->second.act.empty(); }
    shared_ptr<ActionVector> get_valid_actions_itfc(shared_ptr<const State> s) const override {
        auto v = make_shared<ActionVector>(); auto i = t.find(S(s));
        if (i != t.end()) for (auto& p : i->second.act) v->push_back(make_shared<const IntAction>(p.first));
        return v;
    }
    shared_ptr<StateDistr> get_transition_distribution_itfc(shared_ptr<const State> s, shared_ptr<const Action> a) const override {
        auto d = make_shared<StateDistr>();
        for (auto& p : t.at(S(s)).act.at(A(a))) d->insert_or_assign(static_pointer_cast<const State>(make_shared<const IntState>(p.first)), p.second);
        return d;
    }
    shared_ptr<const State> sample_transition_distribution_itfc(shared_ptr<const State> s, shared_ptr<const Action> a, RandManager& rm) const override {
        double u = rm.get_rand_uniform(), c = 0; int last = 0;
        for (auto& p : t.at(S(s)).act.at(A(a))) { last = p.first; c += p.second; if (u < c) break; }
        return make_shared<const IntState>(last);
    }
    double get_reward_itfc(shared_ptr<const State> s, shared_ptr<const Action> a, shared_ptr<const Observation> o) const override {
        return rew(S(s), A(a), o ? dynamic_cast<const IntState&>(*o).state : -1);
    }
    shared_ptr<ThtsEnvContext> sample_context_itfc(shared_ptr<const State> s) const override { on_ctx(); return ThtsEnv::sample_context_itfc(s); }
};
inline shared_ptr<const Action> act(int a) { return make_shared<const IntAction>(a); }
inline shared_ptr<const Observation> obs(int s) { return static_pointer_cast<const Observation>(make_shared<const IntState>(s)); }
#define FAIL_IF(c) do { if (c) { printf("FAILED: %s\n", #c); fflush(stdout); _Exit(1); } } while (0)
inline bool close_to(double a, double b, double e = 1e-9) { return fabs(a - b) <= e * max(1.0, max(fabs(a), fabs(b))); }
