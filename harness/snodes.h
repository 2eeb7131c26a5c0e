// Traced versions of every algorithm's nodes and managers.
#pragma once
#include "senv.h"
#include "algorithms/uct/uct_decision_node.h"
#include "algorithms/uct/uct_chance_node.h"
#include "algorithms/uct/puct_decision_node.h"
#include "algorithms/uct/puct_chance_node.h"
#include "algorithms/uct/puct_manager.h"
#include "algorithms/ments/ments_decision_node.h"
#include "algorithms/ments/ments_chance_node.h"
#include "algorithms/ments/ments_manager.h"
#include "algorithms/ments/rents/rents_decision_node.h"
#include "algorithms/ments/rents/rents_chance_node.h"
#include "algorithms/ments/tents/tents_decision_node.h"
#include "algorithms/ments/tents/tents_chance_node.h"
#include "algorithms/ments/dbments_decision_node.h"
#include "algorithms/ments/dbments_chance_node.h"
#include "algorithms/ments/dents/dents_decision_node.h"
#include "algorithms/ments/dents/dents_chance_node.h"
#include "algorithms/ments/dents/dents_manager.h"
#include "algorithms/est/est_decision_node.h"
#include "algorithms/est/est_chance_node.h"
#include <typeinfo>

namespace sn {
    template <class P> auto held(const P& p) { if constexpr (requires { p.lock(); }) return p.lock(); else return p; }   // however the parent is referred to
    using namespace std;
    using namespace thts;
    using trace::obj; using trace::arr; using trace::emit;

    inline bool log_policy = true;       // also record the action distribution before each selection
    inline bool quiet = false;           // no events (frequency measurements)
    inline bool log_rec = false;         // record recommendations asked for by the code under test (policy evaluation)
    inline int extreme = 0;              // percentage of extreme random draws
    inline int ctx_no = 0;

    struct Reg { ThtsDNode* d; ThtsCNode* c; bool alive; };
    inline vector<Reg> reg(1, Reg{nullptr, nullptr, false});
    inline vector<const se::TEnv*> reg_env(1, nullptr);
    inline int tid() { return sched::self(); }

    struct TCtx : ThtsEnvContext {
        int id; bool trial;
        TCtx(int id, bool trial) : id(id), trial(trial) {}
        ~TCtx() override { if (trial && !quiet) emit(obj().str("e", "TE").i("t", tid()).i("c", id)); }
    };
    inline int cid(ThtsEnvContext& c) { auto* p = dynamic_cast<TCtx*>(&c); return p ? p->id : -1; }
    struct SEnv : se::TEnv {
        using se::TEnv::TEnv;
        shared_ptr<ThtsEnvContext> sample_context_itfc(shared_ptr<const State> s) const override {
            int id = ++ctx_no;
            if (!quiet) emit(obj().str("e", "TB").i("t", tid()).i("c", id).i("s", sid(s)));
            return make_shared<TCtx>(id, true);
        }
    };

    // ---- which classes make up an algorithm
    template <int K> struct Alg;
    template <> struct Alg<0> { using D = UctDNode; using C = UctCNode; using M = UctManager; using A = UctManagerArgs; };
    template <> struct Alg<1> { using D = PuctDNode; using C = PuctCNode; using M = PuctManager; using A = PuctManagerArgs; };
    template <> struct Alg<2> { using D = MentsDNode; using C = MentsCNode; using M = MentsManager; using A = MentsManagerArgs; };
    template <> struct Alg<3> { using D = RentsDNode; using C = RentsCNode; using M = MentsManager; using A = MentsManagerArgs; };
    template <> struct Alg<4> { using D = TentsDNode; using C = TentsCNode; using M = MentsManager; using A = MentsManagerArgs; };
    template <> struct Alg<5> { using D = DBMentsDNode; using C = DBMentsCNode; using M = MentsManager; using A = MentsManagerArgs; };
    template <> struct Alg<6> { using D = DentsDNode; using C = DentsCNode; using M = DentsManager; using A = DentsManagerArgs; };
    template <> struct Alg<7> { using D = EstDNode; using C = EstCNode; using M = DentsManager; using A = DentsManagerArgs; };

    template <class M> struct TM : M {
        trace::Rng g;
        template <class A> TM(const A& a, uint64_t s) : M(a), g(s) {}
        int get_rand_int(int lo, int hi) override {
            int v = M::get_rand_int(lo, hi);
            if (extreme && hi > lo && g.below(100) < extreme) v = g.chance(0.5) ? lo : hi - 1;
            return v;
        }
        double get_rand_uniform() override {
            double v = M::get_rand_uniform();
            if (extreme && g.below(100) < extreme) v = g.pick(vector<double>{0.0, 0x1.fffffffffffffp-1, 0.5, 0x1p-53});
            return v;
        }
    };

    // snapshot: visits, backups, value, dp backups, dp value, entropy backups, subtree entropy, local entropy, emp backups, emp value
    template <class N> string snap(const N& n) {
        auto j = arr();
        j.ei(n.num_visits);
        if constexpr (is_base_of_v<UctDNode, N> || is_base_of_v<UctCNode, N>) j.ei(n.num_backups).ed(n.avg_return);
        else if constexpr (is_base_of_v<MentsDNode, N>) { auto& m = static_cast<const MentsDNode&>(n); j.ei(m.num_backups).ed(m.soft_value); }
        else { auto& m = static_cast<const MentsCNode&>(n); j.ei(m.num_backups).ed(m.soft_value); }
        if constexpr (is_base_of_v<DBMentsDNode, N>) { auto& m = static_cast<const DPDNode&>(n); j.ei(m.num_backups).ed(m.dp_value); }
        else if constexpr (is_base_of_v<DBMentsCNode, N>) { auto& m = static_cast<const DPCNode&>(n); j.ei(m.num_backups).ed(m.dp_value); }
        else j.ei(0).ed(0.0);
        if constexpr (is_base_of_v<DentsDNode, N>) {
            auto& m = static_cast<const EntDNode&>(n); j.ei(m.num_backups).ed(m.subtree_entropy).ed(m.local_entropy);
            auto& e = static_cast<const EmpNode&>(n); j.ei(e.num_backups).ed(e.avg_return);
        } else if constexpr (is_base_of_v<DentsCNode, N>) {
            auto& m = static_cast<const EntCNode&>(n); j.ei(m.num_backups).ed(m.subtree_entropy).ed(0.0);
            auto& e = static_cast<const EmpNode&>(n); j.ei(e.num_backups).ed(e.avg_return);
        } else j.ei(0).ed(0.0).ed(0.0).ei(0).ed(0.0);
        return j.done();
    }
    // search and value temperature of a node (NaN where the algorithm has none)
    template <class N> string temps(const N& n) {
        auto j = arr(); double nan = numeric_limits<double>::quiet_NaN();
        if constexpr (requires { { n.get_temp() } -> convertible_to<double>; }) j.ed(n.get_temp()); else j.ed(nan);
        if constexpr (requires { { n.get_value_temp() } -> convertible_to<double>; }) j.ed(n.get_value_temp()); else j.ed(nan);
        return j.done();
    }
    inline string dvec(const vector<double>& v) { auto j = arr(); for (double x : v) j.ed(x); return j.done(); }

    template <int K> struct TC;
    template <int K> struct TD;
    template <int K> int did(const ThtsDNode* n) { auto* p = dynamic_cast<const TD<K>*>(n); return p ? p->id : 0; }
    template <int K> int cnid(const ThtsCNode* n) { auto* p = dynamic_cast<const TC<K>*>(n); return p ? p->id : 0; }

    template <int K> struct TD : Alg<K>::D {
        using B = typename Alg<K>::D; using M = typename Alg<K>::M; using PC = typename Alg<K>::C;
        int id = 0;
        TD(shared_ptr<M> m, shared_ptr<const State> s, int d, int ts, shared_ptr<const PC> p = nullptr) : B(m, s, d, ts, p) {}
        int enrol() { if (!id) { id = reg.size(); reg.push_back({this, nullptr, true}); } return id; }   // numbers follow the order of the announcements
        ~TD() override { reg[id].alive = false; }
        const se::TEnv& env() const { return static_cast<const se::TEnv&>(*this->thts_manager->thts_env); }
        trace::J ev(const char* k, ThtsEnvContext& c) const { auto j = obj(); j.str("e", k).i("t", tid()).i("n", id).i("c", cid(c)); return j; }
        void announce(const char* k, int by, int o, bool cls, bool same, int ws = -1, int wts = -1) {   // ws, wts: state and timestep asked for (roots)
            if (quiet) { enrol(); return; }
            int par = 0; if (auto p = held(this->parent)) par = cnid<K>(p.get());
            string rest = obj().i("by", by).i("p", par).i("o", o).i("s", env().sid(this->state)).i("d", this->decision_depth)
                .i("ts", this->decision_timestep).b("cls", cls).b("same", same).d("hv", this->heuristic_value).b("opp", this->is_opponent()).b("leaf", this->is_leaf()).i("ws", ws).i("wts", wts)
                .raw("y", snap<B>(*this)).done();
            emit(obj().str("e", k).i("t", tid()).i("n", enrol()).rest(rest));
        }
        void visit_itfc(ThtsEnvContext& c) override {
            if (quiet) { B::visit_itfc(c); return; }
            string x = snap<B>(*this);
            B::visit_itfc(c);
            emit(ev("VD", c).raw("x", x).raw("y", snap<B>(*this)));
        }
        shared_ptr<const Action> select_action_itfc(ThtsEnvContext& c) override {
            if (quiet) return B::select_action_itfc(c);
            string x = snap<B>(*this), pol = "[]", tp = temps(*static_cast<B*>(this));
            if (log_policy) {
                if constexpr (K >= 2) {
                    if constexpr (requires(B& b, ActionDistr& d, ThtsEnvContext& cc) { b.compute_action_distribution(d, cc); }) {
                        ActionDistr d; B::compute_action_distribution(d, c);
                        auto j = arr(); double other = 0.0; size_t seen = 0;
                        for (int a : env().S(this->state).acts) {
                            double p = 0.0;
                            for (auto& pr : d) if (env().aid(pr.first) == a) { p = pr.second; seen++; }
                            j.ed(p);
                        }
                        j.ei(d.size() - seen);
                        pol = j.done();
                    }
                }
            }
            auto a = B::select_action_itfc(c);
            int ch = 0; try { ch = cnid<K>(this->get_child_node_itfc(a).get()); } catch (const exception&) {}
            emit(ev("SA", c).i("a", a ? env().aid(a) : -1).i("ch", ch).i("nc", this->get_num_children()).raw("x", x).raw("y", snap<B>(*this)).raw("pol", pol).raw("tp", tp));
            return a;
        }
        void backup_itfc(const vector<double>& rb, const vector<double>& ra, const double sa, const double st, ThtsEnvContext& c) override {
            if (quiet) { B::backup_itfc(rb, ra, sa, st, c); return; }
            string x = snap<B>(*this), b = dvec(rb), a = dvec(ra);
            B::backup_itfc(rb, ra, sa, st, c);
            emit(ev("BD", c).raw("rb", b).raw("ra", a).d("sa", sa).d("st", st).raw("x", x).raw("y", snap<B>(*this)).raw("tp", temps(*static_cast<B*>(this))));
        }
        shared_ptr<const Action> recommend_action_itfc(ThtsEnvContext& c) const override {
            auto a = B::recommend_action_itfc(c);
            if (log_rec) emit(obj().str("e", "RC").i("t", tid()).i("n", id).i("c", cid(c)).i("a", a ? env().aid(a) : -1));
            return a;
        }
        shared_ptr<ThtsCNode> create_child_node_helper_itfc(shared_ptr<const Action> action) const override;
    };
    template <int K> struct TC : Alg<K>::C {
        using B = typename Alg<K>::C; using M = typename Alg<K>::M; using PD = typename Alg<K>::D;
        int id = 0;
        TC(shared_ptr<M> m, shared_ptr<const State> s, shared_ptr<const Action> a, int d, int ts, shared_ptr<const PD> p = nullptr) : B(m, s, a, d, ts, p) {}
        int enrol() { if (!id) { id = reg.size(); reg.push_back({nullptr, this, true}); } return id; }
        ~TC() override { reg[id].alive = false; }
        const se::TEnv& env() const { return static_cast<const se::TEnv&>(*this->thts_manager->thts_env); }
        int oid(const Observation& o) const { return se::state_id(env().T.stype, dynamic_cast<const State&>(o)); }
        trace::J ev(const char* k, ThtsEnvContext& c) const { auto j = obj(); j.str("e", k).i("t", tid()).i("n", id).i("c", cid(c)); return j; }
        void announce(int by, int a, bool cls, bool same) {
            if (quiet) { enrol(); return; }
            int par = 0; if (auto p = held(this->parent)) par = did<K>(p.get());
            double lr = 0.0; if constexpr (K >= 2) lr = this->local_reward;
            string rest = obj().i("by", by).i("p", par).i("a", a).i("a2", env().aid(this->action)).i("s", env().sid(this->state)).i("d", this->decision_depth)
                .i("ts", this->decision_timestep).b("cls", cls).b("same", same).d("lr", lr).b("opp", this->is_opponent()).raw("y", snap<B>(*this)).done();
            emit(obj().str("e", "NC").i("t", tid()).i("n", enrol()).rest(rest));
        }
        void visit_itfc(ThtsEnvContext& c) override {
            if (quiet) { B::visit_itfc(c); return; }
            string x = snap<B>(*this);
            B::visit_itfc(c);
            emit(ev("VC", c).raw("x", x).raw("y", snap<B>(*this)));
        }
        shared_ptr<const Observation> sample_observation_itfc(ThtsEnvContext& c) override {
            if (quiet) return B::sample_observation_itfc(c);
            string x = snap<B>(*this);
            auto o = B::sample_observation_itfc(c);
            int ch = 0; try { ch = did<K>(this->get_child_node_itfc(o).get()); } catch (const exception&) {}
            emit(ev("SO", c).i("o", o ? oid(*o) : -1).i("ch", ch).i("nc", this->get_num_children()).raw("x", x).raw("y", snap<B>(*this)));
            return o;
        }
        void backup_itfc(const vector<double>& rb, const vector<double>& ra, const double sa, const double st, ThtsEnvContext& c) override {
            if (quiet) { B::backup_itfc(rb, ra, sa, st, c); return; }
            string x = snap<B>(*this), b = dvec(rb), a = dvec(ra);
            B::backup_itfc(rb, ra, sa, st, c);
            emit(ev("BC", c).raw("rb", b).raw("ra", a).d("sa", sa).d("st", st).raw("x", x).raw("y", snap<B>(*this)).raw("tp", temps(*static_cast<B*>(this))));
        }
        shared_ptr<ThtsDNode> create_child_node_helper_itfc(shared_ptr<const Observation> o, shared_ptr<const State> ns = nullptr) const override {
            auto plain = B::create_child_node_helper_itfc(o, ns);
            bool cls = typeid(*plain) == typeid(PD);
            auto pl = static_pointer_cast<PD>(plain);
            auto ch = make_shared<TD<K>>(static_pointer_cast<M>(plain->thts_manager), plain->state, plain->decision_depth, plain->decision_timestep,
                                         static_pointer_cast<const B>(held(plain->parent)));
            bool same = !cls || snap<PD>(*pl) == snap<PD>(*static_cast<const PD*>(ch.get()));
            ch->announce("ND", id, o ? oid(*o) : -1, cls, same);
            return static_pointer_cast<ThtsDNode>(ch);
        }
    };
    template <int K> shared_ptr<ThtsCNode> TD<K>::create_child_node_helper_itfc(shared_ptr<const Action> action) const {
        auto plain = B::create_child_node_helper_itfc(action);
        bool cls = typeid(*plain) == typeid(PC);
        auto pl = static_pointer_cast<PC>(plain);
        auto ch = make_shared<TC<K>>(static_pointer_cast<M>(plain->thts_manager), plain->state, plain->action, plain->decision_depth, plain->decision_timestep,
                                     static_pointer_cast<const B>(held(plain->parent)));
        bool same = !cls || snap<PC>(*pl) == snap<PC>(*static_cast<const PC*>(ch.get()));
        ch->announce(id, action ? env().aid(action) : -1, cls, same);
        return static_pointer_cast<ThtsCNode>(ch);
    }
}
