// Multi-threaded use of the library as a user would do it: search in rounds, log, change the problem, evaluate the policy.
// Everything shared between threads here is constant or synchronised (race.cpp instruments this file too).
#pragma once
#include "scen.h"
#include "mc_eval.h"
#include "thts_logger.h"
#include "algorithms/uct/uct_logger.h"
#include "algorithms/ments/ments_logger.h"
#include "algorithms/ments/dbments_logger.h"
#include <sstream>

namespace mt {
    using namespace std;
    using namespace thts;
    inline const sc::Opt* O;
    inline int what = 0, logk = 0, maxlen = 5;
    inline void (*seen_tree)(ThtsDNode* root) = nullptr;          // told about every tree before it is dropped

    template <int K> shared_ptr<ThtsLogger> mklog() {
        shared_ptr<ThtsLogger> l;
        if (logk == 0) return nullptr;
        if constexpr (K < 2) { if (logk == 2) l = make_shared<UctLogger>(); }
        else if constexpr (K < 5) { if (logk == 2) l = make_shared<MentsLogger>(); }
        else { if (logk == 2) l = make_shared<DBMentsLogger>(); }
        if (!l) l = make_shared<ThtsLogger>();
        l->set_trials_delta(2);
        return l;
    }
    template <int K, class E> void run() {
        using A = sn::Alg<K>; using D = typename A::D; using M = typename A::M;
        auto env = make_shared<E>(O->T); env->init = O->root;
        typename A::A args(static_pointer_cast<ThtsEnv>(env)); sc::fill(args, *O);
        auto m = make_shared<M>(args);
        shared_ptr<ThtsDNode> root = make_shared<D>(m, env->get_initial_state_itfc(), 0, O->ts);
        auto log = mklog<K>();
        {
            ThtsPool pool(m, root, O->rounds[0].threads, log);
            for (size_t i = 0; i < O->rounds.size(); i++) {
                auto& r = O->rounds[i];
                bool bl = r.fresh_pool;
                pool.run_trials(r.trials, numeric_limits<double>::max(), bl);
                if (!bl) {
                    sched::point(); sched::point();
                    if (what & 1) { try { pool.set_new_env(m, root, log); } catch (const exception&) {} }
                    pool.join();
                }
                if (seen_tree) seen_tree(root.get());
                if ((what & 2) && i + 1 < O->rounds.size()) {      // another tree, same manager (and table)
                    root = make_shared<D>(m, env->get_initial_state_itfc(), 0, O->ts + 1);
                    pool.set_new_env(m, root, log);
                }
                if (what & 4) { if (log) { stringstream ss; log->write_to_ostream(ss); } }
            }
        }
        if (what & 8) {
            shared_ptr<const ThtsEnv> ce = static_pointer_cast<const ThtsEnv>(env);
            EvalPolicy pol(root, ce, *m);
            MCEvaluator ev(ce, pol, maxlen, *m);
            ev.run_rollouts(7, 3);
            ev.get_mean_return();
            ev.run_rollouts(3, 2);
            ev.get_stddev_return();
        }
        if (seen_tree) seen_tree(root.get());
    }
    template <class E> void go() {
        switch (O->alg) {
            case 0: run<0, E>(); break; case 1: run<1, E>(); break; case 2: run<2, E>(); break; case 3: run<3, E>(); break;
            case 4: run<4, E>(); break; case 5: run<5, E>(); break; case 6: run<6, E>(); break; default: run<7, E>();
        }
    }
    inline string hdr(const char* kind, const sc::Opt& o) {
        return trace::obj().str("kind", kind).i("alg", o.alg).b("tt", o.tt).i("nmut", o.nmut).i("log", logk).i("what", what).b("coarse", o.coarse).i("th", o.rounds[0].threads).done();
    }
}
