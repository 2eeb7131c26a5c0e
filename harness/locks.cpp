// Multi-threaded search, logging and evaluation, every lock operation recorded.
#include "mt.h"
#include "varena.h"
#include <map>
#include <set>
using namespace std;
using namespace thts;

struct Op { char k; int t; void* o; };                 // w wants (blocking), a has acquired, r released, b trial begins, e trial ended, q caller is back
static vector<Op>* ops; static map<void*, pair<char, int>>* nodes; static bool rec = false;
static void put(char k, int t, void* o) { if (rec && t >= 0) ops->push_back({k, t, o}); }
static void want(int t, void* o) { put('w', t, o); }
static void acq(int t, void* o) { put('a', t, o); }
static void rel(int t, void* o) { put('r', t, o); }

struct LCtx : ThtsEnvContext { ~LCtx() override { put('e', sched::self(), nullptr); } };
struct LEnv : se::TEnv {
    using se::TEnv::TEnv;
    shared_ptr<ThtsEnvContext> sample_context_itfc(shared_ptr<const State>) const override { put('b', sched::self(), nullptr); return make_shared<LCtx>(); }
};
static void walk(ThtsDNode* d, set<void*>& done);
static void walk(ThtsCNode* c, set<void*>& done) {
    if (!done.insert(c).second) return;
    nodes->emplace((void*) c->get_lock().native_handle(), make_pair('C', c->decision_timestep));
    for (auto& p : c->children) walk(p.second.get(), done);
}
static void walk(ThtsDNode* d, set<void*>& done) {
    if (!done.insert(d).second) return;
    nodes->emplace((void*) d->get_lock().native_handle(), make_pair('D', d->decision_timestep));
    for (auto& p : d->children) walk(p.second.get(), done);
}
static void tree(ThtsDNode* d) { put('q', 0, nullptr); set<void*> s; walk(d, s); }

static void body() {
    ops = new vector<Op>(); nodes = new map<void*, pair<char, int>>();
    mt::seen_tree = tree;
    sched::on_want = want; sched::on_acquire = acq; sched::on_release = rel; arena::on(); rec = true;
    mt::go<LEnv>();
    rec = false; arena::off();
    // what a thread wants while holding something else is kept once; so is the end of each trial that still holds a node's lock
    map<int, vector<void*>> held; map<void*, int> num; set<tuple<int, set<void*>, void*>> had; long total = 0, trials = 0;
    auto no = [&](void* o) { return num.emplace(o, (int) num.size() + 1).first->second; };
    auto name = [&](void* o) { auto it = nodes->find(o); return it == nodes->end() ? string("other") : string(1, it->second.first) + to_string(it->second.second); };
    for (auto& op : *ops) {
        auto& h = held[op.t];
        if (op.k == 'a') { h.push_back(op.o); total++; }
        else if (op.k == 'r') { for (size_t i = h.size(); i-- > 0;) if (h[i] == op.o) { h.erase(h.begin() + i); break; } }
        else if (op.k == 'w') {
            if (h.empty() || !had.insert({op.t, set<void*>(h.begin(), h.end()), op.o}).second) continue;
            auto hs = trace::arr(), hn = trace::arr(); for (void* x : h) { hs.ei(no(x)); hn.estr(name(x)); }
            trace::emit(trace::obj().str("e", "Nest").i("t", op.t).raw("h", hs.done()).raw("hn", hn.done()).i("o", no(op.o)).str("on", name(op.o)));
        } else {
            if (op.k != 'q') trials++;
            auto hn = trace::arr(); int k = 0; for (void* x : h) if (nodes->count(x)) { hn.estr(name(x)); k++; }
            if (k || op.k == 'q' || trials <= 2) trace::emit(trace::obj().str("e", op.k == 'b' ? "TrialBegin" : op.k == 'e' ? "TrialEnd" : "Back").i("t", op.t).raw("held", hn.done()));
        }
    }
    trace::emit(trace::obj().str("e", "End").i("t", 0).i("locks", num.size()).i("acquired", total).i("trials", trials / 2));
}
int main(int argc, char** argv) {
    string out = "-"; uint64_t seed = 1; int from = 0, count = 10;
    for (int i = 1; i + 1 < argc; i += 2) {
        string a = argv[i], v = argv[i + 1];
        if (a == "--out") out = v; else if (a == "--seed") seed = stoull(v); else if (a == "--from") from = stoi(v); else if (a == "--count") count = stoi(v);
    }
    FILE* f = out == "-" ? stdout : fopen(out.c_str(), "w");
    for (int i = from; i < from + count; i++) {
        trace::Rng g(seed * 7000003ULL + i * 7919ULL + 71);
        sc::Opt o = sc::gen(g, {i % 8}, "search");
        o.kind = "locks"; o.coarse = false; o.tt = g.chance(0.8); o.extreme = 0;
        o.rounds.resize(min<size_t>(o.rounds.size(), 2));
        for (auto& r : o.rounds) { r.threads = g.range(2, 5); r.trials = g.pick(vector<int>{4, 12, 40, 80}); }
        mt::what = g.below(16); mt::logk = g.pick(vector<int>{0, 1, 2, 2}); mt::maxlen = g.range(1, 6);
        sched::Config c = sc::gencfg(g, o);
        if (g.chance(0.6)) c.policy = sched::LOCKHUNT;
        mt::O = &o;
        auto r = trace::run(&c, body, 60.0);
        trace::write(f, mt::hdr("locks", o), r);
    }
    if (f != stdout) fclose(f);
    return 0;
}
