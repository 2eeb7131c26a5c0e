// Multi-threaded search, logging and evaluation, every memory access recorded (see vrace.cpp).
#include "mt.h"
#include "vrace.h"
using namespace std;
static void body() { race::begin(); mt::go<se::TEnv>(); race::finish(); }
int main(int argc, char** argv) {
    string out = "-"; uint64_t seed = 1; int from = 0, count = 10;
    for (int i = 1; i + 1 < argc; i += 2) {
        string a = argv[i], v = argv[i + 1];
        if (a == "--out") out = v; else if (a == "--seed") seed = stoull(v); else if (a == "--from") from = stoi(v); else if (a == "--count") count = stoi(v);
    }
    FILE* f = out == "-" ? stdout : fopen(out.c_str(), "w");
    for (int i = from; i < from + count; i++) {
        trace::Rng g(seed * 1000003ULL + i * 7919ULL + 17);
        sc::Opt o = sc::gen(g, {i % 8}, "search");
        o.kind = "race"; o.coarse = g.chance(0.3); o.tt = g.chance(0.6); o.extreme = 0;
        if (o.T.st.size() > 6 && g.chance(0.5)) o.maxd = 3;
        o.rounds.resize(min<size_t>(o.rounds.size(), 2));
        int budget = 14;
        for (auto& r : o.rounds) { r.threads = g.range(2, 4); r.trials = g.range(2, budget); budget = 8; }
        mt::what = g.below(16); mt::logk = g.pick(vector<int>{0, 1, 2, 2}); mt::maxlen = g.range(1, 6);
        sched::Config c = sc::gencfg(g, o);
        mt::O = &o;
        auto r = trace::run(&c, body, 60.0);
        trace::write(f, mt::hdr("race", o), r);
    }
    if (f != stdout) fclose(f);
    return 0;
}
