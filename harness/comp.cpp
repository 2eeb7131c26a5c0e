// Records the behaviour of the parts that need no threads: sampling, random streams, contexts, value types, temperature
// decay, observations.  One trace per generated case.
#include "vtrace.h"
#include <sys/wait.h>
#include <unistd.h>
#include "algorithms/common/decaying_temp.h"
#include "distributions/categorical_distribution.h"
#include "distributions/discrete_uniform_distribution.h"
#include "distributions/mixed_distribution.h"
#include "helper_templates.h"
#include "thts_env.h"
#include "thts_env_context.h"
#include "thts_manager.h"
#include "thts_types.h"
#include <climits>
#include <cmath>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <sstream>

using namespace std;
using namespace thts;
using trace::obj; using trace::arr; using trace::emit; using trace::Rng;

// ---- a random source whose draws are enumerated: every sequence of draws is one path of a tree
struct EnumRand : RandManager {
    vector<int> path, width; size_t pos = 0; double weight = 1.0; int G; vector<double> grid;
    EnumRand(int G) : RandManager(1), G(G) { for (int i = 0; i < G; i++) grid.push_back((i + 0.5) / G); }
    int next(int n) {
        if (n <= 0) throw logic_error("empty range");
        if (pos == path.size()) { path.push_back(0); width.push_back(n); }
        weight /= n;
        return path[pos++];
    }
    int get_rand_int(int a, int b) override { return a + next(b - a); }
    double get_rand_uniform() override { return grid[next(grid.size())]; }
    bool advance() {
        pos = 0; weight = 1.0;
        while (!path.empty()) { if (++path.back() < width.back()) return true; path.pop_back(); width.pop_back(); }
        return false;
    }
};
// runs draw() on every path; draw returns an index >= 0, -1 for an error, -2 for something foreign
struct Mass { map<int, double> m; long n = 0; };
static Mass enumerate(EnumRand& r, const function<int(RandManager&)>& draw, long cap = 400000) {
    Mass s;
    r.path.clear(); r.width.clear(); r.pos = 0; r.weight = 1.0;
    do {
        int k; try { k = draw(r); } catch (const exception&) { k = -1; }
        s.m[k] += r.weight; s.n++;
    } while (r.advance() && s.n < cap);
    return s;
}
static void put_mass(trace::J& j, int nkeys, const function<int(RandManager&)>& draw, int G) {
    EnumRand r(G); Mass m = enumerate(r, draw);
    auto a = arr(); for (int i = 0; i < nkeys; i++) a.ed(m.m.count(i) ? m.m[i] : 0.0);
    EnumRand e(1); e.grid = {0.0, 1.0 / 9007199254740992.0, 0.25, 0.5, 0.75, 1.0 - 1.0 / 9007199254740992.0};
    Mass em = enumerate(e, draw);
    auto ed = arr(); for (auto& x : em.m) ed.ei(x.first);
    j.raw("got", a.done()).d("err", m.m.count(-1) ? m.m[-1] : 0.0).d("other", m.m.count(-2) ? m.m[-2] : 0.0).raw("edge", ed.done()).i("g", G);
}

template <class T> struct Key;
template <> struct Key<int> { static int mk(int i) { return i * 7 - 3; } };
template <> struct Key<string> { static string mk(int i) { return i == 0 ? "" : "k" + to_string(i); } };
template <> struct Key<shared_ptr<const Action>> {
    static shared_ptr<const Action> mk(int i) { return i % 2 ? static_pointer_cast<const Action>(make_shared<const StringAction>("a" + to_string(i))) : static_pointer_cast<const Action>(make_shared<const IntAction>(i)); }
};
template <class T> int index_of(const T& k, int n) { for (int i = 0; i < n; i++) if (equal_to<T>()(k, Key<T>::mk(i))) return i; return -2; }
static const int NK = 12;

static double weight(Rng& g, int style) {
    switch (style) {
        case 0: return g.range(0, 4);
        case 1: return g.u() * 0.2;
        case 2: return g.pick(vector<double>{0, 0, 1});
        case 3: return g.pick(vector<double>{1e-9, 0.5, 3, 1e6});
        case 4: return 1.0;
        case 5: return g.u() * 5;
        case 6: return g.range(0, 4) * 1e-14;          // totals far from one must make no difference
        default: return g.range(0, 4) * 1e13;
    }
}
template <class T> unordered_map<T, double> wmap(Rng& g, int n, int style, bool norm, double skew) {
    vector<double> w(n); double z = 0;
    do { z = 0; for (double& x : w) { x = weight(g, style); z += x; } } while (z <= 0);
    if (norm) for (double& x : w) x = x / z * skew;
    unordered_map<T, double> m; for (int i = 0; i < n; i++) m.insert_or_assign(Key<T>::mk(i), w[i]);
    return m;
}
template <class T> string wjson(const unordered_map<T, double>& m) {   // [[index, weight], ...]
    auto a = arr(); for (auto& p : m) { auto q = arr(); q.ei(index_of(p.first, NK)).ed(p.second); a.eraw(q.done()); }
    return a.done();
}
template <class T> void sampling(Rng& g) {
    int what = g.below(6), n = g.pick(vector<int>{1, 2, 2, 3, 3, 4, 5, 7, 9}), style = g.below(8);
    if (what == 0) {                     // weighted map
        for (int k = 0; k < 3; k++) {
            bool norm = g.chance(0.5); double skew = norm && g.chance(0.25) ? g.pick(vector<double>{0.6, 1.3, 0.999}) : 1.0;
            auto m = wmap<T>(g, n, style, norm, skew);
            auto j = obj(); j.str("e", "WM").raw("w", wjson(m)).b("norm", norm).b("one", skew == 1.0);
            put_mass(j, NK, [&](RandManager& r) { return index_of(helper::sample_from_distribution(m, r, norm), NK); }, 720);
            emit(j);
        }
    } else if (what <= 2) {              // categorical, with a history of updates
        bool alias = what == 2 || g.chance(0.3); int freq = g.pick(vector<int>{1, 1, 2, 3, 5});
        auto m = make_shared<unordered_map<T, double>>(wmap<T>(g, n, style, false, 1));
        emit(obj().str("e", "CN").b("alias", alias).i("freq", freq).raw("w", wjson(*m)));
        CategoricalDistribution<T> d(m, alias, freq);
        auto samp = [&]() {
            auto j = obj(); j.str("e", "CS");
            put_mass(j, NK, [&](RandManager& r) { return index_of(d.sample(r), NK); }, alias ? 120 : 720);
            emit(j);
        };
        samp();
        int steps = g.range(1, 9), cn = n;
        vector<double> cw(NK, 0.0); auto note = [&](unordered_map<T, double>& x) { cw.assign(NK, 0.0); for (auto& p : x) cw[index_of(p.first, NK)] = p.second; };
        note(*m);
        for (int s = 0; s < steps; s++) {
            if (g.chance(0.18)) {
                cn = g.chance(0.5) ? cn : g.range(1, 8);
                auto m2 = make_shared<unordered_map<T, double>>(wmap<T>(g, cn, style, false, 1));
                emit(obj().str("e", "CR").raw("w", wjson(*m2)));
                d.update(m2); note(*m2);
            } else {
                int k = g.chance(0.3) ? min(cn, NK - 1) : g.below(cn); if (k == cn) cn++;
                double w = weight(g, style) + (style < 6 && g.chance(0.6) ? 0.25 : 0.0), rest = 0;
                for (int i = 0; i < NK; i++) if (i != k) rest += cw[i];
                if (rest + w <= 0) w = style == 6 ? 3e-14 : 0.5;
                cw[k] = w;
                emit(obj().str("e", "CU").i("k", k).d("w", w));
                d.update(Key<T>::mk(k), w);
            }
            if (g.chance(0.75)) samp();
        }
        samp();
    } else if (what == 3) {              // uniform
        auto v = make_shared<vector<T>>(); auto ks = arr();
        for (int i = 0; i < n; i++) { int k = g.chance(0.8) ? i : 0; v->push_back(Key<T>::mk(k)); ks.ei(k); }
        DiscreteUniformDistribution<T> d(v);
        auto j = obj(); j.str("e", "DU").raw("ks", ks.done());
        put_mass(j, NK, [&](RandManager& r) { return index_of(d.sample(r), NK); }, 2520);
        emit(j);
    } else if (what == 4) {              // mixture
        auto md = make_shared<MixedDistributionDistr<T>>(); auto cs = arr();
        int c = g.range(1, 3); double z = 0; vector<double> w(c); for (double& x : w) { x = g.range(1, 4); z += x; }
        for (int i = 0; i < c; i++) {
            w[i] /= z;
            if (g.chance(0.5)) {
                auto m = make_shared<unordered_map<T, double>>(wmap<T>(g, g.range(1, 5), style, false, 1)); bool al = g.chance(0.5);
                md->insert_or_assign(static_pointer_cast<Distribution<T>>(make_shared<CategoricalDistribution<T>>(m, al)), w[i]);
                cs.eraw(obj().d("w", w[i]).raw("m", wjson(*m)).done());
            } else {
                auto v = make_shared<vector<T>>(); auto m = arr(); int q = g.range(1, 4);
                for (int k = 0; k < q; k++) { v->push_back(Key<T>::mk(k + 2)); auto e = arr(); e.ei(k + 2).ed(1.0); m.eraw(e.done()); }
                md->insert_or_assign(static_pointer_cast<Distribution<T>>(make_shared<DiscreteUniformDistribution<T>>(v)), w[i]);
                cs.eraw(obj().d("w", w[i]).raw("m", m.done()).done());
            }
        }
        MixedDistribution<T> d(md);
        auto j = obj(); j.str("e", "MX").raw("cs", cs.done());
        put_mass(j, NK, [&](RandManager& r) { return index_of(d.sample(r), NK); }, 60);
        emit(j);
    } else {                             // maximal keys
        bool integral = g.chance(0.3);
        if (integral) {
            unordered_map<T, int> m; auto a = arr();
            for (int i = 0; i < n; i++) { int v = g.pick(vector<int>{-5, 0, 0, 3, 3, INT_MIN, INT_MAX}); m[Key<T>::mk(i)] = v; auto q = arr(); q.ei(i).ed(v); a.eraw(q.done()); }
            auto j = obj(); j.str("e", "MK").raw("w", a.done());
            put_mass(j, NK, [&](RandManager& r) { return index_of(helper::get_max_key_break_ties_randomly(m, r), NK); }, 2520);
            emit(j);
        } else {
            unordered_map<T, double> m; bool neg = g.chance(0.5);
            for (int i = 0; i < n; i++) m[Key<T>::mk(i)] = g.pick(vector<double>{0, 1.5, 1.5, 2.25, 1e300, 1e-300, 2.25 + 4e-16}) * (neg ? -1 : 1);
            auto j = obj(); j.str("e", "MK").raw("w", wjson(m));
            put_mass(j, NK, [&](RandManager& r) { return index_of(helper::get_max_key_break_ties_randomly(m, r), NK); }, 2520);
            emit(j);
        }
    }
}

// ---- random streams
struct DummyEnv : ThtsEnv {
    DummyEnv(bool fo = true) : ThtsEnv(fo) {}
    static shared_ptr<const State> st(int i) { return static_pointer_cast<const State>(make_shared<const IntState>(i)); }
    shared_ptr<const State> get_initial_state_itfc() const override { return st(0); }
    bool is_sink_state_itfc(shared_ptr<const State>) const override { return true; }
    shared_ptr<ActionVector> get_valid_actions_itfc(shared_ptr<const State>) const override { return make_shared<ActionVector>(); }
    shared_ptr<StateDistr> get_transition_distribution_itfc(shared_ptr<const State>, shared_ptr<const Action>) const override { return make_shared<StateDistr>(); }
    shared_ptr<const State> sample_transition_distribution_itfc(shared_ptr<const State> s, shared_ptr<const Action>, RandManager&) const override { return s; }
    double get_reward_itfc(shared_ptr<const State>, shared_ptr<const Action>, shared_ptr<const Observation>) const override { return 0; }
};
static shared_ptr<RandManager> mkrand(int how, int seed) {
    if (how == 0) return make_shared<RandManager>(seed);
    ThtsManagerArgs a(make_shared<DummyEnv>()); a.seed = seed;
    return make_shared<ThtsManager>(a);
}
static void streams(Rng& g) {
    int how = g.below(2), seed = g.pick(vector<int>{1, 2, 60415, -1, INT_MAX, INT_MIN, g.range(1, 1000000), g.range(1, 1000000)});
    auto a = mkrand(how, seed), b = mkrand(g.below(2), seed);
    emit(obj().str("e", "RN").i("seed", seed == INT_MIN ? -INT_MAX : seed));
    auto range = [&](int& lo, int& hi) {
        switch (g.below(7)) {
            case 0: lo = 0; hi = 1; break; case 1: lo = 0; hi = g.range(2, 12); break; case 2: lo = -g.range(1, 50); hi = lo + g.range(1, 100); break;
            case 3: lo = 0; hi = INT_MAX; break; case 4: lo = INT_MIN; hi = INT_MIN + g.range(1, 1000); break; case 5: lo = INT_MAX - 9; hi = INT_MAX; break;
            default: lo = g.range(-1000000, 0); hi = lo + 1 + g.below(1500000000); }
    };
    int n = g.range(20, 60);
    for (int i = 0; i < n; i++) {
        if (g.chance(0.5)) { int lo, hi; range(lo, hi); int x = a->get_rand_int(lo, hi), y = b->get_rand_int(lo, hi);
            emit(obj().str("e", "RI").b("in", x >= lo && x < hi).b("eq", x == y).i("x", x == INT_MIN ? -INT_MAX : x)); }
        else { double x = a->get_rand_uniform(), y = b->get_rand_uniform(); emit(obj().str("e", "RU").d("x", x).d("y", y)); }
    }
    {   // spread
        int lo, hi; do range(lo, hi); while ((long long) hi - lo < 8);
        const int N = 1600; set<double> us; bool coarse = true; vector<int> bi(8), bu(8); double len = (double) hi - lo; bool in = true; set<int> seen;
        for (int i = 0; i < N; i++) {
            int x = a->get_rand_int(lo, hi); if (x < lo || x >= hi) { in = false; continue; }
            seen.insert(x);
            bi[min(7, (int) (((double) x - lo) / len * 8))]++;
            double u = a->get_rand_uniform(); if (!(u >= 0 && u < 1)) { in = false; continue; }
            bu[min(7, (int) (u * 8))]++; us.insert(u); if ((double) (float) u != u) coarse = false;
        }
        auto ji = arr(), ju = arr(), je = arr(); for (int x : bi) ji.ei(x); for (int x : bu) ju.ei(x);
        for (int k = 0; k < 8; k++) {       // share of the range in each bucket
            long long c = 0; long long L = (long long) hi - lo;
            if (L < 100000) { for (long long v = 0; v < L; v++) if (min(7, (int) ((double) v / len * 8)) == k) c++; je.ed((double) c / L); } else je.ed(0.125);
        }
        emit(obj().str("e", "RS").b("in", in).i("n", N).raw("bi", ji.done()).raw("bu", ju.done()).raw("sh", je.done()).b("coarse", coarse || (int) us.size() < N - 3).b("all", hi - lo > 12 || (int) seen.size() == hi - lo));
    }
    if (g.chance(0.3)) {                    // ... and in two processes
        double d[2][8] = {}; int fd[2]; bool ok = true;
        for (int c = 0; c < 2; c++) {
            if (pipe(fd)) { ok = false; break; }
            pid_t pid = fork();
            if (pid == 0) { auto r = mkrand(how, 0); double o[8]; for (int i = 0; i < 8; i++) o[i] = i % 2 ? r->get_rand_uniform() : r->get_rand_int(0, 1000000); (void) !write(fd[1], o, sizeof o); _exit(0); }
            close(fd[1]); ok = pid > 0 && read(fd[0], d[c], sizeof d[c]) == (ssize_t) sizeof d[c]; close(fd[0]); if (pid > 0) waitpid(pid, nullptr, 0);
            if (!ok) break;
        }
        if (ok) {
            auto jx = arr(), jy = arr(), ux = arr(), uy = arr();
            for (int i = 0; i < 8; i++) { (i % 2 ? ux : jx).ed(d[0][i]); (i % 2 ? uy : jy).ed(d[1][i]); }
            emit(obj().str("e", "RZ").raw("x", jx.done()).raw("y", jy.done()).raw("u", ux.done()).raw("v", uy.done()));
        }
    }
    if (g.chance(0.3)) {
        auto x = mkrand(how, 0), y = mkrand(how, 0); auto jx = arr(), jy = arr(), ux = arr(), uy = arr();
        for (int i = 0; i < 12; i++) { jx.ei(x->get_rand_int(0, 1000000)); jy.ei(y->get_rand_int(0, 1000000)); ux.ed(x->get_rand_uniform()); uy.ed(y->get_rand_uniform()); }
        emit(obj().str("e", "RZ").raw("x", jx.done()).raw("y", jy.done()).raw("u", ux.done()).raw("v", uy.done()));
    }
}

// ---- contexts
struct Val { int id; int pay; Val(int id) : id(id), pay(id * 3) { live().insert(id); } ~Val() { live().erase(id); pay = -1; } static set<int>& live() { static set<int> s; return s; } };
struct Ctxs {
    vector<shared_ptr<ThtsEnvContext>> c; int next = 1; map<const void*, int> addr; vector<shared_ptr<Val>> kept;
    int id_of(const void* p) { auto it = addr.find(p); return it == addr.end() ? -2 : it->second; }
    static string key(int k) { static const vector<string> ks = {"a", "b", "", "ab", string(300, 'x'), string(300, 'x') + "y"}; return ks[k]; }
    void op(int ci, int kind, int k, int form, bool keep) {
        ThtsEnvContext& x = *c[ci]; string ks = key(k);
        auto j = obj(); bool cst = kind >= 3; int base = kind % 3;
        j.str("e", base == 0 ? "XP" : base == 1 ? "XG" : "XE").i("c", ci).i("k", k).b("cst", cst);
        if (base == 0) {
            int id = next++; auto v = make_shared<Val>(id); addr[v.get()] = id; if (keep) kept.push_back(v);
            if (!cst) { if (form) x.put_value_raw(ks, static_pointer_cast<void>(v)); else x.put_value<Val>(ks, v); }
            else { if (form) x.put_value_raw_const(ks, static_pointer_cast<const void>(v)); else x.put_value_const<Val>(ks, static_pointer_cast<const Val>(v)); }
            j.i("v", id);
        } else if (base == 1) {
            int got = -1; bool ok = true;
            try {
                if (!cst) {
                    if (form == 0) { Val& r = x.get_value<Val>(ks); got = id_of(&r); ok = r.id == got && r.pay == got * 3 && Val::live().count(got); }
                    else if (form == 1) { auto r = x.get_value_ptr<Val>(ks); got = id_of(r.get()); ok = r && r->id == got && Val::live().count(got); }
                    else { auto r = x.get_value_raw(ks); got = id_of(r.get()); ok = Val::live().count(got); }
                } else {
                    if (form == 0) { const Val& r = x.get_value_const<Val>(ks); got = id_of(&r); ok = r.id == got && r.pay == got * 3 && Val::live().count(got); }
                    else if (form == 1) { auto r = x.get_value_ptr_const<Val>(ks); got = id_of(r.get()); ok = r && r->id == got && Val::live().count(got); }
                    else { auto r = x.get_value_raw_const(ks); got = id_of(r.get()); ok = Val::live().count(got); }
                }
            } catch (const exception&) { got = -1; }
            j.i("v", got).b("ok", ok);
        } else { if (cst) x.erase_const(ks); else x.erase(ks); }
        emit(j);
    }
};
static void contexts(Rng& g) {
    Ctxs x; int n = g.range(1, 3), nk = g.range(1, 6);
    DummyEnv env;
    for (int i = 0; i < n; i++) x.c.push_back(g.chance(0.5) ? make_shared<ThtsEnvContext>() : env.sample_context_itfc(DummyEnv::st(0)));
    int len = g.range(5, 60);
    for (int i = 0; i < len; i++) x.op(g.below(n), g.pick(vector<int>{0, 0, 1, 1, 1, 2, 3, 3, 4, 4, 4, 5}), g.below(nk), g.below(3) % 3, g.chance(0.3));
    for (int c = 0; c < n; c++) for (int k = 0; k < nk; k++) for (int f = 0; f < 3; f++) { x.op(c, 1, k, f, false); x.op(c, 4, k, f, false); }
}
static void contexts_all(int depth, long from, long count) {   // every sequence of `depth` operations over two keys, then everything is read
    const int A = 12; long total = 1; for (int i = 0; i < depth; i++) total *= A;
    for (long q = from; q < min(total, from + count); q++) {
        Ctxs x; x.c.push_back(make_shared<ThtsEnvContext>()); emit(obj().str("e", "X0"));
        long r = q; for (int i = 0; i < depth; i++) { int o = r % A; r /= A; x.op(0, o / 2, o % 2, (q + i) % 3, false); }
        for (int k = 0; k < 2; k++) { x.op(0, 1, k, q % 3, false); x.op(0, 4, k, q % 3, false); }
    }
}

// ---- value types
struct V { int ty; vector<int> c; string s; };   // 0 IntState 1 IntPairState 2 Int3TupleState 3 IntAction 4 StringAction
static string vjson(const V& v) { auto j = obj(); auto a = arr(); for (int x : v.c) a.estr(to_string(x)); if (v.ty == 4) a.estr(v.s); return j.i("ty", v.ty).raw("c", a.done()).done(); }
static shared_ptr<const State> mks(const V& v) {
    if (v.ty == 0) return static_pointer_cast<const State>(make_shared<const IntState>(v.c[0]));
    if (v.ty == 1) return static_pointer_cast<const State>(make_shared<const IntPairState>(v.c[0], v.c[1]));
    return static_pointer_cast<const State>(make_shared<const Int3TupleState>(v.c[0], v.c[1], v.c[2]));
}
static shared_ptr<const Action> mka(const V& v) {
    if (v.ty == 3) return static_pointer_cast<const Action>(make_shared<const IntAction>(v.c[0]));
    return static_pointer_cast<const Action>(make_shared<const StringAction>(v.s));
}
static V gv(Rng& g, bool act) {
    static const vector<int> xs = {0, 1, -1, 2, 3, 10, 12, 21, -12, 1000, 7, INT_MAX, INT_MIN, INT_MIN + 1, 65536, 32768, 256};
    static const vector<string> ss = {"", "a", "b", "ab", "ba", "1", "-1", " ", "a ", string("a\tb"), "A", "aa", "\"q\""};
    V v; v.ty = act ? 3 + g.below(2) : g.below(3);
    bool small = g.chance(0.5);
    int n = v.ty == 1 ? 2 : v.ty == 2 ? 3 : v.ty == 4 ? 0 : 1;
    for (int i = 0; i < n; i++) v.c.push_back(small ? g.range(-1, 1) : g.chance(0.3) ? (int) ((unsigned) g.next() >> g.below(32)) : g.pick(xs));
    if (v.ty == 4) v.s = g.pick(ss);
    return v;
}
// a value close to another: one bit, one sign, two components, one character apart
static V near(Rng& g, const V& v) {
    V w = v;
    if (v.ty == 4) {
        int k = g.below(5); static const string tail = "abcdefghijklmnopqrstuvwxyz012345";
        if (k == 0) w.s += g.pick(vector<string>{"a", " ", tail, "\n"}); else if (k == 1 && !w.s.empty()) w.s.pop_back(); else if (k == 2) w.s = tail + w.s;
        else if (k == 3 && !w.s.empty()) { char& c = w.s[g.below(w.s.size())]; if (isalpha(c)) c ^= 32; } else reverse(w.s.begin(), w.s.end());
        return w;
    }
    int i = g.below(w.c.size()), k = g.below(6), j = g.below(w.c.size());
    if (k == 0) w.c[i] = w.c[i] == INT_MIN ? INT_MAX : -w.c[i]; else if (k == 1) w.c[i] = (int) ((unsigned) w.c[i] ^ (1u << g.below(32)));
    else if (k == 2) swap(w.c[i], w.c[j]); else if (k == 3) rotate(w.c.begin(), w.c.begin() + i, w.c.end()); else if (k == 4) w.c[i] = w.c[j];
    else { int d = g.pick(vector<int>{1, 31, 37, 10, 100, 1000}); w.c[i] = (int) ((unsigned) w.c[i] + d); w.c[j] = (int) ((unsigned) w.c[j] - (i == j ? 0 : g.pick(vector<int>{1, d}))); }
    return w;
}
template <class X> string show(const X& x) { stringstream s; s << x; return s.str(); }
static string blist(const vector<bool>& v) { string s = "["; for (size_t i = 0; i < v.size(); i++) { if (i) s += ","; s += v[i] ? "true" : "false"; } return s + "]"; }
static string slist(const vector<string>& v) { auto a = arr(); for (auto& s : v) a.estr(s); return a.done(); }
template <class D> void typed(const V& v, vector<string>& out, shared_ptr<const D> p) { out.push_back(show(*p)); out.push_back(show(p)); }
static vector<string> prints(const V& v) {
    vector<string> r;
    if (v.ty < 3) {
        auto s = mks(v); auto o = static_pointer_cast<const Observation>(s);
        r = {s->get_pretty_print_string(), o->get_pretty_print_string(), show(*s), show(s), show(*o), show(o)};
        if (v.ty == 0) typed(v, r, static_pointer_cast<const IntState>(s)); else if (v.ty == 1) typed(v, r, static_pointer_cast<const IntPairState>(s)); else typed(v, r, static_pointer_cast<const Int3TupleState>(s));
    } else {
        auto a = mka(v); r = {a->get_pretty_print_string(), show(*a), show(a)};
        if (v.ty == 3) typed(v, r, static_pointer_cast<const IntAction>(a)); else typed(v, r, static_pointer_cast<const StringAction>(a));
    }
    return r;
}
// a value of the same type whose hash is the same (for combined hashes of the usual form), if there is one
static size_t mix(size_t h, int v) { return h ^ ((size_t) std::hash<int>()(v) + 0x9e3779b9 + (h << 6) + (h >> 2)); }
static bool solve(size_t h, size_t want, int& v) {      // mix(h, v) == want
    long long x = (long long) ((want ^ h) - 0x9e3779b9 - (h << 6) - (h >> 2)); v = (int) x; return x >= INT_MIN && x <= INT_MAX && mix(h, v) == want;
}
static bool collide(Rng& g, const V& v, V& w) {
    w = v;
    if (v.ty == 0) { int d = g.below(2); int x; if (!solve(mix(0, 1 - d), mix(mix(0, d), v.c[0]), x)) return false; w.c[0] = x; return true; }   // as table keys of timesteps 0 and 1
    if (v.ty != 1 && v.ty != 2) return false;
    size_t h = 0; for (int x : v.c) h = mix(h, x);
    int at = v.ty == 2 && g.chance(0.5) ? 1 : 0, step = g.pick(vector<int>{1, -1, 2, 3, 64});
    if (v.c[at] > INT_MAX - 64 || v.c[at] < INT_MIN + 64) return false;
    w.c[at] += step; size_t q = 0; for (size_t i = 0; i + 1 < w.c.size(); i++) q = mix(q, w.c[i]);
    int x; if (!solve(q, h, x)) return false; w.c.back() = x; return true;
}
static void values(Rng& g) {
    bool act = g.chance(0.4); int n = g.range(3, 7); vector<V> vs; for (int i = 0; i < n; i++) vs.push_back(i && g.chance(0.25) ? vs[g.below(i)] : gv(g, act));
    for (int i = g.below(4); i > 0; i--) { vs.push_back(near(g, vs[g.below(n)])); n++; }
    for (int i = 0; i < 2 && !act; i++) { V w; if (g.chance(0.6) && collide(g, vs[g.below(n)], w)) { vs.push_back(w); n++; } }
    for (int i = 0; i < n; i++) for (int k = 0; k < n; k++) {
        vector<bool> eq, he;
        if (act) {
            auto a = mka(vs[i]), b = mka(vs[k]);
            eq = {a->equals_itfc(*b), *a == *b, a == b, equal_to<Action>()(*a, *b), equal_to<shared_ptr<const Action>>()(a, b)};
            he = {a->hash() == b->hash(), hash<Action>()(*a) == hash<Action>()(*b), hash<shared_ptr<const Action>>()(a) == hash<shared_ptr<const Action>>()(b)};
            if (vs[i].ty == vs[k].ty) { if (vs[i].ty == 3) eq.push_back(((const IntAction&) *a).equals((const IntAction&) *b)); else eq.push_back(((const StringAction&) *a).equals((const StringAction&) *b)); }
        } else {
            auto a = mks(vs[i]), b = mks(vs[k]); auto x = static_pointer_cast<const Observation>(a), y = static_pointer_cast<const Observation>(b);
            int d1 = g.below(2), d2 = g.below(2); DNodeIdTuple t1(d1, x), t2(d2, y), t3(d1, y);
            eq = {a->equals_itfc(*b), *a == *b, a == b, equal_to<State>()(*a, *b), equal_to<shared_ptr<const State>>()(a, b),
                  x->equals_itfc(*y), *x == *y, x == y, equal_to<Observation>()(*x, *y), equal_to<shared_ptr<const Observation>>()(x, y), x->equals_itfc(*b), equal_to<DNodeIdTuple>()(t1, t3)};
            he = {a->hash() == b->hash(), hash<State>()(*a) == hash<State>()(*b), hash<shared_ptr<const State>>()(a) == hash<shared_ptr<const State>>()(b),
                  hash<Observation>()(*x) == hash<Observation>()(*y), hash<shared_ptr<const Observation>>()(x) == hash<shared_ptr<const Observation>>()(y), hash<DNodeIdTuple>()(t1) == hash<DNodeIdTuple>()(t3)};
            if (vs[i].ty == vs[k].ty) eq.push_back(vs[i].ty == 0 ? ((const IntState&) *a).equals((const IntState&) *b) : vs[i].ty == 1 ? ((const IntPairState&) *a).equals((const IntPairState&) *b) : ((const Int3TupleState&) *a).equals((const Int3TupleState&) *b));
            emit(obj().str("e", "VD").i("d1", d1).i("d2", d2).raw("a", vjson(vs[i])).raw("b", vjson(vs[k])).b("eq", equal_to<DNodeIdTuple>()(t1, t2)).b("he", hash<DNodeIdTuple>()(t1) == hash<DNodeIdTuple>()(t2)));
        }
        emit(obj().str("e", "VE").raw("a", vjson(vs[i])).raw("b", vjson(vs[k])).raw("eq", blist(eq)).raw("he", blist(he)).raw("pa", slist(prints(vs[i]))).raw("pb", slist(prints(vs[k]))));
    }
    // maps: entries are found through any equal key
    auto lookups = [&](auto tag, const function<decltype(tag)(const V&)>& mk) {
        unordered_map<decltype(tag), int> m; auto ins = arr();
        for (int i = 0; i < n; i++) if (g.chance(0.7)) { m.insert_or_assign(mk(vs[i]), i); ins.eraw(obj().raw("k", vjson(vs[i])).i("v", i).done()); }
        auto look = arr();
        for (int i = 0; i < n; i++) { auto it = m.find(mk(vs[i])); look.eraw(obj().raw("k", vjson(vs[i])).i("v", it == m.end() ? -1 : it->second).done()); }
        emit(obj().str("e", "VL").raw("ins", ins.done()).raw("look", look.done()).i("size", m.size()));
    };
    if (act) lookups(shared_ptr<const Action>(), mka);
    else {
        lookups(shared_ptr<const State>(), mks);
        lookups(shared_ptr<const Observation>(), [](const V& v) { return static_pointer_cast<const Observation>(mks(v)); });
        lookups(DNodeIdTuple(), [](const V& v) { return DNodeIdTuple(3, static_pointer_cast<const Observation>(mks(v))); });
    }
}

// ---- collections of values, printed
static void collections(Rng& g) {
    auto vec = [&](const auto& v) { vector<string> el; for (auto& x : v) el.push_back(show(x)); emit(obj().str("e", "VP").str("open", "[").str("close", "]").raw("el", slist(el)).str("s", show(v))); };
    auto mp = [&](const auto& m) { vector<string> el; for (auto& x : m) el.push_back(show(x.first) + ":" + show(x.second)); emit(obj().str("e", "VP").str("open", "{").str("close", "}").raw("el", slist(el)).str("s", show(m))); };
    auto w = [&] { return g.pick(vector<double>{0.0, 0.5, 0.25, 1.0, 3.0, 1e-7, 12345.5}); };
    int n = g.range(0, 4);
    { ActionVector v; for (int i = 0; i < n; i++) v.push_back(mka(gv(g, true))); vec(v); }
    { StringActionVector v; for (int i = 0; i < n; i++) { V x = gv(g, true); x.ty = 4; x.s = "s" + to_string(g.below(3)); v.push_back(make_shared<const StringAction>(x.s)); } vec(v); }
    { StateDistr m; for (int i = 0; i < n; i++) m[mks(gv(g, false))] = w(); mp(m); }
    { ObservationDistr m; for (int i = 0; i < n; i++) m[static_pointer_cast<const Observation>(mks(gv(g, false)))] = w(); mp(m); }
    { IntPairStateDistr m; for (int i = 0; i < n; i++) m[make_shared<const IntPairState>(g.range(-2, 2), g.range(-2, 2))] = w(); mp(m); }
    { Int3TupleStateDistr m; for (int i = 0; i < n; i++) m[make_shared<const Int3TupleState>(g.range(-2, 2), g.range(-2, 2), i)] = w(); mp(m); }
}

// ---- temperature decay
static void decays(Rng& g) {
    TempDecayFnPtr fs[3] = {decayed_temp_inv_sqrt, decayed_temp_inv_log, decayed_temp_sigmoid};
    for (int k = 0; k < 3; k++) {
        vector<double> xs = {0}; int n = g.range(4, 12); for (int i = 0; i < n; i++) xs.push_back(g.pick(vector<double>{g.u(), g.u() * 10, g.u() * 1000, g.u() * 1e6, 5.0, 1e9, 1e-9, 700}));
        sort(xs.begin(), xs.end());
        auto a = arr(), b = arr(); for (double x : xs) { a.ed(x); b.ed(fs[k](x)); }
        emit(obj().str("e", "TF").i("f", k + 1).raw("x", a.done()).raw("y", b.done()));
        for (int i = 0; i < 8; i++) {
            double init = g.pick(vector<double>{1, 0.1, 5, 100, 1e-3, 0}), mn = g.pick(vector<double>{1e-6, 0.05, 0.5, 0, 2}), sc = g.pick(vector<double>{1, 0.1, 3, 0, 1e-3});
            int v = g.pick(vector<int>{0, 1, 2, 3, 10, 100, 12345, INT_MAX, g.below(1000)});
            emit(obj().str("e", "TD").i("f", k + 1).d("init", init).d("min", mn).i("v", v).d("sc", sc).d("y", compute_decayed_temp(fs[k], init, mn, v, sc)));
        }
    }
}

// ---- observations
struct OEnv : DummyEnv {
    int own; vector<pair<int, double>> model;
    OEnv(bool fo, int own) : DummyEnv(fo), own(own) {}
    bool same = false;                                    // is "the next state itself" the very object, or an equal one
    shared_ptr<const Observation> at(shared_ptr<const Action> a, shared_ptr<const State> ns, int c) const {
        int s = static_cast<const IntState&>(*ns).state, i = static_cast<const IntAction&>(*a).action;
        if (c == 50 && same) return static_pointer_cast<const Observation>(ns);
        return static_pointer_cast<const Observation>(DummyEnv::st(c == 50 ? s : 100 + i * 1000 + s * 10 + c));
    }
    shared_ptr<ObservationDistr> mk(shared_ptr<const Action> a, shared_ptr<const State> ns) const {
        auto d = make_shared<ObservationDistr>();
        for (auto& p : model) d->insert_or_assign(at(a, ns, p.first), p.second);
        return d;
    }
};
struct OEnv1 : OEnv { using OEnv::OEnv;
    shared_ptr<ObservationDistr> get_observation_distribution_itfc(shared_ptr<const Action> a, shared_ptr<const State> ns) const override { return mk(a, ns); } };
struct OEnv2 : OEnv1 { using OEnv1::OEnv1;
    shared_ptr<const Observation> sample_observation_distribution_itfc(shared_ptr<const Action> a, shared_ptr<const State> ns, RandManager& r) const override {
        double u = r.get_rand_uniform(), c = 0; int last = 0;
        for (auto& p : model) { last = p.first; c += p.second; if (u < c) break; }
        return at(a, ns, last);
    } };
static void observations(Rng& g) {
    bool fo = g.chance(0.4); int own = fo ? 0 : g.below(3);
    shared_ptr<OEnv> e = own == 0 ? make_shared<OEnv>(fo, own) : own == 1 ? static_pointer_cast<OEnv>(make_shared<OEnv1>(fo, own)) : static_pointer_cast<OEnv>(make_shared<OEnv2>(fo, own));
    int n = g.range(1, 4), self = g.chance(0.5) ? g.below(n) : -1; e->same = g.chance(0.5);
    double z = 0; for (int i = 0; i < n; i++) { e->model.push_back({i == self ? 50 : i, (double) g.range(1, 5)}); z += e->model.back().second; }
    for (auto& p : e->model) p.second /= z;
    auto mj = arr(); for (auto& p : e->model) { auto q = arr(); q.ei(p.first).ed(p.second); mj.eraw(q.done()); }
    ThtsEnv& env = *e;
    emit(obj().str("e", "ON").b("fo", fo).i("own", own).raw("model", mj.done()).b("says", env.is_fully_observable()));
    for (int k = 0; k < 4; k++) {
        int s = g.range(0, 5); bool pair = g.chance(0.4) && own == 0;
        shared_ptr<const State> ns = pair ? static_pointer_cast<const State>(make_shared<const IntPairState>(s, -s)) : DummyEnv::st(s);
        int ai = g.below(3); shared_ptr<const Action> a = static_pointer_cast<const Action>(make_shared<const IntAction>(ai));
        auto code = [&](const shared_ptr<const Observation>& o) -> int {     // index into the model, 50 for the next state itself, -2 otherwise
            if (!o) return -2;
            if (o->equals_itfc(*ns)) return 50;
            if (auto* i = dynamic_cast<const IntState*>(o.get())) { int x = i->state - 100 - ai * 1000 - s * 10; if (x >= 0 && x < 10) return x; }
            return -2;
        };
        auto j = obj(); j.str("e", "OD"); auto d = arr(); bool ok = true;
        try { auto q = env.get_observation_distribution_itfc(a, ns); if (!q) throw runtime_error("null"); for (auto& p : *q) { auto x = arr(); x.ei(code(p.first)).ed(p.second); d.eraw(x.done()); } } catch (const exception&) { ok = false; }
        emit(j.b("ok", ok).raw("d", d.done()));
        EnumRand r(240); Mass m = enumerate(r, [&](RandManager& rr) { return code(env.sample_observation_distribution_itfc(a, ns, rr)); });
        auto ks = arr(); for (auto& p : m.m) { auto x = arr(); x.ei(p.first).ed(p.second); ks.eraw(x.done()); }
        emit(obj().str("e", "OS").raw("d", ks.done()));
    }
}

int main(int argc, char** argv) {
    string kind = "ctx", out = "-"; uint64_t seed = 1; long from = 0, count = 10; int depth = 3;
    for (int i = 1; i + 1 < argc; i += 2) {
        string a = argv[i], v = argv[i + 1];
        if (a == "--kind") kind = v; else if (a == "--out") out = v; else if (a == "--seed") seed = stoull(v);
        else if (a == "--from") from = stol(v); else if (a == "--count") count = stol(v); else if (a == "--depth") depth = stoi(v);
    }
    FILE* f = out == "-" ? stdout : fopen(out.c_str(), "w");
    auto one = [&](long i, const function<void(Rng&)>& body) {
        auto r = trace::run(nullptr, [&]() { Rng g(seed * 1000003ULL + i * 16 + kind.size()); body(g); });
        trace::write(f, obj().str("kind", kind).i("case", i).i("seed", seed).done(), r);
    };
    if (kind == "ctxall") { for (long a = from; a < from + count; a += 200) one(a, [&](Rng&) { contexts_all(depth, a, min(200L, from + count - a)); }); }
    else for (long i = from; i < from + count; i++) {
        if (kind == "sample") one(i, [](Rng& g) { switch (g.below(3)) { case 0: sampling<int>(g); break; case 1: sampling<string>(g); break; default: sampling<shared_ptr<const Action>>(g); } });
        else if (kind == "rng") one(i, streams); else if (kind == "ctx") one(i, contexts); else if (kind == "types") one(i, [](Rng& g) { values(g); collections(g); });
        else if (kind == "decay") one(i, decays); else if (kind == "obs") one(i, observations);
        else return 2;
    }
    if (f != stdout) fclose(f);
    return 0;
}
