// C07: concurrent draws from ThreadSafePRNG, all interleavings; and likelihood
// fractions in a pass.
#include <random>
#include <thread>
#include "mc_stubs.hpp"
#include "real.hpp"
using namespace ldaplusplus;

template <typename G> static void draws(int seed, std::vector<int> per, bool copies) {
    typedef typename G::result_type R; int T = per.size(); int total = 0; for (int p : per) total += p;
    static long got[4][16]; math_utils::ThreadSafePRNG<G> g(seed); std::vector<std::thread> ts;
    std::vector<math_utils::ThreadSafePRNG<G> > cp; for (int t = 0; t < T; t++) cp.push_back(g);
    // thread 0 is the caller
    for (int t = 1; t < T; t++) ts.emplace_back([&, t] { auto &u = copies ? cp[t] : g; for (int i = 0; i < per[t]; i++) { R v = u(); mc::Quiet q; got[t][i] = (long)v; } });
    for (int i = 0; i < per[0]; i++) { R v = g(); mc::Quiet q; got[0][i] = (long)v; }
    for (auto &t : ts) t.join();
    mc::Quiet q; G ref(seed); std::vector<long> want; for (int i = 0; i < total; i++) want.push_back((long)ref());
    std::vector<int> owner(total, -1); uint64_t h = 3;
    for (int t = 0; t < T; t++) { int last = -1; for (int i = 0; i < per[t]; i++) {
        int at = -1; for (int k = 0; k < total; k++) if (want[k] == got[t][i] && owner[k] < 0) { at = k; break; }
        if (at < 0) mc::fail("draw", "thread %d draws %ld, which is not left in the generator's sequence", t, got[t][i]);
        owner[at] = t; if (at < last) mc::fail("order", "thread %d receives an earlier draw after a later one", t); last = at; } }
    for (int o : owner) h = seq::mix(h, o); mc::outcome(h);
    long nx = (long)g(); G r2(seed); long e = 0; for (int i = 0; i <= total; i++) e = (long)r2(); if (nx != e) mc::fail("position", "after %d draws the next is not draw %d", total, total + 1);
}
// one thread, very many draws through many copies
template <typename G> static void many(int seed, int n, int copies) {
    mc::Quiet q; typedef math_utils::ThreadSafePRNG<G> T; if (T::min() != G::min() || T::max() != G::max()) mc::fail("range", "the wrapper announces another range than the generator");
    T g(seed); std::vector<T> cp; for (int i = 0; i < copies; i++) cp.push_back(i % 3 ? cp.back() : g); T as(seed ^ 7); as = g; cp.push_back(as); G ref(seed);
    for (int i = 0; i < n; i++) { auto a = i % (copies + 2) == 0 ? g() : cp[i % cp.size()](); auto b = ref(); if (a != b) mc::fail("draw", "seed %d: draw %d is %ld, the generator's is %ld", seed, i, (long)a, (long)b); }
    G r3(seed); T g3(seed); std::uniform_real_distribution<double> d1, d2; for (int i = 0; i < 500; i++) if (d1(g3) != d2(r3)) mc::fail("distribution", "seed %d: number %d drawn through the wrapper differs", seed, i);
    // generators of equal and other seeds side by side, each with a stream of its own; one made after the others were used
    { T a(seed), b(seed), o(seed ^ 1); G ra(seed), rb(seed), ro(seed ^ 1); auto chk = [&](T &t, G &r, const char *w, int i) { auto u = t(), v = r(); if (u != v) mc::fail("side-by-side", "seed %d: draw %d of %s is %ld, its own sequence has %ld", seed, i, w, (long)u, (long)v); };
      for (int i = 0; i < 700; i++) { chk(a, ra, "the first generator", i); if (i % 2) chk(b, rb, "a second generator of that seed", i); if (i % 3 == 0) chk(o, ro, "a generator of another seed", i); }
      T d(seed); G rd(seed); for (int i = 0; i < 50; i++) { chk(d, rd, "a later generator of that seed", i); chk(a, ra, "the first generator", 700 + i); } }
    mc::outcome(seed * 31 + n + copies);
}
// every thread with a generator of its own, all of one seed
template <typename G> static void apart(int seed, int T, int n) {
    static long got[4][16]; std::vector<std::thread> ts; std::vector<math_utils::ThreadSafePRNG<G> > g; for (int t = 0; t < T; t++) g.emplace_back(seed);
    for (int t = 1; t < T; t++) ts.emplace_back([&, t] { for (int i = 0; i < n; i++) { long v = (long)g[t](); mc::Quiet q; got[t][i] = v; } });
    for (int i = 0; i < n; i++) { long v = (long)g[0](); mc::Quiet q; got[0][i] = v; }
    for (auto &t : ts) t.join();
    mc::Quiet q; for (int t = 0; t < T; t++) { G r(seed); for (int i = 0; i < n; i++) { long e = (long)r(); if (got[t][i] != e) mc::fail("apart", "draw %d of generator %d is %ld, its own sequence has %ld", i, t, got[t][i], e); } }
    mc::outcome(1);
}
int main(int argc, char **argv) {
    bool th = seq::thorough(argc, argv); std::vector<mc::Scenario> s;
    auto add = [&](std::string n, int pb, std::function<void()> b) { s.push_back({n + (pb < 0 ? "-all" : "-p" + std::to_string(pb)), b, pb, 0, true, true}); };
    for (int seed : {0, 1, 42}) for (int cp = 0; cp < 2; cp++) {
        std::string t = "-s" + std::to_string(seed) + (cp ? "-copies" : "-shared");
        add("minstd-2x2" + t, th ? -1 : 4, [=] { draws<std::minstd_rand0>(seed, {2, 2}, cp); });
        add("mt-2x2" + t, th ? -1 : 4, [=] { draws<std::mt19937>(seed, {2, 2}, cp); });
        add("minstd-3x2" + t, th ? 4 : 2, [=] { draws<std::minstd_rand0>(seed, {2, 2, 2}, cp); });
        if (th) add("minstd-4x4" + t, 1, [=] { draws<std::minstd_rand0>(seed, {4, 4, 4, 4}, cp); });
        add("minstd-1x4" + t, -1, [=] { draws<std::default_random_engine>(seed, {4}, cp); });
    }
    for (int seed : {0, 42}) { std::string t = "-s" + std::to_string(seed); add("apart-mt-2x2" + t, th ? -1 : 3, [=] { apart<std::mt19937>(seed, 2, 2); }); add("apart-minstd-3x1" + t, 2, [=] { apart<std::minstd_rand0>(seed, 3, 1); }); }
    for (int seed : {0, 1, 2, 7, 42, 255, 256, 65535, 65536, 123456789, 2147483647, -1, -2147483647 - 1}) for (int cp : {0, 1, 40}) {
        std::string t = "-s" + std::to_string(seed) + "-c" + std::to_string(cp);
        add("many-mt" + t, 0, [=] { many<std::mt19937>(seed, th ? 50000 : cp == 1 ? 40000 : 20000, cp); }); add("many-minstd" + t, 0, [=] { many<std::minstd_rand>(seed, 5000, cp); }); add("many-mt64" + t, 0, [=] { many<std::mt19937_64>(seed, 5000, cp); });
        add("many-default" + t, 0, [=] { many<std::default_random_engine>(seed, 5000, cp); });
    }
    // fractions: number of finite likelihoods in a pass with every expectation step
    for (int pair = 0; pair < real::NPAIR; pair++) for (double f : {0.0, 0.4, 1.0}) for (int W = 1; W <= 2; W++) for (int kind = 0; kind < 3; kind++) {
        // kind 1: documents of one word, kind 2: an empty document (where the bound is defined for it)
        if (kind == 2 && pair != real::P_UNSUP) continue;
        int N = 2; auto X = std::make_shared<Eigen::MatrixXi>(real::docs(N)); if (kind == 1) { X->setZero(); (*X)(1, 0) = 1; (*X)(2, 1) = 1; } if (kind == 2) X->col(1).setZero(); auto y = std::make_shared<Eigen::VectorXi>(real::labels(pair, N)); ref::Model m0 = real::model(pair);
        real::Opt o; o.likelihood = f; o.iters = 1; o.seed = 3; o.miters = 1; int want = 0;
        { real::Driver<double> d(pair, m0, o); int c = 0; d.e->get_event_dispatcher()->add_listener([&](std::shared_ptr<events::Event> ev) { c += !std::isnan(std::static_pointer_cast<events::ExpectationProgressEvent<double> >(ev)->likelihood()); });
          corpus::EigenClassificationCorpus cc(*X, *y); for (int i = 0; i < 2; i++) d.pass(cc); want = c; }
        char nm[80]; snprintf(nm, 80, "fraction-%s-%g-w%d-k%d", real::pair_name(pair), f, W, kind); std::string name = nm;
        add(name, W == 1 ? 1 : 1 + th, [=] {
            std::shared_ptr<parameters::SupervisedModelParameters<double> > p; { mc::Quiet q; p = ref::params<double>(m0); }
            LDA<double> lda(p, real::estep<double>(pair, o), real::mstep<double>(pair, o), W == 1 ? 2 : 1, W); int c = 0, n = 0;
            lda.get_event_dispatcher()->add_listener([&](std::shared_ptr<events::Event> ev) { mc::Quiet q; if (ev->id() != "ExpectationProgressEvent") return; n++; c += !std::isnan(std::static_pointer_cast<events::ExpectationProgressEvent<double> >(ev)->likelihood()); });
            lda.fit(*X, *y); mc::Quiet q;
            int docs = N * (W == 1 ? 2 : 1);
            if (f == 0 && c) mc::fail("fraction-0", "%s: %d likelihoods computed although none was asked for", name.c_str(), c);
            if (f == 1 && c != docs) mc::fail("fraction-1", "%s: %d likelihoods computed for %d documents", name.c_str(), c, docs);
            if (W == 1 && c != want) mc::fail("fraction-seed", "%s: %d likelihoods computed, the same seed gave %d", name.c_str(), c, want);
            mc::outcome(c);
        });
    }
    return mc::run(argc, argv, "C07", s);
}
