// C03: training with any number of workers (free-running threads) equals the
// sequential loop, for every pair, over larger corpora and several passes.
#include "real.hpp"
using namespace real;

template <typename S> static void run(int pair, int workers, int N, int passes, int K, int W, bool partial, seq::Ctx &x, int C = 3, double tol = 0) {
    Opt o; o.iters = 4; o.tol = tol; o.likelihood = 0.5; o.miters = 3; Model m0 = model(pair, K, W, C);
    auto X = real::docs(N, W); auto y = labels(pair, N, C);
    Driver<S> d(pair, m0, o); { corpus::EigenClassificationCorpus c(X, y); for (int i = 0; i < passes; i++) d.pass(c); }
    auto p = params<S>(m0); LDA<S> lda(p, estep<S>(pair, o), mstep<S>(pair, o), passes, workers);
    if (partial) { auto c = std::make_shared<corpus::EigenClassificationCorpus>(X, y); for (int i = 0; i < passes; i++) { lda.partial_fit(c); x.step(N); } }
    else { lda.fit(X, y); x.step(N * passes); }
    double dist = distance(*p, *d.p);
    if (!(dist < (sizeof(S) == 4 ? 5e-3 : 1e-6))) x.violate("model", "%s, %d workers, %d documents, %d passes, %d topics: model differs by %g from the sequential result", pair_name(pair), workers, N, passes, K, dist);
    x.state(mhash(*p) ^ workers);
}
int main(int argc, char **argv) {
    bool th = seq::thorough(argc, argv); std::vector<seq::Space> s;
    static const int WK[] = {1, 2, 3, 5, 8, 16}; static const int NS[] = {1, 2, 3, 7, 64, 200}; static const int KS[] = {1, 2, 5};
    int P = th ? 6 : 3;
    for (int p = 0; p < NPAIR; p++) {
        auto f = [=](uint64_t i, seq::Ctx &x) {
            seq::Radix r(i); int part = r(2), pa = 1 + r(P), K = KS[r(3)], N = NS[r(6)], w = WK[r(6)], fl = r(2);
            if (fl) run<float>(p, w, N, std::min(pa, 2), K, 9, part, x); else run<double>(p, w, N, pa, K, 9, part, x);
        };
        static const int XK[] = {3, 17, 40}, XW[] = {1, 6, 60}, XC[] = {1, 2, 9, 40}, XN[] = {65, 260, 1030};
        s.push_back({std::string("shapes-") + pair_name(p), 3 * 3 * 4 * 3 * 2, [=](uint64_t i, seq::Ctx &x) {
            seq::Radix r(i); int K = XK[r(3)], W = XW[r(3)], C = XC[r(4)], N = XN[r(3)], w = 2 + 5 * r(2); if (N > 100 && (K > 20 || C > 20)) N = 97;
            if (N > 300 && !(K == 3 && C == 2)) N = 129; run<double>(p, w, N, 2, K, W, i % 2, x, C, 0.05);
        }, nullptr, 120});
        s.push_back({pair_name(p), (uint64_t)2 * P * 3 * 6 * 6 * 2, f, nullptr, 60});
    }
    return seq::run(argc, argv, "C03", s);
}
