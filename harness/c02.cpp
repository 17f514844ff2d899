// C02: every small batch, permutation, worker count and call history; each
// column of transform equals inference of that document alone.
#include "real.hpp"
using namespace real;

// document alphabet over 3 words
static const std::vector<D> &alpha_docs() { static std::vector<D> a = {{1, 0, 2}, {0, 3, 1}, {0, 0, 0}, {7, 1, 40}, {1, 1, 1}, {0, 5, 0}, {300, 2, 1}}; return a; }
static Eigen::MatrixXi mat(const std::vector<D> &d, int W) { Eigen::MatrixXi X(W, d.size()); for (size_t j = 0; j < d.size(); j++) for (int i = 0; i < W; i++) X(i, j) = d[j][i]; return X; }

template <typename S> static Model cur(const parameters::SupervisedModelParameters<S> &p) { Model m; m.alpha = tov(p.alpha); m.beta = tom(p.beta); m.eta = tom(p.eta); return m; }

template <typename S> static bool check(LDA<S> &lda, const std::shared_ptr<parameters::SupervisedModelParameters<S> > &p, const std::vector<D> &docs, const Opt &o, seq::Ctx &x, const char *when) {
    int W = p->beta.cols(), K = p->beta.rows(); Eigen::MatrixXi X = mat(docs, W), X0 = X; Model m = cur(*p);
    auto g = lda.transform(X); x.step();
    if (X != X0) { x.violate("input", "%s: transform changed its input", when); return false; }
    Model a = cur(*p);
    if (a.alpha != m.alpha || a.beta != m.beta || a.eta != m.eta) { x.violate("model-touched", "%s: transform changed the model", when); return false; }
    if (g.rows() != K || g.cols() != (long)docs.size()) { x.violate("shape", "%s: %zu documents, %d topics, result %ldx%ld", when, docs.size(), K, (long)g.rows(), (long)g.cols()); return false; }
    Cfg c; c.alg = UNSUP; c.iters = o.iters; c.tol = o.tol; uint64_t h = 1;
    for (size_t j = 0; j < docs.size(); j++) {
        // the step's own result for that document alone, on a fresh object
        Cfg r = c; r.tol = o.tol; auto e = make_e<S>(r); OneDoc one({docs[j]}, {0});
        auto v = get_vp<S>(e->doc_e_step(one.at(0), p)).gamma; double eps = sizeof(S) == 4 ? 1e-4 : 1e-9;
        for (int k = 0; k < K; k++) { if (!seq::close(g(k, j), v[k], eps, eps)) { x.violate("column", "%s: column %zu topic %d is %.12g, inference of that document alone gives %.12g", when, j, k, (double)g(k, j), v[k]); return false; } h = seq::mix(h, std::llround(v[k] * 1e5)); }
        if (sizeof(S) == 8) { // and the documented updates
            bool ok = false; for (auto &w : infer(c, docs[j], 0, m)) { bool q = true; for (int k = 0; k < K; k++) q = q && seq::close(g(k, j), w.gamma[k], o.iters == 0 ? 1e-12 : 1e-9, 1e-10); ok = ok || q; }
            if (!ok) { x.violate("inference", "%s: column %zu is not the documented inference of its document", when, j); return false; }
        }
    }
    x.state(h); return true;
}

template <typename S> static void one(const std::vector<std::vector<int> > &hist, int workers, const Opt &o, int K, seq::Ctx &x) {
    Model m0 = model(P_UNSUP, K, 3); auto p = params<S>(m0);
    LDA<S> lda(p, estep<S>(P_UNSUP, o), mstep<S>(P_UNSUP, o), 2, workers);
    for (auto &b : hist) {
        std::vector<D> d; for (size_t i = 1; i < b.size(); i++) d.push_back(alpha_docs()[b[i]]);
        if (b[0] == 0) { if (!check<S>(lda, p, d, o, x, "transform")) return; }
        else { lda.fit(mat(d, 3)); x.step(); }
    }
}

int main(int argc, char **argv) {
    bool th = seq::thorough(argc, argv); std::vector<seq::Space> s; int ND = alpha_docs().size();
    static const int WK[] = {1, 2, 3, 7};
    static const double TL[] = {0.0, 1e-2, 0.3};
    // every batch (all orders) of up to L documents
    for (int L = 0; L <= (th ? 4 : 3); L++) {
        uint64_t n = 1; for (int i = 0; i < L; i++) n *= ND;
        s.push_back({"batch" + std::to_string(L), n * 4 * 3 * 2, [=](uint64_t i, seq::Ctx &x) {
            seq::Radix r(i); int f = r(2), t = r(3), w = r(4); std::vector<int> b = {0}; for (int q = 0; q < L; q++) b.push_back(r(ND));
            Opt o; o.iters = 5; o.tol = TL[t]; o.likelihood = (t == 1) * 0.5;
            if (f) one<float>({b}, WK[w], o, 2, x); else one<double>({b}, WK[w], o, 3, x);
        }, nullptr, 20});
    }
    // histories: every sequence of up to 3 (4) calls over an alphabet of 6 calls
    static const std::vector<std::vector<int> > OPS = {{0, 0, 1}, {0, 3}, {0}, {1, 0, 1}, {1, 4, 3, 2}, {0, 5, 2, 6, 0, 1}};
    int L = th ? 5 : 4; uint64_t n = 1; for (int i = 0; i < L; i++) n *= OPS.size();
    s.push_back({"history", n * 3, [=](uint64_t i, seq::Ctx &x) {
        seq::Radix r(i); int w = r(3); std::vector<std::vector<int> > h; for (int q = 0; q < L; q++) h.push_back(OPS[r(OPS.size())]);
        h.push_back(OPS[5]);
        Opt o; o.iters = 4; o.tol = 1e-3; o.likelihood = 0.5; one<double>(h, WK[w], o, 2, x);
    }, nullptr, 30});
    // larger batches and shapes
    static const int NB[] = {5, 16, 33, 100, 257, 1000}; static const int KS[] = {1, 2, 7, 20};
    s.push_back({"large", 6 * 4 * 4, [=](uint64_t i, seq::Ctx &x) {
        seq::Radix r(i); int N = NB[r(6)], K = KS[r(4)], w = WK[r(4)], W = 11; if (!th && N > 300) N = 130;
        Opt o; o.iters = 6; o.tol = 1e-2; o.likelihood = 0; auto p = params<double>(model(P_UNSUP, K, W)); auto X = real::docs(N, W);
        std::vector<D> d(N, D(W)); for (int j = 0; j < N; j++) for (int q = 0; q < W; q++) d[j][q] = X(q, j);
        LDA<double> lda(p, estep<double>(P_UNSUP, o), mstep<double>(P_UNSUP, o), 2, w);
        if (!check<double>(lda, p, d, o, x, "transform")) return;
        lda.fit(X); check<double>(lda, p, d, o, x, "transform after fit");
    }, nullptr, 60});
    // sizes and magnitudes: topics, words, counts and iteration limits far apart
    static const int XK[] = {1, 3, 16, 33, 64, 130, 300}, XW[] = {1, 2, 17, 128, 300}, XI[] = {0, 1, 3, 40}; static const int XM[] = {1, 100, 40000};
    s.push_back({"shapes", 7 * 5 * 4 * 3 * 2, [=](uint64_t i, seq::Ctx &x) {
        seq::Radix r(i); int K = XK[r(7)], W = XW[r(5)], it = XI[r(4)], mul = XM[r(3)], f = r(2); if (K * W > 20000 && it > 3) it = 4; int N = 4;
        Opt o; o.iters = it; o.tol = it > 3 ? 1e-4 : 0; o.likelihood = 0; auto X = real::docs(N, W); std::vector<D> d(N, D(W));
        for (int j = 0; j < N; j++) for (int q = 0; q < W; q++) d[j][q] = X(q, j) * (j == 2 ? mul : 1) * (j == 1 ? q % 3 == 0 : 1);
        int w = 1 + (i / 7) % 3; Model m0 = model(P_UNSUP, K, W);
        if (f) { auto p = params<float>(m0); LDA<float> l(p, estep<float>(P_UNSUP, o), mstep<float>(P_UNSUP, o), 1, w); check<float>(l, p, d, o, x, "transform"); }
        else { auto p = params<double>(m0); LDA<double> l(p, estep<double>(P_UNSUP, o), mstep<double>(P_UNSUP, o), 1, w); check<double>(l, p, d, o, x, "transform"); }
    }, nullptr, 60});
    // batches of very many documents, and very many calls on one object
    static const int XN[] = {256, 257, 1025, 4100, 66000};
    s.push_back({"many", 5 * 2 + 2, [=](uint64_t i, seq::Ctx &x) {
        Opt o; o.iters = 2; o.likelihood = 0; auto p = params<double>(model(P_UNSUP, 2, 3));
        if (i < 10) {
            int N = XN[i / 2]; LDA<double> l(p, estep<double>(P_UNSUP, o), mstep<double>(P_UNSUP, o), 1, i % 2 ? 4 : 1); std::vector<D> d;
            for (int j = 0; j < N; j++) d.push_back({j % 5, 1 + j % 251, j / 251 % 17}); check<double>(l, p, d, o, x, "transform of many documents");
        } else { LDA<double> l(p, estep<double>(P_UNSUP, o), mstep<double>(P_UNSUP, o), 1, i % 2 ? 3 : 1); for (int k = 0; k < 400; k++) { std::vector<D> d; for (int j = 0; j < k % 4; j++) d.push_back({j, k % 7, 1 + k % 3}); if (!check<double>(l, p, d, o, x, "repeated transform")) return; } }
    }, nullptr, 120});
    return seq::run(argc, argv, "C02", s);
}
