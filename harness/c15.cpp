// C15: decision scores and predictions for all small batches and models.
#include "real.hpp"
using namespace real;
static const std::vector<D> &AD() { static std::vector<D> a = {{1, 0, 2}, {0, 3, 1}, {7, 1, 40}, {0, 0, 0}, {1, 1, 1}, {0, 5, 0}}; return a; }
static M eta_case(int K, int C, int e) { if (e < 5) return eta_for(K, C, e); M m(K, V(C)); for (int k = 0; k < K; k++) for (int c = 0; c < C; c++) m[k][c] = e == 5 ? 0.7 : e == 6 ? (c >= C / 2 ? 1.0 + k : -1.0) : -1e6 * (c + 1) + k; return m; }

template <typename S> static void run(const std::vector<int> &batch, int K, int C, int e, int workers, const std::vector<int> &before, seq::Ctx &x) {
    Model m = model(P_FAST, K, 3, C); m.eta = eta_case(K, C, e); auto p = params<S>(m); Opt o; o.iters = 4; o.tol = 1e-3; o.likelihood = 0;
    LDA<S> lda(p, estep<S>(P_UNSUP, o), mstep<S>(P_UNSUP, o), 1, workers); int N = batch.size();
    Eigen::MatrixXi X(3, N); for (int j = 0; j < N; j++) for (int i = 0; i < 3; i++) X(i, j) = AD()[batch[j]][i];
    for (int b : before) { Eigen::MatrixXi Z(3, 2); Z << 1, b, 2, 0, 0, 4; if (b == 0) lda.transform(Z); else if (b == 1) lda.predict(Z); else if (b == 2) lda.partial_fit(Z, Eigen::VectorXi::Zero(2)); else lda.transform_predict(X); x.step(); }
    auto g = lda.transform(X); auto sc = lda.decision_function(X); Eigen::VectorXi pr = lda.predict(X); auto tp = lda.transform_predict(X); x.step(4);
    if (sc.rows() != C || sc.cols() != N || pr.size() != N || std::get<1>(tp).size() != N || std::get<0>(tp).rows() != K || std::get<0>(tp).cols() != N) { x.violate("shape", "%d documents, %d classes: scores %ldx%ld, %ld predictions", N, C, (long)sc.rows(), (long)sc.cols(), (long)pr.size()); return; }
    double eps = sizeof(S) == 4 ? 2e-4 : 1e-9; uint64_t h = 3;
    for (int j = 0; j < N; j++) {
        D d = AD()[batch[j]]; if (total(d) == 0) continue;            // no topic proportions
        V z(K), w(C, 0.0); double s = 0, mg = 0; for (int k = 0; k < K; k++) { z[k] = (double)g(k, j) - (double)p->alpha[k]; s += z[k]; } for (int k = 0; k < K; k++) z[k] /= s;
        for (int c = 0; c < C; c++) for (int k = 0; k < K; k++) { w[c] += (double)p->eta(k, c) * z[k]; mg = std::max(mg, std::fabs((double)p->eta(k, c))); }
        for (int c = 0; c < C; c++) if (!seq::close(sc(c, j), w[c], eps, eps * (1 + mg))) { x.violate("scores", "document %d class %d: score %.12g, weights applied to the proportions give %.12g", j, c, (double)sc(c, j), w[c]); return; }
        int best = 0; for (int c = 1; c < C; c++) if (sc(c, j) > sc(best, j)) best = c;
        if (pr[j] != best) { x.violate("class", "document %d: predicted class %d, the first highest score is that of class %d", j, pr[j], best); return; }
        if (std::get<1>(tp)[j] != pr[j]) { x.violate("combined", "document %d: transform_predict gives class %d, predict %d", j, std::get<1>(tp)[j], pr[j]); return; }
        for (int k = 0; k < K; k++) if (!seq::close(std::get<0>(tp)(k, j), g(k, j), eps)) { x.violate("combined", "document %d: transform_predict and transform differ", j); return; }
        // the same document alone
        Eigen::MatrixXi O = X.col(j); auto s1 = lda.decision_function(O); auto p1 = lda.predict(O); x.step();
        for (int c = 0; c < C; c++) if (!seq::close(s1(c, 0), sc(c, j), eps, eps * (1 + mg))) { x.violate("batch", "document %d: score of class %d is %.12g in the batch and %.12g alone", j, c, (double)sc(c, j), (double)s1(c, 0)); return; }
        double gap = 1e300; for (int c = 0; c < C; c++) if (c != best) gap = std::min(gap, (double)(sc(best, j) - sc(c, j)));
        if (p1[0] != pr[j] && (gap > eps * (1 + mg))) { x.violate("batch", "document %d: class %d in the batch, %d alone", j, pr[j], p1[0]); return; }
        h = seq::mix(h, pr[j]); for (int c = 0; c < C; c++) h = seq::mix(h, std::llround(w[c] * 1e3));
    }
    x.state(h);
}
// an expectation step that returns chosen topic parameters; word 0 carries the document number
template <typename S> struct Table : em::EStepInterface<S> {
    Eigen::Matrix<S, -1, -1> g;
    std::shared_ptr<parameters::Parameters> doc_e_step(const std::shared_ptr<corpus::Document> d, const std::shared_ptr<parameters::Parameters>) override {
        int j = d->get_words()[0]; Eigen::Matrix<S, -1, -1> ph = Eigen::Matrix<S, -1, -1>::Zero(g.rows(), 1); Eigen::Matrix<S, -1, 1> v = g.col(j); return std::make_shared<parameters::VariationalParameters<S> >(v, ph); }
    void e_step() override {}
};
// topic parameters of any shape and magnitude
template <typename S> static void direct(int K, int C, int N, int e, int sc, seq::Ctx &x) {
    Model m = model(P_FAST, K, 1, C); m.eta = eta_case(K, C, e); auto p = params<S>(m); auto t = std::make_shared<Table<S> >();
    typedef Eigen::Matrix<S, -1, -1> P; static const double MG[] = {1e-3, 0.4, 1, 50, 1e6}; t->g.resize(K, N); P &g = t->g; for (int j = 0; j < N; j++) for (int k = 0; k < K; k++) g(k, j) = p->alpha[k] + (S)(MG[sc] * (((k * 5 + j * 3 + k * j) % 7) + (k == j % K ? 0.5 : 0.0)));
    LDA<S> lda(p, t, mstep<S>(P_UNSUP, Opt()), 1, 1 + N % 3); Eigen::MatrixXi X(1, N); for (int j = 0; j < N; j++) X(0, j) = j;
    auto s = lda.decision_function(X); auto pr = lda.predict(X); x.step(2); double eps = sizeof(S) == 4 ? 2e-3 : 1e-8; if (sc == 0 && sizeof(S) == 4) eps = 2e-2;
    if (s.rows() != C || s.cols() != N || pr.size() != N) { x.violate("shape", "%d documents, %d classes: scores %ldx%ld, %ld predictions", N, C, (long)s.rows(), (long)s.cols(), (long)pr.size()); return; }
    for (int j = 0; j < N; j++) {
        double tot = 0, mg = 0; for (int k = 0; k < K; k++) tot += (double)g(k, j) - (double)p->alpha[k]; int best = 0;
        for (int c = 0; c < C; c++) { double w = 0; for (int k = 0; k < K; k++) { w += (double)p->eta(k, c) * ((double)g(k, j) - (double)p->alpha[k]) / tot; mg = std::max(mg, std::fabs((double)p->eta(k, c))); }
            if (!seq::close(s(c, j), w, eps, eps * (1 + mg))) { x.violate("scores", "%d topics, %d classes, %d documents: document %d class %d has score %.12g, weights applied to the proportions give %.12g", K, C, N, j, c, (double)s(c, j), w); return; }
            if (s(c, j) > s(best, j)) best = c; }
        if (pr[j] != best) { x.violate("class", "%d topics, %d classes: document %d predicted as %d, the first highest score is that of class %d", K, C, j, pr[j], best); return; }
    }
    x.state(seq::hash(pr.data(), sizeof(int) * pr.size()));
}
// every score vector over a small alphabet (one topic: the weights are the scores)
template <typename S> static void argmax(uint64_t i, int C, int pad, seq::Ctx &x) {
    static const double V5[] = {-2, -1e-9, 0, 1e-9, 3}; seq::Radix r(i); Model m = model(P_FAST, 1, 1, C + pad); m.eta[0].assign(C + pad, -5e30); for (int c = 0; c < C; c++) m.eta[0][c + pad] = V5[r(5)];
    auto p = params<S>(m); auto t = std::make_shared<Table<S> >(); t->g.resize(1, 2); t->g << p->alpha[0] + (S)1, p->alpha[0] + (S)2; LDA<S> lda(p, t, mstep<S>(P_UNSUP, Opt()), 1, 1); Eigen::MatrixXi X(1, 2); X << 0, 1;
    auto pr = lda.predict(X); auto tp = lda.transform_predict(X); x.step(2); x.state(seq::mix(pr[0] * 16 + pr[1], pad));
    int b = 0; for (int c = 1; c < C + pad; c++) if (p->eta(0, c) > p->eta(0, b)) b = c;
    for (int j = 0; j < 2; j++) if (pr[j] != b || std::get<1>(tp)[j] != b) { x.violate("class", "%d scores: predicted %d (%d with transform), the first highest is that of class %d", C + pad, pr[j], std::get<1>(tp)[j], b); return; }
}
static uint64_t ipow(uint64_t b, int e) { uint64_t r = 1; while (e--) r *= b; return r; }
int main(int argc, char **argv) {
    bool th = seq::thorough(argc, argv); std::vector<seq::Space> s; int ND = AD().size(); static const int CS[] = {1, 2, 3, 5}; static const int KS[] = {1, 2, 3}; static const int WK[] = {1, 3};
    for (int L = 0; L <= (th ? 4 : 3); L++) s.push_back({"batch" + std::to_string(L), ipow(ND, L) * 4 * 3 * 8 * 2, [=](uint64_t i, seq::Ctx &x) {
        seq::Radix r(i); int w = WK[r(2)], C = CS[r(4)], K = KS[r(3)], e = r(8); std::vector<int> b; for (int q = 0; q < L; q++) b.push_back(r(ND)); if ((i / 7) % 4 == 0) run<float>(b, K, C, e, w, {}, x); else run<double>(b, K, C, e, w, {}, x); }, nullptr, 20});
    s.push_back({"history", 64 * 36 * 8, [=](uint64_t i, seq::Ctx &x) { seq::Radix r(i); std::vector<int> h = {r(4), r(4), r(4)}, b = {r(6), r(6)}; run<double>(b, 2, 3, r(8), 2, h, x); }, nullptr, 20});
    s.push_back({"large", 6 * 8 * 4, [=](uint64_t i, seq::Ctx &x) { seq::Radix r(i); static const int NB[] = {5, 17, 64, 100, 129, 300}; int N = NB[r(6)], e = r(8), C = CS[r(4)]; std::vector<int> b; for (int j = 0; j < N; j++) b.push_back((j * 5 + e) % 6); run<double>(b, 3, C, e, 4, {}, x); }, nullptr, 60});
    static const int XK[] = {1, 2, 3, 9, 33, 65, 257}, XC[] = {1, 2, 4, 10, 33, 130, 300}, XN[] = {0, 1, 2, 3, 17, 130};
    s.push_back({"direct", 7 * 7 * 6 * 8 * 5 * 2, [=](uint64_t i, seq::Ctx &x) { seq::Radix r(i); int f = r(2), K = XK[r(7)], C = XC[r(7)], N = XN[r(6)], e = r(8), sc = r(5); if (K * C > 3000 && N > 20) N = 20; if (f) direct<float>(K, C, N, e, sc, x); else direct<double>(K, C, N, e, sc, x); }, nullptr, 20});
    for (int C = 1; C <= (th ? 6 : 5); C++) for (int pad : {0, 130}) s.push_back({"argmax" + std::to_string(C) + "-" + std::to_string(pad), ipow(5, C), [=](uint64_t i, seq::Ctx &x) { if (i % 2) argmax<float>(i, C, pad, x); else argmax<double>(i, C, pad, x); }, nullptr, 20});
    // very many calls on one object: every call in the cycle must answer as a fresh object does
    s.push_back({"repeated", 4 * 2 * 2, [=](uint64_t i, seq::Ctx &x) { seq::Radix r(i); int C = CS[r(4)], e = r(2) ? 6 : 1, w = WK[r(2)], n = th ? 1400 : 300;
        Model m = model(P_FAST, 3, 3, C); m.eta = eta_case(3, C, e); auto p = params<double>(m); Opt o; o.iters = 4; o.tol = 1e-3; o.likelihood = 0; typedef Eigen::MatrixXd Md;
        auto fresh = [&]() { return LDA<double>(p, estep<double>(P_UNSUP, o), mstep<double>(P_UNSUP, o), 1, 1); };
        std::vector<Eigen::MatrixXi> X; std::vector<Md> S, G; std::vector<Eigen::VectorXi> P;
        for (int b = 0; b < 7; b++) { int N = (b * 3) % 7; Eigen::MatrixXi Z(3, N); for (int j = 0; j < N; j++) for (int q = 0; q < 3; q++) { int a = (b + j) % 6; Z(q, j) = AD()[a == 3 ? 4 : a][q] + (b * j) % 2; } X.push_back(Z); auto f = fresh(); S.push_back(f.decision_function(Z)); auto g = fresh(); P.push_back(g.predict(Z)); auto t = fresh(); G.push_back(t.transform(Z)); }
        LDA<double> many(p, estep<double>(P_UNSUP, o), mstep<double>(P_UNSUP, o), 1, w);
        for (int c = 0; c < n; c++) { int b = (c * 5 + c / 7) % 7; const auto &Z = X[b]; int N = Z.cols(); bool ok = true; x.step(); const char *what = "decision_function";
            auto near = [&](const Md &a, const Md &q) { if (a.rows() != q.rows() || a.cols() != q.cols()) return false; for (int u = 0; u < a.size(); u++) if (!seq::close(a(u), q(u), 1e-10, 1e-10)) return false; return true; };
            if (c % 3 == 0) ok = near(many.decision_function(Z), S[b]); else { Eigen::VectorXi y; if (c % 3 == 1) { y = many.predict(Z); what = "predict"; } else { auto t = many.transform_predict(Z); what = "transform_predict"; ok = near(std::get<0>(t), G[b]); y = std::get<1>(t); }
                ok = ok && y.size() == N; for (int j = 0; ok && j < N; j++) { double best = S[b].col(j).maxCoeff(); ok = y[j] >= 0 && y[j] < C && S[b](y[j], j) >= best - 1e-9 * (1 + std::fabs(best)); } }
            if (!ok) { x.violate("repeated", "call %d (%s) on one object: differs from what the same call gives on a fresh object", c, what); return; } }
        x.state(i); }, nullptr, 120});
    return seq::run(argc, argv, "C15", s);
}
