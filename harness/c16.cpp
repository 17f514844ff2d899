// C16: values and gradients of the classifier objectives.
#include "refopt.hpp"
#include "seq.hpp"
#include "ldaplusplus/optimization/MultinomialLogisticRegression.hpp"
#include "ldaplusplus/optimization/SecondOrderLogisticRegressionApproximation.hpp"
using namespace ref;
using optimization::MultinomialLogisticRegression;
using optimization::SecondOrderLogisticRegressionApproximation;

struct Case { Problem p; M eta; bool defw; bool second; };
// sizes: K topics, C classes, D documents
static std::vector<D> labels(int C, int Dn) { std::vector<D> r; int t = 1; for (int i = 0; i < Dn; i++) t *= C; for (int k = 0; k < t; k++) { D d; int x = k; for (int i = 0; i < Dn; i++) { d.push_back(x % C); x /= C; } r.push_back(d); } return r; }
static void decode(int K, int C, int Dn, uint64_t i, Case &c) {
    seq::Radix r(i); auto ls = labels(C, Dn);
    c.p.y = ls[r(ls.size())]; int e = r(6), xk = r(4), lk = r(3), wk = r(3), sk = r(4);
    static const double Ls[] = {0.0, 0.5717, 13.0}; c.p.L = Ls[lk];
    c.p.X.assign(K, V(Dn));
    for (int k = 0; k < K; k++) for (int d = 0; d < Dn; d++) {
        double u = ((k * 7 + d * 5 + 3) % 11) / 11.0;
        c.p.X[k][d] = xk == 0 ? 1.0 / K : xk == 1 ? (k == d % K ? 1.0 : 0.0) : xk == 2 ? u : (xk == 3 && d == 0 ? 0.0 : 2 * u - 0.7);
    }
    c.eta = e < 4 ? eta_for(K, C, e) : eta_for(K, C, 1);
    if (e == 4) for (auto &row : c.eta) for (auto &v : row) v *= 20;
    if (e == 5) for (auto &row : c.eta) for (auto &v : row) v -= 9.3;
    c.second = sk > 0; c.p.var.clear();
    if (c.second) for (int d = 0; d < Dn; d++) {
        M v(K, V(K, 0.0));
        for (int a = 0; a < K; a++) for (int b = 0; b < K; b++)
            v[a][b] = sk == 1 ? 0.0 : (c.p.X[a][d] + 0.3) * (c.p.X[b][d] + 0.3) * 0.4 + (a == b ? 0.05 : 0) + (sk == 3 ? (a < b ? 0.11 : a > b ? -0.11 : 0.0) : 0.0);
        c.p.var.push_back(v);
    }
    c.defw = wk == 0;
    c.p.w = c.defw ? Problem::default_weights(c.p.y) : V(C, 1.0);
    if (wk == 2) for (int k = 0; k < C; k++) c.p.w[k] = 0.25 + 1.3 * k;
}
template <typename S> static void one(const Case &c, seq::Ctx &x, double rt) {
    int K = c.p.X.size(), C = c.eta[0].size();
    auto X = em_<S>(c.p.X); auto y = xi(c.p.y); auto eta = em_<S>(c.eta); auto w = ev<S>(c.p.w);
    Eigen::Matrix<S, -1, -1> g = Eigen::Matrix<S, -1, -1>::Constant(K, C, (S)77);   // stale contents must not matter
    double v; std::vector<Eigen::Matrix<S, -1, -1> > var; for (auto &m : c.p.var) var.push_back(em_<S>(m));
    // a second problem made and used in between must not matter
    Eigen::Matrix<S, -1, -1> oX = Eigen::Matrix<S, -1, -1>::Constant(2, 3, (S)0.4), oe = Eigen::Matrix<S, -1, -1>::Constant(2, 2, (S)0.3), og(2, 2); oX(0, 1) = 1; oe(1, 0) = -2; Eigen::VectorXi oy(3); oy << 0, 1, 1; std::vector<Eigen::Matrix<S, -1, -1> > ov(3, Eigen::Matrix<S, -1, -1>::Constant(2, 2, (S)0.1));
    auto run = [&](auto &p) { MultinomialLogisticRegression<S> o1(oX, oy, (S)0.7); SecondOrderLogisticRegressionApproximation<S> o2(oX, ov, oy, (S)0.7); (void)o1.value(oe); o1.gradient(oe, og); (void)o2.value(oe); o2.gradient(oe, og); v = p.value(eta); p.gradient(eta, g); double v2 = p.value(eta); if (!(v2 == v) && !(std::isnan(v) && std::isnan(v2))) x.violate("unstable", "value changes between calls: %g then %g", v, v2); };
    if (c.second) { if (c.defw) { SecondOrderLogisticRegressionApproximation<S> p(X, var, y, (S)c.p.L); run(p); } else { SecondOrderLogisticRegressionApproximation<S> p(X, var, y, w, (S)c.p.L); run(p); } }
    else { if (c.defw) { MultinomialLogisticRegression<S> p(X, y, (S)c.p.L); run(p); } else { MultinomialLogisticRegression<S> p(X, y, w, (S)c.p.L); run(p); } }
    x.step(2); x.state(seq::hash(&v, sizeof v));
    double want = c.p.value(c.eta);
    double scale = 1; for (auto &r : c.eta) for (double e : r) scale = std::max(scale, std::fabs(e));
    const char *n = c.second ? "second-order" : "first-order";
    if (!seq::close(v, want, rt, rt * scale)) x.violate((std::string(n) + "-value").c_str(), "value %.12g, documented objective %.12g", v, want);
    M gw = c.p.gradient(c.eta);
    if (K * C * c.p.y.size() <= 40) { M dw = c.p.derivative(c.eta); for (int k = 0; k < K; k++) for (int q = 0; q < C; q++) if (!seq::close(dw[k][q], gw[k][q], 1e-7, 1e-7 * scale)) { fprintf(stderr, "the two reference derivatives differ: %.12g %.12g\n", dw[k][q], gw[k][q]); abort(); } }
    for (int k = 0; k < K; k++) for (int q = 0; q < C; q++)
        if (!seq::close(g(k, q), gw[k][q], rt * 10, rt * 10 * scale)) { x.violate((std::string(n) + "-gradient").c_str(), "derivative (%d,%d) is %.12g, documented objective has %.12g", k, q, (double)g(k, q), gw[k][q]); return; }
}
int main(int argc, char **argv) {
    bool th = seq::thorough(argc, argv);
    std::vector<seq::Space> s;
    for (int K : {1, 2, 3, 5}) for (int C : {1, 2, 3, 4}) for (int Dn = 1; Dn <= (th ? 5 : 3) + (C == 2); Dn++) {
        if (K == 5 && Dn > 2 && !th) continue;
        uint64_t n = labels(C, Dn).size() * 6 * 4 * 3 * 3 * 4;
        auto desc = [=](uint64_t i) { Case c; decode(K, C, Dn, i, c); return "labels=" + str(c.p.y) + " eta=" + str(c.eta) + " X=" + str(c.p.X) + " weights=" + str(c.p.w) + (c.defw ? "(default)" : "") + " L=" + std::to_string(c.p.L); };
        s.push_back({"k" + std::to_string(K) + "c" + std::to_string(C) + "d" + std::to_string(Dn), n, [=](uint64_t i, seq::Ctx &x) {
            Case c; decode(K, C, Dn, i, c); one<double>(c, x, 1e-9);
            double mx = 0; for (auto &r : c.eta) for (double e : r) mx = std::max(mx, std::fabs(e));
            if (mx < 14) one<float>(c, x, 2e-4);
        }, desc, 0});
    }
    // larger data sets: many documents, rare classes (large weights), many classes and topics
    s.push_back({"large", 9 * 2 * 3 * 4, [=](uint64_t i, seq::Ctx &x) {
        static const int z[9][3] = {{2, 2, 40}, {2, 2, 400}, {3, 3, 1500}, {2, 33, 70}, {5, 130, 131}, {40, 3, 9}, {17, 5, 33}, {2, 300, 310}, {9, 9, 257}}; seq::Radix r(i); const int *q = z[r(9)]; int K = q[0], C = q[1], Dn = q[2]; Case c; c.second = r(2); int wk = r(3), lab = r(4);
        uint64_t h = i + 5; auto rnd = [&] { h = seq::mix(h, 7); return (h >> 11) / 9007199254740992.0; };
        c.p.L = wk == 1 ? 0.0 : 0.5717; c.p.X.assign(K, V(Dn)); for (int d = 0; d < Dn; d++) { double s = 0; for (int k = 0; k < K; k++) s += (c.p.X[k][d] = rnd() * rnd() + .01); for (int k = 0; k < K; k++) c.p.X[k][d] /= s; }
        c.p.y.resize(Dn); for (int d = 0; d < Dn; d++) c.p.y[d] = lab == 0 ? d % C : lab == 1 ? (d < C ? d : 0) : lab == 2 ? (d < C ? d : C - 1) : (d < C ? C - 1 - d : (int)(rnd() * C));
        if (c.second) for (int d = 0; d < Dn; d++) { M v(K, V(K)); for (int a = 0; a < K; a++) for (int b = 0; b < K; b++) v[a][b] = c.p.X[a][d] * c.p.X[b][d] * .6; c.p.var.push_back(v); }
        c.eta = eta_for(K, C, 1); c.defw = wk == 0; c.p.w = c.defw ? Problem::default_weights(c.p.y) : V(C, 1.0); if (wk == 2) for (int k = 0; k < C; k++) c.p.w[k] = k % 2 ? 900.0 : 0.003 * (k + 1);
        one<double>(c, x, 1e-8); one<float>(c, x, 2e-3);
    }, nullptr, 200});
    // weights of every magnitude: scores up to the largest whose exponential is finite, and far below
    s.push_back({"magnitudes", 12 * 3 * 3 * 4 * 2 * 3, [=](uint64_t i, seq::Ctx &x) {
        static const double top[] = {1e-12, 1e-6, 1, 30, 45, 55, 70, 110, 200, 330, 500, 690}; seq::Radix r(i); double t = top[r(12)]; int C = 1 + r(3), K = 1 + r(3), Dn = 1 + r(4); int off = r(2), lk = r(3);
        for (int sec = 0; sec < 2; sec++) for (int lab = 0; lab < 2; lab++) {
            Case c; c.second = sec; c.p.L = lk == 0 ? 0.0 : lk == 1 ? 1e-7 : 2e5; c.p.X.assign(K, V(Dn)); for (int d = 0; d < Dn; d++) { double q = 0; for (int k = 0; k < K; k++) q += (c.p.X[k][d] = 1 + (k * 7 + d * 5 + 3) % 11); for (int k = 0; k < K; k++) c.p.X[k][d] /= q; }
            c.p.y.resize(Dn); for (int d = 0; d < Dn; d++) c.p.y[d] = lab ? (d + 1) % C : 0; if (!lab && C > 1) c.p.y[0] = C - 1;
            c.eta.assign(K, V(C)); for (int k = 0; k < K; k++) for (int q = 0; q < C; q++) { double u = 1 - ((k * 3 + q * 5) % 7) / 7.0; c.eta[k][q] = off ? t * (1 - 0.01 * u) - (q ? 0.37 * q : 0) : (q + k) % 2 ? -t * u : t * u; }
            if (sec) for (int d = 0; d < Dn; d++) { M v(K, V(K)); double w = 0.3 / std::max(1.0, t * t); for (int a = 0; a < K; a++) for (int b = 0; b < K; b++) v[a][b] = (c.p.X[a][d] * c.p.X[b][d] + (a == b ? .05 : 0)) * w; c.p.var.push_back(v); }
            c.defw = lab; c.p.w = c.defw ? Problem::default_weights(c.p.y) : V(C, 1.0); if (!lab) for (int k = 0; k < C; k++) c.p.w[k] = k % 2 ? 3e4 : 2e-5; one<double>(c, x, 1e-9);
        }
    }, [](uint64_t i) { return "scores of magnitude class " + std::to_string(i % 12); }, 60});
    return seq::run(argc, argv, "C16", s);
}
