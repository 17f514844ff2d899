// Reference model of the documented algorithms: plain loops over std::vector,
// independent of the library except for its two numeric kernels (fast_exp and
// digamma), which have a property of their own (C24).
#pragma once
#include <cmath>
#include <memory>
#include <string>
#include <vector>
#include <Eigen/Core>
#include "ldaplusplus/Document.hpp"
#include "ldaplusplus/Parameters.hpp"
#include "ldaplusplus/utils.hpp"
#include "ldaplusplus/events/ProgressEvents.hpp"
#include "ldaplusplus/em/UnsupervisedEStep.hpp"
#include "ldaplusplus/em/FastSupervisedEStep.hpp"
#include "ldaplusplus/em/SupervisedEStep.hpp"
#include "ldaplusplus/em/MultinomialSupervisedEStep.hpp"
#include "ldaplusplus/em/CorrespondenceSupervisedEStep.hpp"

namespace ref {
using namespace ldaplusplus;
typedef std::vector<double> V;
typedef std::vector<V> M;                       // row major: M[row][col]
typedef std::vector<int> D;                     // a document: word counts

inline double fexp(double x) { return math_utils::fast_exp<double>(x); }
inline double psi(double x) { return math_utils::digamma<double>(x); }
inline int total(const D &d) { int s = 0; for (int c : d) s += c; return s; }
inline double sum(const V &v) { double s = 0; for (double x : v) s += x; return s; }

struct Model {
    V alpha; M beta, eta;
    int K() const { return alpha.size(); }
    int W() const { return beta[0].size(); }
    int C() const { return eta.empty() ? 0 : eta[0].size(); }
};
struct Vp { V gamma; M phi; V tau; int iterations = 0; };

enum Alg { UNSUP, FAST, SUP, MULTI, CORR, NALG };
inline const char *alg_name(int a) { static const char *n[] = {"unsupervised", "fast-supervised", "supervised", "multinomial", "correspondence"}; return n[a]; }

struct Cfg {
    int alg = 0; size_t iters = 0; double tol = 0;
    double C = 1; bool decay = false; int epochs = 0;   // FAST
    int fixed_point = 10;                               // SUP
    double mu = 2, eta_weight = 1;                      // MULTI / CORR
    double likelihood = 1.0; int seed = 0;
};

inline void norm_col(M &p, int n) {
    double s = 0; for (auto &r : p) s += r[n];
    if (s != 0) for (auto &r : p) r[n] /= s;
}

// one documented coordinate update; y is ignored by UNSUP
inline void update(const Cfg &c, const D &X, int y, const Model &m, Vp &v) {
    int K = m.K(), W = m.W(); double N = total(X);
    V pg(K); for (int k = 0; k < K; k++) pg[k] = psi(v.gamma[k]);
    if (c.alg == SUP) {
        int C = m.C();
        auto e = [&](int k, int cc, int n) { return fexp(m.eta[k][cc] * (X[n] / N)); };
        V prod(C, 1.0);
        for (int n = 0; n < W; n++) if (X[n]) for (int cc = 0; cc < C; cc++) { double s = 0; for (int k = 0; k < K; k++) s += e(k, cc, n) * v.phi[k][n]; prod[cc] *= s; }
        for (int n = 0; n < W; n++) {
            if (!X[n]) continue;
            for (int cc = 0; cc < C; cc++) { double s = 0; for (int k = 0; k < K; k++) s += e(k, cc, n) * v.phi[k][n]; prod[cc] /= s; }
            V h(K, 0.0), old(K);
            for (int k = 0; k < K; k++) { for (int cc = 0; cc < C; cc++) h[k] += e(k, cc, n) * prod[cc]; old[k] = v.phi[k][n]; }
            for (int f = 0; f < c.fixed_point; f++) {
                double hp = 0; for (int k = 0; k < K; k++) hp += h[k] * v.phi[k][n];
                double t = 1. / hp / X[n];
                for (int k = 0; k < K; k++) v.phi[k][n] = m.beta[k][n] * fexp(pg[k] + X[n] / N * m.eta[k][y] - h[k] * t);
                norm_col(v.phi, n);
            }
            for (int cc = 0; cc < C; cc++) { double s = 0; for (int k = 0; k < K; k++) s += e(k, cc, n) * v.phi[k][n]; prod[cc] *= s; }
            for (int k = 0; k < K; k++) { v.gamma[k] += X[n] * (v.phi[k][n] - old[k]); pg[k] = psi(v.gamma[k]); }
        }
        return;
    }
    V w(K, 0.0);
    if (c.alg == FAST && N > 0) {
        int C = m.C(); V z(K, 0.0), s(C); double tot = 0, mx = -1e300;
        for (int n = 0; n < W; n++) if (X[n]) for (int k = 0; k < K; k++) z[k] += v.phi[k][n] * (X[n] / N);
        for (int cc = 0; cc < C; cc++) { double a = 0; for (int k = 0; k < K; k++) a += m.eta[k][cc] * z[k]; s[cc] = fexp(a); tot += s[cc]; }
        for (auto &r : m.eta) for (double x : r) mx = std::max(mx, x);
        double wt = c.decay ? std::pow(c.C, c.epochs) : c.C, sc = mx > 0 ? mx : 1;
        for (int k = 0; k < K; k++) { double a = 0; for (int cc = 0; cc < C; cc++) a += m.eta[k][cc] / sc * (s[cc] / tot); w[k] = wt * (m.eta[k][y] / sc - a); }
    }
    if (c.alg == MULTI) { double t2 = psi(sum(v.gamma)) + 1; for (int k = 0; k < K; k++) w[k] = c.eta_weight * std::log(m.eta[k][y]) - t2; }
    if (c.alg == FAST && N > 0) {               // only differences matter, extremes are clipped
        double mx = -1e300; for (int k = 0; k < K; k++) mx = std::max(mx, pg[k] + w[k]);
        for (int k = 0; k < K; k++) { pg[k] = std::max(pg[k] + w[k] - mx, std::log(2.2250738585072014e-308) / 2); w[k] = 0; }
    }
    if (!(c.alg == FAST && N == 0)) {
        for (int n = 0; n < W; n++) {
            for (int k = 0; k < K; k++)
                v.phi[k][n] = c.alg == CORR ? m.beta[k][n] * fexp(pg[k]) * fexp(std::log(m.eta[k][y]) * v.tau[n]) : m.beta[k][n] * fexp(pg[k] + w[k]);
            norm_col(v.phi, n);
        }
    }
    if (c.alg == CORR) {
        double tot = 0;
        for (int n = 0; n < W; n++) { double a = 0; for (int k = 0; k < K; k++) a += v.phi[k][n] * std::log(m.eta[k][y]); v.tau[n] = fexp(a); tot += v.tau[n]; }
        if (tot != 0) for (double &t : v.tau) t /= tot;
    }
    for (int k = 0; k < K; k++) { double g = m.alpha[k]; for (int n = 0; n < W; n++) if (X[n]) g += X[n] * v.phi[k][n]; v.gamma[k] = g; }
}

// All results acceptable for the configuration: more than one only where the
// convergence test is decided by rounding.
inline std::vector<Vp> infer(const Cfg &c, const D &X, int y, const Model &m, double slack = 1e-9) {
    Vp v; int K = m.K(), W = m.W(); double N = total(X);
    v.gamma.resize(K); for (int k = 0; k < K; k++) v.gamma[k] = m.alpha[k] + N / K;
    v.phi.assign(K, V(W, 1.0 / K)); v.tau.assign(W, 1.0 / W);
    V old(K, 0.0); std::vector<Vp> out;
    for (size_t it = 0; it < c.iters; it++) {
        double d = 0; for (int k = 0; k < K; k++) d += std::fabs(old[k] - v.gamma[k]);
        d /= K;
        bool near = std::fabs(d - c.tol) <= slack * std::max(1.0, std::fabs(d));
        if (near) out.push_back(v);
        else if (d < c.tol) { out.push_back(v); return out; }
        old = v.gamma;
        update(c, X, y, m, v);
        v.iterations++;
    }
    out.push_back(v);
    return out;
}

// documented bounds, evaluated at the given parameters
inline double bound(const Cfg &c, const D &X, int y, const Model &m, const Vp &v, double prior_y = 1, double portion = 1) {
    int K = m.K(), W = m.W(), C = m.C(); double N = total(X), L = 0;
    double gs = sum(v.gamma), as = sum(m.alpha); V t(K);
    for (int k = 0; k < K; k++) t[k] = psi(v.gamma[k]) - psi(gs);
    for (int k = 0; k < K; k++) L += (m.alpha[k] - 1) * t[k] - std::lgamma(m.alpha[k]) - (v.gamma[k] - 1) * t[k] + std::lgamma(v.gamma[k]);
    L += std::lgamma(as) - std::lgamma(gs);
    for (int n = 0; n < W; n++) if (X[n]) for (int k = 0; k < K; k++)
        L += X[n] * v.phi[k][n] * (t[k] + std::log(m.beta[k][n] + 1e-44) - std::log(v.phi[k][n] + 1e-44));
    if (c.alg == UNSUP) return L;
    if (c.alg == SUP || c.alg == FAST) {
        if (N == 0) return L;
        double lin = 0, tot = 0;
        for (int n = 0; n < W; n++) for (int k = 0; k < K; k++) lin += m.eta[k][y] * v.phi[k][n] * X[n] / N;
        for (int cc = 0; cc < C; cc++) {
            double p = 1;
            for (int n = 0; n < W; n++) if (X[n]) { double s = 0; for (int k = 0; k < K; k++) s += v.phi[k][n] * fexp(m.eta[k][cc] * (X[n] / N)); p *= s; }
            tot += p;
        }
        return L + lin - std::log(tot);
    }
    for (int n = 0; n < W; n++) if (X[n]) for (int k = 0; k < K; k++) L += v.phi[k][n] * X[n] * (c.alg == CORR ? v.tau[n] : 1.0) * std::log(m.eta[k][y]);
    if (c.alg == MULTI) L -= (N - 1) * std::log(prior_y);
    else { for (int n = 0; n < W; n++) if (X[n]) L -= v.tau[n] * X[n] * std::log(v.tau[n] + 1e-44); L -= std::log(N); }
    double le = 0; for (auto &r : m.eta) for (double x : r) le += std::log(x);
    return L + portion * (c.mu - 1) * le + portion * (std::lgamma(C * c.mu) - C * std::lgamma(c.mu));
}

// ---- glue to the library ----------------------------------------------------
template <typename S> Eigen::Matrix<S, -1, 1> ev(const V &v) { Eigen::Matrix<S, -1, 1> r(v.size()); for (size_t i = 0; i < v.size(); i++) r[i] = (S)v[i]; return r; }
template <typename S> Eigen::Matrix<S, -1, -1> em_(const M &m) {
    Eigen::Matrix<S, -1, -1> r(m.size(), m.empty() ? 0 : m[0].size());
    for (size_t i = 0; i < m.size(); i++) for (size_t j = 0; j < m[i].size(); j++) r(i, j) = (S)m[i][j];
    return r;
}
template <typename A> V tov(const A &a) { V v(a.size()); for (long i = 0; i < (long)a.size(); i++) v[i] = a[i]; return v; }
template <typename A> M tom(const A &a) { M m(a.rows(), V(a.cols())); for (long i = 0; i < a.rows(); i++) for (long j = 0; j < a.cols(); j++) m[i][j] = a(i, j); return m; }
inline Eigen::VectorXi xi(const D &d) { Eigen::VectorXi r(d.size()); for (size_t i = 0; i < d.size(); i++) r[i] = d[i]; return r; }

template <typename S> std::shared_ptr<parameters::SupervisedModelParameters<S> > params(const Model &m) {
    return std::make_shared<parameters::SupervisedModelParameters<S> >(ev<S>(m.alpha), em_<S>(m.beta), em_<S>(m.eta));
}
template <typename S> std::shared_ptr<em::EStepInterface<S> > make_e(const Cfg &c) {
    switch (c.alg) {
    case UNSUP: return std::make_shared<em::UnsupervisedEStep<S> >(c.iters, (S)c.tol, (S)c.likelihood, c.seed);
    case FAST: return std::make_shared<em::FastSupervisedEStep<S> >(c.iters, (S)c.tol, (S)c.C,
        c.decay ? em::FastSupervisedEStep<S>::ExponentialDecay : em::FastSupervisedEStep<S>::Constant, (S)c.likelihood, c.seed);
    case SUP: return std::make_shared<em::SupervisedEStep<S> >(c.iters, (S)c.tol, c.fixed_point, (S)c.likelihood, c.seed);
    case MULTI: return std::make_shared<em::MultinomialSupervisedEStep<S> >(c.iters, (S)c.tol, (S)c.mu, (S)c.eta_weight, (S)c.likelihood, c.seed);
    default: return std::make_shared<em::CorrespondenceSupervisedEStep<S> >(c.iters, (S)c.tol, (S)c.mu, (S)c.likelihood, c.seed);
    }
}
// a labelled document inside a corpus of its own
struct OneDoc {
    Eigen::MatrixXi X; Eigen::VectorXi y; std::shared_ptr<corpus::EigenClassificationCorpus> c;
    OneDoc(const std::vector<D> &docs, const D &ys) : X(docs[0].size(), docs.size()), y(ys.size()) {
        for (size_t j = 0; j < docs.size(); j++) { for (size_t i = 0; i < docs[j].size(); i++) X(i, j) = docs[j][i]; y[j] = ys[j]; }
        c = std::make_shared<corpus::EigenClassificationCorpus>(X, y);
    }
    std::shared_ptr<corpus::Document> at(size_t i) const { return c->at(i); }
};
template <typename S> Vp get_vp(const std::shared_ptr<parameters::Parameters> &p, bool corr = false) {
    Vp v; auto q = std::static_pointer_cast<parameters::VariationalParameters<S> >(p);
    v.gamma = tov(q->gamma); v.phi = tom(q->phi);
    if (corr) v.tau = tov(std::static_pointer_cast<parameters::SupervisedCorrespondenceVariationalParameters<S> >(p)->tau);
    return v;
}

inline std::string str(const V &v) { std::string s = "("; char b[32]; for (double x : v) { snprintf(b, 32, "%s%.6g", s.size() > 1 ? "," : "", x); s += b; } return s + ")"; }
inline std::string str(const D &v) { std::string s = "("; for (int x : v) s += (s.size() > 1 ? "," : "") + std::to_string(x); return s + ")"; }
inline std::string str(const M &m) { std::string s = "["; for (auto &r : m) s += str(r); return s + "]"; }
inline std::string str(const Cfg &c) {
    char b[200]; snprintf(b, 200, "%s iterations=%zu tolerance=%g C=%g%s epochs=%d fixed-point=%d mu=%g eta-weight=%g", alg_name(c.alg), c.iters, c.tol, c.C, c.decay ? " decay" : "", c.epochs, c.fixed_point, c.mu, c.eta_weight);
    return b;
}

// largest difference between parameters; gamma relative to the document length
inline double diff(const Vp &a, const Vp &b, const D &X, bool tau) {
    double d = 0, N = total(X) + 1;
    auto upd = [&](double x) { if (!(x <= d)) d = std::isnan(x) ? 1e300 : x; };
    for (size_t k = 0; k < a.gamma.size(); k++) upd(std::fabs(a.gamma[k] - b.gamma[k]) / N);
    for (size_t n = 0; n < X.size(); n++) if (X[n]) for (size_t k = 0; k < a.gamma.size(); k++) upd(std::fabs(a.phi[k][n] - b.phi[k][n]));
    if (tau) for (size_t n = 0; n < X.size(); n++) if (X[n]) upd(std::fabs(a.tau[n] - b.tau[n]));
    return d;
}

// ---- the shared lattice -------------------------------------------------------
// values avoid the grid points of the exponential's table
inline std::vector<D> docs3(int maxc) { std::vector<D> r; for (int a = 0; a <= maxc; a++) for (int b = 0; b <= maxc; b++) for (int c = 0; c <= maxc; c++) r.push_back({a, b, c}); return r; }
inline std::vector<M> betas3() {
    return {
        {{0.5013, 0.3021, 0.1966}, {0.1117, 0.2291, 0.6592}},
        {{0.3331, 0.3332, 0.3337}, {0.3334, 0.3335, 0.3331}},
        {{0.0, 0.6123, 0.3877}, {0.7219, 0.0, 0.2781}},                     // words a topic never emits
        {{0.9981, 0.0018, 0.0001}, {0.0002, 0.0007, 0.9991}},
        {{0.2113, 0.5171, 0.2716}, {0.6311, 0.1987, 0.1702}, {0.0917, 0.3119, 0.5964}},
        {{1.0, 0.0, 0.0}, {0.0, 1.0, 0.0}, {0.0, 0.0, 1.0}},                 // each word has one topic
        {{0.2917, 0.3019, 0.4064}},                                         // one topic
        {{0.2113, 0.5171, 0.2716}, {0.6311, 0.1987, 0.1702}, {0.0917, 0.3119, 0.5964}, {0.3719, 0.1153, 0.5128}},
    };
}
inline V alpha_for(int K, int kind) {
    V a(K);
    for (int k = 0; k < K; k++) a[k] = kind == 0 ? 1.0 / K : kind == 1 ? 0.1373 + 0.6131 * k : 3.0717 - 0.4373 * k;
    return a;
}
inline M eta_for(int K, int C, int kind) {      // real valued classifier weights
    M e(K, V(C, 0.0));
    static const double t[16] = {0.7313, -1.2071, 0.3719, 1.9137, -0.6173, 0.1391, -2.3717, 1.1123, 0.9173, -0.2719, 1.6171, -1.4419, 0.5171, -0.8137, 2.1719, 0.0613};
    for (int k = 0; k < K; k++) for (int c = 0; c < C; c++) {
        double x = t[(k * 5 + c * 3 + kind) % 16];
        e[k][c] = kind == 0 ? 0.0 : kind == 1 ? x : kind == 2 ? -std::fabs(x) - 0.1117 : kind == 3 ? x * 6.137 : kind == 5 ? (k + c ? -std::fabs(x) * 1.7117 - 0.0919 : 0.00043137) : 0.0137 * x;   // 5: tiny positive maximum
    }
    return e;
}
inline M peta_for(int K, int C, int kind) {     // per topic class distributions
    M e(K, V(C));
    for (int k = 0; k < K; k++) { double s = 0; for (int c = 0; c < C; c++) { e[k][c] = kind == 0 ? 1.0 : kind == 1 ? 1.0 + ((k * 3 + c * 5) % 4) * 0.7117 : ((k + c) % C == 0 ? 40.137 : 0.0917); s += e[k][c]; } for (int c = 0; c < C; c++) e[k][c] /= s; }
    return e;
}
}  // namespace ref
