// Real expectation/maximisation pairs with small models and corpora, and a
// sequential driver that plays the part of the training loop.
#pragma once
#include "mref.hpp"
#include "ldaplusplus/em/SemiSupervisedEStep.hpp"
#include "ldaplusplus/LDA.hpp"

namespace real {
using namespace ref;

enum Pair { P_UNSUP, P_FAST, P_SUP, P_SEMI, P_MULTI, P_CORR, P_DECAY, NPAIR };
inline const char *pair_name(int p) { static const char *n[] = {"unsupervised", "fast-supervised", "supervised", "semi-supervised", "multinomial", "correspondence", "decaying"}; return n[p]; }
inline bool prob(int p) { return p == P_MULTI || p == P_CORR; }

struct Opt { size_t iters = 2; double tol = 0; double likelihood = 1; int seed = 0; size_t miters = 2; double mtol = 0; };

template <typename S> std::shared_ptr<em::EStepInterface<S> > estep(int p, const Opt &o = Opt()) {
    Cfg c; c.iters = o.iters; c.tol = o.tol; c.likelihood = o.likelihood; c.seed = o.seed; c.C = 0.7;
    switch (p) {
    case P_UNSUP: c.alg = UNSUP; break;
    case P_FAST: c.alg = FAST; break;
    case P_DECAY: c.alg = FAST; c.decay = true; break;
    case P_SUP: c.alg = SUP; c.fixed_point = 2; break;
    case P_MULTI: c.alg = MULTI; break;
    case P_CORR: c.alg = CORR; break;
    default: {
        Cfg u = c; u.alg = UNSUP; u.seed = o.seed + 1; c.alg = FAST; c.decay = true;
        return std::make_shared<em::SemiSupervisedEStep<S> >(make_e<S>(c), make_e<S>(u));
    }
    }
    return make_e<S>(c);
}
template <typename S> std::shared_ptr<em::MStepInterface<S> > mstep(int p, const Opt &o = Opt()) {
    switch (p) {
    case P_UNSUP: return std::make_shared<em::UnsupervisedMStep<S> >();
    case P_SUP: return std::make_shared<em::SupervisedMStep<S> >(o.miters, (S)o.mtol, (S)1e-2);
    case P_SEMI: return std::make_shared<em::SemiSupervisedMStep<S> >(o.miters, (S)o.mtol, (S)1e-2);
    case P_MULTI: return std::make_shared<em::MultinomialSupervisedMStep<S> >((S)2);
    case P_CORR: return std::make_shared<em::CorrespondenceSupervisedMStep<S> >((S)2);
    default: return std::make_shared<em::FastSupervisedMStep<S> >(o.miters, (S)o.mtol, (S)1e-2);
    }
}
inline Model model(int p, int K = 2, int W = 3, int C = 2) {
    Model m; m.alpha.resize(K); m.beta.assign(K, V(W));
    for (int k = 0; k < K; k++) { m.alpha[k] = 0.31 + 0.17 * k; double s = 0; for (int n = 0; n < W; n++) s += (m.beta[k][n] = 0.1 + ((k * 7 + n * 5 + k * n) % 11) * 0.1); for (int n = 0; n < W; n++) m.beta[k][n] /= s; }
    m.eta = prob(p) ? peta_for(K, C, 1) : eta_for(K, C, 1);
    return m;
}
// n documents over W words; labels alternate, some negative for the semi-supervised pair
inline Eigen::MatrixXi docs(int n, int W = 3, int salt = 0) {
    Eigen::MatrixXi X(W, n);
    for (int j = 0; j < n; j++) for (int i = 0; i < W; i++) X(i, j) = ((i + 1) * (j + 2 + salt) + i * i + j) % 4 + (i == j % W);
    return X;
}
inline Eigen::VectorXi labels(int p, int n, int C = 2) {
    Eigen::VectorXi y(n); for (int j = 0; j < n; j++) y[j] = p == P_SEMI && j % 2 == 1 ? -1 : (j / (p == P_SEMI ? 2 : 1)) % C; return y;
}

// the training loop, sequentially and by hand
template <typename S> struct Driver {
    std::shared_ptr<em::EStepInterface<S> > e; std::shared_ptr<em::MStepInterface<S> > m;
    std::shared_ptr<parameters::SupervisedModelParameters<S> > p;
    Driver(int pair, const Model &mo, const Opt &o = Opt()) : e(estep<S>(pair, o)), m(mstep<S>(pair, o)), p(params<S>(mo)) {}
    void pass(corpus::Corpus &c) {
        c.shuffle();
        for (size_t i = 0; i < c.size(); i++) m->doc_m_step(c.at(i), e->doc_e_step(c.at(i), p), p);
        e->e_step(); m->m_step(p);
    }
};
template <typename S> double distance(const parameters::SupervisedModelParameters<S> &a, const parameters::SupervisedModelParameters<S> &b) {
    if (a.alpha.size() != b.alpha.size() || a.beta.rows() != b.beta.rows() || a.beta.cols() != b.beta.cols() || a.eta.rows() != b.eta.rows() || a.eta.cols() != b.eta.cols()) return 1e300;
    double d = 0; auto upd = [&](double x, double y) { double v = std::fabs(x - y) / std::max(1.0, std::fabs(y)); if (!(v <= d)) d = std::isnan(v) ? 1e300 : v; };
    for (long i = 0; i < a.alpha.size(); i++) upd(a.alpha[i], b.alpha[i]);
    for (long i = 0; i < a.beta.rows(); i++) for (long j = 0; j < a.beta.cols(); j++) upd(a.beta(i, j), b.beta(i, j));
    for (long i = 0; i < a.eta.rows(); i++) for (long j = 0; j < a.eta.cols(); j++) upd(a.eta(i, j), b.eta(i, j));
    return d;
}
template <typename S> uint64_t mhash(const parameters::SupervisedModelParameters<S> &a) {
    uint64_t h = 5; auto f = [&](double x) { h = seq::mix(h, std::isfinite(x) ? (uint64_t)std::llround(std::fmax(-1e9, std::fmin(1e9, x)) * 1e6) : 99); };
    for (long i = 0; i < a.beta.size(); i++) f(a.beta.data()[i]);
    for (long i = 0; i < a.eta.size(); i++) f(a.eta.data()[i]);
    return h;
}
}  // namespace real
