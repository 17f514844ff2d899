// Documents with fixed variational parameters, fed to the maximisation steps.
#pragma once
#include "refopt.hpp"
#include "seq.hpp"
#include "ldaplusplus/em/UnsupervisedMStep.hpp"
#include "ldaplusplus/em/FastSupervisedMStep.hpp"
#include "ldaplusplus/em/SupervisedMStep.hpp"
#include "ldaplusplus/em/SemiSupervisedMStep.hpp"
#include "ldaplusplus/em/MultinomialSupervisedMStep.hpp"
#include "ldaplusplus/em/CorrespondenceSupervisedMStep.hpp"
#include "ldaplusplus/em/FastOnlineSupervisedMStep.hpp"

namespace mref {
using namespace ref;

struct MDoc { D X; M phi; V tau; int y; };
enum { KT = 2, VW = 3 };

// gamma consistent with phi: alpha + sum X phi
inline V gamma_of(const MDoc &d, const V &alpha) { V g = alpha; for (size_t k = 0; k < g.size(); k++) for (size_t n = 0; n < d.X.size(); n++) g[k] += d.X[n] * d.phi[k][n]; return g; }

template <typename S> std::shared_ptr<parameters::Parameters> vp_of(const MDoc &d, const V &alpha) {
    return std::make_shared<parameters::SupervisedCorrespondenceVariationalParameters<S> >(ev<S>(gamma_of(d, alpha)), em_<S>(d.phi), ev<S>(d.tau));
}
inline std::shared_ptr<corpus::Document> doc_of(const MDoc &d) {
    return std::make_shared<corpus::ClassificationDecorator>(std::make_shared<corpus::EigenDocument>(xi(d.X)), d.y);
}
// alphabet of documents over 3 words and 2 topics
inline const std::vector<MDoc> &alphabet() {
    static std::vector<MDoc> a = {
        {{1, 0, 2}, {{0.3, 0.9, 0.6}, {0.7, 0.1, 0.4}}, {0.2, 0.5, 0.3}, 0},
        {{0, 3, 1}, {{1.0, 0.25, 0.5}, {0.0, 0.75, 0.5}}, {0.6, 0.1, 0.3}, 1},
        {{0, 0, 0}, {{0.5, 0.5, 0.5}, {0.5, 0.5, 0.5}}, {0.3, 0.3, 0.4}, 0},      // empty
        {{2, 2, 0}, {{0.0, 0.0, 1.0}, {1.0, 1.0, 0.0}}, {0.1, 0.8, 0.1}, 2},      // all mass in topic 1
        {{7, 1, 40}, {{0.81, 0.13, 0.55}, {0.19, 0.87, 0.45}}, {0.25, 0.25, 0.5}, 1},
        {{0, 0, 1}, {{0.2, 0.3, 1.0}, {0.8, 0.7, 0.0}}, {0.4, 0.4, 0.2}, 2},      // all mass in topic 0
    };
    return a;
}
typedef std::vector<int> Pass;                   // indices into the alphabet
// all passes with 1..len documents
inline std::vector<Pass> passes(int nd, int len) {
    std::vector<Pass> r, cur = {{}};
    for (int l = 0; l < len; l++) { std::vector<Pass> nx; for (auto &p : cur) for (int d = 0; d < nd; d++) { Pass q = p; q.push_back(d); nx.push_back(q); r.push_back(q); } cur = nx; }
    return r;
}
inline Model start_model(int C, bool prob, int kind = 1) {
    Model m; m.alpha = {0.3, 0.7}; m.beta = {{0.5, 0.3, 0.2}, {0.1, 0.2, 0.7}};
    m.eta = prob ? peta_for(KT, C, kind) : eta_for(KT, C, kind); return m;
}
inline std::string str(const std::vector<Pass> &h) { std::string s; for (auto &p : h) s += ref::str(D(p.begin(), p.end())); return s; }

// normalised expected counts
inline M counts(const std::vector<MDoc> &docs, const Pass &p) {
    int K = docs[0].phi.size(), W = docs[0].X.size(); M b(K, V(W, 0.0));
    for (int i : p) for (int k = 0; k < K; k++) for (int n = 0; n < W; n++) b[k][n] += docs[i].X[n] * docs[i].phi[k][n];
    return b;
}
inline Problem problem(const std::vector<MDoc> &docs, const Pass &p, const V &alpha, bool second, double L) {
    Problem q; int K = alpha.size(); q.X.assign(K, V()); q.L = L;
    for (int i : p) {
        auto &d = docs[i]; if (d.y < 0) continue;
        double N = total(d.X); V g = gamma_of(d, alpha);
        for (int k = 0; k < K; k++) q.X[k].push_back(N > 0 ? (g[k] - alpha[k]) / N : 0.0);
        q.y.push_back(d.y);
        if (second) { M v(K, V(K, 0.0)); if (N > 0) for (int a = 0; a < K; a++) for (int b = 0; b < K; b++) for (size_t n = 0; n < d.X.size(); n++) v[a][b] += d.phi[a][n] * d.X[n] * d.phi[b][n] * d.X[n] / (N * N); q.var.push_back(v); }
    }
    q.w = Problem::default_weights(q.y);
    return q;
}
}  // namespace mref
