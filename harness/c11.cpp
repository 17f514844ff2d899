// C11: topic and class tables after a batch pass are the normalised expected
// counts of exactly that pass; all histories of passes.
#include "mref.hpp"
#include "ldaplusplus/events/ProgressEvents.hpp"
using namespace mref;
enum Kind { MU, MF, MS, MSEMI, MM, MC, NK };
static const char *KN[] = {"unsupervised", "fast-supervised", "supervised", "semi-supervised", "multinomial", "correspondence"};
template <typename S> static std::shared_ptr<em::MStepInterface<S> > make(int k, double mu) {
    switch (k) {
    case MU: return std::make_shared<em::UnsupervisedMStep<S> >();
    case MF: return std::make_shared<em::FastSupervisedMStep<S> >(1, (S)1e-2, (S)1e-2);
    case MS: return std::make_shared<em::SupervisedMStep<S> >(1, (S)1e-2, (S)1e-2);
    case MSEMI: return std::make_shared<em::SemiSupervisedMStep<S> >(1, (S)1e-2, (S)1e-2);
    case MM: return std::make_shared<em::MultinomialSupervisedMStep<S> >((S)mu);
    default: return std::make_shared<em::CorrespondenceSupervisedMStep<S> >((S)mu);
    }
}
static std::vector<MDoc> docs_for(int kind) {
    auto a = alphabet(); if (kind == MSEMI) { a[1].y = -1; a[3].y = -1; a[2].y = -1; }
    return a;
}
template <typename S> static void history(int kind, const std::vector<MDoc> &docs, const std::vector<Pass> &h, seq::Ctx &x, double mu, int C = 3, bool neighbour = false) {
    bool prob = kind == MM || kind == MC;
    Model m0 = start_model(C, prob); m0.alpha.resize(docs[0].phi.size(), 0.4); if (docs[0].phi.size() != KT || docs[0].X.size() != VW) {
        int K = docs[0].phi.size(), W = docs[0].X.size(); m0.beta.assign(K, V(W, 1.0 / W)); m0.eta = prob ? peta_for(K, C, 1) : eta_for(K, C, 1); m0.alpha.assign(K, 0.4); }
    auto p = params<S>(m0); auto ms = make<S>(kind, mu); std::vector<double> said; if (prob) ms->get_event_dispatcher()->add_listener([&](std::shared_ptr<events::Event> ev) { if (ev->id() == "MaximizationProgressEvent") said.push_back(std::static_pointer_cast<events::MaximizationProgressEvent<S> >(ev)->likelihood()); }); double eps = sizeof(S) == 4 ? 2e-5 : 1e-10;
    // a second step with a model of its own, used in between
    auto other = make<S>(kind, mu + 1); auto po = params<S>(m0);
    for (size_t q = 0; q < h.size(); q++) {
        M before = tom(p->beta), ebefore = tom(p->eta); said.clear();
        for (int i : h[q]) { ms->doc_m_step(doc_of(docs[i]), vp_of<S>(docs[i], m0.alpha), p); x.step(); if (neighbour) { size_t j = (i + 1 + q) % docs.size(); other->doc_m_step(doc_of(docs[j]), vp_of<S>(docs[j], m0.alpha), po); if ((i + q) % 3 == 2) other->m_step(po); } }
        for (size_t k = 0; k < before.size(); k++) for (size_t n = 0; n < before[k].size(); n++) if (p->beta(k, n) != (S)before[k][n]) { x.violate("early", "%s: topics change before the pass has ended", KN[kind]); return; }
        ms->m_step(p); x.step();
        M b = counts(docs, h[q]);
        if (p->beta.rows() != (int)b.size() || p->beta.cols() != (int)b[0].size()) { x.violate("shape", "%s: topics of shape %ldx%ld after pass %zu", KN[kind], (long)p->beta.rows(), (long)p->beta.cols(), q); return; }
        for (size_t k = 0; k < b.size(); k++) {
            double s = sum(b[k]);
            for (size_t n = 0; n < b[k].size(); n++) {
                double v = p->beta(k, n);
                if (!std::isfinite(v)) { x.violate("finite", "%s: topic %zu word %zu is %g after pass %zu", KN[kind], k, n, v, q); return; }
                if (s > 0 && !seq::close(v, b[k][n] / s, eps, eps)) { x.violate("topics", "%s: topic %zu word %zu is %.9g after pass %zu, the normalised counts give %.9g", KN[kind], k, n, v, q, b[k][n] / s); return; }
            }
        }
        if (prob) {
            double lp = 0; bool sure = true; for (int i : h[q]) for (size_t k = 0; k < b.size(); k++) { double t = 0; for (size_t n = 0; n < b[0].size(); n++) t += docs[i].X[n] * docs[i].phi[k][n] * (kind == MC ? docs[i].tau[n] : 1.0); if (ebefore[k][docs[i].y] <= 0) sure = false; else lp += t * std::log(ebefore[k][docs[i].y]); }
            if (said.size() != 1) { x.violate("announced", "%s: pass %zu announces %zu objectives", KN[kind], q, said.size()); return; }
            if (sure && !seq::close(said[0], lp, sizeof(S) == 4 ? 1e-4 : 1e-9, sizeof(S) == 4 ? 1e-4 : 1e-9)) { x.violate("objective", "%s: pass %zu reports %.9g, the expected log probability of the classes is %.9g", KN[kind], q, said[0], lp); return; }
            M hh(b.size(), V(C, mu - 1));
            for (int i : h[q]) for (size_t k = 0; k < b.size(); k++) for (size_t n = 0; n < b[0].size(); n++) hh[k][docs[i].y] += docs[i].X[n] * docs[i].phi[k][n] * (kind == MC ? docs[i].tau[n] : 1.0);
            for (size_t k = 0; k < b.size(); k++) { double s = sum(hh[k]); for (int c = 0; c < C; c++) {
                double v = p->eta(k, c); if (!std::isfinite(v)) { x.violate("finite", "%s: class table entry is %g", KN[kind], v); return; }
                if (s > 0 && !seq::close(v, hh[k][c] / s, eps, eps + 8 * (sizeof(S) == 4 ? 1.2e-7 : 2.3e-16) * mu * C / s)) { x.violate("class-table", "%s: topic %zu class %d is %.9g after pass %zu, the smoothed counts give %.9g", KN[kind], k, c, v, q, hh[k][c] / s); return; }
            } }
        }
        uint64_t st = kind; for (size_t k = 0; k < b.size(); k++) for (size_t n = 0; n < b[0].size(); n++) st = seq::mix(st, (long)(p->beta(k, n) * 1e7));
        x.state(st);
    }
}
static std::vector<MDoc> big(int K, int W, int Dn) {   // larger shapes
    std::vector<MDoc> r; uint64_t h = K * 1000 + W; auto rnd = [&] { h = seq::mix(h, 5); return (h >> 11) / 9007199254740992.0; };
    for (int d = 0; d < Dn; d++) { MDoc m; m.X.resize(W); for (auto &v : m.X) v = rnd() < .3 ? 0 : (int)(rnd() * 9); m.phi.assign(K, V(W)); for (int n = 0; n < W; n++) { double s = 0; for (int k = 0; k < K; k++) s += (m.phi[k][n] = rnd() + .01); for (int k = 0; k < K; k++) m.phi[k][n] /= s; } m.tau.assign(W, 1.0 / W); for (auto &t : m.tau) t *= .5 + rnd(); m.y = (int)(rnd() * 3); r.push_back(m); }
    return r;
}
int main(int argc, char **argv) {
    bool th = seq::thorough(argc, argv);
    std::vector<seq::Space> s;
    static const double MU_[] = {2.0, 1.0, 3.7};
    for (int k = 0; k < NK; k++) {
        auto docs = docs_for(k);
        auto P3 = passes(docs.size(), 3), P2 = passes(docs.size(), 2);
        std::string n = KN[k]; int nmu = k == MM || k == MC ? 3 : 1;
        uint64_t n1 = P3.size() * P2.size() * nmu;
        s.push_back({"two-passes-" + n, n1, [=](uint64_t i, seq::Ctx &x) { seq::Radix r(i); double mu = MU_[r(nmu)]; std::vector<Pass> h; h.push_back(P2[r(P2.size())]); h.push_back(P3[r(P3.size())]); history<double>(k, docs, h, x, mu); if (i % 5 == 0) history<float>(k, docs, h, x, mu); },
                     [=](uint64_t i) { seq::Radix r(i); r(nmu); std::vector<Pass> h; h.push_back(P2[r(P2.size())]); h.push_back(P3[r(P3.size())]); return "passes " + mref::str(h); }, 0});
        auto Q = passes(th ? 6 : 4, 2); uint64_t n3 = Q.size() * Q.size() * Q.size();
        s.push_back({"three-passes-" + n, n3 * nmu, [=](uint64_t i, seq::Ctx &x) { seq::Radix r(i); double mu = MU_[r(nmu)]; std::vector<Pass> h; for (int q = 0; q < 3; q++) h.push_back(Q[r(Q.size())]); history<double>(k, docs, h, x, mu, 3, i % 2); if (nmu > 1) { auto one = docs; for (auto &d : one) d.y = 0; history<double>(k, one, h, x, mu, i % 2 ? 1 : 3); } },
                     [=](uint64_t i) { seq::Radix r(i); r(nmu); std::vector<Pass> h; for (int q = 0; q < 3; q++) h.push_back(Q[r(Q.size())]); return "passes " + mref::str(h); }, 0});
        s.push_back({"shapes-" + n, 5 * 5 * 4, [=](uint64_t i, seq::Ctx &x) { static const int sz[] = {1, 2, 5, 16, 33}; seq::Radix r(i); int K = sz[r(5)], W = sz[r(5)], Dn = sz[r(4)];
            auto d = big(K, W, Dn + 3); Pass a, b; for (int q = 0; q < Dn; q++) a.push_back(q); for (int q = Dn + 2; q >= 0; q--) b.push_back(q);
            history<double>(k, d, {a, b, a}, x, 2.0); history<float>(k, d, {b, a}, x, 2.0); }, nullptr, 0});
        // magnitudes: long documents, topics that receive next to nothing
        s.push_back({"magnitudes-" + n, 6 * 5 * 3, [=](uint64_t i, seq::Ctx &x) {
            static const int cnt[] = {1, 129, 300, 40000, 100000, 20000000}; static const double tiny[] = {1e-3, 1e-7, 1e-12, 1e-25, 1e-36}; seq::Radix r(i); int L = cnt[r(6)]; double e = tiny[r(5)]; int v = r(3);
            auto d = docs; d[0].X = {L, 1, v ? L / 3 : 0}; d[1].X = {0, L, 2}; d[4].X = {L / 2, 0, 1};
            for (auto &m : d) for (int w = 0; w < VW; w++) { double q = e * (1 + w); if (v == 2 && w == 1) q = 0; m.phi[0][w] = q; m.phi[1][w] = 1 - q; }
            for (auto &h : std::vector<std::vector<Pass> >{{{0}}, {{0, 1}}, {{4, 1, 0}, {5}}, {{5, 0}, {1, 4}}, {{3, 1}, {0, 0, 0}}}) { history<double>(k, d, h, x, MU_[i % nmu]); history<float>(k, d, h, x, MU_[i % nmu]); } }, nullptr, 0});
        // scale: many documents, words, topics, classes
        s.push_back({"scale-" + n, 8, [=](uint64_t i, seq::Ctx &x) { static const int z[8][4] = {{2, 4, 1500, 3}, {3, 5, 300, 3}, {130, 20, 5, 3}, {5, 300, 5, 3}, {70, 70, 66, 70}, {3, 600, 3, 2}, {2, 3, 40, 300}, {300, 4, 12, 5}}; int K = z[i][0], W = z[i][1], Dn = z[i][2], C = z[i][3];
            auto d = big(K, W, Dn + 3); for (size_t q = 0; q < d.size(); q++) d[q].y = (q * 7 + q / 5 + C - 1) % C; if (k == MSEMI) for (size_t q = 0; q < d.size(); q += 3) d[q].y = -1; Pass a, b; for (int q = 0; q < Dn; q++) a.push_back(q); for (int q = Dn + 2; q >= 0; q--) b.push_back(q);
            history<double>(k, d, {a, b}, x, 2.0, C); history<float>(k, d, {b}, x, 2.0, C); }, nullptr, 120});
    }
    return seq::run(argc, argv, "C11", s);
}
