// Case lattice shared by the inference checks (C08, C09, C10).
#pragma once
#include <functional>
#include "ref.hpp"
#include "seq.hpp"

namespace lat {
using namespace ref;

struct Case { Cfg cfg; Model m; D doc, other; int y; };

inline const std::vector<D> &docs() {
    static std::vector<D> d = [] {
        auto r = docs3(2);
        for (D x : std::vector<D>{{5, 0, 1}, {17, 3, 0}, {0, 0, 9}, {0, 11, 4}, {60, 0, 3}, {300, 200, 100}, {0, 0, 50000}, {1, 0, 30000}}) r.push_back(x);
        return r;
    }();
    return d;
}
enum { NB = 8, NA = 3, NE = 5, NCY = 4, NSP = 4 };
inline uint64_t lattice_size() { return docs().size() * NB * NA * NE * NCY * NSP; }

// word with no topic: outside the domain
inline bool valid(const Model &m, const D &d) {
    for (size_t n = 0; n < d.size(); n++) if (d[n]) { double s = 0; for (auto &r : m.beta) s += r[n]; if (s <= 0) return false; }
    return true;
}
inline void special(Cfg &c, int sp) {
    static const double Cs[] = {1.0, 0.3137, 0.0, 7.117};
    static const int fp[] = {10, 1, 3, 0};
    static const double ew[] = {1.0, 0.4173, 2.717, 0.0};
    static const double mus[] = {2.0, 1.3719, 4.117, 1.0};
    c.C = Cs[sp]; c.decay = false; c.fixed_point = fp[sp]; c.eta_weight = ew[sp]; c.mu = mus[sp];
}
inline Case decode(int alg, uint64_t i) {
    seq::Radix r(i); Case c; c.cfg.alg = alg;
    int sp = r(NSP), cy = r(NCY), e = r(NE), a = r(NA), b = r(NB), d = r(docs().size());
    special(c.cfg, sp);
    c.m.beta = betas3()[b]; int K = c.m.beta.size();
    c.m.alpha = alpha_for(K, a);
    int C = cy == 3 ? 1 : cy == 2 ? 3 : 2; c.y = cy == 3 ? 0 : cy == 2 ? 2 : cy;
    c.m.eta = alg == MULTI || alg == CORR ? peta_for(K, C, e % 3) : eta_for(K, C, e == 4 ? 5 : e);
    c.doc = docs()[d]; c.other = docs()[(d + 7) % docs().size()];
    return c;
}
// larger shapes, one deterministic instance each
static const int SH[] = {1, 2, 5, 9, 17};
inline uint64_t shapes_size() { return 125 * 6; }
inline Case decode_shape(int alg, uint64_t i) {
    seq::Radix r(i); Case c; c.cfg.alg = alg;
    int v = r(6), K = SH[r(5)], W = SH[r(5)], C = SH[r(5)];
    uint64_t h = 12345 + i; auto rnd = [&] { h = seq::mix(h, 99); return (double)(h >> 11) / 9007199254740992.0; };
    special(c.cfg, v % 3);
    c.m.alpha.resize(K); for (auto &x : c.m.alpha) x = 0.1 + rnd();
    c.m.beta.assign(K, V(W)); for (auto &row : c.m.beta) { double s = 0; for (auto &x : row) { x = 0.01 + rnd(); s += x; } for (auto &x : row) x /= s; }
    c.m.eta.assign(K, V(C)); for (auto &row : c.m.eta) { double s = 0; for (auto &x : row) { x = alg == MULTI || alg == CORR ? 0.05 + rnd() : 4 * rnd() - 2.03; s += x; } if (alg == MULTI || alg == CORR) for (auto &x : row) x /= s; }
    c.y = (int)(rnd() * C);
    auto doc = [&] { D d(W); for (auto &x : d) x = rnd() < 0.4 ? 0 : (int)(rnd() * (v == 5 ? 40 : 4)); return d; };
    c.doc = doc(); c.other = doc();
    return c;
}
// large shapes and magnitudes: sizes just above powers of two, strongly negative or positive classifier weights,
// small and large priors, long documents
enum { NLV = 6, NLARGE = 4 * 4 * 3 * NLV };
inline bool decode_large(int alg, uint64_t i, bool th, Case &c) {
    static const int KS[] = {3, 33, 65, 129}, WS[] = {4, 65, 129, 257}, CS[] = {2, 33, 129};
    seq::Radix r(i); c = Case(); c.cfg.alg = alg; int v = r(NLV), K = KS[r(4)], W = WS[r(4)], C = CS[r(3)];
    if (alg == UNSUP) { if (C != 2) return false; } else if (!th && (alg == SUP ? (double)K * W * C > 4e4 : (double)K * W > 9000 || (double)K * C > 9000)) return false;
    uint64_t h = 777 + i; auto rnd = [&] { h = seq::mix(h, 98); return (double)(h >> 11) / 9007199254740992.0; };
    special(c.cfg, i % 3);
    c.m.alpha.resize(K); for (auto &x : c.m.alpha) x = v == 3 ? 0.003 + 0.01 * rnd() : v == 4 ? 20 + 100 * rnd() : 0.1 + rnd();
    c.m.beta.assign(K, V(W)); for (auto &row : c.m.beta) { double s = 0; for (auto &x : row) { x = v == 5 && rnd() < .4 ? 1e-9 * (1 + rnd()) : 0.01 + rnd(); s += x; } for (auto &x : row) x /= s; }
    bool pr = alg == MULTI || alg == CORR;
    c.m.eta.assign(K, V(C)); for (auto &row : c.m.eta) { double s = 0; for (auto &x : row) { x = pr ? (v == 1 && rnd() < .5 ? 1e-5 : 0.05) + rnd() * (v == 1 ? .01 : 1) : v == 1 ? -16 - 9 * rnd() : v == 2 ? 11 + 8 * rnd() : 4 * rnd() - 2.03; s += x; } if (pr) for (auto &x : row) x /= s; }
    c.y = (int)(rnd() * C);
    auto doc = [&] { D d(W); for (auto &x : d) x = rnd() < 0.4 ? 0 : (int)(rnd() * (v == 4 ? 4000 : 5)); d[W - 1] = 1 + (int)(rnd() * 3); return d; };
    c.doc = doc(); c.other = doc();
    return true;
}
// documents with very large counts (their total still fits an int)
enum { NCOUNTS = 5 * 5 * 5 * 3 * 3 };
inline bool decode_counts(int alg, uint64_t i, Case &c) {
    static const int N[] = {0, 1, 65537, 16777217, 1000000007}; seq::Radix r(i); int a = N[r(5)], b = N[r(5)], d = N[r(5)], K = 1 + r(3), v = r(3);
    if ((double)a + b + d > 2147483647.0 || a + b + d < 60000) return false;
    c = Case(); c.cfg.alg = alg; special(c.cfg, v); c.doc = D{a, b, d}; c.other = D{2, 0, 1}; c.y = v % 2;
    static const double AL[] = {0.1357, 0.9271, 3.1}, ET[] = {0.3, -0.7, 0.45, 0.2, 0.9, -0.4}; bool pr = alg == MULTI || alg == CORR;
    c.m.alpha.assign(AL, AL + K); c.m.beta.assign(K, V(3)); c.m.eta.assign(K, V(2));
    for (int k = 0; k < K; k++) { double w[] = {0.2 + 0.13 * k, 0.3 + 0.07 * ((k + v) % 3), 0.25 + 0.01 * k}, t = w[0] + w[1] + w[2]; for (int j = 0; j < 3; j++) c.m.beta[k][j] = w[j] / t;
        if (pr) { c.m.eta[k][0] = 0.3 + 0.17 * k; c.m.eta[k][1] = 1 - c.m.eta[k][0]; } else { c.m.eta[k][0] = ET[2 * k]; c.m.eta[k][1] = ET[2 * k + 1]; } }
    return true;
}
inline std::string describe(const Case &c) {
    std::string s = str(c.cfg) + " doc=" + (c.doc.size() < 10 ? str(c.doc) : "...") + " class=" + std::to_string(c.y);
    if (c.m.W() * c.m.K() <= 12) s += " alpha=" + str(c.m.alpha) + " beta=" + str(c.m.beta) + " eta=" + str(c.m.eta);
    else s += " K=" + std::to_string(c.m.K()) + " V=" + std::to_string(c.m.W()) + " C=" + std::to_string(c.m.C());
    return s;
}

template <typename S> struct Run {
    Vp vp; int events = 0; double likelihood = 0; std::shared_ptr<em::EStepInterface<S> > e;
};
// infers doc with a fresh step, after inferring the documents in before
template <typename S> Run<S> infer_real(const Cfg &cfg, const Model &m, const D &doc, int y, const std::vector<D> &before = {}) {
    Run<S> r; r.e = make_e<S>(cfg);
    for (int i = 0; i < cfg.epochs; i++) r.e->e_step();
    auto p = params<S>(m);
    int other = m.C() > 1 ? (y + 1) % m.C() : y;
    for (auto &b : before) { OneDoc o({b, doc}, {other, y}); r.e->doc_e_step(o.at(0), p); }
    auto l = r.e->get_event_dispatcher()->add_listener([&](std::shared_ptr<events::Event> ev) {
        if (ev->id() == "ExpectationProgressEvent") { r.events++; r.likelihood = std::static_pointer_cast<events::ExpectationProgressEvent<S> >(ev)->likelihood(); }
        else r.events += 1000;
    });
    OneDoc o({doc, doc, doc}, {y, y, other});
    auto res = r.e->doc_e_step(o.at(0), p);
    r.e->get_event_dispatcher()->remove_listener(l);
    r.vp = get_vp<S>(res, cfg.alg == CORR);
    return r;
}
// one step object and one model object whose contents are replaced in place between the calls
inline const std::vector<uint64_t> &inplace_cases() { static std::vector<uint64_t> v = [] { std::vector<uint64_t> r; uint64_t L = lattice_size(); for (uint64_t k = 0; k < 7; k++) r.push_back((L / 7) * k + (k * 7919) % (L / 7)); return r; }(); return v; }
// the second half of the space infers the first document again under each of the later models
inline uint64_t inplace_size() { return 7 * 7 * 7 * 2; }
template <typename S> void inplace(int alg, uint64_t i, size_t iters, const std::function<void(const Case &, const Vp &, double, int, int)> &judge) {
    auto &ids = inplace_cases(); seq::Radix r(i); std::shared_ptr<em::EStepInterface<S> > e; decltype(params<S>(std::declval<const Model &>())) p; Cfg cfg; int seq_no = 0; bool again = r(2); D first; int first_y = 0;
    for (int q = 0; q < 3; q++) {
        Case c = decode(alg, ids[r(ids.size())]); if (again) { if (first.empty()) { first = c.doc; first_y = c.y; } else if (first.size() == c.doc.size()) { c.doc = first; if (first_y < c.m.C()) c.y = first_y; } }
        if (!valid(c.m, c.doc)) continue;
        if (!e) { cfg = c.cfg; cfg.iters = iters; cfg.tol = 0; e = make_e<S>(cfg); for (int k = 0; k < cfg.epochs; k++) e->e_step(); p = params<S>(c.m); }
        else { auto n = params<S>(c.m); *p = *n; }
        c.cfg = cfg; int nev = 0; double lik = NAN; int other = c.m.C() > 1 ? (c.y + 1) % c.m.C() : c.y;
        auto l = e->get_event_dispatcher()->add_listener([&](std::shared_ptr<events::Event> ev) { nev++; lik = std::static_pointer_cast<events::ExpectationProgressEvent<S> >(ev)->likelihood(); });
        OneDoc o({c.doc, c.doc, c.doc}, {c.y, c.y, other}); auto res = e->doc_e_step(o.at(0), p); e->get_event_dispatcher()->remove_listener(l);
        judge(c, get_vp<S>(res, alg == CORR), lik, nev, seq_no++);
    }
}
inline uint64_t vhash(const Vp &v) {
    uint64_t h = 3; for (double g : v.gamma) { long q = std::lround(std::fmin(g, 1e9) * 1e6); h = seq::mix(h, q); }
    for (auto &r : v.phi) for (double g : r) { long q = std::isfinite(g) ? std::lround(g * 1e6) : 7; h = seq::mix(h, q); }
    return h;
}
}  // namespace lat
