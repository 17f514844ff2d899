// C21: every short sequence of builder calls, and every parameter of every step.
#include <atomic>
#include <chrono>
#include <mutex>
#include <set>
#include <thread>
#include "seq.hpp"
#include "ldaplusplus/LDABuilder.hpp"
#include "ldaplusplus/events/ProgressEvents.hpp"
#include "ldaplusplus/em/CorrespondenceSupervisedEStep.hpp"
#include "ldaplusplus/em/CorrespondenceSupervisedMStep.hpp"
#include "ldaplusplus/em/FastOnlineSupervisedMStep.hpp"
#include "ldaplusplus/em/FastSupervisedEStep.hpp"
#include "ldaplusplus/em/FastSupervisedMStep.hpp"
#include "ldaplusplus/em/MultinomialSupervisedEStep.hpp"
#include "ldaplusplus/em/MultinomialSupervisedMStep.hpp"
#include "ldaplusplus/em/SemiSupervisedEStep.hpp"
#include "ldaplusplus/em/SemiSupervisedMStep.hpp"
#include "ldaplusplus/em/SupervisedEStep.hpp"
#include "ldaplusplus/em/SupervisedMStep.hpp"
#include "ldaplusplus/em/UnsupervisedEStep.hpp"
#include "ldaplusplus/em/UnsupervisedMStep.hpp"
using namespace ldaplusplus;

template <typename S> using EP = std::shared_ptr<em::EStepInterface<S> >;
template <typename S> using MP = std::shared_ptr<em::MStepInterface<S> >;
template <typename S> using Model = parameters::SupervisedModelParameters<S>;

struct Rec : events::EventListenerInterface { bool f; std::vector<double> e, m; int epochs = 0; explicit Rec(bool f) : f(f) {}
    template <typename S> void take(std::shared_ptr<events::Event> v) { if (v->id() == "ExpectationProgressEvent") e.push_back(std::static_pointer_cast<events::ExpectationProgressEvent<S> >(v)->likelihood()); else if (v->id() == "MaximizationProgressEvent") m.push_back(std::static_pointer_cast<events::MaximizationProgressEvent<S> >(v)->likelihood()); else if (v->id() == "EpochProgressEvent") epochs++; }
    void on_event(std::shared_ptr<events::Event> v) override { if (f) take<float>(v); else take<double>(v); } };

static Eigen::MatrixXi data(int n, int W, int salt) { Eigen::MatrixXi X(W, n); for (int j = 0; j < n; j++) for (int i = 0; i < W; i++) X(i, j) = seq::mix(seq::mix(salt, i), j / 2 + i * (j % 2)) % 6 + (i == j % W); return X; }
// the outcome of training and transforming with one worker
template <typename S> struct Out { std::vector<double> v; Eigen::Matrix<S, -1, -1> a, b, c, g; int epochs; };
template <typename S> static Out<S> use(LDA<S> &given, int n, int W, int C, bool neg, bool fit, int passes, bool xform, int salt = 1) {
    LDA<S> l(std::move(given)); // an object that was handed on behaves like the one built
    Out<S> o; auto r = std::make_shared<Rec>(sizeof(S) == 4); l.get_event_dispatcher()->add_listener(r);
    Eigen::MatrixXi X = data(n, W, salt); Eigen::VectorXi y(n); for (int j = 0; j < n; j++) y[j] = neg && j % 3 == 2 ? -1 : (j / 2 + j) % C;
    if (xform) o.g = l.transform(X);
    if (fit) l.fit(X, y); else for (int p = 0; p < passes; p++) l.partial_fit(X, y);
    if (xform && neg) o.g = l.transform(X);
    auto m = l.template model_parameters<Model<S> >(); o.a = m->alpha; o.b = m->beta; o.c = m->eta; o.epochs = r->epochs; o.v = r->e; o.v.push_back(1e9); o.v.insert(o.v.end(), r->m.begin(), r->m.end());
    return o;
}
template <typename S> static bool close(const Eigen::Matrix<S, -1, -1> &a, const Eigen::Matrix<S, -1, -1> &b) { if (a.rows() != b.rows() || a.cols() != b.cols()) return false; for (long i = 0; i < a.size(); i++) if (!seq::close(a.data()[i], b.data()[i], sizeof(S) == 4 ? 1e-4 : 1e-10, sizeof(S) == 4 ? 1e-5 : 1e-11)) return false; return true; }
template <typename S> static const char *differ(const Out<S> &x, const Out<S> &y) {
    if (x.epochs != y.epochs) return "the number of passes"; if (!close<S>(x.a, y.a)) return "the prior"; if (!close<S>(x.b, y.b)) return "the topics"; if (!close<S>(x.c, y.c)) return "the classifier weights"; if (!close<S>(x.g, y.g)) return "the transformed documents";
    if (x.v.size() != y.v.size()) return "the number of events"; for (size_t i = 0; i < x.v.size(); i++) if (!seq::close(x.v[i], y.v[i], sizeof(S) == 4 ? 1e-4 : 1e-9, 1e-6)) return "the reported likelihoods"; return nullptr;
}
template <typename S> static std::shared_ptr<Model<S> > start(int K, int W, int C, bool prob) {
    auto m = std::make_shared<Model<S> >(); m->alpha.resize(K); m->beta.resize(K, W); m->eta.resize(K, C);
    for (int k = 0; k < K; k++) { m->alpha[k] = (S)(0.3 + 0.2 * k); S s = 0; for (int w = 0; w < W; w++) s += (m->beta(k, w) = (S)(1 + (k * 5 + w * 3) % 7)); m->beta.row(k) /= s; s = 0; for (int c = 0; c < C; c++) s += (m->eta(k, c) = prob ? (S)(1 + (k + 2 * c) % 3) : (S)(((k * 3 + c * 2) % 5) * 0.6 - 1)); if (prob) m->eta.row(k) /= s; }
    return m;
}
// ---------------------------------------------------------------- every parameter of every step
// a parameter vector holds the value of each argument; the builder is called with the first `given` of them
struct Par { const char *name; std::vector<double> def, alt; };
enum { S_CLASSIC, S_SUP, S_FAST, S_MULTI, S_CORR, M_CLASSIC, M_FAST, M_SUP, M_SEMI, M_MULTI, M_CORR, M_ON_N, M_ON_V, M_ON_E, NSTEP };
static const Par PAR[] = {
    {"classic e", {10, 1e-2, 1, 0}, {3, 0.3, 0.5, 5}}, {"supervised e", {10, 1e-2, 10, 1, 0}, {3, 0.3, 2, 0.5, 5}}, {"fast supervised e", {10, 1e-2, 1, 1, 0}, {3, 0.3, 0.4, 0.5, 5}},
    {"multinomial e", {10, 1e-2, 2, 1, 1, 0}, {3, 0.3, 3.5, 0.5, 0.5, 5}}, {"correspondence e", {10, 1e-2, 2, 1, 0}, {3, 0.3, 3.5, 0.5, 5}},
    {"classic m", {}, {}}, {"fast supervised m", {10, 1e-2, 1e-2}, {2, 0.2, 0.5}}, {"supervised m", {10, 1e-2, 1e-2}, {2, 0.2, 0.5}}, {"semi-supervised m", {10, 1e-2, 1e-2}, {2, 0.2, 0.5}}, {"multinomial m", {2}, {3.5}}, {"correspondence m", {2}, {3.5}},
    {"online m (classes)", {2, 1e-2, 128, 0.9, 0.01, 0.9}, {3, 0.5, 7, 0.2, 0.4, 0.3}}, {"online m (vector)", {2, 1e-2, 128, 0.9, 0.01, 0.9}, {3, 0.5, 7, 0.2, 0.4, 0.3}}, {"online m (eigen)", {2, 1e-2, 128, 0.9, 0.01, 0.9}, {3, 0.5, 7, 0.2, 0.4, 0.3}}};
template <typename S> static Eigen::Matrix<S, -1, 1> weights(int n) { Eigen::Matrix<S, -1, 1> w(n); for (int i = 0; i < n; i++) w[i] = (S)(0.5 + i); return w; }
template <typename S> static EP<S> ref_e(int s, const std::vector<double> &p) {
    switch (s) {
    case S_CLASSIC: return std::make_shared<em::UnsupervisedEStep<S> >((size_t)p[0], (S)p[1], (S)p[2], (int)p[3]);
    case S_SUP: return std::make_shared<em::SupervisedEStep<S> >((size_t)p[0], (S)p[1], (size_t)p[2], (S)p[3], (int)p[4]);
    case S_FAST: return std::make_shared<em::FastSupervisedEStep<S> >((size_t)p[0], (S)p[1], (S)p[2], em::FastSupervisedEStep<S>::CWeightType::Constant, (S)p[3], (int)p[4]);
    case S_MULTI: return std::make_shared<em::MultinomialSupervisedEStep<S> >((size_t)p[0], (S)p[1], (S)p[2], (S)p[3], (S)p[4], (int)p[5]);
    default: return std::make_shared<em::CorrespondenceSupervisedEStep<S> >((size_t)p[0], (S)p[1], (S)p[2], (S)p[3], (int)p[4]);
    }
}
template <typename S> static MP<S> ref_m(int s, const std::vector<double> &p) {
    switch (s) {
    case M_CLASSIC: return std::make_shared<em::UnsupervisedMStep<S> >();
    case M_FAST: return std::make_shared<em::FastSupervisedMStep<S> >((size_t)p[0], (S)p[1], (S)p[2]);
    case M_SUP: return std::make_shared<em::SupervisedMStep<S> >((size_t)p[0], (S)p[1], (S)p[2]);
    case M_SEMI: return std::make_shared<em::SemiSupervisedMStep<S> >((size_t)p[0], (S)p[1], (S)p[2]);
    case M_MULTI: return std::make_shared<em::MultinomialSupervisedMStep<S> >((S)p[0]);
    case M_CORR: return std::make_shared<em::CorrespondenceSupervisedMStep<S> >((S)p[0]);
    case M_ON_N: return std::make_shared<em::FastOnlineSupervisedMStep<S> >((size_t)p[0], (S)p[1], (size_t)p[2], (S)p[3], (S)p[4], (S)p[5]);
    default: return std::make_shared<em::FastOnlineSupervisedMStep<S> >(weights<S>((int)p[0]), (S)p[1], (size_t)p[2], (S)p[3], (S)p[4], (S)p[5]);
    }
}
// builder call with the first n arguments, either the setter or set_e/set_m of the getter
#define ARGS0(f) f()
#define CALL(name) if (get) set(b.get_##name()); else { if (&b.set_##name() != &b) chain = false; }
template <typename S> static bool call(LDABuilder<S> &b, int s, int n, bool get, const std::vector<double> &p) {
    bool ok = true; auto E = [&](EP<S> e) { ok = ok && &b.set_e(e) == &b; }; auto M = [&](MP<S> m) { ok = ok && &b.set_m(m) == &b; }; auto R = [&](LDABuilder<S> &r) { ok = ok && &r == &b; };
#define ONE(nm, W_, ...) { if (get) W_(b.get_##nm(__VA_ARGS__)); else R(b.set_##nm(__VA_ARGS__)); break; }
    typedef size_t Z; auto f = [&](int i) { return (S)p[i]; }; auto z = [&](int i) { return (Z)p[i]; }; auto d = [&](int i) { return (int)p[i]; };
    std::vector<S> vw; Eigen::Matrix<S, -1, 1> ew; if (s == M_ON_V || s == M_ON_E) { ew = weights<S>((int)p[0]); for (int i = 0; i < ew.size(); i++) vw.push_back(ew[i]); }
    switch (s * 10 + n) {
    case S_CLASSIC * 10 + 0: ONE(classic_e_step, E)
    case S_CLASSIC * 10 + 1: ONE(classic_e_step, E, z(0))
    case S_CLASSIC * 10 + 2: ONE(classic_e_step, E, z(0), f(1))
    case S_CLASSIC * 10 + 3: ONE(classic_e_step, E, z(0), f(1), f(2))
    case S_CLASSIC * 10 + 4: ONE(classic_e_step, E, z(0), f(1), f(2), d(3))
    case S_SUP * 10 + 0: ONE(supervised_e_step, E)
    case S_SUP * 10 + 1: ONE(supervised_e_step, E, z(0))
    case S_SUP * 10 + 2: ONE(supervised_e_step, E, z(0), f(1))
    case S_SUP * 10 + 3: ONE(supervised_e_step, E, z(0), f(1), z(2))
    case S_SUP * 10 + 4: ONE(supervised_e_step, E, z(0), f(1), z(2), f(3))
    case S_SUP * 10 + 5: ONE(supervised_e_step, E, z(0), f(1), z(2), f(3), d(4))
    case S_FAST * 10 + 0: ONE(fast_supervised_e_step, E)
    case S_FAST * 10 + 1: ONE(fast_supervised_e_step, E, z(0))
    case S_FAST * 10 + 2: ONE(fast_supervised_e_step, E, z(0), f(1))
    case S_FAST * 10 + 3: ONE(fast_supervised_e_step, E, z(0), f(1), f(2))
    case S_FAST * 10 + 4: ONE(fast_supervised_e_step, E, z(0), f(1), f(2), f(3))
    case S_FAST * 10 + 5: ONE(fast_supervised_e_step, E, z(0), f(1), f(2), f(3), d(4))
    case S_MULTI * 10 + 0: ONE(multinomial_supervised_e_step, E)
    case S_MULTI * 10 + 1: ONE(multinomial_supervised_e_step, E, z(0))
    case S_MULTI * 10 + 2: ONE(multinomial_supervised_e_step, E, z(0), f(1))
    case S_MULTI * 10 + 3: ONE(multinomial_supervised_e_step, E, z(0), f(1), f(2))
    case S_MULTI * 10 + 4: ONE(multinomial_supervised_e_step, E, z(0), f(1), f(2), f(3))
    case S_MULTI * 10 + 5: ONE(multinomial_supervised_e_step, E, z(0), f(1), f(2), f(3), f(4))
    case S_MULTI * 10 + 6: ONE(multinomial_supervised_e_step, E, z(0), f(1), f(2), f(3), f(4), d(5))
    case S_CORR * 10 + 0: ONE(correspondence_supervised_e_step, E)
    case S_CORR * 10 + 1: ONE(correspondence_supervised_e_step, E, z(0))
    case S_CORR * 10 + 2: ONE(correspondence_supervised_e_step, E, z(0), f(1))
    case S_CORR * 10 + 3: ONE(correspondence_supervised_e_step, E, z(0), f(1), f(2))
    case S_CORR * 10 + 4: ONE(correspondence_supervised_e_step, E, z(0), f(1), f(2), f(3))
    case S_CORR * 10 + 5: ONE(correspondence_supervised_e_step, E, z(0), f(1), f(2), f(3), d(4))
    case M_CLASSIC * 10 + 0: ONE(classic_m_step, M)
    case M_FAST * 10 + 0: ONE(fast_supervised_m_step, M)
    case M_FAST * 10 + 1: ONE(fast_supervised_m_step, M, z(0))
    case M_FAST * 10 + 2: ONE(fast_supervised_m_step, M, z(0), f(1))
    case M_FAST * 10 + 3: ONE(fast_supervised_m_step, M, z(0), f(1), f(2))
    case M_SUP * 10 + 0: ONE(supervised_m_step, M)
    case M_SUP * 10 + 1: ONE(supervised_m_step, M, z(0))
    case M_SUP * 10 + 2: ONE(supervised_m_step, M, z(0), f(1))
    case M_SUP * 10 + 3: ONE(supervised_m_step, M, z(0), f(1), f(2))
    case M_SEMI * 10 + 0: ONE(semi_supervised_m_step, M)
    case M_SEMI * 10 + 1: ONE(semi_supervised_m_step, M, z(0))
    case M_SEMI * 10 + 2: ONE(semi_supervised_m_step, M, z(0), f(1))
    case M_SEMI * 10 + 3: ONE(semi_supervised_m_step, M, z(0), f(1), f(2))
    case M_MULTI * 10 + 0: ONE(multinomial_supervised_m_step, M)
    case M_MULTI * 10 + 1: ONE(multinomial_supervised_m_step, M, f(0))
    case M_CORR * 10 + 0: ONE(correspondence_supervised_m_step, M)
    case M_CORR * 10 + 1: ONE(correspondence_supervised_m_step, M, f(0))
#define ONLINE(st, first) \
    case st * 10 + 1: ONE(fast_supervised_online_m_step, M, first) \
    case st * 10 + 2: ONE(fast_supervised_online_m_step, M, first, f(1)) \
    case st * 10 + 3: ONE(fast_supervised_online_m_step, M, first, f(1), z(2)) \
    case st * 10 + 4: ONE(fast_supervised_online_m_step, M, first, f(1), z(2), f(3)) \
    case st * 10 + 5: ONE(fast_supervised_online_m_step, M, first, f(1), z(2), f(3), f(4)) \
    case st * 10 + 6: ONE(fast_supervised_online_m_step, M, first, f(1), z(2), f(3), f(4), f(5))
    ONLINE(M_ON_N, z(0)) ONLINE(M_ON_V, vw) ONLINE(M_ON_E, ew)
    default: return true;
    }
    return ok;
}
static bool is_e(int s) { return s <= S_CORR; }
// partner of a step for which training is meaningful
static int partner(int s) { switch (s) { case S_CLASSIC: return M_CLASSIC; case S_SUP: return M_SUP; case S_FAST: return M_FAST; case S_MULTI: return M_MULTI; case S_CORR: return M_CORR; case M_CLASSIC: return S_CLASSIC; case M_SUP: return S_SUP; case M_MULTI: return S_MULTI; case M_CORR: return S_CORR; default: return S_FAST; } }
static bool prob(int s) { return s == S_MULTI || s == S_CORR || s == M_MULTI || s == M_CORR; }

// sequence number -> (n given, which of the given are alternative values)
template <typename S> static void params(int s, uint64_t i, seq::Ctx &x) {
    seq::Radix r(i); bool get = r(2); const Par &P = PAR[s]; int np = P.def.size(), lo = s >= M_ON_N ? 1 : 0; int n = lo + r(np - lo + 1); int mask = r(1 << n) , ds = r(3);
    if (r.v) return;
    std::vector<double> p = P.def; for (int k = 0; k < n; k++) if (mask >> k & 1) p[k] = P.alt[k];
    int q = partner(s); std::vector<double> pq = PAR[q].def; int C = s >= M_ON_N ? (int)p[0] : 2 + ds % 2;
    int docs = s >= M_ON_N ? (int)p[2] : 5 + 3 * ds, W = 4, K = 2 + ds % 2;
    if (is_e(q)) pq[0] = 4; if (s >= M_ON_N && ds) return; // minibatches end exactly at the end of each pass
    auto st = start<S>(K, W, C, prob(s)); bool ok = true;
    LDABuilder<S> b; b.set_iterations(3).set_workers(1).initialize_topics_from_model(st).initialize_eta_from_model(st);
    ok = call<S>(b, s, n, get, p); if (is_e(s)) b.set_m(ref_m<S>(q, pq)); else b.set_e(ref_e<S>(q, pq));
    if (!ok) { x.violate("chain", "a builder call does not return the builder"); return; }
    LDA<S> l = b; auto m2 = start<S>(K, W, C, prob(s));
    LDA<S> g(m2, is_e(s) ? ref_e<S>(s, p) : ref_e<S>(q, pq), is_e(s) ? ref_m<S>(q, pq) : ref_m<S>(s, p), 3, 1);
    bool xf = s == S_CLASSIC; auto o1 = use<S>(l, docs, W, C, false, true, 0, xf, 1 + ds), o2 = use<S>(g, docs, W, C, false, true, 0, xf, 1 + ds); x.step();
    if (const char *e = differ<S>(o1, o2)) { std::string a; for (int k = 0; k < n; k++) a += (k ? ", " : "") + std::to_string(p[k]); x.violate(PAR[s].name, "%s step set with (%s)%s: %s differ from a step constructed with exactly those values and the documented defaults", PAR[s].name, a.c_str(), get ? " through its getter" : "", e); }
    x.state(seq::mix(i, s * 2 + (sizeof(S) == 4)));
}
// semi-supervised step: each inner step given or defaulted
template <typename S> static void semi(uint64_t i, seq::Ctx &x) {
    seq::Radix r(i); int sup = r(4), un = r(2), get = r(2), ds = r(3); EP<S> a, b2, ra, rb; std::vector<double> alt = PAR[S_FAST].alt, def = PAR[S_FAST].def, ua = PAR[S_CLASSIC].alt;
    int ss = sup == 1 ? S_FAST : sup == 2 ? S_SUP : S_MULTI; if (sup) { a = ref_e<S>(ss, PAR[ss].alt); ra = ref_e<S>(ss, PAR[ss].alt); } else ra = ref_e<S>(S_FAST, def);
    if (un) { b2 = ref_e<S>(S_CLASSIC, ua); rb = ref_e<S>(S_CLASSIC, ua); } else rb = ref_e<S>(S_CLASSIC, PAR[S_CLASSIC].def);
    bool pr = sup == 3; auto st = start<S>(3, 4, 2, pr), s2 = start<S>(3, 4, 2, pr); LDABuilder<S> b; b.set_iterations(1).set_workers(1).initialize_topics_from_model(st).initialize_eta_from_model(st);
    if (get) b.set_e(un ? b.get_semi_supervised_e_step(a, b2) : sup ? b.get_semi_supervised_e_step(a) : b.get_semi_supervised_e_step()); else un ? b.set_semi_supervised_e_step(a, b2) : sup ? b.set_semi_supervised_e_step(a) : b.set_semi_supervised_e_step();
    if (pr) b.set_m(ref_m<S>(M_CLASSIC, {})); else b.set_semi_supervised_m_step(); LDA<S> l = b; LDA<S> g(s2, std::make_shared<em::SemiSupervisedEStep<S> >(ra, rb), pr ? ref_m<S>(M_CLASSIC, {}) : ref_m<S>(M_SEMI, PAR[M_SEMI].def), 1, 1);
    auto o1 = use<S>(l, 6 + 3 * ds, 4, 2, true, true, 0, false, 3 + ds), o2 = use<S>(g, 6 + 3 * ds, 4, 2, true, true, 0, false, 3 + ds); x.step(); if (const char *e = differ<S>(o1, o2)) x.violate("inner", "semi-supervised step with %s supervised and %s unsupervised inner step: %s differ", sup ? "a given" : "the default", un ? "a given" : "the default", e); x.state(i);
}
// ---------------------------------------------------------------- sequences of calls
// custom steps the builder knows nothing about
static int custom_e_calls, custom_m_calls;
template <typename S> struct CustomE : em::UnsupervisedEStep<S> { CustomE() : em::UnsupervisedEStep<S>(1, 0, 0, 0) {} std::shared_ptr<parameters::Parameters> doc_e_step(const std::shared_ptr<corpus::Document> d, const std::shared_ptr<parameters::Parameters> p) override { __atomic_fetch_add(&custom_e_calls, 1, __ATOMIC_SEQ_CST); return em::UnsupervisedEStep<S>::doc_e_step(d, p); } };
template <typename S> struct CustomM : em::UnsupervisedMStep<S> { void m_step(std::shared_ptr<parameters::Parameters> p) override { custom_m_calls++; em::UnsupervisedMStep<S>::m_step(p); } };
enum { O_E0, O_ESEMI = O_E0 + 5, O_ECUSTOM, O_M0, O_MCUSTOM = O_M0 + 7, O_RANDOM, O_SEEDED, O_TMODEL, O_ZEROS, O_UNIFORM, O_EMODEL, O_EEMPTY, O_ITER2, O_ITER0, O_WORK, NOPS };
static const char *opname(int o) { static const char *n[] = {"set_classic_e", "set_supervised_e", "set_fast_supervised_e", "set_multinomial_e", "set_correspondence_e", "set_semi_supervised_e", "set_e(custom)", "set_classic_m", "set_fast_supervised_m", "set_supervised_m", "set_semi_supervised_m", "set_multinomial_m", "set_correspondence_m", "set_online_m", "set_m(custom)", "topics_random", "topics_seeded", "topics_from_model", "eta_zeros", "eta_uniform", "eta_from_model", "eta_from_model(empty)", "iterations(2)", "iterations(0)", "workers(2)"}; return n[o]; }
struct Ref { int e = S_CLASSIC, m = M_CLASSIC, topics = -1, eta = -1, iters = 20, K = 0, etaK = 0; bool custom_e = false, custom_m = false, semi = false; };
template <typename S> static bool step(LDABuilder<S> &b, Ref &r, int o, seq::Ctx &x, const std::string &hist) {
    const int W = 3; bool threw = false, expect = false;
    try {
        if (o < O_ESEMI) { call<S>(b, o - O_E0, 0, false, {}); r.e = o - O_E0; r.custom_e = r.semi = false; }
        else if (o == O_ESEMI) { b.set_semi_supervised_e_step(); r.e = S_FAST; r.custom_e = false; r.semi = true; }
        else if (o == O_ECUSTOM) { b.set_e(std::make_shared<CustomE<S> >()); r.custom_e = true; r.semi = false; r.e = S_CLASSIC; }
        else if (o < O_MCUSTOM) { r.m = M_CLASSIC + o - O_M0; r.custom_m = false; if (r.m == M_ON_N) b.set_fast_supervised_online_m_step((size_t)2); else call<S>(b, r.m, 0, false, {}); }
        else if (o == O_MCUSTOM) { b.set_m(std::make_shared<CustomM<S> >()); r.custom_m = true; r.m = M_CLASSIC; }
        else if (o == O_RANDOM) { b.initialize_topics_random(W, 2, 3); r.topics = o; r.K = 2; }
        else if (o == O_SEEDED) { b.initialize_topics_seeded(data(5, W, 2), 3, 2, 1); r.topics = o; r.K = 3; }
        else if (o == O_TMODEL) { b.initialize_topics_from_model(start<S>(2, W, 2, false)); r.topics = o; r.K = 2; }
        else if (o == O_ZEROS || o == O_UNIFORM) { expect = r.topics < 0; if (o == O_ZEROS) b.initialize_eta_zeros(2); else b.initialize_eta_uniform(2); r.eta = o; r.etaK = r.K; }
        else if (o == O_EMODEL) { int K = r.K ? r.K : 2; b.initialize_eta_from_model(start<S>(K, W, 2, true)); r.eta = o; r.etaK = K; }
        else if (o == O_EEMPTY) { b.initialize_eta_from_model(std::make_shared<Model<S> >()); r.eta = -1; r.etaK = 0; }
        else if (o == O_ITER2 || o == O_ITER0) { b.set_iterations(o == O_ITER2 ? 2 : 0); r.iters = o == O_ITER2 ? 2 : 0; }
        else b.set_workers(2);
    } catch (const std::exception &) { threw = true; }
    x.step(); if (threw != expect) { x.violate("call", "%s %s", hist.c_str(), threw ? "raises an error" : "is accepted before the topics are initialised"); return false; }
    bool needs = (!r.custom_e && (r.e != S_CLASSIC || r.semi)) || (!r.custom_m && r.m != M_CLASSIC); bool built = true; expect = r.topics >= 0 && (!needs || r.eta >= 0);
    try { LDA<S> l = b; } catch (const std::exception &) { built = false; }
    if (built != expect) { x.violate("build", "after %s the builder %s", hist.c_str(), built ? "builds an incomplete model" : "refuses a complete model"); return false; }
    return true;
}
template <typename S> static std::shared_ptr<Model<S> > refmodel(const Ref &r) {
    const int W = 3; LDABuilder<S> t; if (r.topics == O_RANDOM) t.initialize_topics_random(W, 2, 3); else if (r.topics == O_SEEDED) t.initialize_topics_seeded(data(5, W, 2), 3, 2, 1); else t.initialize_topics_from_model(start<S>(2, W, 2, false));
    auto m = std::make_shared<Model<S> >(*LDA<S>(t).template model_parameters<Model<S> >());
    if (r.eta == O_ZEROS) m->eta = Eigen::Matrix<S, -1, -1>::Zero(r.etaK, 2); else if (r.eta == O_UNIFORM) m->eta = Eigen::Matrix<S, -1, -1>::Constant(r.etaK, 2, (S)0.5); else if (r.eta == O_EMODEL) m->eta = start<S>(r.etaK, W, 2, true)->eta; else m->eta.resize(0, 0);
    return m;
}
template <typename S> static void sequence(const std::vector<int> &ops, seq::Ctx &x, bool train) {
    LDABuilder<S> b; b.set_workers(1); Ref r; std::string hist; uint64_t h = sizeof(S);
    for (int o : ops) { hist += (hist.empty() ? "" : ", ") + std::string(opname(o)); if (!step<S>(b, r, o, x, hist)) return; h = seq::mix(h, o); }
    x.state(h); bool needs = (!r.custom_e && (r.e != S_CLASSIC || r.semi)) || (!r.custom_m && r.m != M_CLASSIC);
    if (r.topics < 0 || (needs && r.eta < 0)) return;
    b.set_workers(1); LDA<S> l = b; auto m = refmodel<S>(r), g = l.template model_parameters<Model<S> >();
    if (!close<S>(g->alpha, m->alpha) || !close<S>(g->beta, m->beta) || !close<S>(g->eta, m->eta)) { x.violate("model", "after %s the object does not start from the parameters asked for", hist.c_str()); return; }
    if (!train) return;
    // behaviour, where the steps work together and the weights fit the topics
    if (r.eta >= 0 && r.etaK != r.K) return; if (r.m == M_CORR && r.e != S_CORR) return; if ((prob(r.e) || prob(r.m)) && r.eta == O_ZEROS) return; if (prob(r.e) != prob(r.m) && needs && r.e != S_CLASSIC && r.m != M_CLASSIC) return;
    if (r.eta < 0 && (r.e != S_CLASSIC || r.m != M_CLASSIC)) return;
    EP<S> e = r.custom_e ? std::make_shared<CustomE<S> >() : r.semi ? std::make_shared<em::SemiSupervisedEStep<S> >(ref_e<S>(S_FAST, PAR[S_FAST].def), ref_e<S>(S_CLASSIC, PAR[S_CLASSIC].def)) : ref_e<S>(r.e, PAR[r.e].def);
    MP<S> mm = r.custom_m ? std::make_shared<CustomM<S> >() : ref_m<S>(r.m, PAR[r.m].def);
    LDA<S> q(m, e, mm, r.iters, 1); bool semi = r.semi && (r.m == M_SEMI || r.m == M_CLASSIC);
    if (r.semi && !semi) { /* labelled documents only */ }
    custom_e_calls = custom_m_calls = 0; auto o1 = use<S>(l, 4, 3, 2, semi, true, 0, r.e == S_CLASSIC); int ce = custom_e_calls, cm = custom_m_calls; custom_e_calls = custom_m_calls = 0; auto o2 = use<S>(q, 4, 3, 2, semi, true, 0, r.e == S_CLASSIC); x.step(2);
    if (ce != custom_e_calls || cm != custom_m_calls) { x.violate("custom", "after %s the custom steps are called %d/%d times instead of %d/%d", hist.c_str(), ce, cm, custom_e_calls, custom_m_calls); return; }
    if (o1.epochs != r.iters) { x.violate("iterations", "after %s training runs %d passes instead of %d", hist.c_str(), o1.epochs, r.iters); return; }
    if (const char *d = differ<S>(o1, o2)) x.violate("behaviour", "after %s: %s differ from an object made directly from those choices", hist.c_str(), d);
}
// ---------------------------------------------------------------- number of workers
struct Gate : em::UnsupervisedEStep<double> { std::mutex mu; int in = 0, peak = 0, want; bool late = false; explicit Gate(int w) : want(w) {}
    std::shared_ptr<parameters::Parameters> doc_e_step(const std::shared_ptr<corpus::Document> d, const std::shared_ptr<parameters::Parameters> p) override { { std::lock_guard<std::mutex> l(mu); in++; peak = std::max(peak, in); } for (int k = 0; ; k++) { { std::lock_guard<std::mutex> l(mu); if (k > 10000) late = true; if (late || peak > want || (peak == want && k > 20)) break; } std::this_thread::sleep_for(std::chrono::milliseconds(1)); } { std::lock_guard<std::mutex> l(mu); in--; } return em::UnsupervisedEStep<double>::doc_e_step(d, p); } };
static void workers(int n, int moves, seq::Ctx &x) {
    int want = n ? n : (int)std::thread::hardware_concurrency(); if (want < 1) return; auto g = std::make_shared<Gate>(want); LDABuilder<double> b; if (n) b.set_workers(n); b.set_e(g); b.set_iterations(n + 1); b.initialize_topics_random(3, 2); std::unique_ptr<LDA<double> > own(new LDA<double>(b)); for (int q = 0; q < moves; q++) own.reset(new LDA<double>(std::move(*own))); LDA<double> &l = *own; Eigen::MatrixXi X = data(want * 2 + 2, 3, 1); l.transform(X); x.step(); if (g->peak != want) x.violate("workers", "%d workers asked for, %d documents are processed at a time", want, g->peak); int passes = 0; l.get_event_dispatcher()->add_listener([&](std::shared_ptr<events::Event> e) { if (e->id() == "EpochProgressEvent") passes++; }); l.fit(data(2, 3, 1)); if (passes != n + 1) x.violate("iterations", "%d iterations asked for, %d performed by an object moved %d times", n + 1, passes, moves); x.state(n * 4 + moves);
}
static uint64_t ipow(uint64_t b, int e) { uint64_t r = 1; while (e--) r *= b; return r; }
int main(int argc, char **argv) {
    bool th = seq::thorough(argc, argv); std::vector<seq::Space> s;
    for (int st = 0; st < NSTEP; st++) { int np = PAR[st].def.size(), lo = st >= M_ON_N ? 1 : 0; uint64_t n = 2ull * (np - lo + 1) * (1 << np) * 3;
        // the case number is decoded with a radix that depends on the number of given arguments; unused codes do nothing
        s.push_back({"params-" + std::to_string(st), n, [=](uint64_t i, seq::Ctx &x) { params<double>(st, i, x); if (th || i % 4 == 1) params<float>(st, i, x); }, nullptr, 60}); }
    s.push_back({"semi-inner", 4 * 2 * 2 * 3, [](uint64_t i, seq::Ctx &x) { semi<double>(i, x); semi<float>(i, x); }, nullptr, 60});
    int D = th ? 4 : 3;
    s.push_back({"sequences", ipow(NOPS, D), [=](uint64_t i, seq::Ctx &x) { seq::Radix r(i); std::vector<int> o; for (int k = 0; k < D; k++) o.push_back(r(NOPS)); sequence<double>(o, x, true); if (i % 3 == 0) sequence<float>(o, x, false); }, nullptr, 60});
    // two expectation choices and two maximisation choices after a complete model, in every order
    s.push_back({"complete-then", 3 * 3 * ipow(15, th ? 3 : 2), [=](uint64_t i, seq::Ctx &x) { seq::Radix r(i); std::vector<int> o; o.push_back(O_RANDOM + r(3)); o.push_back(O_ITER2); o.push_back(O_ZEROS + r(3)); for (int k = 0; k < (th ? 3 : 2); k++) o.push_back(r(15)); sequence<double>(o, x, true); if (i % 5 == 0) sequence<float>(o, x, true); }, nullptr, 60});
    s.push_back({"deep-flags", ipow(10, th ? 6 : 5), [=](uint64_t i, seq::Ctx &x) { static const int A[] = {O_E0, O_E0 + 2, O_ESEMI, O_ECUSTOM, O_M0, O_M0 + 1, O_MCUSTOM, O_RANDOM, O_ZEROS, O_EEMPTY}; seq::Radix r(i); std::vector<int> o; for (int k = 0; k < (th ? 6 : 5); k++) o.push_back(A[r(10)]); sequence<double>(o, x, false); }, nullptr, 60});
    s.push_back({"workers", 3 * 9, [](uint64_t i, seq::Ctx &x) { static const int N[] = {1, 2, 3, 5, 8, 13, 0, 40, 257}; workers(N[i / 3], i % 3, x); }, nullptr, 60});
    return seq::run(argc, argv, "C21", s);
}
