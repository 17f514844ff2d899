// C22: valid initialisation; equal seeds give bit-identical runs whatever memory held.
#include <dlfcn.h>
#include <pthread.h>
#include <set>
#include "real.hpp"
#include "ldaplusplus/LDABuilder.hpp"
#include "ldaplusplus/em/FastOnlineSupervisedMStep.hpp"

// every allocation and every stack starts with the current pattern
static unsigned char pattern = 0;
extern "C" void *__libc_malloc(size_t); extern "C" void *__libc_memalign(size_t, size_t);
extern "C" void *malloc(size_t n) { void *p = __libc_malloc(n); if (p && pattern) memset(p, pattern, n); return p; }
extern "C" void *memalign(size_t a, size_t n) { void *p = __libc_memalign(a, n); if (p && pattern) memset(p, pattern, n); return p; }
extern "C" void *aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
extern "C" int posix_memalign(void **o, size_t a, size_t n) { *o = memalign(a, n); return *o ? 0 : 12; }
__attribute__((noinline)) static void dirty() { char b[1 << 17]; memset(b, pattern, sizeof b); __asm__ volatile("" ::"r"(b) : "memory"); }
struct Start { void *(*f)(void *); void *a; };
static void *begin(void *q) { Start s = *(Start *)q; free(q); dirty(); return s.f(s.a); }
extern "C" int pthread_create(pthread_t *t, const pthread_attr_t *at, void *(*f)(void *), void *a) {
    static int (*real)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *) = (int (*)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *))dlsym(RTLD_NEXT, "pthread_create");
    Start *s = (Start *)__libc_malloc(sizeof(Start)); s->f = f; s->a = a; return real(t, at, begin, s);
}
using namespace real;

struct Rec : events::EventListenerInterface { bool f; uint64_t e = 1, m = 2, n = 0; explicit Rec(bool f) : f(f) {}
    static uint64_t bits(double v) { if (v != v) return 7; uint64_t b; memcpy(&b, &v, 8); return b; }
    template <typename S> void take(std::shared_ptr<events::Event> v) { if (v->id() == "ExpectationProgressEvent") { e = seq::mix(e, bits(std::static_pointer_cast<events::ExpectationProgressEvent<S> >(v)->likelihood())); n++; } else if (v->id() == "MaximizationProgressEvent") m = seq::mix(m, bits(std::static_pointer_cast<events::MaximizationProgressEvent<S> >(v)->likelihood())); else n += 1000; }
    void on_event(std::shared_ptr<events::Event> v) override { if (f) take<float>(v); else take<double>(v); } };
template <typename D> static uint64_t hash(const Eigen::DenseBase<D> &m, uint64_t h) { h = seq::mix(seq::mix(h, m.rows()), m.cols()); for (long j = 0; j < m.cols(); j++) for (long i = 0; i < m.rows(); i++) h = seq::mix(h, Rec::bits((double)m.derived()(i, j))); return h; }

enum { ALG_ONLINE = NPAIR, ALG_BUILDER, NALGS };
struct Plan { int alg, init, seed, frac; std::vector<int> ops; };
static const double FR[] = {1, 0.5, 0};
template <typename S> static std::shared_ptr<LDA<S> > make(const Plan &p, const Eigen::MatrixXi &X) {
    int pair = p.alg >= NPAIR ? (int)P_FAST : p.alg; Opt o; o.likelihood = FR[p.frac]; o.seed = p.seed; o.iters = 4; o.tol = 1e-2; o.miters = 3; o.mtol = 1e-2;
    LDABuilder<S> b; b.set_workers(1).set_iterations(2);
    if (p.init == 0) b.initialize_topics_random(X.rows(), 2, p.seed); else if (p.init == 1) b.initialize_topics_seeded(X, 2, 3, p.seed); else if (p.init == 2) b.initialize_topics_seeded(std::make_shared<corpus::EigenCorpus>(X, p.seed), 3, 30, p.seed); else b.initialize_topics_from_model(params<S>(model(pair)));
    if (prob(pair) || p.seed % 2) b.initialize_eta_uniform(2); else b.initialize_eta_zeros(2);
    if (p.alg == ALG_BUILDER) { switch (p.seed % 4) { case 0: b.set_fast_supervised_e_step(3, 1e-2, 1, FR[p.frac], p.seed); b.set_fast_supervised_m_step(); break; case 1: b.set_semi_supervised_e_step(); b.set_semi_supervised_m_step(); break; case 2: b.set_multinomial_supervised_e_step(); b.set_multinomial_supervised_m_step(); b.initialize_eta_uniform(2); break; default: b.set_supervised_e_step(); b.set_supervised_m_step(); } }
    else { b.set_e(estep<S>(pair, o)); if (p.alg == ALG_ONLINE) b.set_fast_supervised_online_m_step((size_t)2, (S)1e-2, (size_t)4, (S)0.9, (S)0.1, (S)0.5); else b.set_m(mstep<S>(pair, o)); }
    return std::make_shared<LDA<S> >((LDA<S>)b);
}
// everything observable of one run of a plan
template <typename S> static uint64_t run(const Plan &p, unsigned char pat, std::vector<uint64_t> &trail, bool twin = false) {
    pattern = pat; dirty(); uint64_t h = 1; int pair = p.alg >= NPAIR ? (int)P_FAST : p.alg; const int N = 4; Eigen::MatrixXi X = docs(N), Z = docs(N, 3, 5); Eigen::VectorXi y = labels(p.alg == ALG_BUILDER && p.seed % 4 == 1 ? P_SEMI : pair, N);
    // with a twin: another object of the same plan, made first, does a pass before every call
    { std::shared_ptr<LDA<S> > w; if (twin) w = make<S>(p, X); auto l = make<S>(p, X); auto r = std::make_shared<Rec>(sizeof(S) == 4); l->get_event_dispatcher()->add_listener(r);
      bool cls = p.alg == P_UNSUP;   // only this expectation step works without classes
      for (int o : p.ops) {
        if (w) w->partial_fit(X, y);
        switch (o) { case 0: l->partial_fit(X, y); break; case 1: l->fit(X, y); break; case 2: l->partial_fit(Z, y); break;
        case 3: if (cls) h = hash(l->transform(X), h); break; case 4: if (cls) { h = hash(l->decision_function(Z), h); h = hash(l->predict(X), h); auto t = l->transform_predict(X); h = hash(std::get<0>(t), h); h = hash(std::get<1>(t), h); } break; default: if (p.alg == P_UNSUP) l->fit(X); else l->partial_fit(std::make_shared<corpus::EigenClassificationCorpus>(X, y, p.seed + 9)); }
        auto m = l->template model_parameters<parameters::SupervisedModelParameters<S> >(); h = hash(m->alpha, h); h = hash(m->beta, h); h = hash(m->eta, h); h = seq::mix(seq::mix(seq::mix(h, r->e), r->m), r->n); trail.push_back(h); } }
    pattern = 0; return h;
}
static std::string name(const Plan &p) { return std::string(p.alg < NPAIR ? pair_name(p.alg) : p.alg == ALG_ONLINE ? "online" : "builder defaults") + " init " + std::to_string(p.init) + " seed " + std::to_string(p.seed) + " fraction " + std::to_string(FR[p.frac]); }
template <typename S> static void repeat(const Plan &p, seq::Ctx &x) {
    static const unsigned char PAT[] = {0, 0xff, 0x41, 0xbe}; std::vector<uint64_t> first;
    for (int k = 0; k < 4; k++) { std::vector<uint64_t> t; 
        if (k == 2) { Plan q = p; q.alg = (p.alg + 3) % NPAIR; q.seed = p.seed + 1; std::vector<uint64_t> u; run<S>(q, 0x7f, u); }   // something else runs in between
        run<S>(p, PAT[k], t, k == 3); x.step(t.size()); if (!k) { first = t; for (auto v : t) x.state(v); } else if (t != first) { size_t j = 0; while (t[j] == first[j]) j++; x.violate("repeat", "%s (%s): repetition %d differs after call %zu (operation %d)", name(p).c_str(), sizeof(S) == 4 ? "float" : "double", k, j, p.ops[j]); return; } }
}
// ---------------------------------------------------------------- initial parameters
template <typename S> static bool dist(const Eigen::Matrix<S, -1, -1> &b, int K, int W, bool pos) { if (b.rows() != K || b.cols() != W) return false; for (int k = 0; k < K; k++) { double s = 0; for (int w = 0; w < W; w++) { double v = b(k, w); if (!(pos ? v > 0 : v >= 0) || !(v <= 1 + 1e-6)) return false; s += v; } if (std::fabs(s - 1) > (sizeof(S) == 4 ? 1e-4 : 1e-11)) return false; } return true; }
template <typename S> static std::shared_ptr<parameters::SupervisedModelParameters<S> > built(LDABuilder<S> &b) { LDA<S> l = b; return l.template model_parameters<parameters::SupervisedModelParameters<S> >(); }
template <typename S> static bool prior(const Eigen::Matrix<S, -1, 1> &a, int K) { if (a.size() != K) return false; for (int k = 0; k < K; k++) if (!seq::close(a[k], 1.0 / K, sizeof(S) == 4 ? 1e-6 : 1e-14)) return false; return true; }
// each document is `scale` occurrences of its own word, so that the draws can be read off the topics
template <typename S> static void seeded(int nd, int K, int N, int scale, bool labelled, seq::Ctx &x) {
    Eigen::MatrixXi X = Eigen::MatrixXi::Zero(nd + 1, nd); for (int j = 0; j < nd; j++) X(j, j) = scale; Eigen::VectorXi y = Eigen::VectorXi::Zero(nd); std::set<int> drawn; bool differ = false; uint64_t h0 = 0; bool seeddiff = false;
    for (int sd = 0; sd < 12; sd++) for (int form = 0; form < 3; form++) { LDABuilder<S> b; std::shared_ptr<corpus::Corpus> c; if (labelled) c = std::make_shared<corpus::EigenClassificationCorpus>(X, y, sd); else c = std::make_shared<corpus::EigenCorpus>(X, sd);
        pattern = form == 1 ? 0xff : 0; if (form == 2) { c->shuffle(); b.initialize_topics_seeded(c, K, N, sd); } else if (form == 1 && N == 30 && sd == 0) b.initialize_topics_seeded(X, K); else if (form == 1) b.initialize_topics_seeded(X, K, N, sd); else b.initialize_topics_seeded(c, K, N, sd); auto m = built<S>(b); pattern = 0; x.step();
        if (!prior<S>(m->alpha, K)) { x.violate("prior", "the prior is not one over the %d topics", K); return; }
        if (!dist<S>(m->beta, K, nd + 1, true)) { x.violate("topics", "seeded topics are no probability distributions with positive entries"); return; }
        uint64_t h = 1;
        for (int k = 0; k < K; k++) { double tot = nd + 1.0 + (double)N * scale; long sum = 0; std::string row; for (int w = 0; w <= nd; w++) { double n = (m->beta(k, w) * tot - 1) / scale; long r = std::lround(n); h = seq::mix(h, r); if (std::fabs(n - r) > (sizeof(S) == 4 ? 0.02 : 1e-6) || r < 0 || (w == nd && r)) { x.violate("seeded", "topic %d with %d draws from %d documents has weight %g of word %d, which no set of documents gives", k, N, nd, (double)m->beta(k, w), w); return; } sum += r; if (r) drawn.insert(w); }
            if (sum != N) { x.violate("draws", "topic %d is made of %ld documents instead of %d", k, sum, N); return; } if (k && (m->beta.row(k) - m->beta.row(0)).cwiseAbs().maxCoeff() > 1e-6) differ = true; }
        if (form == 0) { if (!sd) h0 = h; else if (h != h0) seeddiff = true; } x.state(seq::mix(seq::mix(h, nd * 100 + K), N)); }
    if (N >= 3 && nd > 1 && K * N >= 9 && (int)drawn.size() != nd) x.violate("coverage", "only %zu of %d documents are ever drawn in %d draws", drawn.size(), nd, 36 * K * N);
    if (N >= 3 && nd > 1 && K > 1 && !differ) x.violate("same-topics", "all topics are made of the same documents for every seed"); if (N >= 3 && nd > 1 && !seeddiff) x.violate("seed", "the seed makes no difference");
}
// many documents, topics and draws: read the draws off the topics, every document must be reachable
template <typename S> static void seeded_large(int nd, int K, int N, bool labelled, seq::Ctx &x) {
    Eigen::MatrixXi X = Eigen::MatrixXi::Zero(nd + 1, nd); for (int j = 0; j < nd; j++) X(j, j) = 3; Eigen::VectorXi y = Eigen::VectorXi::Zero(nd); std::set<int> drawn; long draws = 0; int reps = 1 + 20 * nd / (K * N + 1); if (reps > 60) reps = 60;
    for (int sd = 0; sd < reps; sd++) { LDABuilder<S> b; std::shared_ptr<corpus::Corpus> c; if (labelled) c = std::make_shared<corpus::EigenClassificationCorpus>(X, y, sd); else c = std::make_shared<corpus::EigenCorpus>(X, sd); b.initialize_topics_seeded(c, K, N, sd); auto m = built<S>(b); x.step(); draws += K * N;
        if (!prior<S>(m->alpha, K)) { x.violate("prior", "the prior is not one over the %d topics", K); return; } if (!dist<S>(m->beta, K, nd + 1, true)) { x.violate("topics", "seeded topics are no probability distributions with positive entries"); return; }
        for (int k = 0; k < K; k++) { double tot = nd + 1.0 + 3.0 * N; long sum = 0; for (int w = 0; w <= nd; w++) { double n = (m->beta(k, w) * tot - 1) / 3; long r = std::lround(n); if (std::fabs(n - r) > 1e-6 || r < 0 || (w == nd && r)) { x.violate("seeded", "topic %d with %d draws from %d documents has weight %g of word %d, which no set of documents gives", k, N, nd, (double)m->beta(k, w), w); return; } sum += r; if (r) drawn.insert(w); }
            if (sum != N) { x.violate("draws", "topic %d is made of %ld documents instead of %d", k, sum, N); return; } } x.state(hash(m->beta, sd)); }
    // with 20 draws per document a reachable one is missed with probability e^-20
    if (draws >= 20L * nd && (int)drawn.size() != nd) x.violate("coverage", "only %zu of %d documents are ever drawn in %ld draws", drawn.size(), nd, draws);
}
template <typename S> static void randomised(int W, int K, seq::Ctx &x) {
    Eigen::Matrix<S, -1, -1> first; bool seeddiff = false, rowdiff = false; for (int sd = 0; sd < 8; sd++) { LDABuilder<S> b, c; pattern = 0xff; if (sd) b.initialize_topics_random(W, K, sd); else b.initialize_topics_random(W, K); pattern = 0; c.initialize_topics_random(W + 1, 2, 99); c.initialize_topics_random(W, K, sd); auto m = built<S>(b), n = built<S>(c); x.step(2);
        if (!prior<S>(m->alpha, K)) x.violate("prior", "the prior is not one over the %d topics", K); if (!dist<S>(m->beta, K, W, false)) { x.violate("topics", "random topics are no probability distributions"); return; } if (m->beta != n->beta || m->alpha != n->alpha) { x.violate("repeat", "equal seeds give different random topics"); return; }
        if (!sd) first = m->beta; else if (m->beta != first) seeddiff = true; if (K > 1 && m->beta.row(0) != m->beta.row(1)) rowdiff = true; x.state(hash(m->beta, 3)); }
    if (W > 1 && !seeddiff) x.violate("seed", "the seed makes no difference to random topics"); if (W > 1 && K > 1 && !rowdiff) x.violate("same-topics", "random topics are all alike");
}
template <typename S> static void weights(int K, int C, seq::Ctx &x) {
    for (int twice = 0; twice < 2; twice++) { LDABuilder<S> b; pattern = 0xff; b.initialize_topics_random(3, K); if (twice) b.initialize_eta_uniform(C + 2); b.initialize_eta_zeros(C); auto z = built<S>(b)->eta; LDABuilder<S> c; c.initialize_topics_random(3, K); if (twice) c.initialize_eta_zeros(C + 1); c.initialize_eta_uniform(C); auto u = built<S>(c)->eta; pattern = 0; x.step(2);
        if (z.rows() != K || z.cols() != C || !(z.array() == 0).all()) x.violate("zeros", "classifier weights for %d topics and %d classes are not zero", K, C); if (u.rows() != K || u.cols() != C) x.violate("uniform", "shape"); else for (int i = 0; i < u.size(); i++) if (!seq::close(u.data()[i], 1.0 / C, sizeof(S) == 4 ? 1e-6 : 1e-14)) { x.violate("uniform", "uniform weights for %d classes are %g", C, (double)u.data()[i]); return; }
        x.state(K * 100 + C); }
}
static uint64_t ipow(uint64_t b, int e) { uint64_t r = 1; while (e--) r *= b; return r; }
int main(int argc, char **argv) {
    bool th = seq::thorough(argc, argv); std::vector<seq::Space> s; int D = th ? 3 : 2;
    s.push_back({"repeat", ipow(6, D) * NALGS * 4 * 4 * 3, [=](uint64_t i, seq::Ctx &x) { seq::Radix r(i); Plan p; p.alg = r(NALGS); p.init = r(4); p.seed = r(4); p.frac = r(3); for (int k = 0; k < D; k++) p.ops.push_back(r(6)); if (i % 2 || th) repeat<double>(p, x); if (i % 2 == 0 || th) repeat<float>(p, x); }, nullptr, 60});
    s.push_back({"repeat-long", NALGS * 4 * 4, [=](uint64_t i, seq::Ctx &x) { seq::Radix r(i); Plan p; p.alg = r(NALGS); p.init = r(4); p.seed = r(4); p.frac = 1; for (int k = 0; k < (th ? 40 : 12); k++) p.ops.push_back((k * 5 + p.seed) % 6); repeat<double>(p, x); repeat<float>(p, x); }, nullptr, 60});
    s.push_back({"seeded", 6 * 4 * 9 * 2 * 2, [](uint64_t i, seq::Ctx &x) { static const int NS[] = {0, 1, 2, 3, 5, 17, 30, 100, 5000}; seq::Radix r(i); int nd = r(6) + 1, K = r(4) + 1, N = NS[r(9)], sc = r(2) ? 7 : 1; bool lab = r(2); seeded<double>(nd, K, N, sc, lab, x); seeded<float>(nd, K, N, sc, lab, x); }, nullptr, 60});
    s.push_back({"random", 40 * 12, [](uint64_t i, seq::Ctx &x) { seq::Radix r(i); int W = r(40) + 1, K = r(12) + 1; randomised<double>(W, K, x); randomised<float>(W, K, x); }, nullptr, 60});
    s.push_back({"weights", 20 * 20, [](uint64_t i, seq::Ctx &x) { seq::Radix r(i); int K = r(20) + 1, C = r(20) + 1; weights<double>(K, C, x); weights<float>(K, C, x); }, nullptr, 60});
    // larger corpora, vocabularies, numbers of topics, draws and classes
    s.push_back({"seeded-large", 7 * 4 * 4 * 2, [](uint64_t i, seq::Ctx &x) { static const int ND[] = {16, 33, 64, 100, 130, 257, 300}, KS[] = {1, 5, 16, 33}, NS[] = {1, 30, 129, 300}; seq::Radix r(i); int nd = ND[r(7)], K = KS[r(4)], N = NS[r(4)]; bool lab = r(2); seeded_large<double>(nd, K, N, lab, x); }, nullptr, 60});
    s.push_back({"random-large", 7 * 6, [](uint64_t i, seq::Ctx &x) { static const int WS[] = {1, 41, 64, 129, 300, 1025, 5000}, KS[] = {1, 2, 13, 65, 129, 300}; seq::Radix r(i); int W = WS[r(7)], K = KS[r(6)]; if (W * K > 300000) K = 20; randomised<double>(W, K, x); randomised<float>(W, K, x); }, nullptr, 60});
    s.push_back({"weights-large", 6 * 6, [](uint64_t i, seq::Ctx &x) { static const int L[] = {1, 21, 33, 129, 257, 400}; seq::Radix r(i); int K = L[r(6)], C = L[r(6)]; weights<double>(K, C, x); weights<float>(K, C, x); }, nullptr, 60});
    return seq::run(argc, argv, "C22", s);
}
