// C06: fitting is equivalent to that many partial fits over one corpus: same
// document order seen with one worker, same model.
#include "real.hpp"
using namespace real;
struct Order { std::vector<std::vector<int> > seen; };
template <typename S> struct SpyM : em::MStepInterface<S> {
    std::shared_ptr<em::MStepInterface<S> > in; std::vector<std::vector<int> > *out; std::vector<int> cur;
    void doc_m_step(const std::shared_ptr<corpus::Document> d, const std::shared_ptr<parameters::Parameters> v, std::shared_ptr<parameters::Parameters> m) override { auto &w = d->get_words(); cur.push_back(w[0] * 10 + w[1]); in->doc_m_step(d, v, m); }
    void m_step(std::shared_ptr<parameters::Parameters> m) override { out->push_back(cur); cur.clear(); in->m_step(m); }
};
template <typename S> static void run(int pair, int N, int it, bool labelled, seq::Ctx &x) {
    Opt o; Model m0 = model(pair); Eigen::MatrixXi X = real::docs(N); for (int j = 0; j < N; j++) { X(0, j) = j + 1; X(1, j) = j % 7; } auto y = labels(pair, N);
    std::vector<std::vector<int> > a, b;
    auto p = params<S>(m0), q = params<S>(m0);
    { auto m = std::make_shared<SpyM<S> >(); m->in = mstep<S>(pair, o); m->out = &a; LDA<S> lda(p, estep<S>(pair, o), m, it, 1); if (labelled) lda.fit(X, y); else lda.fit(X); x.step(N * it); }
    { auto m = std::make_shared<SpyM<S> >(); m->in = mstep<S>(pair, o); m->out = &b; LDA<S> lda(q, estep<S>(pair, o), m, it, 1);
      std::shared_ptr<corpus::Corpus> c; if (labelled) c = std::make_shared<corpus::EigenClassificationCorpus>(X, y); else c = std::make_shared<corpus::EigenCorpus>(X);
      for (int i = 0; i < it; i++) { lda.partial_fit(c); x.step(N); } }
    if ((int)a.size() != it || (int)b.size() != it) { x.violate("passes", "%s: fit with %d iterations made %zu passes, %d partial fits made %zu", pair_name(pair), it, a.size(), it, b.size()); return; }
    for (int i = 0; i < it; i++) if (a[i] != b[i]) { x.violate("order", "%s: pass %d of fit visits the documents in another order than partial fits over one corpus", pair_name(pair), i); return; }
    { std::shared_ptr<corpus::Corpus> c; if (labelled) c = std::make_shared<corpus::EigenClassificationCorpus>(X, y); else c = std::make_shared<corpus::EigenCorpus>(X);
      for (int i = 0; i < it; i++) { c->shuffle(); for (int j = 0; j < N; j++) { auto d = c->at(j); auto &w = d->get_words(); if ((int)a[i].size() != N || a[i][j] != w[0] * 10 + w[1]) { x.violate("shuffle", "%s: pass %d does not visit the documents in the order of the corpus shuffled once per pass", pair_name(pair), i); return; } } } }
    double d = distance(*p, *q); if (!(d <= 1e-9)) x.violate("model", "%s: fit and %d partial fits differ by %g", pair_name(pair), it, d);
    x.state(mhash(*p));
}
int main(int argc, char **argv) {
    std::vector<seq::Space> s; bool th = seq::thorough(argc, argv); static const int NS[] = {1, 2, 3, 4, 8, 21, 130};
    for (int p = 0; p < NPAIR; p++) s.push_back({pair_name(p), (uint64_t)7 * (th ? 25 : 9) * 2, [=](uint64_t i, seq::Ctx &x) { seq::Radix r(i); int un = r(2), n = NS[r(7)]; if (un && p != P_UNSUP) return; run<double>(p, n, (int)r.v, !un, x); }, nullptr, 60});
    // many passes
    s.push_back({"many-passes", 6 * 2, [=](uint64_t i, seq::Ctx &x) { static const int its[] = {33, 130, 300, 1100, 5000, 66000}; seq::Radix r(i); int it = its[r(6)]; bool un = r(2); if (it > 5000 && (!un || !th)) return; run<double>(un ? P_UNSUP : P_FAST, 2, it, !un, x); }, nullptr, 200});
    return seq::run(argc, argv, "C06", s);
}
