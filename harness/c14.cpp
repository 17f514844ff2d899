// C14: semi-supervised steps route every document to the right algorithm.
#include "real.hpp"
using namespace real;

template <typename S> struct CountE : em::EStepInterface<S> {
    std::shared_ptr<em::EStepInterface<S> > in; int docs = 0, ends = 0;
    std::shared_ptr<parameters::Parameters> doc_e_step(const std::shared_ptr<corpus::Document> d, const std::shared_ptr<parameters::Parameters> p) override {
        docs++; auto r = in->doc_e_step(d, p); this->get_event_dispatcher()->template dispatch<events::ExpectationProgressEvent<S> >((S)docs); return r; }
    void e_step() override { ends++; in->e_step(); }
};
static const int LB[] = {-1, 0, 1, -7};
static Cfg sup_cfg(int k) { Cfg c; c.iters = 4; c.tol = 1e-3; c.C = 0.7; c.fixed_point = 3; c.alg = k == 0 ? FAST : k == 1 ? SUP : k == 2 ? MULTI : k == 3 ? CORR : FAST; c.decay = k == 4; return c; }
static std::vector<D> DOCS = {{1, 0, 2}, {0, 3, 1}, {5, 1, 1}, {0, 0, 0}};

// routing, events and end-of-pass of the expectation step; ops: documents d with label, or end of pass
template <typename S> static void routing(int k, const std::vector<int> &ops, seq::Ctx &x) {
    Cfg sc = sup_cfg(k), uc = sc; uc.alg = UNSUP; uc.iters = 3; Model m = model(k == 2 || k == 3 ? P_MULTI : P_FAST); auto p = params<S>(m);
    auto s = std::make_shared<CountE<S> >(), u = std::make_shared<CountE<S> >(); s->in = make_e<S>(sc); u->in = make_e<S>(uc);
    auto rs = make_e<S>(sc), ru = make_e<S>(uc);
    int got = 0, ns = 0, nu = 0, ends = 0; double lik = 0;
    auto lis = std::make_shared<events::FunctionEventListener>([&](std::shared_ptr<events::Event> e) { got++; lik = std::static_pointer_cast<events::ExpectationProgressEvent<S> >(e)->likelihood(); });
    { em::SemiSupervisedEStep<S> semi(s, u); auto disp = std::make_shared<events::EventDispatcher>(); if (ops.size() % 2) semi.set_event_dispatcher(disp); semi.get_event_dispatcher()->add_listener(lis);
      for (int o : ops) {
        if (o == 16) { semi.e_step(); ends++; rs->e_step(); ru->e_step(); x.step(); if (s->ends != ends || u->ends != ends) { x.violate("end-of-pass", "end of pass reached the inner steps %d and %d times instead of %d", s->ends, u->ends, ends); return; } continue; }
        int y = LB[o % 4]; OneDoc d({DOCS[o / 4], {2, 2, 2}}, {y, 1}); if (k != 0 && k != 4 && o / 4 == 3 && y >= 0) continue;
        int g0 = got; auto r = get_vp<S>(semi.doc_e_step(d.at(0), p)); x.step(); (y < 0 ? nu : ns)++;
        if (s->docs != ns || u->docs != nu) { x.violate("routing", "class %d: the supervised step ran %d times and the unsupervised %d times, expected %d and %d", y, s->docs, u->docs, ns, nu); return; }
        if (got != g0 + 1 || lik != (y < 0 ? nu : ns)) { x.violate("events", "class %d: %d events forwarded for one document", y, got - g0); return; }
        Vp w = get_vp<S>((y < 0 ? ru : rs)->doc_e_step(d.at(0), p)); double df = ref::diff(r, w, DOCS[o / 4], false);
        if (!(df <= (sizeof(S) == 4 ? 1e-4 : 1e-9))) { x.violate("inference", "class %d: result differs by %g from the %s algorithm", y, df, y < 0 ? "unsupervised" : "supervised"); return; }
        x.state(seq::mix(ns * 64 + nu, std::llround(r.gamma[0] * 1e5)));
      } }
    // the inner steps outlive the composed one
    int g = got; OneDoc d({DOCS[0]}, {0}); s->doc_e_step(d.at(0), p); u->doc_e_step(d.at(0), p);
    if (got != g) x.violate("dangling", "inner steps still forward events after the semi-supervised step is gone");
}
// maximisation: topics from all documents, classifier from labelled ones only
template <typename S> static void maximise(const std::vector<std::vector<int> > &passes, int kind, seq::Ctx &x) {
    using namespace mref; auto base = alphabet(); Model m0 = start_model(3, false, kind); auto p = params<S>(m0), q = params<S>(m0); double eps = sizeof(S) == 4 ? 1e-4 : 1e-9;
    em::SemiSupervisedMStep<S> semi(3, (S)0, (S)1e-2); em::FastSupervisedMStep<S> fast(3, (S)0, (S)1e-2); std::vector<double> ev1, ev2;
    auto spy = [](std::vector<double> &v) { return [&v](std::shared_ptr<events::Event> e) { v.push_back(std::static_pointer_cast<events::MaximizationProgressEvent<S> >(e)->likelihood()); }; };
    semi.get_event_dispatcher()->add_listener(spy(ev1)); fast.get_event_dispatcher()->add_listener(spy(ev2));
    for (auto &ps : passes) {
        std::vector<MDoc> all; int labelled = 0; static const int L5[] = {-1, 0, 1, 2, -4};
        for (int o : ps) { MDoc d = base[o / 5]; d.y = L5[o % 5]; all.push_back(d); }
        ev1.clear(); ev2.clear(); M eta0 = tom(p->eta);
        for (auto &d : all) { semi.doc_m_step(doc_of(d), vp_of<S>(d, m0.alpha), p); if (d.y >= 0) { fast.doc_m_step(doc_of(d), vp_of<S>(d, m0.alpha), q); labelled++; } x.step(); }
        semi.m_step(p); if (labelled) fast.m_step(q);
        Pass idx; for (size_t i = 0; i < all.size(); i++) idx.push_back(i);
        M b = counts(all, idx);
        for (size_t k = 0; k < b.size(); k++) { double s = sum(b[k]); if (s > 0) for (size_t n = 0; n < b[k].size(); n++) if (!seq::close(p->beta(k, n), b[k][n] / s, eps, eps)) { x.violate("topics", "topic %zu word %zu is %.9g, counts of all documents give %.9g", k, n, (double)p->beta(k, n), b[k][n] / s); return; } }
        if (!labelled) { if (tom(p->eta) != eta0) { x.violate("classifier-unlabelled", "classifier weights change although no document is labelled"); return; } if (!ev1.empty()) { x.violate("events-unlabelled", "maximisation events although no document is labelled"); return; } }
        else {
            for (long i = 0; i < p->eta.rows(); i++) for (long j = 0; j < p->eta.cols(); j++) if (!seq::close(p->eta(i, j), q->eta(i, j), eps * 100, eps * 100)) { x.violate("classifier", "classifier weight (%ld,%ld) is %.9g, training on the labelled documents alone gives %.9g", i, j, (double)p->eta(i, j), (double)q->eta(i, j)); return; }
            bool same = ev1.size() == ev2.size(); for (size_t i = 0; same && i < ev1.size(); i++) same = seq::close(ev1[i], ev2[i], eps * 100, eps * 100);
            if (!same) { x.violate("m-events", "%zu maximisation events, supervised training reports %zu (or other values)", ev1.size(), ev2.size()); return; }
        }
        p->eta = q->eta; uint64_t h = 1; for (long i = 0; i < p->eta.size(); i++) h = seq::mix(h, std::llround(p->eta.data()[i] * 1e5)); x.state(h);
    }
}
// whole training loop against a loop built from the separate algorithms
template <typename S> static void whole(const std::vector<int> &y, int workers, int passes, bool unl, seq::Ctx &x) {
    int N = y.size(); Eigen::MatrixXi X = real::docs(N); Eigen::VectorXi Y(N); for (int i = 0; i < N; i++) Y[i] = y[i];
    if (unl && N > 1) X.col(N - 1).setZero();
    Model m0 = model(P_SEMI); Opt o; o.iters = 3; o.likelihood = 1; auto p = params<S>(m0), q = params<S>(m0);
    int ev = 0, ep = 0; LDA<S> lda(p, estep<S>(P_SEMI, o), mstep<S>(P_SEMI, o), passes, workers);
    lda.get_event_dispatcher()->add_listener([&](std::shared_ptr<events::Event> e) { ev += e->id() == "ExpectationProgressEvent"; ep += e->id() == "EpochProgressEvent"; });
    lda.fit(X, Y); x.step(N * passes);
    Cfg c; c.iters = o.iters; c.tol = 0; c.C = 0.7; c.alg = FAST; c.decay = true; Cfg u = c; u.alg = UNSUP; auto se = make_e<S>(c), ue = make_e<S>(u);
    em::FastSupervisedMStep<S> fm(o.miters, (S)o.mtol, (S)1e-2);
    for (int t = 0; t < passes; t++) {
        Eigen::Matrix<S, -1, -1> b = Eigen::Matrix<S, -1, -1>::Zero(2, 3); int lab = 0; auto z = std::make_shared<parameters::SupervisedModelParameters<S> >(q->alpha, q->beta, q->eta);
        for (int i = 0; i < N; i++) { auto d = std::make_shared<corpus::ClassificationDecorator>(std::make_shared<corpus::EigenDocument>(X.col(i)), y[i]); auto v = std::static_pointer_cast<parameters::VariationalParameters<S> >((y[i] < 0 ? ue : se)->doc_e_step(d, q));
            for (int n = 0; n < 3; n++) if (X(n, i)) b.col(n) += v->phi.col(n) * (S)X(n, i); if (y[i] >= 0) { fm.doc_m_step(d, v, z); lab++; } }
        se->e_step(); if (lab) fm.m_step(z);
        for (int k = 0; k < 2; k++) if (b.row(k).sum() > 0) q->beta.row(k) = b.row(k) / b.row(k).sum(); q->eta = z->eta;
    }
    double d = distance(*p, *q); if (!(d < 1e-6)) x.violate("training", "%d documents, %d workers, %d passes: model differs by %g from the separate algorithms", N, workers, passes, d);
    if (ev != N * passes || ep != passes) x.violate("training-events", "%d expectation and %d epoch events for %d documents and %d passes", ev, ep, N, passes);
    x.state(mhash(*p));
}
// long streams, many classes, extreme negative classes
template <typename S> static void stream(int n, int C, int K, int pat, seq::Ctx &x) {
    Cfg sc = sup_cfg(pat % 2 ? 4 : 0), uc = sc; uc.alg = UNSUP; sc.iters = uc.iters = 2; Model m = model(P_FAST, K, 3, C); auto p = params<S>(m);
    auto s = std::make_shared<CountE<S> >(), u = std::make_shared<CountE<S> >(); s->in = make_e<S>(sc); u->in = make_e<S>(uc); auto rs = make_e<S>(sc), ru = make_e<S>(uc);
    em::SemiSupervisedEStep<S> semi(s, u); int got = 0, ns = 0, nu = 0, ends = 0; semi.get_event_dispatcher()->add_listener([&](std::shared_ptr<events::Event>) { got++; });
    for (int i = 0; i < n; i++) {
        static const int NG[] = {-1, -2, -128, -129, -255, -256, -32769, -65536, -2147483647 - 1}; bool neg = pat == 0 ? i % 3 == 1 : pat == 1 ? i < n / 2 : pat == 2 ? i >= n / 2 : pat == 3 ? i != n - 1 : i == n - 1;
        int y = neg ? NG[i % 9] : (i * 7 + (i / 13)) % C; D w = {1 + i % 3, i % 5, (i / 7) % 4}; OneDoc d({w}, {y}); auto r = get_vp<S>(semi.doc_e_step(d.at(0), p)); (y < 0 ? nu : ns)++; x.step();
        if (s->docs != ns || u->docs != nu || got != i + 1) { x.violate("routing", "document %d, class %d of %d: supervised %d unsupervised %d events %d, expected %d %d %d", i, y, C, s->docs, u->docs, got, ns, nu, i + 1); return; }
        Vp v = get_vp<S>((y < 0 ? ru : rs)->doc_e_step(d.at(0), p)); double df = ref::diff(r, v, w, false); if (!(df <= (sizeof(S) == 4 ? 1e-4 : 1e-9))) { x.violate("inference", "document %d, class %d of %d: result differs by %g from the %s algorithm", i, y, C, df, y < 0 ? "unsupervised" : "supervised"); return; }
        if (i % 11 == 10) { semi.e_step(); rs->e_step(); ru->e_step(); ends++; if (s->ends != ends || u->ends != ends) { x.violate("end-of-pass", "end of pass %d reached the inner steps %d and %d times", ends, s->ends, u->ends); return; } }
    }
    x.state(ns * 1000 + nu);
}
// one large maximisation pass, then more, against topics of all and classifier of the labelled
template <typename S> static void bigmax(int n, int C, int K, int pat, seq::Ctx &x) {
    Model m0 = model(P_FAST, K, 3, C); auto p = params<S>(m0), q = params<S>(m0); em::SemiSupervisedMStep<S> semi(2, (S)0, (S)1e-2); em::FastSupervisedMStep<S> fast(2, (S)0, (S)1e-2);
    auto ue = make_e<S>([] { Cfg c; c.alg = UNSUP; c.iters = 2; c.tol = 0; return c; }());
    for (int t = 0; t < 3; t++) {
        int lab = 0; Eigen::MatrixXd b = Eigen::MatrixXd::Zero(K, 3); M eta0 = tom(p->eta); Eigen::MatrixXi X(3, n); Eigen::VectorXi y(n);
        for (int i = 0; i < n; i++) { X(0, i) = 1 + (i + t) % 3; X(1, i) = i % 5; X(2, i) = (i / 7) % 4; bool neg = pat == 0 ? i % 3 == 1 : pat == 1 ? i < n / 2 : pat == 2 ? i >= n / 2 : pat == 3 ? (t == 1 || i != n - 1) : t == 1; y[i] = neg ? -1 - i : (i * 7 + i / 13) % C; }
        if (t == 1 && pat == 4) for (int i = 0; i < n; i++) y[i] = -1;
        // the corpus as the fit call sees it: classes of the unlabelled never count
        corpus::EigenClassificationCorpus cc(X, y); std::vector<int> ly; std::vector<int> li; for (int i = 0; i < n; i++) if (y[i] >= 0) li.push_back(i);
        Eigen::MatrixXi XL(3, li.size()); Eigen::VectorXi yl(li.size()); for (size_t i = 0; i < li.size(); i++) { XL.col(i) = X.col(li[i]); yl[i] = y[li[i]]; } std::shared_ptr<corpus::EigenClassificationCorpus> cl; if (li.size()) cl = std::make_shared<corpus::EigenClassificationCorpus>(XL, yl);
        size_t l = 0; Model cur; auto mp = std::make_shared<parameters::SupervisedModelParameters<S> >(p->alpha, p->beta, p->eta);
        for (int i = 0; i < n; i++) { auto v = std::static_pointer_cast<parameters::VariationalParameters<S> >(ue->doc_e_step(cc.at(i), mp)); for (int w = 0; w < 3; w++) for (int k = 0; k < K; k++) b(k, w) += (double)v->phi(k, w) * X(w, i);
            semi.doc_m_step(cc.at(i), v, p); if (y[i] >= 0) { fast.doc_m_step(cl->at(l++), v, q); lab++; } x.step(); }
        semi.m_step(p); if (lab) fast.m_step(q); double eps = sizeof(S) == 4 ? 1e-4 : 1e-9;
        for (int k = 0; k < K; k++) for (int w = 0; w < 3; w++) if (!seq::close(p->beta(k, w), b(k, w) / b.row(k).sum(), eps, eps)) { x.violate("topics", "pass %d of %d documents: topic %d word %d is %.9g, counts of all documents give %.9g", t, n, k, w, (double)p->beta(k, w), b(k, w) / b.row(k).sum()); return; }
        if (!lab && tom(p->eta) != eta0) { x.violate("classifier-unlabelled", "classifier weights change although no document is labelled"); return; }
        if (lab) for (long i = 0; i < p->eta.size(); i++) if (!seq::close(p->eta.data()[i], q->eta.data()[i], eps * 100, eps * 100)) { x.violate("classifier", "pass %d of %d documents, %d labelled, %d classes: weight %ld is %.9g, training on the labelled documents alone gives %.9g", t, n, lab, C, i, (double)p->eta.data()[i], (double)q->eta.data()[i]); return; }
        p->eta = q->eta; x.state(mhash(*p));
    }
}
static uint64_t ipow(uint64_t b, int e) { uint64_t r = 1; while (e--) r *= b; return r; }
int main(int argc, char **argv) {
    bool th = seq::thorough(argc, argv); std::vector<seq::Space> s;
    int L = th ? 4 : 3;
    for (int k = 0; k < 5; k++) s.push_back({"routing" + std::to_string(k), ipow(17, L), [=](uint64_t i, seq::Ctx &x) { seq::Radix r(i); std::vector<int> o; for (int q = 0; q < L; q++) o.push_back(r(17)); if (i % 5 == 0) routing<float>(k, o, x); else routing<double>(k, o, x); }, nullptr, 20});
    s.push_back({"maximise2", ipow(30, 2) * 31 * 2, [=](uint64_t i, seq::Ctx &x) { seq::Radix r(i); int kd = r(2); std::vector<int> a = {r(30), r(30)}, b; int c = r(31); if (c < 30) b.push_back(c); b.push_back((c * 7 + 3) % 30); maximise<double>({a, b}, kd, x); }, nullptr, 20});
    s.push_back({"maximise3", ipow(15, 3) * (th ? 15 : 3), [=](uint64_t i, seq::Ctx &x) { seq::Radix r(i); std::vector<int> a = {r(15), r(15), r(15)}; maximise<double>({a, {r(15)}, {0, 5}, {1, 11, 7}}, 1, x); }, nullptr, 20});
    s.push_back({"maximise-float", 30 * 30, [=](uint64_t i, seq::Ctx &x) { seq::Radix r(i); maximise<float>({{r(30), r(30)}}, 1, x); }, nullptr, 20});
    for (int N = 1; N <= 4; N++) s.push_back({"training" + std::to_string(N), ipow(4, N) * 3 * 3 * 2, [=](uint64_t i, seq::Ctx &x) { seq::Radix r(i); static const int WK[] = {1, 2, 4}; int w = WK[r(3)], p = 1 + r(3), e = r(2); std::vector<int> y; for (int q = 0; q < N; q++) y.push_back(LB[r(4)]); whole<double>(y, w, p, e, x); }, nullptr, 30});
    static const int XN[] = {20, 130, 300, 1100}, XC[] = {1, 2, 12, 130, 400}, XK[] = {2, 9, 33};
    s.push_back({"stream", 4 * 5 * 3 * 5, [=](uint64_t i, seq::Ctx &x) { seq::Radix r(i); int n = XN[r(4)], C = XC[r(5)], K = XK[r(3)], pt = r(5); if (n > 300 && C * K > 300) n = 257; if (i % 4 == 3) stream<float>(n, C, K, pt, x); else stream<double>(n, C, K, pt, x); }, nullptr, 60});
    s.push_back({"large-pass", 4 * 5 * 3 * 5, [=](uint64_t i, seq::Ctx &x) { seq::Radix r(i); int n = XN[r(4)], C = XC[r(5)], K = XK[r(3)], pt = r(5); if (n > 300 && C * K > 300) n = 257; bigmax<double>(n, C, K, pt, x); }, nullptr, 60});
    s.push_back({"large-training", 4 * 3, [=](uint64_t i, seq::Ctx &x) { seq::Radix r(i); static const int NN[] = {17, 66, 129, 520}; int n = NN[r(4)], w = 1 + 2 * r(3); std::vector<int> y; for (int j = 0; j < n; j++) y.push_back(LB[(j * 5 + j / 9 + 1) % 4]); whole<double>(y, w, 3, true, x); }, nullptr, 60});
    return seq::run(argc, argv, "C14", s);
}
