// C13: online training; all sequences of documents and end-of-pass calls.
#include "mref.hpp"
using namespace mref;
struct Conf { int mb; double mom, lr, bw, L; int wk; };   // wk: 0 number of classes, 1 unit weights, 2 unequal weights, 3 very unequal weights
static Conf conf(uint64_t i) {
    seq::Radix r(i); static const double mo[] = {0.9, 0.0}, lr[] = {0.01, 0.7}, bw[] = {0.9, 0.0, 1.0, 0.37}, Ls[] = {1e-2, 0.0};
    Conf c; c.mb = 1 + r(3); c.mom = mo[r(2)]; c.lr = lr[r(2)]; c.bw = bw[r(4)]; c.L = Ls[r(2)]; c.wk = r(3); return c;
}
enum { NCONF = 3 * 2 * 2 * 4 * 2 * 3 };
template <typename S> static void run(const Conf &c, const std::vector<int> &ops, const std::vector<MDoc> &docs, seq::Ctx &x, int neighbour = 0) {
    int C = 3; for (auto &d : docs) C = std::max(C, d.y + 1); const int KT = docs[0].phi.size(), VW = docs[0].X.size(); Model m = start_model(C, false); if (KT != 2 || VW != 3) { m.alpha.assign(KT, 0.4); m.beta.assign(KT, V(VW, 1.0 / VW)); m.eta = eta_for(KT, C, 1); }
    V w(C, 1.0); if (c.wk >= 2) for (int a = 0; a < C; a++) w[a] = c.wk == 2 ? V{0.4, 1.7, 2.3}[a % 3] : V{1500.0, 0.001, 80.0}[a % 3];
    std::shared_ptr<em::MStepInterface<S> > ms = c.wk == 0 ? std::make_shared<em::FastOnlineSupervisedMStep<S> >((size_t)C, (S)c.L, c.mb, (S)c.mom, (S)c.lr, (S)c.bw)
                                                           : std::make_shared<em::FastOnlineSupervisedMStep<S> >(ev<S>(w), (S)c.L, c.mb, (S)c.mom, (S)c.lr, (S)c.bw);
    auto p = params<S>(m); std::vector<double> evs; double eps = sizeof(S) == 4 ? 5e-5 : 1e-8;
    ms->get_event_dispatcher()->add_listener([&](std::shared_ptr<events::Event> e) { if (e->id() == "MaximizationProgressEvent") evs.push_back(std::static_pointer_cast<events::MaximizationProgressEvent<S> >(e)->likelihood()); });
    // a second step with a model of its own, used in between
    std::shared_ptr<em::MStepInterface<S> > other; auto po = params<S>(m); if (neighbour) other = neighbour == 1 ? std::make_shared<em::FastOnlineSupervisedMStep<S> >((size_t)C, (S)0.3, 2, (S)0.4, (S)0.05, (S)0.5) : std::make_shared<em::FastOnlineSupervisedMStep<S> >(ev<S>(V(C, 2.0)), (S)c.L, c.mb, (S)c.mom, (S)c.lr, (S)c.bw);
    M beta = m.beta, eta = m.eta, vel(KT, V(C, 0.0)); Pass batch; size_t want_ev = 0; double lastv = 0;
    for (size_t o = 0; o < ops.size(); o++) {
        x.step();
        if (other) { const MDoc &d = docs[(o * 5 + 1) % docs.size()]; other->doc_m_step(doc_of(d), vp_of<S>(d, m.alpha), po); if (o % 3 == 2) other->m_step(po); }
        if (ops[o] >= (int)docs.size()) ms->m_step(p);
        else {
            ms->doc_m_step(doc_of(docs[ops[o]]), vp_of<S>(docs[ops[o]], m.alpha), p); batch.push_back(ops[o]);
            if ((int)batch.size() == c.mb) {
                M b = counts(docs, batch);
                for (int k = 0; k < KT; k++) { double s = sum(b[k]); if (s > 0) for (int n = 0; n < VW; n++) beta[k][n] = c.bw * beta[k][n] + (1 - c.bw) * b[k][n] / s; }
                Problem q = problem(docs, batch, m.alpha, false, c.L); q.w = w;
                M g = q.gradient(eta);
                for (int k = 0; k < KT; k++) for (int a = 0; a < C; a++) { vel[k][a] = c.mom * vel[k][a] - c.lr * g[k][a]; eta[k][a] += vel[k][a]; }
                want_ev++; lastv = -q.value(eta); batch.clear();
            }
        }
        for (int k = 0; k < KT; k++) for (int n = 0; n < VW; n++) if (!seq::close(p->beta(k, n), beta[k][n], eps, eps)) { x.violate("topics", "after operation %zu topic %d word %d is %.10g, expected %.10g", o, k, n, (double)p->beta(k, n), beta[k][n]); return; }
        for (int k = 0; k < KT; k++) for (int a = 0; a < C; a++) if (!seq::close(p->eta(k, a), eta[k][a], eps * 10, eps * 10)) { x.violate("classifier", "after operation %zu weight (%d,%d) is %.10g, expected %.10g", o, k, a, (double)p->eta(k, a), eta[k][a]); return; }
        if (evs.size() != want_ev) { x.violate("events", "after operation %zu there were %zu updates announced, %zu minibatches are complete", o, evs.size(), want_ev); return; }
        if (want_ev && !seq::close(evs.back(), lastv, eps * 10, eps * 100)) { x.violate("objective", "announced objective %.10g, at the new weights it is %.10g", evs.back(), lastv); return; }
        uint64_t st = batch.size(); for (int k = 0; k < KT; k++) for (int n = 0; n < VW; n++) st = seq::mix(st, (long)(p->beta(k, n) * 1e7)); for (int k = 0; k < KT; k++) for (int a = 0; a < C; a++) st = seq::mix(st, (long)(p->eta(k, a) * 1e7)); x.state(st);
    }
}
static std::vector<int> seq_of(uint64_t v, int len, int ops) { std::vector<int> r; for (int i = 0; i < len; i++) { r.push_back(v % ops); v /= ops; } return r; }
static std::string desc(const Conf &c, const std::vector<int> &o, int nd) { char b[160]; snprintf(b, 160, "minibatch %d momentum %g rate %g topic weight %g penalty %g class weights %d operations ", c.mb, c.mom, c.lr, c.bw, c.L, c.wk); std::string s = b; for (int k : o) s += k >= nd ? "E" : std::to_string(k); return s; }
int main(int argc, char **argv) {
    bool th = seq::thorough(argc, argv); std::vector<seq::Space> s;
    std::vector<MDoc> d3 = {alphabet()[0], alphabet()[1], alphabet()[3]}, d6 = alphabet();
    int len = th ? 7 : 5; uint64_t n = 1; for (int i = 0; i < len; i++) n *= 4;
    s.push_back({"sequences", n * NCONF / (th ? 1 : 3), [=](uint64_t i, seq::Ctx &x) { uint64_t j = th ? i : i * 3 + i / 5 % 3; run<double>(conf(j % NCONF), seq_of(j / NCONF, len, 4), d3, x); },
                 [=](uint64_t i) { uint64_t j = th ? i : i * 3 + i / 5 % 3; return desc(conf(j % NCONF), seq_of(j / NCONF, len, 4), 3); }, 0});
    uint64_t n7 = 7 * 7 * 7 * 7;
    s.push_back({"alphabet", n7 * 12, [=](uint64_t i, seq::Ctx &x) { Conf c = conf((i % 12) * 24 + i % 24); run<double>(c, seq_of(i / 12, 4, 7), d6, x); }, [=](uint64_t i) { return desc(conf((i % 12) * 24 + i % 24), seq_of(i / 12, 4, 7), 6); }, 0});
    s.push_back({"neighbour", 1024 * 48 * 2, [=](uint64_t i, seq::Ctx &x) { int nb = 1 + i % 2; Conf c = conf((i / 2 % 48) * 6 + i % 6); run<double>(c, seq_of(i / 96, 5, 4), d3, x, nb); }, [=](uint64_t i) { return desc(conf((i / 2 % 48) * 6 + i % 6), seq_of(i / 96, 5, 4), 3) + " with a second step object in between"; }, 0});
    s.push_back({"float", 1024 * 36, [=](uint64_t i, seq::Ctx &x) { Conf c = conf((i % 36) * 8 + i % 8); c.lr = 0.01; run<float>(c, seq_of(i / 36, 5, 4), d3, x); }, nullptr, 0});
    s.push_back({"long", 24, [=](uint64_t i, seq::Ctx &x) { Conf c = conf(i * 11 % NCONF); static const int mbs[] = {4, 7, 16, 128}; c.mb = mbs[i % 4]; c.lr = 0.01; std::vector<int> o; for (int k = 0; k < 300; k++) o.push_back((k * 7 + k / 5) % 4); run<double>(c, o, d3, x); }, nullptr, 0});
    s.push_back({"magnitudes", 7 * 3 * 7, [=](uint64_t i, seq::Ctx &x) { seq::Radix r(i); static const int mbs[] = {1, 2, 31, 64, 257, 1000, 2000}; Conf c; c.mb = mbs[r(7)]; c.wk = 1 + r(3); int v = r(7); double tiny = v == 4 ? 1e-14 : v == 5 ? 1e-18 : v == 6 ? 1e-40 : 1e-9; if (v > 3) v = 3; c.mom = 0.9; c.lr = v == 3 ? 1e-7 : c.wk == 3 ? 1e-5 : 1e-3; c.bw = 0.9; c.L = v == 2 ? 50 : 1e-2; if (c.L > 1) c.lr = 1e-5;
        auto d = d6; if (v == 1) { d[0].X = {70000, 1, 200000}; d[1].X = {0, 33000, 1}; } if (v == 3) for (auto &m : d) for (size_t n = 0; n < 3; n++) { m.phi[0][n] = tiny * (1 + n); m.phi[1][n] = 1 - m.phi[0][n]; }
        std::vector<int> o; int E = d.size(); for (int k = 0; k < c.mb * 3 + 2; k++) { o.push_back((k * 5 + k / 7) % E); if (k % 61 == 60 || (k && c.mb < 3)) o.push_back(E); } run<double>(c, o, d, x); }, nullptr, 0});
    // very large minibatches, and steps so large that the momentum leaves any range one might expect
    s.push_back({"huge-minibatch", 4, [=](uint64_t i, seq::Ctx &x) { static const int mbs[] = {255, 4100, 33000, 66000}; Conf c; c.mb = mbs[i]; c.wk = 1; c.mom = 0.9; c.lr = 1e-4; c.bw = 0.9; c.L = 1e-2; std::vector<int> o; int E = d6.size(); for (int k = 0; k < c.mb * 2 + 2; k++) { o.push_back((k * 5 + k / 7) % E); if (k % 5001 == 5000) o.push_back(E); } run<double>(c, o, d6, x); }, nullptr, 60});
    s.push_back({"rates", 4096 * 6, [=](uint64_t i, seq::Ctx &x) { seq::Radix r(i); static const double mo[] = {0, 0.5, 0.9}; Conf c; c.mb = 1 + r(2); c.mom = mo[r(3)]; c.lr = c.mom > 0.6 ? 4 : 10; c.wk = 0; c.bw = 0.5; c.L = 1e-2; run<double>(c, seq_of(i / 6, 6, 4), d3, x); }, nullptr, 0});
    s.push_back({"shapes", 9 * 2, [=](uint64_t i, seq::Ctx &x) { seq::Radix r(i); static const int z[9][4] = {{2, 3, 5, 130}, {2, 3, 7, 260}, {5, 8, 12, 10}, {17, 33, 6, 4}, {33, 5, 6, 2}, {2, 3, 40, 33}, {3, 257, 5, 3}, {1, 2, 20, 17}, {40, 3, 5, 3}}; const int *q = z[r(9)]; int K = q[0], W = q[1], Dn = q[2], C = q[3];
        uint64_t h = K * 100 + W; auto rnd = [&] { h = seq::mix(h, 6); return (h >> 11) / 9007199254740992.0; }; std::vector<MDoc> d;
        for (int k = 0; k < Dn; k++) { MDoc m; m.X.resize(W); for (auto &v : m.X) v = rnd() < .3 ? 0 : (int)(rnd() * 6); m.X[0]++; m.phi.assign(K, V(W)); for (int n = 0; n < W; n++) { double s = 0; for (int t = 0; t < K; t++) s += (m.phi[t][n] = rnd() * rnd() * rnd() + .001); for (int t = 0; t < K; t++) m.phi[t][n] /= s; } m.tau.assign(W, 1.0 / W); m.y = k ? (int)(rnd() * C) : C - 1; d.push_back(m); }
        Conf c; c.mb = 3; c.mom = .9; c.lr = .01; c.bw = .8; c.L = 1e-2; c.wk = r(2) ? 2 : 0; std::vector<int> o; for (int k = 0; k < 7; k++) { o.push_back(k % Dn); if (k == 4) o.push_back(Dn); } run<double>(c, o, d, x); }, nullptr, 120});
    return seq::run(argc, argv, "C13", s);
}
