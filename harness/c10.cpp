// C10: the likelihood carried by expectation events is the documented bound at
// the returned parameters; one more unsupervised iteration never lowers it.
#include "lattice.hpp"
using namespace lat;

template <typename S> static double one(const Case &c, seq::Ctx &x, double rtol) {
    if (!valid(c.m, c.doc)) return NAN;
    if (total(c.doc) == 0 && c.cfg.alg != UNSUP) return NAN;       // the supervised bounds need a word
    auto r = infer_real<S>(c.cfg, c.m, c.doc, c.y);
    x.step(); x.state(seq::mix(vhash(r.vp), (long)(std::isfinite(r.likelihood) ? r.likelihood * 1e4 : 0)));
    // OneDoc puts the document into a corpus of three, two of its class (three if there is one class)
    double prior = c.m.C() > 1 ? (float)(2.0f / 3.0f) : 1.0f;
    double want = bound(c.cfg, c.doc, c.y, c.m, r.vp, prior, 1.0 / 3);
    // a word still assigned to a topic that cannot emit it: minus infinity, cut off at an unspecified value
    for (size_t n = 0; n < c.doc.size(); n++) if (c.doc[n]) for (int k = 0; k < c.m.K(); k++) if (c.m.beta[k][n] == 0 && r.vp.phi[k][n] > 0) return NAN;
    if (r.events != 1) x.violate("events", "%d expectation events for one document", r.events);
    else if (!seq::close(r.likelihood, want, rtol, rtol * (1 + total(c.doc)))) x.violate(alg_name(c.cfg.alg), "%s: reported bound %.12g, the documented bound at the returned parameters is %.12g", str(c.cfg).c_str(), r.likelihood, want);
    return r.likelihood;
}
struct Lim { size_t it; double tol; };
static const std::vector<Lim> LIM = {{0, 0}, {1, 0}, {3, 0}, {30, 1e-2}, {5, 1e9}};

int main(int argc, char **argv) {
    bool th = seq::thorough(argc, argv);
    std::vector<seq::Space> s;
    for (int alg = 0; alg < NALG; alg++) {
        std::string n = alg_name(alg);
        uint64_t L = lattice_size() / (th ? 1 : 2);
        s.push_back({"lattice-" + n, L, [=](uint64_t i, seq::Ctx &x) {
            uint64_t j = th ? i : i * 2 + (i / 3) % 2;
            Case c = decode(alg, j); if (alg == UNSUP && (j % (NE * NCY * NSP) > 1)) return;
            for (auto &l : LIM) { c.cfg.iters = l.it; c.cfg.tol = l.tol; one<double>(c, x, 1e-10); }
        }, [=](uint64_t i) { return describe(decode(alg, th ? i : i * 2 + (i / 3) % 2)); }, 0});
        s.push_back({"shapes-" + n, shapes_size(), [=](uint64_t i, seq::Ctx &x) {
            Case c = decode_shape(alg, i);
            for (auto &l : LIM) { c.cfg.iters = l.it; c.cfg.tol = l.tol; one<double>(c, x, 1e-10); }
        }, [=](uint64_t i) { return describe(decode_shape(alg, i)); }, 0});
        s.push_back({"float-" + n, lattice_size() / 16, [=](uint64_t i, seq::Ctx &x) {
            Case c = decode(alg, i * 16 + i % 16); if (total(c.doc) > 700) return;
            // the parameters are single precision, the formula is evaluated on them in double
            c.cfg.iters = 2; c.cfg.tol = 0;
            if (c.cfg.alg == SUP || c.cfg.alg == FAST) for (auto &row : c.m.eta) for (auto &v : row) v = (float)v;
            one<float>(c, x, 4e-3);
        }, [=](uint64_t i) { return describe(decode(alg, i * 16 + i % 16)); }, 0});
        s.push_back({"in-place-" + n, 2 * inplace_size(), [=](uint64_t i, seq::Ctx &x) {
            inplace<double>(alg, i / 2, i % 2 ? 1 : 3, [&](const Case &c, const Vp &v, double lik, int nev, int q) { x.step(); x.state(seq::mix(vhash(v), std::isfinite(lik) ? (long)(lik * 1e4) : 0)); if (total(c.doc) == 0 && alg != UNSUP) return;
                for (size_t w = 0; w < c.doc.size(); w++) if (c.doc[w]) for (int k = 0; k < c.m.K(); k++) if (c.m.beta[k][w] == 0 && v.phi[k][w] > 0) return;
                double want = bound(c.cfg, c.doc, c.y, c.m, v, c.m.C() > 1 ? (float)(2.0f / 3.0f) : 1.0f, 1.0 / 3);
                if (nev != 1 || !seq::close(lik, want, 1e-10, 1e-10 * (1 + total(c.doc)))) x.violate("in-place", "%s, call %d on one model object whose values were replaced: %d events, reported bound %.12g, the documented bound is %.12g", str(c.cfg).c_str(), q, nev, lik, want); });
        }, nullptr, 0});
        s.push_back({"large-" + n, NLARGE, [=](uint64_t i, seq::Ctx &x) {
            Case c; if (!decode_large(alg, i, th, c)) return;
            for (auto &l : LIM) { if (l.it > 3 && !th) continue; c.cfg.iters = l.it; c.cfg.tol = l.tol; one<double>(c, x, 1e-9); }
        }, [=](uint64_t i) { Case c; return decode_large(alg, i, th, c) ? describe(c) : std::string("skipped"); }, 0});
        // the corpus the document belongs to: its size and the frequency of the class
        s.push_back({"corpus-" + n, 7 * 6 * 3, [=](uint64_t i, seq::Ctx &x) {
            static const int sz[] = {1, 2, 5, 64, 300, 1500, 9000}, of[] = {1, 2, 3, 40, 1000, 8999}; seq::Radix r(i); int N = sz[r(7)], own = of[r(6)]; int dk = r(3); if (own > N) return;
            Case c = decode(alg, (uint64_t)(5 + dk) * NSP * NCY * NE * NA * NB + NE * NCY * NSP * 2 + NCY * NSP + NSP * 2); if (!valid(c.m, c.doc) || total(c.doc) == 0) return;
            int C = c.m.C(); c.cfg.iters = 3; c.cfg.tol = 0; std::vector<D> ds(N, c.other); ds[0] = c.doc; D ys(N); for (int k = 0; k < N; k++) ys[k] = k < own || C < 2 ? c.y : (c.y + 1 + k % (C - 1)) % C;
            OneDoc o(ds, ys); auto e = make_e<double>(c.cfg); auto p = params<double>(c.m); double got = NAN; int nev = 0;
            auto l = e->get_event_dispatcher()->add_listener([&](std::shared_ptr<events::Event> ev) { nev++; got = std::static_pointer_cast<events::ExpectationProgressEvent<double> >(ev)->likelihood(); });
            auto vp = get_vp<double>(e->doc_e_step(o.at(0), p), alg == CORR); x.step();
            int cnt = 0; for (int v : ys) cnt += v == c.y;
            double want = bound(c.cfg, c.doc, c.y, c.m, vp, (double)((float)cnt / (float)N), 1.0 / N); x.state(seq::mix(N, cnt));
            if (nev != 1 || !seq::close(got, want, 1e-6, 1e-6 * (1 + total(c.doc)))) x.violate("corpus", "%s: in a corpus of %d documents with %d of the class the reported bound is %.12g, the documented one %.12g", alg_name(alg), N, cnt, got, want);
        }, nullptr, 0});
    }
    // ascent of the unsupervised bound, iteration by iteration
    s.push_back({"ascent", docs().size() * NB * NA + shapes_size(), [=](uint64_t i, seq::Ctx &x) {
        uint64_t n0 = docs().size() * NB * NA;
        Case c = i < n0 ? decode(UNSUP, i * NE * NCY * NSP) : decode_shape(UNSUP, i - n0);
        double prev = NAN;
        for (int it = 0; it <= (th ? 40 : 12); it++) {
            c.cfg.iters = it; c.cfg.tol = 0; double l = one<double>(c, x, 1e-10);
            // accuracy of the approximated exponential: about |psi|/512 relative per responsibility, second order in the bound
            double slack = 1e-3 * (1 + total(c.doc));
            if (it > 1 && l < prev - slack) x.violate("decrease", "iteration %d lowers the bound from %.9g to %.9g", it, prev, l);
            prev = l;
        }
    }, [=](uint64_t i) { uint64_t n0 = docs().size() * NB * NA; return describe(i < n0 ? decode(UNSUP, i * NE * NCY * NSP) : decode_shape(UNSUP, i - n0)); }, 0});
    // fraction of documents with a likelihood: none for 0, all for 1, NaN marks the others
    s.push_back({"fraction", NALG * 3 * 4, [=](uint64_t i, seq::Ctx &x) {
        seq::Radix r(i); int alg = r(NALG); static const double fr[] = {0.0, 1.0, 0.5}; double f = fr[r(3)]; int seed = r(4);
        Case c = decode(alg, 5 * NSP * NCY * NE * NA * NB); c.doc = {2, 1, 1}; c.cfg.iters = 3; c.cfg.tol = 0; c.cfg.likelihood = f; c.cfg.seed = seed;
        auto e = make_e<double>(c.cfg); auto p = params<double>(c.m); OneDoc o({c.doc, c.doc, c.doc}, {c.y, c.y, c.m.C() > 1 ? 1 - c.y : 0});
        double want = NAN; int fin = 0, nan = 0;
        auto l = e->get_event_dispatcher()->add_listener([&](std::shared_ptr<events::Event> ev) {
            double v = std::static_pointer_cast<events::ExpectationProgressEvent<double> >(ev)->likelihood();
            if (std::isnan(v)) nan++; else { fin++; if (!seq::close(v, want, 1e-8, 1e-8)) x.violate("fraction-value", "reported %g, documented %g", v, want); }
        });
        auto cf = c.cfg; cf.likelihood = 1; auto w = infer_real<double>(cf, c.m, c.doc, c.y); want = bound(c.cfg, c.doc, c.y, c.m, w.vp, c.m.C() > 1 ? 2.0f / 3.0f : 1.0f, 1.0 / 3);
        for (int k = 0; k < 200; k++) { e->doc_e_step(o.at(0), p); x.step(); }
        x.state(fin);
        if (fin + nan != 200) x.violate("fraction-events", "%d events for 200 documents", fin + nan);
        if (f == 0 && fin) x.violate("fraction-zero", "%d likelihoods computed with fraction 0", fin);
        if (f == 1 && nan) x.violate("fraction-one", "%d likelihoods missing with fraction 1", nan);
        if (f == 0.5 && (fin < 40 || fin > 160)) x.violate("fraction-half", "%d of 200 likelihoods with fraction 0.5", fin);
    }, [](uint64_t i) { return std::to_string(i); }, 0});
    return seq::run(argc, argv, "C10", s);
}
