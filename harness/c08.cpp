// C08: inference yields finite, well-formed parameters for every valid input.
#include "lattice.hpp"
using namespace lat;

template <typename S> static void one(const Case &c, seq::Ctx &x) {
    if (!valid(c.m, c.doc)) return;
    auto r = infer_real<S>(c.cfg, c.m, c.doc, c.y);
    x.step(); x.state(vhash(r.vp));
    double eps = sizeof(S) == 4 ? 2e-4 : 1e-9, N = total(c.doc);
    int K = c.m.K();
    const char *a = alg_name(c.cfg.alg);
    if (r.events != 1) { x.violate((std::string(a) + "-event").c_str(), "%d expectation events posted for one document", r.events); return; }
    if ((int)r.vp.gamma.size() != K || (int)r.vp.phi.size() != K || (int)r.vp.phi[0].size() != c.m.W()) { x.violate((std::string(a) + "-shape").c_str(), "result of the wrong shape"); return; }
    double as = 0, gs = 0;
    for (int k = 0; k < K; k++) {
        double al = (S)c.m.alpha[k], g = r.vp.gamma[k]; as += al; gs += g;
        if (!std::isfinite(g)) { x.violate((std::string(a) + "-finite").c_str(), "topic weights are not finite: %s", str(r.vp.gamma).c_str()); return; }
        if (g < al - eps * (1 + N)) { x.violate((std::string(a) + "-prior").c_str(), "weight of topic %d is %.9g, below its prior %.9g", k, g, al); return; }
    }
    if (std::fabs(gs - as - N) > eps * (1 + N) * K) { x.violate((std::string(a) + "-sum").c_str(), "topic weights sum to %.9g, prior sum plus length is %.9g", gs, as + N); return; }
    for (int n = 0; n < c.m.W(); n++) {
        double s = 0;
        for (int k = 0; k < K; k++) {
            double p = r.vp.phi[k][n]; s += p;
            if (c.doc[n] && (!std::isfinite(p) || p < 0)) { x.violate((std::string(a) + "-phi").c_str(), "responsibility of topic %d for word %d is %g", k, n, p); return; }
            if (!std::isfinite(p)) { x.violate((std::string(a) + "-phi-absent").c_str(), "responsibility of topic %d for the absent word %d is %g", k, n, p); return; }
        }
        if (c.doc[n] && std::fabs(s - 1) > eps * 10) { x.violate((std::string(a) + "-phi-sum").c_str(), "responsibilities for word %d sum to %.9g", n, s); return; }
    }
}
struct Lim { size_t it; double tol; };
static const std::vector<Lim> LIM = {{0, 1e-2}, {1, 0}, {4, 1e-2}, {30, 1e-3}, {5, 1e9}};

// extreme inputs: e selects classifier magnitude, a the prior
static Case extreme(int alg, uint64_t i) {
    seq::Radix r(i); Case c; c.cfg.alg = alg; special(c.cfg, r(NSP));
    int e = r(5), a = r(4), b = r(NB), d = r(docs().size()), y = r(3);
    c.m.beta = betas3()[b]; int K = c.m.beta.size(); static const double al[] = {0.1, 1.0, 5.0, 40.0};
    c.m.alpha.assign(K, al[a]); c.y = y;
    static const double mag[] = {1.0, 8.0, 20.0, 0.001, -12.0};
    if (alg == MULTI || alg == CORR) {
        c.m.eta.assign(K, V(3)); static const double tiny[] = {0.3, 1e-3, 1e-6, 1e-9, 0.05};
        for (int k = 0; k < K; k++) for (int q = 0; q < 3; q++) c.m.eta[k][q] = (k + q) % 3 == 0 ? 1 - 2 * tiny[e] : tiny[e];
        if (c.cfg.eta_weight > 1) c.cfg.eta_weight = 1;
    } else { c.m.eta = eta_for(K, 3, 1); for (auto &row : c.m.eta) for (auto &v : row) v = mag[e] < 0 ? -std::fabs(v) * 12 : v * mag[e]; }
    if (c.cfg.C > 2) c.cfg.C = 3;
    c.doc = docs()[d];
    return c;
}
int main(int argc, char **argv) {
    bool th = seq::thorough(argc, argv);
    std::vector<seq::Space> s;
    for (int alg = 0; alg < NALG; alg++) for (int fl = 0; fl < 2; fl++) {
        std::string n = std::string(alg_name(alg)) + (fl ? "-float" : "-double");
        uint64_t L = lattice_size() / (th ? 1 : 4);
        s.push_back({"lattice-" + n, L, [=](uint64_t i, seq::Ctx &x) {
            Case c = decode(alg, th ? i : i * 4 + i / 7 % 4); if (alg == UNSUP && (i % 8)) return;
            for (auto &l : LIM) { c.cfg.iters = l.it; c.cfg.tol = l.tol; if (fl) one<float>(c, x); else one<double>(c, x); }
        }, [=](uint64_t i) { return describe(decode(alg, th ? i : i * 4 + i / 7 % 4)); }, 0});
        s.push_back({"extreme-" + n, (uint64_t)NSP * 5 * 4 * NB * docs().size() * 3, [=](uint64_t i, seq::Ctx &x) {
            Case c = extreme(alg, i); if (alg == UNSUP && (i % 20)) return;
            for (auto &l : LIM) { if (!th && l.it != 4 && l.it != 30) continue; c.cfg.iters = l.it; c.cfg.tol = l.tol; if (fl) one<float>(c, x); else one<double>(c, x); }
        }, [=](uint64_t i) { return describe(extreme(alg, i)); }, 0});
        s.push_back({"shapes-" + n, shapes_size(), [=](uint64_t i, seq::Ctx &x) {
            Case c = decode_shape(alg, i);
            for (auto &l : LIM) { c.cfg.iters = l.it; c.cfg.tol = l.tol; if (fl) one<float>(c, x); else one<double>(c, x); }
        }, [=](uint64_t i) { return describe(decode_shape(alg, i)); }, 0});
        s.push_back({"counts-" + n, NCOUNTS, [=](uint64_t i, seq::Ctx &x) {
            Case c; if (!decode_counts(alg, i, c)) return;
            for (size_t it = 0; it < 5; it++) { c.cfg.iters = it; c.cfg.tol = 0; if (fl) one<float>(c, x); else one<double>(c, x); }
        }, [=](uint64_t i) { Case c; return decode_counts(alg, i, c) ? describe(c) : std::string("skipped"); }, 0});
        s.push_back({"large-" + n, NLARGE, [=](uint64_t i, seq::Ctx &x) {
            Case c; if (!decode_large(alg, i, th, c)) return;
            for (auto &l : LIM) { if (l.it == 30 && !th) continue; c.cfg.iters = l.it; c.cfg.tol = l.tol; if (fl) one<float>(c, x); else one<double>(c, x); }
        }, [=](uint64_t i) { Case c; return decode_large(alg, i, th, c) ? describe(c) : std::string("skipped"); }, 0});
    }
    return seq::run(argc, argv, "C08", s);
}
