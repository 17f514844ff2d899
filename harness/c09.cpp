// C09: each expectation step equals the documented coordinate updates and stops
// when documented.
#include "lattice.hpp"
using namespace lat;

struct Lim { size_t it; double tol; };
static const std::vector<Lim> LIM = {{0, 0}, {1, 0}, {2, 0}, {3, 0}, {40, 1e-2}, {7, 0.3071}, {5, 1e9}};
static const std::vector<Lim> LIMX = {{4, 0}, {6, 0}, {10, 1e-2}, {10, 1e-4}, {25, 1e-3}, {1, 1e-2}, {2, 1.0717}, {100, 0}};

template <typename S> static void one(const Case &c, seq::Ctx &x, double tol, bool history) {
    if (!valid(c.m, c.doc)) return;
    auto r = infer_real<S>(c.cfg, c.m, c.doc, c.y, history && valid(c.m, c.other) ? std::vector<D>{c.other} : std::vector<D>{});
    x.step(r.vp.gamma.size() ? 1 : 0);
    auto want = infer(c.cfg, c.doc, c.y, c.m, sizeof(S) == 4 ? 1e-4 : 1e-9);
    double best = 1e300; const Vp *b = &want.back();
    if ((int)r.vp.gamma.size() == c.m.K() && r.vp.phi.size() == (size_t)c.m.K() && r.vp.phi[0].size() == c.doc.size())
        for (auto &w : want) { double d = diff(r.vp, w, c.doc, c.cfg.alg == CORR); if (d < best) { best = d; b = &w; } }
    x.state(vhash(r.vp));
    if (!(best <= tol)) x.violate(alg_name(c.cfg.alg), "%s: topic weights %s, the documented updates give %s after %d iterations (difference %.3g)", str(c.cfg).c_str(), str(r.vp.gamma).c_str(), str(b->gamma).c_str(), b->iterations, best);
}

int main(int argc, char **argv) {
    bool th = seq::thorough(argc, argv);
    std::vector<seq::Space> s;
    for (int alg = 0; alg < NALG; alg++) {
        std::string n = alg_name(alg);
        s.push_back({"lattice-" + n, lattice_size(), [=](uint64_t i, seq::Ctx &x) {
            Case c = decode(alg, i);
            if (alg == UNSUP && (i % (NE * NCY * NSP) != 0)) return;             // no classes, no weights
            for (auto &l : LIM) { c.cfg.iters = l.it; c.cfg.tol = l.tol; one<double>(c, x, l.it == 0 ? 1e-12 : l.it <= 3 ? 1e-10 : 1e-8, (i & 1)); }
            if (th) for (auto &l : LIMX) { c.cfg.iters = l.it; c.cfg.tol = l.tol; one<double>(c, x, l.it == 0 ? 1e-12 : l.it <= 3 ? 1e-10 : 1e-8, !(i & 1)); }
        }, [=](uint64_t i) { return describe(decode(alg, i)); }, 0});
        s.push_back({"shapes-" + n, shapes_size(), [=](uint64_t i, seq::Ctx &x) {
            Case c = decode_shape(alg, i);
            for (auto &l : LIM) { c.cfg.iters = l.it; c.cfg.tol = l.tol; one<double>(c, x, l.it == 0 ? 1e-12 : l.it <= 3 ? 1e-10 : 1e-8, true); }
        }, [=](uint64_t i) { return describe(decode_shape(alg, i)); }, 0});
        s.push_back({"float-" + n, lattice_size() / NSP / NCY, [=](uint64_t i, seq::Ctx &x) {
            Case c = decode(alg, i * NSP * NCY + i % (NSP * NCY));
            if (total(c.doc) > 700) return;
            c.cfg.iters = 1; c.cfg.tol = 0; one<float>(c, x, 0.03, false);
        }, [=](uint64_t i) { return describe(decode(alg, i * NSP * NCY + i % (NSP * NCY))); }, 0});
        s.push_back({"counts-" + n, NCOUNTS, [=](uint64_t i, seq::Ctx &x) {
            Case c; if (!decode_counts(alg, i, c)) return;
            for (size_t it = 0; it < 3; it++) { c.cfg.iters = it; c.cfg.tol = 0; one<double>(c, x, it == 0 ? 1e-12 : 1e-9, i & 1); }
        }, [=](uint64_t i) { Case c; return decode_counts(alg, i, c) ? describe(c) : std::string("skipped"); }, 0});
        // limits beyond 8 and 16 bits
        s.push_back({"limits-" + n, 5 * 4 * 2, [=](uint64_t i, seq::Ctx &x) {
            static const size_t IT[] = {255, 256, 257, 1000, 65538}; static const int FP[] = {10, 255, 256, 300}; seq::Radix r(i); size_t it = IT[r(5)]; int fp = FP[r(4)], d = r(2);
            if (alg != SUP ? fp != 10 : it > 1000 ? fp != 10 : false) return;
            Case c = decode(alg, 0); c.doc = docs()[7 + 3 * d]; c.y = d; c.cfg.iters = it; c.cfg.tol = 0; c.cfg.fixed_point = fp; one<double>(c, x, 1e-8, false);
            if (alg == SUP && it == 255) { c.cfg.iters = 1; one<double>(c, x, 1e-8, false); }
        }, [=](uint64_t i) { static const size_t IT[] = {255, 256, 257, 1000, 65538}; return std::to_string(IT[i % 5]) + " iterations"; }, 0});
        s.push_back({"in-place-" + n, 2 * inplace_size(), [=](uint64_t i, seq::Ctx &x) {
            size_t it = i % 2 ? 1 : 3;
            inplace<double>(alg, i / 2, it, [&](const Case &c, const Vp &v, double, int, int q) { x.step(); x.state(vhash(v)); double best = 1e300; for (auto &w : infer(c.cfg, c.doc, c.y, c.m)) if ((int)v.gamma.size() == c.m.K()) best = std::min(best, diff(v, w, c.doc, alg == CORR));
                if (!(best <= 1e-9)) x.violate("in-place", "%s, call %d on one model object whose values were replaced: topic weights %s are not the documented inference under its current values (difference %.3g)", str(c.cfg).c_str(), q, str(v.gamma).c_str(), best); });
        }, nullptr, 0});
        s.push_back({"large-" + n, NLARGE, [=](uint64_t i, seq::Ctx &x) {
            Case c; if (!decode_large(alg, i, th, c)) return;
            for (auto &l : LIM) { if (l.it > 3 && (!th || l.tol > 1)) continue; c.cfg.iters = l.it; c.cfg.tol = l.tol; one<double>(c, x, l.it == 0 ? 1e-12 : 1e-8, i & 1); }
        }, [=](uint64_t i) { Case c; return decode_large(alg, i, th, c) ? describe(c) : std::string("skipped"); }, 0});
    }
    // the supervised weight of the fast algorithm: constant or decaying with completed passes
    s.push_back({"weight", 2 * 12 * 5 * 8 * 3, [](uint64_t i, seq::Ctx &x) {
        seq::Radix r(i); bool decay = r(2); static const int EP[] = {0, 1, 2, 3, 4, 7, 11, 26, 63, 255, 256, 300}; int ep = EP[r(12)]; static const double Cs[] = {0.9137, 0.5117, 1.0, 0.0, 1.0471}; double C = Cs[r(5)];
        int d = r(8), e = 1 + r(3);
        Case c = decode(FAST, 0); c.cfg.C = C; c.cfg.decay = decay; c.cfg.epochs = ep; c.m.eta = eta_for(c.m.K(), 2, e); c.y = d & 1; c.doc = docs()[3 * d + 2];
        for (auto &l : LIM) { c.cfg.iters = l.it; c.cfg.tol = l.tol; one<double>(c, x, l.it == 0 ? 1e-12 : l.it <= 3 ? 1e-10 : 1e-8, false); }
    }, [](uint64_t i) { seq::Radix r(i); static const int EP[] = {0, 1, 2, 3, 4, 7, 11, 26, 63, 255, 256, 300}; int d = r(2), e = EP[r(12)]; return std::string(d ? "decay" : "constant") + " after " + std::to_string(e) + " passes"; }, 0});
    return seq::run(argc, argv, "C09", s);
}
