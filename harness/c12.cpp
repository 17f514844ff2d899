// C12: the classifier update of the supervised batch steps.
#include "mref.hpp"
using namespace mref;
struct Out { M eta; std::vector<double> ev; };
template <typename S> static std::shared_ptr<em::MStepInterface<S> > make(bool second, size_t it, double tol, double L) {
    if (second) return std::make_shared<em::SupervisedMStep<S> >(it, (S)tol, (S)L);
    return std::make_shared<em::FastSupervisedMStep<S> >(it, (S)tol, (S)L);
}
// runs the passes before, then the pass p from the model m, on one object
template <typename S> static Out run(bool second, size_t it, double tol, double L, const std::vector<MDoc> &docs, const std::vector<Pass> &before, const Pass &p, const Model &m) {
    auto ms = make<S>(second, it, tol, L); Out o;
    for (auto &b : before) { auto scratch = params<S>(m); for (int i : b) ms->doc_m_step(doc_of(docs[i]), vp_of<S>(docs[i], m.alpha), scratch); ms->m_step(scratch); }
    auto par = params<S>(m); auto other = make<S>(second, 2, 0.1, L + 1); auto po = params<S>(m);   // a second step with a model of its own, used in between
    ms->get_event_dispatcher()->add_listener([&](std::shared_ptr<events::Event> e) { if (e->id() == "MaximizationProgressEvent") o.ev.push_back(std::static_pointer_cast<events::MaximizationProgressEvent<S> >(e)->likelihood()); });
    for (int i : p) { ms->doc_m_step(doc_of(docs[i]), vp_of<S>(docs[i], m.alpha), par); if (before.size() % 2) { size_t j = (i + 1) % docs.size(); other->doc_m_step(doc_of(docs[j]), vp_of<S>(docs[j], m.alpha), po); if (i % 3 == 1) other->m_step(po); } }
    ms->m_step(par); o.eta = tom(par->eta);
    return o;
}
template <typename S> static void one(bool second, double L, double tol, const std::vector<MDoc> &docs, const std::vector<Pass> &before, const Pass &p, const Model &m, seq::Ctx &x, int maxit, int minit = 0) {
    const char *n = second ? "second-order" : "first-order"; auto key = [&](const char *k) { return std::string(n) + "-" + k; };
    double eps = sizeof(S) == 4 ? 2e-4 : 1e-9;
    Problem q = problem(docs, p, m.alpha, second, L);
    std::vector<double> ref_values;   // objective at iterate j, from the run limited to j iterations
    M prev = m.eta; double v0 = q.value(m.eta);
    for (int it = minit; it <= maxit; it++) {
        Out o = run<S>(second, it, tol, L, docs, before, p, m); x.step(p.size() + 1);
        for (auto &r : o.eta) for (double e : r) if (!std::isfinite(e)) { x.violate(key("finite").c_str(), "classifier weight is %g after a pass limited to %d iterations", e, it); return; }
        uint64_t st = second; for (auto &r : o.eta) for (double e : r) st = seq::mix(st, (long)(e * 1e6)); x.state(st);
        if (o.ev.empty()) { x.violate(key("events").c_str(), "no maximisation event"); return; }
        if ((int)o.ev.size() > it + 1) { x.violate(key("limit").c_str(), "%zu steps with a limit of %d iterations", o.ev.size() - 1, it); return; }
        double vend = q.value(o.eta);
        if (!seq::close(-o.ev[0], v0, eps, eps)) { x.violate(key("start").c_str(), "the first reported objective is %.10g, at the starting weights it is %.10g", -o.ev[0], v0); return; }
        if (!seq::close(-o.ev.back(), vend, eps * 10, eps * 10)) { x.violate(key("end").c_str(), "the last reported objective is %.10g, at the final weights it is %.10g", -o.ev.back(), vend); return; }
        for (size_t j = 1; j < o.ev.size(); j++) if (-o.ev[j] > -o.ev[j - 1] + eps * (1 + std::fabs(o.ev[j]))) { x.violate(key("worse").c_str(), "objective rises from %.10g to %.10g at iteration %zu", -o.ev[j - 1], -o.ev[j], j); return; }
        // stopping rule: relative improvement against the tolerance
        for (size_t j = 0; j < o.ev.size(); j++) {
            double v = -o.ev[j], imp = j == 0 ? INFINITY : (-o.ev[j - 1] - v) / v; bool go = (int)j < it && imp > tol, went = j + 1 < o.ev.size();
            bool near = j > 0 && std::fabs(imp - tol) <= (sizeof(S) == 4 ? 1e-5 : 1e-9); if (v == 0) near = true;
            if (go != went && !near) { x.violate(key("stopping").c_str(), "after iteration %zu (relative improvement %.6g, limit %d, tolerance %g) the update %s", j, imp, it, tol, went ? "went on" : "stopped"); return; }
        }
        if (!minit) for (size_t j = 0; j < o.ev.size() && j < ref_values.size(); j++) if (!seq::close(-o.ev[j], ref_values[j], eps * 10, eps * 10)) { x.violate(key("iterates").c_str(), "reported objective %zu is %.10g, that of the iterate is %.10g", j, -o.ev[j], ref_values[j]); return; }
        if (it == 0) for (size_t a = 0; a < m.eta.size(); a++) for (size_t b = 0; b < m.eta[0].size(); b++) if (!seq::close(o.eta[a][b], m.eta[a][b], 1e-6, 1e-6)) { x.violate(key("limit").c_str(), "weights change with a limit of 0 iterations"); return; }
        if (it >= 1 && it > minit && (int)o.ev.size() == it + 1) {   // the step is along the negative gradient at the previous iterate
            M g = q.gradient(prev); double gg = 0, dg = 0, dd = 0;
            for (size_t a = 0; a < g.size(); a++) for (size_t b = 0; b < g[0].size(); b++) { double d = o.eta[a][b] - prev[a][b]; gg += g[a][b] * g[a][b]; dg += d * g[a][b]; dd += d * d; }
            double slack = sizeof(S) == 4 ? 1e-2 : 1e-5, tiny = sizeof(S) == 4 ? 1e-3 : 1e-6;
            if (gg > tiny && dd > tiny * tiny && dg > -(1 - slack) * std::sqrt(gg * dd)) { x.violate(key("direction").c_str(), "step %d is not along the negative gradient of the documented objective (cosine %.6f)", it, -dg / std::sqrt(gg * dd)); return; }
            if (gg > tiny && dd == 0) { x.violate(key("no-step").c_str(), "step %d leaves the weights unchanged although the gradient norm is %.3g", it, std::sqrt(gg)); return; }
        }
        ref_values.push_back(vend); prev = o.eta;
        if ((int)o.ev.size() < it + 1) break;     // stopped by the tolerance, larger limits change nothing
    }
}
int main(int argc, char **argv) {
    bool th = seq::thorough(argc, argv);
    std::vector<seq::Space> s;
    static const double Ls[] = {1e-2, 0.0, 5.0}, Ts[] = {1e-2, 0.0, 0.3};
    auto P = passes(6, 3); std::vector<std::vector<Pass> > H = {{}, {{0, 1, 4, 3, 1}}, {{4}}, {{1, 3}, {5, 5, 0, 1}}};
    for (int sec = 0; sec < 2; sec++) {
        uint64_t n = P.size() * 5 * 3 * 3 * (th ? H.size() : 2);
        auto dec = [=](uint64_t i, int &e, double &L, double &T, int &h, int &p) { seq::Radix r(i); e = r(5); int lt = r(9); L = Ls[lt % 3]; T = Ts[lt / 3]; h = th ? r(H.size()) : 2 * r(2) + (int)(i / 90 % 2); p = r(P.size()); };
        auto desc = [=](uint64_t i) { int e, h, p; double L, T; dec(i, e, L, T, h, p); return "weights " + std::to_string(e) + " penalty " + std::to_string(L) + " tolerance " + std::to_string(T) + " earlier passes " + mref::str(H[h]) + " pass " + ref::str(D(P[p].begin(), P[p].end())); };
        s.push_back({sec ? "second-order" : "first-order", n, [=](uint64_t i, seq::Ctx &x) {
            int e, h, p; double L, T; dec(i, e, L, T, h, p);
            if (!th && i % 3) return;
            one<double>(sec, L, T, alphabet(), H[h], P[p], start_model(3, false, e), x, th ? 12 : 5);
        }, desc, 0});
        s.push_back({sec ? "second-order-float" : "first-order-float", n / 16, [=](uint64_t j, seq::Ctx &x) {
            uint64_t i = j * 16 + j % 16; int e, h, p; double L, T; dec(i, e, L, T, h, p); if (e == 3) e = 1;
            one<float>(sec, L, T, alphabet(), H[h], P[p], start_model(3, false, e), x, 4);
        }, [=](uint64_t j) { return desc(j * 16 + j % 16); }, 0});
    }
    // larger passes, many documents: buffers that grow and shrink
    s.push_back({"sizes", 2 * 22 * 22, [=](uint64_t i, seq::Ctx &x) {
        seq::Radix r(i); bool sec = r(2); static const int sz[] = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 15, 16, 17, 31, 32, 33, 34, 64, 65, 129, 130}; int a = sz[r(22)], b = sz[r(22)];
        Pass pa, pb; for (int k = 0; k < a; k++) pa.push_back((k * 5 + 1) % 6); for (int k = 0; k < b; k++) pb.push_back((k * 7 + 3) % 6);
        one<double>(sec, 1e-2, 1e-3, alphabet(), {pa}, pb, start_model(3, false, 1), x, 4);
        one<double>(sec, 1e-2, 1e-3, alphabet(), {pa, pb}, pa, start_model(4, false, 0), x, 3);
    }, nullptr, 0});
    // rare classes (large class weights) and large shapes
    s.push_back({"imbalanced", 2 * 5 * 3 * 3, [=](uint64_t i, seq::Ctx &x) {
        seq::Radix r(i); bool sec = r(2); static const int sz[] = {12, 40, 99, 400, 1500}; int a = sz[r(5)], rare = r(3); double L = Ls[r(3)];
        auto d = alphabet(); Pass p; for (int k = 0; k < a; k++) p.push_back(k % 7 == 3 && a < 1000 ? 2 : k % 3 ? 0 : 1); d[0].y = d[1].y = d[2].y = 0; if (rare == 2) { d[1].y = 1; } d[3].y = rare ? 2 : 1; d[5].y = 1; p.insert(p.begin() + a / 2, 3); if (rare == 1) p.push_back(5);
        one<double>(sec, L, 1e-3, d, {}, p, start_model(3, false, 1), x, 3); one<float>(sec, L, 1e-3, d, {}, p, start_model(3, false, 0), x, 2);
    }, nullptr, 0});
    s.push_back({"shapes", 2 * 8, [=](uint64_t i, seq::Ctx &x) {
        seq::Radix r(i); bool sec = r(2); static const int z[8][4] = {{5, 8, 40, 10}, {17, 33, 20, 4}, {33, 5, 12, 2}, {2, 3, 60, 33}, {9, 9, 70, 9}, {3, 257, 10, 3}, {1, 2, 30, 17}, {40, 3, 5, 3}}; const int *q = z[r(8)]; int K = q[0], W = q[1], Dn = q[2], C = q[3];
        uint64_t h = K * 100 + W; auto rnd = [&] { h = seq::mix(h, 6); return (h >> 11) / 9007199254740992.0; }; std::vector<MDoc> d; Pass p;
        for (int k = 0; k < Dn; k++) { MDoc m; m.X.resize(W); for (auto &v : m.X) v = rnd() < .3 ? 0 : (int)(rnd() * 6); m.X[0]++; m.phi.assign(K, V(W)); for (int n = 0; n < W; n++) { double s = 0; for (int t = 0; t < K; t++) s += (m.phi[t][n] = rnd() * rnd() * rnd() + .001); for (int t = 0; t < K; t++) m.phi[t][n] /= s; } m.tau.assign(W, 1.0 / W); m.y = k < C ? C - 1 - k : (int)(rnd() * C); d.push_back(m); p.push_back(k); }
        Model m; m.alpha.assign(K, 0.4); m.beta.assign(K, V(W, 1.0 / W)); m.eta = eta_for(K, C, 1);
        one<double>(sec, 1e-2, 1e-3, d, {}, p, m, x, 2); one<float>(sec, 1e-2, 1e-3, d, {}, p, m, x, 2);
    }, nullptr, 120});
    // large iteration limits
    s.push_back({"many-iterations", 2 * 4 * 6, [=](uint64_t i, seq::Ctx &x) {
        seq::Radix r(i); bool sec = r(2); static const int lim[] = {10, 33, 120, 600}; int it = lim[r(4)]; static const Pass ps[] = {{0, 1}, {0, 3, 4}, {1, 3, 5, 0, 4}, {3, 5}, {4, 4, 0}, {0, 1, 3, 5, 2, 1}};
        one<double>(sec, 1e-2, 0.0, alphabet(), {}, ps[r(6)], start_model(3, false, i % 2 ? 0 : 3), x, it, it);
    }, nullptr, 0});
    // very long documents and passes without any labelled document
    s.push_back({"long-documents", 2 * 4, [=](uint64_t i, seq::Ctx &x) {
        seq::Radix r(i); bool sec = r(2); static const int len[] = {46341, 60000, 1000000, 300000000}; int L = len[r(4)];
        auto d = alphabet(); d[0].X = {L, 0, L / 3}; d[1].X = {1, L / 2, 0};
        one<double>(sec, 1e-2, 1e-3, d, {}, {0, 1, 3}, start_model(3, false, 1), x, 3);
    }, nullptr, 0});
    return seq::run(argc, argv, "C12", s);
}
