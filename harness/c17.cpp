// C17: contracts of the line searches and of gradient descent, on a recording
// problem; all callback answer sequences up to a length.
#include <memory>
#include <Eigen/Core>
#include "seq.hpp"
#include "ldaplusplus/optimization/GradientDescent.hpp"
using namespace ldaplusplus::optimization;

// families of smooth problems on a small matrix; evaluations are recorded
template <typename S> struct Prob {
    typedef Eigen::Matrix<S, -1, -1> P;
    int kind; mutable int values = 0, grads = 0; mutable std::vector<double> gnorm;
    explicit Prob(int k) : kind(k) {}
    double f(double x, int i) const {
        double a = x - 0.4137 * i - 0.3;
        switch (kind) {
        case 0: return a * a;
        case 1: return 40 * a * a;
        case 2: return std::log(1 + std::exp(a)) + 0.05 * a * a;
        case 3: return a * a * a * a + 0.3 * a * a;
        case 4: return std::sin(3 * a) + 0.1 * a * a;
        case 5: return 1e-7 * a * a;
        case 6: return 2.5;                     // constant
        default: return std::exp(4 * a) - 4 * a; // steep
        }
    }
    double df(double x, int i) const {
        double a = x - 0.4137 * i - 0.3;
        switch (kind) {
        case 0: return 2 * a;
        case 1: return 80 * a;
        case 2: return 1 / (1 + std::exp(-a)) + 0.1 * a;
        case 3: return 4 * a * a * a + 0.6 * a;
        case 4: return 3 * std::cos(3 * a) + 0.2 * a;
        case 5: return 2e-7 * a;
        case 6: return 0;
        default: return 4 * std::exp(4 * a) - 4;
        }
    }
    double off() const { return kind == 5 ? 1000.0 : 0; }
    S val(const P &x) const { double s = off(); for (int i = 0; i < x.size(); i++) s += f(x.data()[i], i); return (S)s; }
    P grd(const P &x) const { P g(x.rows(), x.cols()); for (int i = 0; i < x.size(); i++) g.data()[i] = (S)df(x.data()[i], i); return g; }
    S value(const P &x) const { values++; return val(x); }
    void gradient(const P &x, Eigen::Ref<P> g) const { grads++; g = grd(x); gnorm.push_back(g.template lpNorm<Eigen::Infinity>()); }
};
template <typename S> static Eigen::Matrix<S, -1, -1> start(int shape, int k) {
    static const int sh[][2] = {{1, 1}, {2, 1}, {1, 3}, {2, 2}};
    static const double v[] = {0.0, 1.0137, -0.7713, 2.3171, 0.3, -1.9117, 0.6119, 0.04171};
    Eigen::Matrix<S, -1, -1> x(sh[shape][0], sh[shape][1]);
    for (int i = 0; i < x.size(); i++) x.data()[i] = (S)(k == 7 ? 0.3 + 0.4137 * i : v[(k + 3 * i) % 8]);   // 7: the minimum of the quadratics
    return x;
}
enum { NP = 8, NS = 4, NX = 8 };

template <typename S> static void armijo(uint64_t i, seq::Ctx &c) {
    typedef Eigen::Matrix<S, -1, -1> P;
    seq::Radix r(i); int pk = r(NP), sh = r(NS), xk = r(NX), dk = r(4), bk = r(4), tk = r(4);
    static const double betas[] = {0.001, 0.1, 0.5, 0.9}, taus[] = {0.5, 0.1, 0.9, 0.25};
    Prob<S> p(pk); P x0 = start<S>(sh, xk), g = p.grd(x0), d = g;
    if (dk == 1) d *= (S)0.37; if (dk == 2) d *= (S)9.1;
    if (dk == 3) for (int q = 0; q < d.size(); q++) d.data()[q] *= (S)(0.2 + q);   // descent, not steepest
    double dot = 0; for (int q = 0; q < d.size(); q++) dot += (double)g.data()[q] * d.data()[q];
    double beta = (S)betas[bk], tau = (S)taus[tk], v0 = p.val(x0);
    P x = x0; ArmijoLineSearch<Prob<S>, P> ls((S)beta, (S)tau);
    S ret = ls.search(p, x, g, d);
    c.step(p.values); c.state(seq::hash(x.data(), sizeof(S) * x.size()));
    double eps = sizeof(S) == 4 ? 1e-6 : 1e-15, noise = 8 * eps * (1 + std::fabs(v0) + std::fabs(p.off()));
    double got = p.val(x);
    if (!seq::close(ret, got, 64 * eps, 1e3 * noise)) c.violate("returned-value", "search returned %.17g, the objective at the point it left is %.17g", (double)ret, got);
    if (got > v0 + noise) c.violate("raised", "objective rose from %.17g to %.17g", v0, got);
    // reference: largest step 1, tau, tau^2, ... with sufficient decrease
    double a = 1; int steps = 0; bool amb = false; std::vector<double> ok;
    for (;; a = (S)(a * tau), steps++) {
        P y = x0 - (S)a * d; double v = p.val(y), lim = v0 - a * beta * dot;
        if (std::fabs(v - lim) <= 4 * noise) { ok.push_back(a); if (v == v0) amb = true; if (steps > 400) break; if (v <= lim - 0) { } if (ok.size() > 60) break; continue; }
        if (v <= lim) { ok.push_back(a); break; }
        if (steps > 2000) break;
    }
    bool hit = false;
    for (double q : ok) { P y = x0 - (S)q * d; double m = 0; for (int k = 0; k < y.size(); k++) m = std::max(m, std::fabs((double)y.data()[k] - x.data()[k]) / (1 + std::fabs(y.data()[k]))); if (m <= 1e3 * eps) hit = true; }
    // within rounding noise any step that does not raise the objective is acceptable
    if (!hit && !(amb && std::fabs(got - v0) <= noise)) c.violate("step", "left (%g..), the largest sufficient step is %g", (double)x.data()[0], ok.empty() ? -1.0 : ok.back());
}
template <typename S> static void constant(uint64_t i, seq::Ctx &c) {
    typedef Eigen::Matrix<S, -1, -1> P;
    seq::Radix r(i); int pk = r(NP), sh = r(NS), xk = r(NX); static const double as[] = {0.0, 0.1, 1.0, 0.017, 3.0}; S a = (S)as[r(5)]; int dk = r(2);
    Prob<S> p(pk); P x0 = start<S>(sh, xk), g = p.grd(x0), d = g; if (dk) for (int q = 0; q < d.size(); q++) d.data()[q] = (S)(0.3 - q);
    P x = x0; ConstantLineSearch<Prob<S>, P> ls(a); S ret = ls.search(p, x, g, d);
    c.step(); c.state(seq::hash(x.data(), sizeof(S) * x.size()));
    P want = x0 - a * d; double eps = sizeof(S) == 4 ? 1e-5 : 1e-12;
    for (int q = 0; q < x.size(); q++) if (!seq::close(x.data()[q], want.data()[q], eps, eps)) { c.violate("constant-step", "coordinate %d is %g, expected %g", q, (double)x.data()[q], (double)want.data()[q]); return; }
    if (!seq::close(ret, p.val(x), eps, eps)) c.violate("constant-value", "returned %g, objective there is %g", (double)ret, (double)p.val(x));
}
// all callback answer sequences up to length n; two line searches
template <typename S> static void descent(uint64_t i, seq::Ctx &c, int depth) {
    typedef Eigen::Matrix<S, -1, -1> P;
    seq::Radix r(i); int stop = r(depth + 1), pk = r(NP), sh = r(NS), xk = r(NX), lk = r(3);
    Prob<S> p(pk); P x = start<S>(sh, xk), x0 = x;
    std::shared_ptr<LineSearch<Prob<S>, P> > ls;
    if (lk == 0) ls = std::make_shared<ArmijoLineSearch<Prob<S>, P> >(); else if (lk == 1) ls = std::make_shared<ConstantLineSearch<Prob<S>, P> >((S)0.01); else ls = std::make_shared<ArmijoLineSearch<Prob<S>, P> >((S)0.3, (S)0.7);
    std::vector<double> vals, norms; std::vector<size_t> its; bool after = false; int calls = 0;
    double eps = sizeof(S) == 4 ? 1e-5 : 1e-11;
    GradientDescent<Prob<S>, P> gd(ls, [&](S v, S gn, size_t it) { if (calls > stop) after = true; vals.push_back(v); norms.push_back(gn); its.push_back(it); return calls++ < stop; });
    gd.minimize(p, x);
    c.step(calls); c.state(seq::hash(x.data(), sizeof(S) * x.size(), stop));
    if (after || calls != stop + 1) { c.violate("calls", "%d callbacks, the callback declined at the %dth", calls, stop + 1); return; }
    for (size_t k = 0; k < its.size(); k++) if (its[k] != its[0] + k || (k == 0 && its[0] != 0)) { c.violate("iteration-number", "callback %zu got iteration number %zu", k, its[k]); return; }
    // reference trajectory: same line search, exact gradients
    Prob<S> q(pk); P y = x0;
    for (int k = 0; k <= stop; k++) {
        double v = q.val(y), gn = q.grd(y).template lpNorm<Eigen::Infinity>();
        if (!seq::close(vals[k], v, eps, eps * (1 + q.off()))) { c.violate("callback-value", "callback %d got value %.12g, the objective at that point is %.12g", k, vals[k], v); return; }
        if (!seq::close(norms[k], gn, 1e-3, 1e-3)) { c.violate("callback-gradient", "callback %d got gradient norm %.6g, at that point it is %.6g", k, norms[k], gn); return; }
        if (k < stop) { P g = q.grd(y); ls->search(q, y, g, g); }
    }
    for (int k = 0; k < x.size(); k++) if (!seq::close(x.data()[k], y.data()[k], eps * 100, eps * 100)) { c.violate("final-point", "parameters end at %g, the last reported point is %g", (double)x.data()[k], (double)y.data()[k]); return; }
}
// sizes and magnitudes: larger shapes, directions scaled over 60 orders of magnitude, very many steps
template <typename S> static void extreme(uint64_t i, seq::Ctx &c) {
    typedef Eigen::Matrix<S, -1, -1> P; seq::Radix r(i); static const int sh[][2] = {{1, 1}, {5, 3}, {17, 33}, {1, 130}, {257, 2}}; static const double sc[] = {1, 1e-6, 1e3, 1e9, 1e15, 1e30}, taus[] = {0.5, 0.9, 0.99, 0.05}, betas[] = {1e-6, 0.1, 0.5, 0.99};
    int q = r(5), pk = r(2), dk = r(6), tk = r(4), bk = r(4), xk = r(3); Prob<S> p(pk ? 3 : 0); P x0(sh[q][0], sh[q][1]); for (int k = 0; k < x0.size(); k++) x0.data()[k] = (S)(xk == 0 ? 1.7 * std::sin(1.0 + k) + 0.4137 * k : xk == 1 ? 100.0 * (1 + k % 3) + 0.4137 * k : -3.0 + 0.4137 * k);
    P g = p.grd(x0), d = g * (S)sc[dk]; double v0 = p.val(x0), dot = 0; for (int k = 0; k < d.size(); k++) dot += (double)g.data()[k] * d.data()[k];
    if (sizeof(S) == 4 && (dk > 3 || pk || sc[dk] < 1e-3 || q > 1)) return;                   // out of single precision's range
    S beta = (S)betas[bk], tau = (S)taus[tk]; P x = x0; ArmijoLineSearch<Prob<S>, P> ls(beta, tau); S ret = ls.search(p, x, g, d); c.step(p.values); c.state(seq::hash(x.data(), sizeof(S) * x.size()));
    double eps = sizeof(S) == 4 ? 1e-6 : 1e-15, noise = 64 * eps * (1 + std::fabs(v0)), got = p.val(x);
    if (!seq::close(ret, got, 1e3 * eps, 1e2 * noise)) { c.violate("returned-value", "%ldx%ld: search returned %.17g, the objective at the point it left is %.17g", (long)x.rows(), (long)x.cols(), (double)ret, got); return; }
    if (got > v0 + noise) { c.violate("raised", "objective rose from %.17g to %.17g", v0, got); return; }
    S a = 1; bool hit = false, near = false; int n = 0;
    for (;; a *= tau, n++) { P y = x0 - a * d; double v = p.val(y), lim = v0 - (double)a * beta * dot; double tol = std::isfinite(v) ? noise + 1e-12 * std::fabs(lim) : 0; bool amb = std::fabs(v - lim) <= 4 * tol; if (amb) near = true;
        double mm = 0; for (int k = 0; k < y.size(); k++) mm = std::max(mm, std::fabs((double)y.data()[k] - x.data()[k]) / (1 + std::fabs(y.data()[k]))); if ((amb || v <= lim) && mm <= 1e5 * eps) { hit = true; break; }
        if (!amb && v <= lim) break; if (n > 20000 || a == 0) break; }
    if (!hit && !(near && got <= v0 + noise)) c.violate("step", "%ldx%ld, direction times %g, factor %g, decrease %g: left the sequence, the largest sufficient step is %g (number %d)", (long)x.rows(), (long)x.cols(), sc[dk], (double)tau, (double)beta, (double)a, n);
}
// long descents: the callback declines only after very many steps
template <typename S> static void longrun(uint64_t i, seq::Ctx &c) {
    typedef Eigen::Matrix<S, -1, -1> P; seq::Radix r(i); static const int ST[] = {99, 100, 255, 256, 257, 1000, 1025, 5000}; int stop = ST[r(8)], pk = r(3), lk = r(2), sh = r(2); if (stop == 5000 && !sh && lk) stop = 66000; static const int PK[] = {0, 2, 5}; Prob<S> p(PK[pk]);
    P x(sh ? 19 : 2, sh ? 3 : 1); for (int k = 0; k < x.size(); k++) x.data()[k] = (S)(3 * std::cos(k * 1.3)); P x0 = x; size_t calls = 0; std::vector<double> vals, norms; bool bad = false; std::shared_ptr<LineSearch<Prob<S>, P> > ls;
    if (lk) ls = std::make_shared<ConstantLineSearch<Prob<S>, P> >((S)1e-3); else ls = std::make_shared<ArmijoLineSearch<Prob<S>, P> >((S)0.1, (S)0.5);
    GradientDescent<Prob<S>, P> gd(ls, [&](S v, S gn, size_t it) { bad = bad || it != calls; vals.push_back(v); norms.push_back(gn); return calls++ < (size_t)stop; });
    gd.minimize(p, x); c.step(calls); c.state(seq::hash(x.data(), sizeof(S) * x.size(), stop));
    if (calls != (size_t)stop + 1) { c.violate("calls", "%zu callbacks, the callback declined at number %d", calls, stop + 1); return; } if (bad) { c.violate("iteration-number", "iteration numbers do not increase by one over %d steps", stop); return; }
    Prob<S> q(PK[pk]); P y = x0; double eps = sizeof(S) == 4 ? 1e-3 : 1e-8;
    for (int k = 0; k <= stop; k++) { double v = q.val(y), gn = q.grd(y).template lpNorm<Eigen::Infinity>(); if (!seq::close(vals[k], v, eps, eps)) { c.violate("callback-value", "callback %d got value %.12g, the objective at that point is %.12g", k, vals[k], v); return; }
        if (!seq::close(norms[k], gn, 1e-2, 1e-3)) { c.violate("callback-gradient", "callback %d got gradient norm %.6g, at that point it is %.6g", k, norms[k], gn); return; } if (k < stop) { P g = q.grd(y); ls->search(q, y, g, g); } }
    for (int k = 0; k < x.size(); k++) if (!seq::close(x.data()[k], y.data()[k], eps * 10, eps * 10)) { c.violate("final-point", "parameters end at %g, the last reported point is %g", (double)x.data()[k], (double)y.data()[k]); return; }
}
// one minimiser (or two sharing a line search) used for one minimisation after another, over the same or another problem,
// continuing from where the last one ended or starting afresh, in the same memory
template <typename S> static void reuse(uint64_t i, seq::Ctx &c) {
    typedef Eigen::Matrix<S, -1, -1> P; seq::Radix r(i); int lk = r(3), sh = r(2); static const int PK[] = {0, 2, 3, 4}, ST[] = {0, 1, 3};
    auto mk = [&]() -> std::shared_ptr<LineSearch<Prob<S>, P> > { if (lk == 1) return std::make_shared<ConstantLineSearch<Prob<S>, P> >((S)0.03); if (lk == 2) return std::make_shared<ArmijoLineSearch<Prob<S>, P> >((S)0.3, (S)0.7); return std::make_shared<ArmijoLineSearch<Prob<S>, P> >(); };
    auto ls = mk(); std::vector<double> vals, norms; std::vector<size_t> its; int stop = 0, calls = 0; double eps = sizeof(S) == 4 ? 1e-4 : 1e-10;
    auto cb = [&](S v, S gn, size_t it) { vals.push_back(v); norms.push_back(gn); its.push_back(it); return calls++ < stop; };
    GradientDescent<Prob<S>, P> g1(ls, cb), g2(ls, cb); P x = start<S>(sh, 1);
    for (int m = 0; m < 3; m++) {
        int pk = PK[r(4)]; stop = ST[r(3)]; if (r(2)) x = start<S>(sh, 1); vals.clear(); norms.clear(); its.clear(); calls = 0; Prob<S> p(pk), q(pk); P y = x;
        (i % 5 == 4 && m == 1 ? g2 : g1).minimize(p, x); c.step(calls); c.state(seq::hash(x.data(), sizeof(S) * x.size(), stop));
        if (calls != stop + 1) { c.violate("calls", "minimisation %d: %d callbacks, the callback declined at number %d", m, calls, stop + 1); return; }
        auto fresh = mk();
        for (int k = 0; k <= stop; k++) {
            double v = q.val(y), gn = q.grd(y).template lpNorm<Eigen::Infinity>();
            if (its[k] != (size_t)k) { c.violate("iteration-number", "minimisation %d: callback %d got iteration number %zu", m, k, its[k]); return; }
            if (!seq::close(vals[k], v, eps, eps) || !seq::close(norms[k], gn, 1e-3, 1e-3)) { c.violate("callback-value", "minimisation %d of one object: callback %d got value %.12g and gradient norm %.6g, at that point they are %.12g and %.6g", m, k, vals[k], norms[k], v, gn); return; }
            if (k < stop) { P g = q.grd(y); fresh->search(q, y, g, g); }
        }
        for (int k = 0; k < x.size(); k++) if (!seq::close(x.data()[k], y.data()[k], eps * 100, eps * 100)) { c.violate("final-point", "minimisation %d of one object ends at %g, on its own it ends at %g", m, (double)x.data()[k], (double)y.data()[k]); return; }
    }
}
int main(int argc, char **argv) {
    bool th = seq::thorough(argc, argv); int dp = th ? 40 : 8;
    std::vector<seq::Space> s; uint64_t na = (uint64_t)NP * NS * NX * 4 * 4 * 4, nc = (uint64_t)NP * NS * NX * 5 * 2, nd = (uint64_t)(dp + 1) * NP * NS * NX * 3;
    auto da = [](uint64_t i) { seq::Radix r(i); char b[160]; int a = r(NP), e = r(NS), f = r(NX), g = r(4), h = r(4), k = r(4); snprintf(b, 160, "problem %d shape %d start %d direction %d beta %d tau %d", a, e, f, g, h, k); return std::string(b); };
    s.push_back({"armijo-double", na, armijo<double>, da, 0}); s.push_back({"armijo-float", na, armijo<float>, da, 0});
    s.push_back({"constant-double", nc, constant<double>, nullptr, 0}); s.push_back({"constant-float", nc, constant<float>, nullptr, 0});
    auto dd = [=](uint64_t i) { seq::Radix r(i); char b[160]; int st = r(dp + 1), a = r(NP), e = r(NS), f = r(NX), g = r(3); snprintf(b, 160, "callback declines after %d steps, problem %d shape %d start %d search %d", st, a, e, f, g); return std::string(b); };
    s.push_back({"descent-double", nd, [=](uint64_t i, seq::Ctx &c) { descent<double>(i, c, dp); }, dd, 0});
    s.push_back({"descent-float", nd, [=](uint64_t i, seq::Ctx &c) { descent<float>(i, c, dp); }, dd, 0});
    s.push_back({"extreme-double", 5 * 2 * 6 * 4 * 4 * 3, extreme<double>, nullptr, 20}); s.push_back({"extreme-float", 5 * 2 * 6 * 4 * 4 * 3, extreme<float>, nullptr, 20});
    s.push_back({"long-double", 8 * 3 * 2 * 2, longrun<double>, nullptr, 30}); s.push_back({"long-float", 8 * 3 * 2 * 2, longrun<float>, nullptr, 30});
    s.push_back({"reuse-double", 6 * 24 * 24 * 24, reuse<double>, nullptr, 0}); s.push_back({"reuse-float", 6 * 24 * 24 * 24, reuse<float>, nullptr, 0});
    return seq::run(argc, argv, "C17", s);
}
