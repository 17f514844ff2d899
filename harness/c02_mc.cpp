// C02: all interleavings of transform with the real expectation step; every
// column equals inference of that document alone, the model stays untouched.
#include <thread>
#include "mc_stubs.hpp"
#include "real.hpp"
using namespace ldaplusplus;

int main(int argc, char **argv) {
    bool th = seq::thorough(argc, argv);
    std::vector<mc::Scenario> s;
    // ops: 't' transform n documents, 'f' one training pass over 2 documents, 's' transform of one document
    auto add = [&](const std::string &ops, int W, int N, double lik, int pb) {
        real::Opt o; o.likelihood = lik; ref::Model m0 = real::model(real::P_UNSUP);
        auto X = std::make_shared<Eigen::MatrixXi>(real::docs(N)); auto T = std::make_shared<Eigen::MatrixXi>(real::docs(2, 3, 5));
        auto Z = std::make_shared<Eigen::MatrixXi>(real::docs(1, 3, 9));
        char nm[120]; snprintf(nm, sizeof nm, "%s-w%d-n%d-l%g-%s", ops.c_str(), W, N, lik, pb < 0 ? "all" : ("p" + std::to_string(pb)).c_str());
        std::string name = nm;
        s.push_back({name, [=] {
            std::shared_ptr<parameters::SupervisedModelParameters<double> > p;
            { mc::Quiet q; p = ref::params<double>(m0); }
            LDA<double> lda(p, real::estep<double>(real::P_UNSUP, o), real::mstep<double>(real::P_UNSUP, o), 1, W);
            for (char op : ops) {
                if (op == 'f') { lda.partial_fit(*T, Eigen::VectorXi::Zero(T->cols())); continue; }
                const Eigen::MatrixXi &A = op == 't' ? *X : *Z;
                ref::Model before; { mc::Quiet q; before.alpha = ref::tov(p->alpha); before.beta = ref::tom(p->beta); before.eta = ref::tom(p->eta); }
                Eigen::MatrixXd g = lda.transform(A);
                mc::Quiet q;
                if (before.alpha != ref::tov(p->alpha) || before.beta != ref::tom(p->beta) || before.eta != ref::tom(p->eta)) mc::fail("model-touched", "%s: transform changed the model", name.c_str());
                if (g.cols() != A.cols() || g.rows() != 2) mc::fail("shape", "%s: transform of %ld documents returned %ldx%ld", name.c_str(), (long)A.cols(), (long)g.rows(), (long)g.cols());
                ref::Cfg c; c.alg = ref::UNSUP; c.iters = o.iters; c.tol = o.tol;
                for (long j = 0; j < A.cols(); j++) {
                    ref::D d(3); for (int i = 0; i < 3; i++) d[i] = A(i, j);
                    auto v = ref::infer(c, d, 0, before).back();
                    for (int k = 0; k < 2; k++) if (!seq::close(g(k, j), v.gamma[k], 1e-9)) mc::fail("column", "%s: column %ld topic %d is %.12g, inference of that document alone gives %.12g", name.c_str(), j, k, g(k, j), v.gamma[k]);
                }
                mc::outcome(mc::hash(g.data(), g.size() * sizeof(double)));
            }
            mc::Quiet q; if (mc::live_threads()) mc::fail("running", "%s: workers still running on return", name.c_str());
        }, pb, 0, true, true});
    };
    for (int W = 1; W <= 3; W++) for (int N = 0; N <= 3; N++)
        add("t", W, N, N == 2 ? 0.5 : 0, W == 1 || N < 2 ? (W == 3 && !th ? 3 : -1) : W == 2 ? (N == 2 ? 2 + th : 1 + th) : 1 + th);
    for (const char *ops : {"tt", "ft", "tf", "st", "ts"}) { add(ops, 2, 2, 0.5, 1 + th); add(ops, 1, 2, 1, 2); }
    add("ftft", 2, 2, 0.5, 1); add("tst", 2, 3, 0, 1);
    // two objects with different models, used by two threads at once
    for (int W = 1; W <= 2; W++) for (double lik : {0.0, 1.0}) { if (W == 2 && (lik > 0 || !th)) continue; int pb = W == 1 && (th || lik > 0) ? 2 : 1; s.push_back({"two-objects-w" + std::to_string(W) + (lik > 0 ? "-l1" : "-l0") + "-p" + std::to_string(pb), [=] {
        real::Opt o; o.likelihood = lik; std::shared_ptr<parameters::SupervisedModelParameters<double> > p[2]; Eigen::MatrixXi X[2]; ref::Model m[2]; { mc::Quiet q; for (int k = 0; k < 2; k++) { m[k] = real::model(real::P_UNSUP); if (k) std::swap(m[k].beta[0], m[k].beta[1]), m[k].alpha[0] += 0.7; p[k] = ref::params<double>(m[k]); X[k] = real::docs(2, 3, 4 * k); } }
        LDA<double> a(p[0], real::estep<double>(real::P_UNSUP, o), real::mstep<double>(real::P_UNSUP, o), 1, W), b(p[1], real::estep<double>(real::P_UNSUP, o), real::mstep<double>(real::P_UNSUP, o), 1, W); Eigen::MatrixXd g[2];
        std::thread t([&] { g[1] = b.transform(X[1]); }); g[0] = a.transform(X[0]); t.join();
        mc::Quiet q; ref::Cfg c; c.alg = ref::UNSUP; c.iters = o.iters; c.tol = o.tol; uint64_t h = 3;
        for (int k = 0; k < 2; k++) { if (g[k].cols() != 2 || g[k].rows() != 2) mc::fail("shape", "two objects at once: transform returned %ldx%ld", (long)g[k].rows(), (long)g[k].cols()); for (int j = 0; j < 2; j++) { ref::D d(3); for (int i = 0; i < 3; i++) d[i] = X[k](i, j); auto v = ref::infer(c, d, 0, m[k]).back(); for (int i = 0; i < 2; i++) if (!seq::close(g[k](i, j), v.gamma[i], 1e-9)) mc::fail("column", "two objects at once: column %d topic %d is %.12g, inference of that document alone gives %.12g", j, i, g[k](i, j), v.gamma[i]); } h = mc::hash(g[k].data(), g[k].size() * sizeof(double), h); }
        mc::outcome(h); if (mc::live_threads()) mc::fail("running", "workers still running on return");
    }, pb, 0, true, true}); }
    return mc::run(argc, argv, "C02", s);
}
