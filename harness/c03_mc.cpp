// C03: all interleavings of training passes with the real steps; no data race,
// and the model equals that of a sequential loop up to rounding.
#include "mc_stubs.hpp"
#include "real.hpp"
using namespace ldaplusplus;

int main(int argc, char **argv) {
    bool th = seq::thorough(argc, argv);
    std::vector<mc::Scenario> s;
    auto add = [&](int pair, int W, int N, int passes, double lik, int pb) {
        real::Opt o; o.likelihood = lik;
        auto X = std::make_shared<Eigen::MatrixXi>(real::docs(N)); auto y = std::make_shared<Eigen::VectorXi>(real::labels(pair, N));
        ref::Model m0 = real::model(pair);
        auto want = std::make_shared<real::Driver<double> >(pair, m0, o);
        { corpus::EigenClassificationCorpus c(*X, *y); for (int i = 0; i < passes; i++) want->pass(c); }
        auto exp = want->p;
        char nm[120]; snprintf(nm, sizeof nm, "%s-w%d-n%d-x%d-l%g-%s", real::pair_name(pair), W, N, passes, lik, pb < 0 ? "all" : ("p" + std::to_string(pb)).c_str());
        std::string name = nm;
        s.push_back({name, [=] {
            std::shared_ptr<parameters::SupervisedModelParameters<double> > p; std::shared_ptr<em::EStepInterface<double> > e; std::shared_ptr<em::MStepInterface<double> > m;
            { mc::Quiet q; p = ref::params<double>(m0); }
            e = real::estep<double>(pair, o); m = real::mstep<double>(pair, o);
            LDA<double> lda(p, e, m, passes, W);
            lda.fit(*X, *y);
            mc::Quiet q;
            double d = real::distance(*p, *exp);
            if (!(d < 1e-7)) mc::fail("model", "%s: model differs by %g from the sequential result", name.c_str(), d);
            if (mc::live_threads()) mc::fail("running", "%s: workers still running after training", name.c_str());
            mc::outcome(real::mhash(*p));
        }, pb, 0, true, true});
    };
    for (int p = 0; p < real::NPAIR; p++) {
        add(p, 2, 2, 1, 0, th ? 3 : 2);
        add(p, 2, 2, 1, 1, 1);
        add(p, 2, 2, 2, 0.5, th ? 2 : 1);
        if (th) add(p, 2, 3, 1, 0.5, 2);
        if (th) add(p, 3, 3, 1, 0.5, 1);
        add(p, 1, 2, 1, 0.5, th ? -1 : 2);
    }
    add(real::P_UNSUP, 2, 3, 1, 1, th ? 2 : 1);
    add(real::P_SEMI, 3, 3, 1, 0.5, th ? 2 : 1);
    return mc::run(argc, argv, "C03", s);
}
