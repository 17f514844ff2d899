// C01: the same obligations on corpora and pools larger than the schedule
// exploration can afford, free running: sizes x workers x calls.
#include <atomic>
#include <mutex>
#include <memory>
#include <Eigen/Core>
#include "ldaplusplus/LDA.hpp"
#include "ldaplusplus/Document.hpp"
#include "ldaplusplus/Parameters.hpp"
#include "seq.hpp"
using namespace ldaplusplus;
template <typename S> struct V1 : parameters::VariationalParameters<S> { int id; };
template <typename S> struct E1 : em::EStepInterface<S> {
    std::vector<std::atomic<int> > *seen; std::atomic<int> live{0}; int spin = 0;
    std::shared_ptr<parameters::Parameters> doc_e_step(const std::shared_ptr<corpus::Document> d, const std::shared_ptr<parameters::Parameters>) override {
        live++; int id = d->get_words()[0]; if (id >= 0 && id < (int)seen->size()) (*seen)[id]++;
        for (volatile int k = 0; k < spin * (id % 7); k++) {}
        auto v = std::make_shared<V1<S> >(); v->id = id; v->gamma = Eigen::Matrix<S, -1, 1>::Constant(2, (S)id); v->phi = Eigen::Matrix<S, -1, -1>::Constant(2, 2, (S)0.5); live--; return v; }
    void e_step() override {}
};
template <typename S> struct M1 : em::MStepInterface<S> {
    std::vector<int> used; int wrong = 0, ends = 0;
    void doc_m_step(const std::shared_ptr<corpus::Document> d, const std::shared_ptr<parameters::Parameters> v, std::shared_ptr<parameters::Parameters>) override {
        int id = d->get_words()[0]; if (std::static_pointer_cast<V1<S> >(v)->id != id) wrong++; if (id >= 0 && id < (int)used.size()) used[id]++; else wrong++; }
    void m_step(std::shared_ptr<parameters::Parameters>) override { ends++; }
};
// one object, a sequence of calls over corpora of different sizes
template <typename S> static void run(const std::vector<std::pair<int, int> > &calls, int workers, bool moved, int spin, seq::Ctx &x) {
    auto e = std::make_shared<E1<S> >(); auto m = std::make_shared<M1<S> >(); e->spin = spin;
    auto p = std::make_shared<parameters::SupervisedModelParameters<S> >(); p->alpha = Eigen::Matrix<S, -1, 1>::Constant(2, (S)0.5); p->beta = Eigen::Matrix<S, -1, -1>::Constant(2, 2, (S)0.5); p->eta = Eigen::Matrix<S, -1, -1>::Identity(2, 2);
    const int IT = 2; LDA<S> first(p, e, m, IT, workers); std::unique_ptr<LDA<S> > other; if (moved) other.reset(new LDA<S>(std::move(first))); LDA<S> &lda = moved ? *other : first;
    int k = 0; for (auto &c : calls) {
        int n = c.first, op = c.second; std::vector<std::atomic<int> > seen(n + 1); for (auto &q : seen) q = 0; e->seen = &seen; m->used.assign(n + 1, 0); m->wrong = m->ends = 0;
        Eigen::MatrixXi X(2, n); for (int i = 0; i < n; i++) { X(0, i) = i + 1; X(1, i) = 1; } Eigen::VectorXi y = Eigen::VectorXi::Zero(n); int passes = 1; bool train = true;
        Eigen::Matrix<S, -1, -1> g;
        switch (op) { case 0: lda.fit(X); passes = IT; break; case 1: lda.fit(X, y); passes = IT; break; case 2: lda.partial_fit(X, y); break; case 3: lda.partial_fit(std::make_shared<corpus::EigenCorpus>(X, 3)); break; default: g = lda.transform(X); train = false; }
        x.step(n * passes);
        if (e->live != 0) { x.violate("running", "call %d (%d documents, %d workers): an expectation step is still running on return", k, n, workers); return; }
        if (m->wrong) { x.violate("mismatched", "call %d (%d documents, %d workers): %d results consumed with another document", k, n, workers, m->wrong); return; }
        for (int i = 1; i <= n; i++) { if (seen[i] != passes) { x.violate("e-step-count", "call %d (operation %d, %d documents, %d workers): document %d was given to the expectation step %d times in %d passes", k, op, n, workers, i, (int)seen[i], passes); return; }
            if (m->used[i] != (train ? passes : 0)) { x.violate("m-step-count", "call %d (operation %d, %d documents, %d workers): the result of document %d was consumed %d times in %d passes", k, op, n, workers, i, m->used[i], train ? passes : 0); return; }
            if (!train && (g.cols() != n || g(0, i - 1) != i)) { x.violate("column", "call %d: transform of %d documents, %d workers: column %d is not that of its document", k, n, workers, i - 1); return; } }
        x.state(seq::mix(n, op * 100 + workers)); k++;
    }
}
int main(int argc, char **argv) {
    bool th = seq::thorough(argc, argv); std::vector<seq::Space> s;
    static const int WK[] = {1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 33, 64}; static std::vector<int> NS; int top = th ? 300 : 70;
    for (int n = 0; n <= top; n++) NS.push_back(n); for (int n : {99, 100, 101, 127, 128, 129, 255, 256, 257, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2048, 4097}) if (n > top) NS.push_back(n);
    uint64_t n = NS.size();
    s.push_back({"sizes", n * 12 * 5, [](uint64_t i, seq::Ctx &x) { seq::Radix r(i); int op = r(5), w = WK[r(12)], N = NS[r(NS.size())]; if (i % 3) run<double>({{N, op}}, w, i % 2, i % 4 ? 0 : 50, x); else run<float>({{N, op}}, w, i % 2, 0, x); }, nullptr, 40});
    static const int HN[] = {0, 1, 2, 5, 17, 64};
    s.push_back({"histories", (uint64_t)30 * 30 * 4 * (th ? 30 : 3), [](uint64_t i, seq::Ctx &x) { seq::Radix r(i); auto c = [&](int v) { return std::make_pair(HN[v % 6], v / 6); }; int w = WK[r(4) * 2]; auto a = c(r(30)), b = c(r(30)), d = c(r(30)); run<double>({a, b, d}, w, i % 2, 0, x); }, nullptr, 40});
    // more documents than 16 bits number
    s.push_back({"very-large", 5 * 3, [](uint64_t i, seq::Ctx &x) { seq::Radix r(i); int op = r(5); static const int w[] = {1, 3, 8}; run<double>({{66000, op}}, w[r(3)], false, 0, x); }, nullptr, 200});
    return seq::run(argc, argv, "C01", s);
}
