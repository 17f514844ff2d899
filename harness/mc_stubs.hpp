// Stub steps, corpora and listeners for the schedule-exploring harnesses.
#pragma once
#include <cmath>
#include <memory>
#include <Eigen/Core>
#include "ldaplusplus/LDA.hpp"
#include "ldaplusplus/Document.hpp"
#include "ldaplusplus/Parameters.hpp"
#include "ldaplusplus/em/EStepInterface.hpp"
#include "ldaplusplus/em/MStepInterface.hpp"
#include "ldaplusplus/events/ProgressEvents.hpp"
#include "mc/mc.hpp"

namespace stub {
using namespace ldaplusplus;

enum Kind { K_E = 1, K_M, K_ESTEP, K_MSTEP, K_SHUFFLE, K_EV_E, K_EV_M, K_EV_EPOCH, K_EV_OTHER, K_RET, K_CALL };

// Documents are identified by the count of their first word.
inline long doc_id(const std::shared_ptr<corpus::Document> &d) { return d->get_words()[0]; }

struct Vp : public parameters::VariationalParameters<double> {
    long id; long serial;
};

struct EStep : public em::EStepInterface<double> {
    bool events = true;       // post an ExpectationProgressEvent per document
    bool points = true;       // extra scheduling points around the computation
    bool read_model = false;  // touch the model (race detection)
    static int dummy;
    std::shared_ptr<parameters::Parameters> doc_e_step(const std::shared_ptr<corpus::Document> doc,
                                                       const std::shared_ptr<parameters::Parameters> p) override {
        long id = doc_id(doc);
        if (points) mc::point(this);
        double m = 0;
        if (read_model) m = static_cast<parameters::ModelParameters<double> *>(p.get())->beta.sum();
        { mc::Quiet q; mc::log(K_E, id, (long)(m * 1024)); }
        auto vp = std::make_shared<Vp>();
        vp->id = id; vp->serial = 0;
        vp->gamma = Eigen::VectorXd::Constant(2, (double)id);
        vp->gamma[1] = id * 0.5 + 0.25;
        vp->phi = Eigen::MatrixXd::Constant(2, 1, 0.5);
        if (events) get_event_dispatcher()->template dispatch<events::ExpectationProgressEvent<double> >((double)id);
        return vp;
    }
    void e_step() override { mc::Quiet q; mc::log(K_ESTEP, 0, mc::live_threads()); }
};

struct MStep : public em::MStepInterface<double> {
    int mevents = 1;          // maximisation events per m_step
    int doc_mevents = 0;      // maximisation events per doc_m_step
    bool update_model = false;
    int passes = 0;
    void m_step(std::shared_ptr<parameters::Parameters> p) override {
        { mc::Quiet q; mc::log(K_MSTEP, mc::self(), mc::live_threads()); }
        passes++;
        if (update_model) static_cast<parameters::ModelParameters<double> *>(p.get())->beta.fill(passes);
        for (int i = 0; i < mevents; i++)
            get_event_dispatcher()->template dispatch<events::MaximizationProgressEvent<double> >((double)(passes * 10 + i));
    }
    void doc_m_step(const std::shared_ptr<corpus::Document> doc, const std::shared_ptr<parameters::Parameters> vp,
                    std::shared_ptr<parameters::Parameters>) override {
        auto v = static_cast<Vp *>(vp.get());
        { mc::Quiet q; mc::log(K_M, doc_id(doc), v ? v->id : -1); }
        for (int i = 0; i < doc_mevents; i++)
            get_event_dispatcher()->template dispatch<events::MaximizationProgressEvent<double> >(-(double)doc_id(doc));
    }
};

// A corpus that owns its documents and counts; order is a rotation per shuffle.
struct Corpus : public corpus::Corpus {
    Eigen::MatrixXi X; int shift = 0; bool points = false;
    explicit Corpus(int n) : X(2, n) { for (int i = 0; i < n; i++) { X(0, i) = i + 1; X(1, i) = 1; } }
    size_t size() const override { return X.cols(); }
    const std::shared_ptr<corpus::Document> at(size_t i) const override {
        return std::make_shared<corpus::EigenDocument>(X.col((i + shift) % X.cols()));
    }
    void shuffle() override { { mc::Quiet q; mc::log(K_SHUFFLE, 0, mc::live_threads()); } shift++; }
};

inline std::shared_ptr<parameters::SupervisedModelParameters<double> > model(int topics = 2, int words = 2) {
    return std::make_shared<parameters::SupervisedModelParameters<double> >(
        Eigen::VectorXd::Constant(topics, 0.5), Eigen::MatrixXd::Constant(topics, words, 0.5), Eigen::MatrixXd::Identity(topics, 2));
}

inline Eigen::MatrixXi docs(int n) { Eigen::MatrixXi X(2, n); for (int i = 0; i < n; i++) { X(0, i) = i + 1; X(1, i) = 1; } return X; }

}  // namespace stub
