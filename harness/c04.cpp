// C04: events of training and transform under all interleavings.
#include <thread>
#include "mc_stubs.hpp"
#include "real.hpp"
using namespace ldaplusplus;

// what one listener saw
struct Seen { int e = 0, m = 0, epoch = 0, other = 0, depth = 0; std::vector<double> liks; };

struct Listener : events::EventListenerInterface {
    Seen *s; int id; const char *name; bool yield; void *model = nullptr; int thread = 0, live = 0; int epoch_after_e = -1; double model_value = -1;
    void on_event(std::shared_ptr<events::Event> ev) override {
        { mc::Quiet q;
          if (mc::self() != thread) mc::fail("wrong-thread", "%s: listener %d called on thread %d, not on that of the caller", name, id, mc::self());
          if (s->depth) mc::fail("overlap", "%s: listener %d called while it is handling an event", name, id);
          s->depth++; }
        if (yield) mc::point(s);
        mc::Quiet q;
        if (ev->id() == "ExpectationProgressEvent") { s->e++; s->liks.push_back(std::static_pointer_cast<events::ExpectationProgressEvent<double> >(ev)->likelihood()); if (s->epoch) mc::fail("late", "%s: listener %d receives an expectation event after the pass's epoch event", name, id); }
        else if (ev->id() == "MaximizationProgressEvent") { s->m++; if (s->epoch) mc::fail("late", "%s: listener %d receives a maximisation event after the epoch event", name, id); }
        else if (ev->id() == "EpochProgressEvent") {
            s->epoch++;
            auto p = std::static_pointer_cast<events::EpochProgressEvent<double> >(ev)->model_parameters();
            if (p.get() != model) mc::fail("epoch-model", "%s: epoch event carries another model", name);
            if (model_value >= 0 && std::static_pointer_cast<parameters::ModelParameters<double> >(p)->beta(0, 0) != model_value) mc::fail("epoch-model", "%s: epoch event delivered before the model was updated", name);
            if (live >= 0 && mc::live_threads() > live) mc::fail("epoch-early", "%s: epoch event while workers run", name);
        } else s->other++;
        s->depth--;
    }
};

static void expect(const char *name, Seen *s, int L, int e, int m, int epoch) {
    mc::Quiet q;
    for (int i = 0; i < L; i++) {
        if (s[i].e != e) mc::fail("expectation-count", "%s: listener %d received %d expectation events, %d documents", name, i, s[i].e, e);
        if (m >= 0 && s[i].m != m) mc::fail("maximization-count", "%s: listener %d received %d maximisation events, %d were sent", name, i, s[i].m, m);
        if (s[i].epoch != epoch) mc::fail("epoch-count", "%s: listener %d received %d epoch events", name, i, s[i].epoch);
        if (s[i].other) mc::fail("other", "%s: unknown events", name);
        uint64_t h = 0; for (double l : s[i].liks) h = mc::hash(&l, 8, h); mc::outcome(h);
        s[i] = Seen();
    }
}

int main(int argc, char **argv) {
    bool th = seq::thorough(argc, argv);
    std::vector<mc::Scenario> s;
    auto nm = [](const char *f, int a, int b, int c, int pb) { char n[100]; snprintf(n, 100, "%s-w%d-n%d-l%d-%s", f, a, b, c, pb < 0 ? "all" : ("p" + std::to_string(pb)).c_str()); return std::string(n); };
    // stub steps: exact counts and order; ops F fit, T transform
    auto add = [&](const char *ops, int W, int N, int L, int pb, bool yield = false) {
        std::string name = nm(ops, W, N, L, pb) + (yield ? "-y" : ""), o = ops;
        s.push_back({name, [=] {
            auto e = std::make_shared<stub::EStep>(); auto m = std::make_shared<stub::MStep>(); auto model = stub::model();
            e->points = false; m->mevents = 2; m->doc_mevents = 1; m->update_model = true;
            std::unique_ptr<LDA<double> > own(new LDA<double>(model, e, m, 1, W)); int on = L; Seen seen[3]; std::vector<std::shared_ptr<Listener> > ls; int passes = 0;
            for (int i = 0; i < L; i++) { auto l = std::make_shared<Listener>(); l->s = seen + i; l->id = i; l->name = name.c_str(); l->yield = yield; l->model = model.get(); ls.push_back(l); own->get_event_dispatcher()->add_listener(l); }
            for (char op : o) {
                // M: the object moves (to another place); R: the last listener leaves; A: it comes back
                if (op == 'M') { own.reset(new LDA<double>(std::move(*own))); continue; }
                if (op == 'R') { own->get_event_dispatcher()->remove_listener(ls[--on]); continue; }
                if (op == 'A') { own->get_event_dispatcher()->add_listener(ls[on++]); continue; }
                LDA<double> &lda = *own;
                if (op == 'F') { for (auto &l : ls) l->model_value = passes + 1; passes++; lda.partial_fit(std::make_shared<stub::Corpus>(N)); expect(name.c_str(), seen, on, N, N + 2, 1); }
                else if (op == 'T') { Eigen::MatrixXi X = stub::docs(N); lda.transform(X); expect(name.c_str(), seen, on, N, 0, 0); }
                else { Eigen::MatrixXi X = stub::docs(N); lda.predict(X); expect(name.c_str(), seen, on, N, 0, 0); }
                if (on < L) { mc::Quiet q; const Seen &g = seen[on]; if (g.e || g.m || g.epoch || g.other) mc::fail("removed", "%s: a listener that was removed receives events", name.c_str()); }
            }
            { mc::Quiet q; for (size_t i = 0; i < mc::log_size(); i++) if (mc::log_begin()[i].kind == stub::K_EV_OTHER) mc::fail("x", "x"); }
        }, pb, 0, true, true});
    };
    for (int W = 1; W <= 2; W++) for (int N = 0; N <= 3; N++) {
        int pb = W == 1 ? (N < 2 || th ? -1 : 3) : N <= 1 ? 3 : N == 2 ? 2 + th : 1 + th;
        add("F", W, N, 1, pb); add("T", W, N, 1, pb);
    }
    add("FT", 2, 2, 2, 1 + th); add("TF", 2, 2, 2, 1 + th); add("FF", 2, 2, 1, 1 + th); add("P", 2, 2, 1, 1 + th); add("F", 2, 2, 2, 1 + th, true);
    add("F", 3, 3, 1, 1); add("T", 3, 3, 1, 1); add("FTF", 1, 2, 1, 2); add("F", 2, 2, 0, 1);
    add("MF", 1, 2, 1, 1); add("MF", 2, 2, 2, 1 + th); add("FMT", 2, 2, 1, 1); add("FMMFT", 2, 1, 1, 1); add("MT", 3, 2, 1, 1); add("RF", 2, 2, 2, 1); add("FRTAF", 2, 2, 2, 1); add("RMAF", 2, 2, 2, 1); add("FRFAT", 1, 2, 1, 1);
    // X: made on one thread and used on another; Y: two objects at once, each on a thread of its own, both made on the first one
    for (int kind = 0; kind < 2; kind++) for (int W = 1; W <= 2; W++) for (const char *ops : {"F", "T", "FF", "FT"}) {
        if (kind && (W == 2 || ops[1])) { if (!th || ops[1]) continue; }
        int pb = W == 1 && !kind ? 2 : 1; std::string o = ops, name = nm(((kind ? "two-" : "elsewhere-") + o).c_str(), W, 2, 1, pb);
        s.push_back({name, [=] {
            std::shared_ptr<parameters::Parameters> model[2]; std::unique_ptr<LDA<double> > lda[2]; Seen seen[2]; std::shared_ptr<Listener> ls[2];
            for (int k = 0; k <= kind; k++) { auto e = std::make_shared<stub::EStep>(); auto m = std::make_shared<stub::MStep>(); model[k] = stub::model(); e->points = false; m->mevents = 2; m->doc_mevents = 1; m->update_model = true; lda[k].reset(new LDA<double>(model[k], e, m, 1, W));
                auto l = std::make_shared<Listener>(); l->s = seen + k; l->id = k; l->name = name.c_str(); l->yield = false; l->model = model[k].get(); l->thread = k ? 0 : 1; l->live = kind ? -1 : 1; ls[k] = l; lda[k]->get_event_dispatcher()->add_listener(l); }
            auto work = [&](int k) { int passes = 0; for (char op : o) if (op == 'F') { ls[k]->model_value = ++passes; lda[k]->partial_fit(std::make_shared<stub::Corpus>(2)); expect(name.c_str(), seen + k, 1, 2, 4, 1); } else { Eigen::MatrixXi X = stub::docs(2); lda[k]->transform(X); expect(name.c_str(), seen + k, 1, 2, 0, 0); } };
            std::thread t([&] { work(0); }); if (kind) work(1); t.join();
        }, pb, 0, true, true});
    }
    // real steps, an empty and a one-word document, some likelihoods only: still one event per document
    for (int pair = 0; pair < real::NPAIR; pair++) for (int f = 0; f < 3; f++) {
        real::Opt o; o.likelihood = f == 0 ? 0 : f == 1 ? 0.5 : 1; int N = 12; auto X = std::make_shared<Eigen::MatrixXi>(real::docs(N)); for (int j = 0; j < N; j += 3) { X->col(j).setZero(); if (j % 2) (*X)(1, j) = 1; } auto y = std::make_shared<Eigen::VectorXi>(real::labels(pair, N)); ref::Model m0 = real::model(pair);
        std::string name = std::string("empty-") + real::pair_name(pair) + "-f" + std::to_string(f) + "-p0";
        s.push_back({name, [=] { std::shared_ptr<parameters::SupervisedModelParameters<double> > p; { mc::Quiet q; p = ref::params<double>(m0); }
            LDA<double> lda(p, real::estep<double>(pair, o), real::mstep<double>(pair, o), 1, 2); Seen seen[1]; auto l = std::make_shared<Listener>(); l->s = seen; l->id = 0; l->name = name.c_str(); l->yield = false; l->model = p.get(); lda.get_event_dispatcher()->add_listener(l);
            for (int k = 0; k < 2; k++) { lda.partial_fit(*X, *y); expect(name.c_str(), seen, 1, N, -1, 1); } if (pair == real::P_UNSUP) { lda.transform(*X); expect(name.c_str(), seen, 1, N, 0, 0); }
        }, 0, 0, true, true});
    }
    // many documents waiting: the worker runs ahead of the caller
    for (int N : {17, 40, 130, 300}) for (int W = 1; W <= 2; W++) { if (N > 130 && W > 1) continue; add("F", W, N, 1, 0); add("T", W, N, 1, 0); }
    // real steps post their event before the result is published; likelihoods are the documents'
    for (int pair = 0; pair < real::NPAIR; pair++) for (int W = 1; W <= 2; W++) {
        int N = 2, pb = W == 2 ? 1 + th : 2; real::Opt o; o.likelihood = 1;
        auto X = std::make_shared<Eigen::MatrixXi>(real::docs(N)); auto y = std::make_shared<Eigen::VectorXi>(real::labels(pair, N)); ref::Model m0 = real::model(pair);
        auto want = std::make_shared<std::vector<double> >();
        { real::Driver<double> d(pair, m0, o); d.e->get_event_dispatcher()->add_listener([&](std::shared_ptr<events::Event> ev) { want->push_back(std::static_pointer_cast<events::ExpectationProgressEvent<double> >(ev)->likelihood()); });
          corpus::EigenClassificationCorpus c(*X, *y); for (int j = 0; j < N; j++) d.e->doc_e_step(c.at(j), d.p); }
        std::sort(want->begin(), want->end());
        std::string name = nm(real::pair_name(pair), W, N, 1, pb);
        s.push_back({name, [=] {
            std::shared_ptr<parameters::SupervisedModelParameters<double> > p; { mc::Quiet q; p = ref::params<double>(m0); }
            LDA<double> lda(p, real::estep<double>(pair, o), real::mstep<double>(pair, o), 1, W);
            Seen seen[1]; auto l = std::make_shared<Listener>(); l->s = seen; l->id = 0; l->name = name.c_str(); l->yield = false; l->model = p.get(); lda.get_event_dispatcher()->add_listener(l);
            lda.fit(*X, *y);
            { mc::Quiet q; auto got = seen[0].liks; std::sort(got.begin(), got.end());
              if (got.size() == want->size()) for (size_t i = 0; i < got.size(); i++) if (!seq::close(got[i], (*want)[i], 1e-9)) mc::fail("likelihood", "%s: an expectation event carries %.12g, the documents' are %.12g", name.c_str(), got[i], (*want)[i]); }
            expect(name.c_str(), seen, 1, N, -1, 1);
            if (pair == real::P_UNSUP) { lda.transform(*X); expect(name.c_str(), seen, 1, N, 0, 0); }
        }, pb, 0, true, true});
    }
    return mc::run(argc, argv, "C04", s);
}
