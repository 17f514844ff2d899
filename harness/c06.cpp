// C06: the protocol of training and inference calls, all call sequences up to
// a depth, under the controlled scheduler.
#include "mc_stubs.hpp"
#include "seq.hpp"
using namespace stub;

struct Ep : events::EventListenerInterface { void on_event(std::shared_ptr<events::Event> e) override { mc::Quiet q; if (e->id() == "EpochProgressEvent") mc::log(K_EV_EPOCH, 0, 0); } };

// checks the log of one call: `passes` passes over documents 1..n
static void protocol(const char *what, int n, int passes, bool train, int tcalls, int shuffles = 0) {
    mc::Quiet q; size_t i = 0, e = mc::log_size(); const mc::LogEntry *l = mc::log_begin();
    if (!train) {
        int seen = 0;
        for (; i < e; i++) { if (l[i].kind == K_E) seen++; else if (l[i].kind != K_EV_E && l[i].kind != K_SHUFFLE) mc::fail("inference-trains", "%s performs a training action (%d)", what, l[i].kind); }
        if (seen != n * tcalls) mc::fail("inference-docs", "%s: %d expectation steps for %d documents", what, seen, n);
        mc::log_clear(); return;
    }
    for (int p = 0; p < passes; p++) {
        int m = 0, ex = 0, sh = 0; bool e_done[64] = {};
        for (; i < e && m < n; i++) {
            if (l[i].kind == K_SHUFFLE) { if (ex || m) mc::fail("shuffle-mid-pass", "%s: corpus reordered in the middle of a pass", what); sh++; continue; }
            if (l[i].kind == K_E) { ex++; if (l[i].a >= 1 && l[i].a < 64) e_done[l[i].a] = true; }
            else if (l[i].kind == K_M) { m++; if (l[i].a >= 1 && l[i].a < 64 && !e_done[l[i].a]) mc::fail("order", "%s: document %ld maximised before its expectation step", what, l[i].a); }
            else mc::fail("order", "%s: end-of-pass action %d after %d of %d documents in pass %d", what, l[i].kind, m, n, p);
        }
        if (n == 0) while (i < e && l[i].kind == K_SHUFFLE) i++, sh++;
        if (shuffles && (n > 1 ? sh != shuffles : sh > shuffles)) mc::fail("shuffle", "%s: the corpus is shuffled %d times before the pass instead of once", what, sh);
        if (m != n || ex != n) mc::fail("documents", "%s: pass %d visited %d of %d documents (%d expectation steps)", what, p, m, n, ex);
        int want[3] = {K_ESTEP, K_MSTEP, K_EV_EPOCH};
        for (int k = 0; k < 3; k++, i++) if (i >= e || l[i].kind != want[k]) mc::fail("end-of-pass", "%s: pass %d of %d: action %d at position %d of the end of the pass, expected %d (e_step=%d m_step=%d epoch=%d)", what, p, passes, i < e ? l[i].kind : 0, k, want[k], K_ESTEP, K_MSTEP, K_EV_EPOCH);
    }
    if (i != e) mc::fail("extra", "%s: %zu further actions after %d passes (next %d)", what, e - i, passes, l[i].kind);
    uint64_t h = 1; for (i = 0; i < e; i++) { long v[3] = {l[i].kind, l[i].a, l[i].b * 0}; h = mc::hash(v, sizeof v, h); } mc::outcome(h);
    mc::log_clear();
}
static void call(LDA<double> &lda, char op, int n, int iterations) {
    Eigen::MatrixXi X = docs(n); Eigen::VectorXi y = Eigen::VectorXi::Zero(n);
    switch (op) {
    case 'f': lda.fit(X); protocol("fit(X)", n, iterations, true, 0); break;
    case 'F': lda.fit(X, y); protocol("fit(X,y)", n, iterations, true, 0); break;
    case 'p': lda.partial_fit(X, y); protocol("partial_fit(X,y)", n, 1, true, 0); break;
    case 'P': { auto c = std::make_shared<stub::Corpus>(n); lda.partial_fit(c); protocol("partial_fit(corpus)", n, 1, true, 0, 1); break; }
    case 't': lda.transform(X); protocol("transform", n, 0, false, 1); break;
    case 'd': lda.decision_function(X); protocol("decision_function", n, 0, false, 1); break;
    case 'r': lda.predict(X); protocol("predict", n, 0, false, 1); break;
    case 'b': lda.transform_predict(X); protocol("transform_predict", n, 0, false, 1); break;
    }
}
int main(int argc, char **argv) {
    bool th = seq::thorough(argc, argv); std::vector<mc::Scenario> s;
    auto add = [&](std::string ops, int n, int it, int W, int pb, bool moved = false) {
        char nm[100]; snprintf(nm, 100, "%s-n%d-i%d-w%d-%s%s", ops.c_str(), n, it, W, pb < 0 ? "all" : ("p" + std::to_string(pb)).c_str(), moved ? "-moved" : "");
        s.push_back({nm, [=] {
            auto e = std::make_shared<EStep>(); auto m = std::make_shared<MStep>(); e->points = false; e->events = false; m->mevents = 0;
            LDA<double> first(model(), e, m, it, W); if (!moved) { first.get_event_dispatcher()->add_listener(std::make_shared<Ep>()); for (char o : ops) call(first, o, n, it); return; }
            LDA<double> lda(std::move(first)); lda.get_event_dispatcher()->add_listener(std::make_shared<Ep>());
            for (char o : ops) call(lda, o, n, it);
        }, pb, 0, true, true});
    };
    const std::string A = "fFpPtdrb";
    for (char a : A) for (int n = 0; n <= 3; n++) for (int it = 0; it <= 3; it++) {
        if (it != 1 && a != 'f' && a != 'F') continue;
        if (n == 0 && (a == 'd' || a == 'r' || a == 'b')) continue;
        add(std::string(1, a), n, it, 1, n * it <= 2 ? 2 : 1);
        if (n == 2 || th) add(std::string(1, a), n, it, 2, it <= 1 ? 2 : 1);
    }
    for (char a : A) for (char b : A) { add({a, b}, 2, 2, 1, 0); if (th) add({a, b}, 2, 2, 2, 1); }
    if (th) for (char a : A) for (char b : A) for (char c : A) add({a, b, c}, 2, 2, 1, 0);
    add("F", 40, 2, 1, 0); add("f", 2, 20, 1, 0); add("F", 3, 1, 3, 1); add("P", 25, 1, 1, 0);
    for (char a : A) { add(std::string(1, a), 2, 3, 1, 1, true); add(std::string(1, a), 2, 2, 2, 1, true); }
    return mc::run(argc, argv, "C06", s);
}
