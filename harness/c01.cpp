// C01: every pass gives each document to the expectation step exactly once,
// consumes each result exactly once with its own document, and returns with no
// worker running.  Real LDA<double>, stub steps; all schedules.
#include <thread>
#include "mc_stubs.hpp"
using namespace stub;

static uint64_t log_hash() {
    uint64_t h = 7;
    for (size_t i = 0; i < mc::log_size(); i++) { auto &e = mc::log_begin()[i]; long v[4] = {e.tid, e.kind, e.a, e.b}; h = mc::hash(v, sizeof v, h); }
    return h;
}

static void check_pass(int n, bool consume, const char *what) {
    mc::Quiet q;
    std::vector<int> e(n + 1, 0), m(n + 1, 0);
    for (size_t i = 0; i < mc::log_size(); i++) {
        auto &x = mc::log_begin()[i];
        if (x.kind == K_E || x.kind == K_M) {
            if (x.a < 1 || x.a > n) mc::fail("foreign-document", "%s: document %ld does not belong to the pass", what, x.a);
            (x.kind == K_E ? e : m)[x.a]++;
        }
        if (x.kind == K_M && x.a != x.b) mc::fail("mismatched-result", "%s: document %ld is consumed with the result of document %ld", what, x.a, x.b);
    }
    for (int i = 1; i <= n; i++) {
        if (e[i] != 1) mc::fail("e-step-count", "%s: document %d was given to the expectation step %d times", what, i, e[i]);
        if (consume && m[i] != 1) mc::fail("m-step-count", "%s: the result of document %d was consumed %d times", what, i, m[i]);
        if (!consume && m[i] != 0) mc::fail("m-step-count", "%s: transform passed document %d to the maximisation step", what, i);
    }
    if (mc::live_threads() != 0) mc::fail("worker-left-running", "%s: %d workers still running on return", what, mc::live_threads());
    mc::outcome(log_hash());
    mc::log_clear();
}

struct Sys {
    std::shared_ptr<EStep> e = std::make_shared<EStep>();
    std::shared_ptr<MStep> m = std::make_shared<MStep>();
    LDA<double> lda;
    Sys(int workers, int iterations, bool events) : lda(model(), e, m, iterations, workers) { e->events = events; m->mevents = 0; }
    void fit(int n) { auto c = std::make_shared<stub::Corpus>(n); lda.partial_fit(c); check_pass(n, true, "partial_fit"); }
    void transform(int n) {
        Eigen::MatrixXi X = docs(n);
        Eigen::MatrixXd g = lda.transform(X);
        { mc::Quiet q;
          if (g.cols() != n) mc::fail("transform-shape", "transform returned %ld columns for %d documents", (long)g.cols(), n);
          for (int i = 0; i < n; i++) if (g(0, i) != i + 1 || g(1, i) != (i + 1) * 0.5 + 0.25)
              mc::fail("mismatched-result", "transform: column %d holds the result of another document", i); }
        check_pass(n, false, "transform");
    }
};

int main(int argc, char **argv) {
    bool thorough = false;
    for (int i = 1; i + 1 < argc; i++) if (std::string(argv[i]) == "--tier") thorough = std::string(argv[i + 1]) == "thorough";
    std::vector<mc::Scenario> s;
    auto add = [&](std::string name, int pb, int faults, std::function<void()> b) {
        s.push_back({name + (pb < 0 ? "-all" : "-p" + std::to_string(pb)) + (faults ? "-f" + std::to_string(faults) : ""), b, pb, faults, true, true});
    };
    // single calls: W workers, N documents
    for (int W = 1; W <= 3; W++) for (int N = 0; N <= 3; N++) {
        int pb = W * N <= 2 || W == 1 ? -1 : W == 2 ? (thorough ? (N == 2 ? -1 : 4) : N == 2 ? 3 : 2) : (thorough ? 3 : N == 3 ? 1 : 2);
        std::string t = "-w" + std::to_string(W) + "-n" + std::to_string(N);
        add("fit" + t, pb, N && W < 3 && (thorough || N < 3) ? 1 : 0, [=] { Sys z(W, 1, false); z.fit(N); });
        if (N != 1) add("transform" + t, pb, N == 2 && W < 3 ? 1 : 0, [=] { Sys z(W, 1, false); z.transform(N); });
    }
    // histories: every sequence of length 2 (3 when thorough) over the calls
    for (int W = 1; W <= 2; W++) {
        int L = thorough ? 3 : 2, ops = 4, total = 1;
        for (int i = 0; i < L; i++) total *= ops;
        for (int k = 0; k < total; k++) {
            std::string nm = "seq-w" + std::to_string(W) + "-";
            std::vector<int> seq; int x = k;
            for (int i = 0; i < L; i++) { seq.push_back(x % ops); nm += "F0F2T0T2"[2 * (x % ops)]; nm += "F0F2T0T2"[2 * (x % ops) + 1]; x /= ops; }
            add(nm, W == 1 ? 2 : 1, 0, [=] {
                Sys z(W, 1, true);
                for (int o : seq) { if (o == 0) z.fit(0); else if (o == 1) z.fit(2); else if (o == 2) z.transform(0); else z.transform(2); }
            });
        }
    }
    // whole-corpus fit, labelled and unlabelled, two iterations
    add("fit-loop-w2", thorough ? 2 : 1, 0, [=] {
        Sys z(2, 2, true); Eigen::MatrixXi X = docs(2);
        z.lda.fit(X);
        mc::Quiet q; int e = 0, m = 0; bool bad = false;
        for (size_t i = 0; i < mc::log_size(); i++) { auto &x = mc::log_begin()[i]; if (x.kind == K_E) e++; if (x.kind == K_M) { m++; if (x.a != x.b) bad = true; } }
        if (e != 4 || m != 4 || bad) mc::fail("fit-count", "fit of 2 documents, 2 iterations: %d expectation steps, %d results consumed%s", e, m, bad ? ", mismatched" : "");
        if (mc::live_threads()) mc::fail("worker-left-running", "workers running after fit");
        mc::outcome(log_hash());
    });
    add("events-w2-n2", thorough ? -1 : 2, 0, [=] { Sys z(2, 1, true); z.fit(2); });
    // two objects used by two threads at once: neither takes the other's documents or results
    for (int W = 1; W <= 2; W++) for (int op = 0; op < 2; op++) if (W == 1 || !op || thorough) add(std::string("two-objects-") + (op ? "transform" : "fit") + "-w" + std::to_string(W), W == 1 ? 2 : 1, 0, [=] {
        Sys a(W, 1, false), b(W, 1, false); Eigen::MatrixXi X = docs(2), Y = X; { mc::Quiet q; Y.row(0).array() += 10; } Eigen::MatrixXd g, h;
        std::thread t([&] { if (op) h = b.lda.transform(Y); else b.lda.fit(Y); }); if (op) g = a.lda.transform(X); else a.lda.fit(X); t.join();
        mc::Quiet q; int e[2][2] = {}, m[2][2] = {}; long who[2] = {-1, -1};
        for (size_t i = 0; i < mc::log_size(); i++) { auto &x = mc::log_begin()[i]; if (x.kind != K_E && x.kind != K_M) continue; int o = x.a > 10, d = (int)x.a - 10 * o - 1; if (d < 0 || d > 1) mc::fail("foreign-document", "two objects: document %ld", x.a); if (x.kind == K_E) e[o][d]++; else { m[o][d]++; if (x.a != x.b) mc::fail("mismatched-result", "two objects: document %ld is consumed with the result of document %ld", x.a, x.b); if (who[o] >= 0 && who[o] != x.tid) mc::fail("mixed-up", "two objects: documents of one call are consumed by both threads"); who[o] = x.tid; } }
        for (int o = 0; o < 2; o++) for (int d = 0; d < 2; d++) if (e[o][d] != 1 || m[o][d] != (op ? 0 : 1)) mc::fail("two-objects", "two objects at once: document %d of object %d was processed %d times and consumed %d times", d, o, e[o][d], m[o][d]);
        if (!op && who[0] == who[1]) mc::fail("mixed-up", "two objects: the documents of both calls are consumed by one thread");
        if (op) for (int d = 0; d < 2; d++) if (g.cols() != 2 || h.cols() != 2 || g(0, d) != d + 1 || h(0, d) != d + 11) mc::fail("mismatched-result", "two objects at once: a column holds the result of another document");
        if (mc::live_threads()) mc::fail("worker-left-running", "workers running after two calls"); mc::outcome(log_hash());
    });
    return mc::run(argc, argv, "C01", s);
}
