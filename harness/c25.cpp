// C25: progress listeners and snapshots over every short history of events.
#include <dirent.h>
#include <sstream>
#include <sys/stat.h>
#include <iostream>
#include <set>
#include "seq.hpp"
#include "ldaplusplus/Parameters.hpp"
#include "ldaplusplus/events/Events.hpp"
#include "ldaplusplus/events/ProgressEvents.hpp"
#include "applications/EpochProgress.hpp"
#include "applications/ExpectationProgress.hpp"
#include "applications/MaximizationProgress.hpp"
#include "applications/SnapshotEvery.hpp"
#include "applications/lda_io.hpp"
using namespace ldaplusplus;
typedef parameters::SupervisedModelParameters<double> Model;
static std::string scratch() { const char *s = getenv("VERIF_SCRATCH"); return s ? s : "/tmp"; }

// everything the process prints, at the level of the file descriptor
struct Capture {
    int saved, fd; off_t at = 0;
    Capture() { std::cout.flush(); fflush(stdout); saved = dup(1); fd = memfd_create("out", 0); dup2(fd, 1); }
    ~Capture() { std::cout.flush(); fflush(stdout); dup2(saved, 1); ::close(saved); ::close(fd); }
    std::string take() { std::cout.flush(); fflush(stdout); off_t e = lseek(fd, 0, SEEK_END); std::string r(e - at, 0); pread(fd, &r[0], r.size(), at); at = e; return r; }
};
// a line is text and an optional number at its end
struct Line { std::string text; bool num; double v; };
static std::vector<Line> lines(const std::string &s) {
    std::vector<Line> o; std::istringstream is(s); std::string l;
    while (std::getline(is, l)) { size_t p = l.find_last_of(" "); std::string last = p == std::string::npos ? l : l.substr(p + 1); char *e; double v = strtod(last.c_str(), &e); bool num = !last.empty() && !*e; o.push_back({num ? (p == std::string::npos ? "" : l.substr(0, p)) : l, num, v}); }
    return o;
}
static bool same(const std::vector<Line> &a, const std::vector<Line> &b) {
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); i++) if (a[i].text != b[i].text || a[i].num != b[i].num || (a[i].num && !(seq::close(a[i].v, b[i].v, 2e-5, 1e-300)))) return false;
    return true;
}
static std::string show(const std::vector<Line> &a) { std::string s; for (auto &l : a) s += "'" + l.text + (l.num ? " " + std::to_string(l.v) : "") + "' "; return s.empty() ? "nothing" : s; }

enum { EA, EB, ENAN, EZERO, EPOS, EINF, M1, M2, M3, EPOCH, OTHER, NEV };
static double value(int e) { static const double v[] = {-1.5, -200.25, NAN, 0, 7.5, -INFINITY, -0.69314718, 12.5, NAN}; return v[e]; }
struct Foreign : events::Event { Foreign() : events::Event("SomethingElse") {} };
static std::shared_ptr<events::Event> event(int e, std::shared_ptr<parameters::Parameters> p, double scale = 1) {
    if (e < M1) return std::make_shared<events::ExpectationProgressEvent<double> >(value(e) * scale);
    if (e < EPOCH) return std::make_shared<events::MaximizationProgressEvent<double> >(value(e) * scale);
    if (e == EPOCH) return std::make_shared<events::EpochProgressEvent<double> >(p);
    return std::make_shared<Foreign>();
}
// the documented behaviour
struct Ref {
    int which, every, pass = 0, n = 0, count = 0; double sum = 0; bool first = true;
    std::vector<Line> on(int e, double scale) {
        std::vector<Line> o;
        if (e < M1) {
            if (which & 1) { if (first) o.push_back({"E-M Iteration", true, pass + 1.0}); double v = value(e) * scale; if (std::isfinite(v) && v < 0) { sum += v; n++; } }
            first = false;
            if (which & 2) { count++; if (count % every == 0) o.push_back({"", true, (double)count}); }
        } else if (e < EPOCH) { if (which & 4) o.push_back({"log p(y | \\bar{z}, eta):", true, value(e) * scale}); }
        else if (e == EPOCH) { if ((which & 1) && n) o.push_back({"Per document likelihood:", true, sum / n}); sum = 0; n = count = 0; pass++; first = true; }
        return o;
    }
};
static void play(const std::vector<int> &ev, int which, int every, double scale, seq::Ctx &x) {
    auto p = std::make_shared<Model>(Eigen::VectorXd::Constant(1, 1), Eigen::MatrixXd::Constant(1, 1, 1), Eigen::MatrixXd::Zero(1, 1));
    events::SameThreadEventDispatcher d; Ref r{which, every}; uint64_t h = which * 100 + every;
    if (which & 1) d.add_listener(std::make_shared<EpochProgress>());
    if (which & 2) { if (every == 100) d.add_listener(std::make_shared<ExpectationProgress>()); else d.add_listener(std::make_shared<ExpectationProgress>(every)); }
    if (which & 4) d.add_listener(std::make_shared<MaximizationProgress>());
    std::string hist; std::string msg;
    { Capture c; for (int e : ev) { d.dispatch(event(e, p, scale)); auto got = lines(c.take()), want = r.on(e, scale); hist += " " + std::to_string(e); h = seq::mix(h, e); x.step();
        if (!same(got, want)) { msg = "after the events" + hist.substr(hist.size() > 60 ? hist.size() - 60 : 0) + " the listeners print " + show(got) + "instead of " + show(want); break; } } }
    if (!msg.empty()) x.violate("printed", "%s", msg.c_str());
    x.state(h);
}
static std::set<std::string> ls(const std::string &d) { std::set<std::string> r; if (DIR *p = opendir(d.c_str())) { while (dirent *e = readdir(p)) if (e->d_name[0] != '.') r.insert(e->d_name); closedir(p); } return r; }
static void clean(const std::string &d) { for (auto &f : ls(d)) unlink((d + "/" + f).c_str()); rmdir(d.c_str()); }
static std::shared_ptr<Model> mod(int K, int W, int C, int salt) { Eigen::VectorXd a(K); Eigen::MatrixXd b(K, W), e(C < 0 ? 0 : K, C < 0 ? 0 : C); for (int i = 0; i < K; i++) a[i] = 1.0 / 3 + i + salt * 1e-9; for (int i = 0; i < b.size(); i++) b.data()[i] = std::sqrt(2.0 + i + salt); for (int i = 0; i < e.size(); i++) e.data()[i] = std::sin(salt * 7.0 + i) * 1e3; return std::make_shared<Model>(a, b, e); }
static bool eq(const Model &a, const Model &b) { return a.alpha.size() == b.alpha.size() && a.beta.rows() == b.beta.rows() && a.beta.cols() == b.beta.cols() && a.eta.rows() == b.eta.rows() && a.eta.cols() == b.eta.cols() && a.alpha == b.alpha && a.beta == b.beta && a.eta == b.eta; }
// ops: 0 pass with the same object mutated, 1 pass with a new model object, 2 document event, 3 maximisation event, 4 other event
static void snap(const std::vector<int> &ops, int every, int K, int W, int C, bool old, seq::Ctx &x) {
    std::string dir = scratch() + "/snap" + std::to_string(getpid()); mkdir(dir.c_str(), 0755); clean(dir); mkdir(dir.c_str(), 0755);
    std::map<std::string, Model> want; std::set<std::string> names; char nm[64];
    if (old) for (int i = 1; i <= 2; i++) { snprintf(nm, sizeof nm, "m_%03d", i * every); std::ofstream f(dir + "/" + nm); f << std::string(5000, 'z'); names.insert(nm); }
    { events::SameThreadEventDispatcher d; if (every == 10) d.add_listener(std::make_shared<SnapshotEvery>(dir + "/m")); else d.add_listener(std::make_shared<SnapshotEvery>(dir + "/m", every));
      auto p = mod(K, W, C, 0); int pass = 0, salt = 0;
      for (int o : ops) {
        if (o == 0) { *p = *mod(K, W, C, ++salt); } if (o == 1) p = mod(K, W, C, ++salt);
        d.dispatch(o < 2 ? event(EPOCH, p) : event(o == 2 ? EA : o == 3 ? M1 : OTHER, p)); x.step();
        if (o < 2 && ++pass % every == 0) { snprintf(nm, sizeof nm, "m_%03d", pass); want[nm] = *p; names.insert(nm); }
        if (ls(dir) != names) { std::string g; for (auto &f : ls(dir)) g += f + " "; x.violate("files", "after %d passes with a snapshot every %d the files are: %s", pass, every, g.c_str()); break; }
        if (want.count(nm) && o < 2 && pass % every == 0) { auto l = io::load_lda(dir + "/" + nm); if (!eq(*l, *p)) { x.violate("content", "snapshot %s does not hold the parameters of its pass", nm); break; } }
      } }
    for (auto &w : want) if (!x.bad) { auto l = io::load_lda(dir + "/" + w.first); if (!eq(*l, w.second)) x.violate("content", "snapshot %s changed afterwards", w.first.c_str()); }
    clean(dir); uint64_t h = every * 1000 + K * 100 + W * 10 + C; for (int o : ops) h = seq::mix(h, o); x.state(h);
}
static uint64_t ipow(uint64_t b, int e) { uint64_t r = 1; while (e--) r *= b; return r; }
int main(int argc, char **argv) {
    bool th = seq::thorough(argc, argv); std::vector<seq::Space> s; int D = th ? 6 : 5;
    // every sequence of events, each listener alone and all together
    s.push_back({"epoch-sequences", ipow(8, D + 1), [=](uint64_t i, seq::Ctx &x) { static const int A[] = {EA, EB, ENAN, EZERO, EINF, M1, EPOCH, OTHER}; seq::Radix r(i); std::vector<int> e; for (int k = 0; k <= D; k++) e.push_back(A[r(8)]); play(e, 1, 1, 1, x); }, nullptr, 20});
    s.push_back({"all-sequences", ipow(NEV, D) * 3, [=](uint64_t i, seq::Ctx &x) { seq::Radix r(i); int every = r(3) + 1; std::vector<int> e; for (int k = 0; k < D; k++) e.push_back(r(NEV)); play(e, 7, every, 1, x); }, nullptr, 20});
    s.push_back({"count-sequences", ipow(3, 9) * 5, [=](uint64_t i, seq::Ctx &x) { static const int A[] = {EA, EPOCH, M2}; seq::Radix r(i); int every = r(5) + 1; std::vector<int> e; for (int k = 0; k < 9; k++) e.push_back(A[r(3)]); play(e, 6, every, 1, x); }, nullptr, 20});
    // scales of the values, long passes, the default interval, many passes
    s.push_back({"long", 9 * 6 * 3, [=](uint64_t i, seq::Ctx &x) { static const double SC[] = {1e-8, 1e-3, 0.1, 1, 31.7, 1e4, 1e8, 1e12, 1e300}; static const int EV[] = {1, 7, 50, 99, 100, 1000}; static const int DOC[] = {1, 99, 430}; seq::Radix r(i); double sc = SC[r(9)]; int every = EV[r(6)], docs = DOC[r(3)]; std::vector<int> e; for (int p = 0; p < 4; p++) { for (int k = 0; k < docs - (p == 2 ? docs / 2 : 0); k++) e.push_back((k + p) % 5 == 3 ? EZERO : (k * 7 + p) % 3 ? EA : EB); e.push_back(M1); e.push_back(EPOCH); } play(e, 7, every, sc, x); }, nullptr, 20});
    s.push_back({"many-passes", 4, [=](uint64_t i, seq::Ctx &x) { std::vector<int> e; for (int p = 0; p < 1200; p++) { if ((p + i) % 4) e.push_back(EA); if (i % 2) e.push_back(EB); e.push_back(EPOCH); } play(e, 7, 2, 1, x); }, nullptr, 20});
    // snapshots
    s.push_back({"snapshot-sequences", ipow(5, D) * 3, [=](uint64_t i, seq::Ctx &x) { seq::Radix r(i); int every = r(3) + 1; std::vector<int> o; for (int k = 0; k < D; k++) o.push_back(r(5)); snap(o, every, 2, 3, 2, i % 7 == 3, x); }, nullptr, 20});
    s.push_back({"snapshot-shapes", 6 * 4 * 5 * 5 * 2, [=](uint64_t i, seq::Ctx &x) { static const int EV[] = {1, 2, 3, 4, 10, 50}; static const int KS[] = {1, 2, 7, 30}, WS[] = {1, 2, 9, 40, 300}, CS[] = {-1, 0, 1, 2, 11}; seq::Radix r(i); int every = EV[r(6)], K = KS[r(4)], W = WS[r(5)], C = CS[r(5)]; std::vector<int> o; for (int k = 0; k < 21; k++) o.push_back(k % 3 == 2); snap(o, every, K, W, C, r(2), x); }, nullptr, 20});
    s.push_back({"snapshot-many", 5, [=](uint64_t i, seq::Ctx &x) { std::vector<int> o(i == 3 ? 20100 : i == 4 ? 66100 : 1205, 0); snap(o, i == 0 ? 100 : i == 1 ? 333 : i == 2 ? 1001 : i == 3 ? 10003 : 66001, 2, 2, 2, false, x); }, nullptr, 20});
    // passes of very many documents and intervals around powers of two
    s.push_back({"huge-pass", 6 * 2, [=](uint64_t i, seq::Ctx &x) { static const int EV[] = {100, 128, 256, 4096, 32768, 66000}; seq::Radix r(i); int every = EV[r(6)], w = r(2) ? 7 : 2; std::vector<int> e; for (int p = 0; p < 2; p++) { for (int k = 0; k < (th ? 140000 : 67000); k++) e.push_back(k % 7 == 3 ? EZERO : k % 3 ? EA : EB); e.push_back(EPOCH); } play(e, w, every, 1, x); }, nullptr, 60});
    s.push_back({"every", 300, [=](uint64_t i, seq::Ctx &x) { std::vector<int> e; for (int p = 0; p < 3; p++) { for (int k = 0; k < 2 * (int)i + 3; k++) e.push_back(k % 2 ? EA : EB); e.push_back(EPOCH); } play(e, 7, i + 1, 1, x); }, nullptr, 20});
    s.push_back({"snapshot-every", 140, [=](uint64_t i, seq::Ctx &x) { std::vector<int> o(2 * i + 3, 0); snap(o, i + 1, 1, 2, 2, i % 2, x); }, nullptr, 20});
    // several listeners of each kind: two independent histories interleaved, and one history seen by two snapshot listeners
    s.push_back({"two-runs", ipow(12, D - 1), [=](uint64_t i, seq::Ctx &x) { static const int A[] = {EA, EB, ENAN, M1, EPOCH, OTHER}; seq::Radix r(i); auto p = std::make_shared<Model>(Eigen::VectorXd::Constant(1, 1), Eigen::MatrixXd::Constant(1, 1, 1), Eigen::MatrixXd::Zero(1, 1));
        events::SameThreadEventDispatcher d[2]; Ref ref[2] = {{7, 2}, {7, 3}}; for (int q = 0; q < 2; q++) { d[q].add_listener(std::make_shared<EpochProgress>()); d[q].add_listener(std::make_shared<ExpectationProgress>(2 + q)); d[q].add_listener(std::make_shared<MaximizationProgress>()); }
        std::string hist, msg; uint64_t h = 5; { Capture c; auto last = event(EA, p); int last_e = EA; for (int k = 0; k < D - 1 + 2; k++) { int q = k < D - 1 ? r(2) : k % 2, e = k < D - 1 ? A[r(6)] : EPOCH; auto ev = e == last_e ? last : event(e, p); last = ev; last_e = e; d[q].dispatch(ev); auto got = lines(c.take()), want = ref[q].on(e, 1); hist += " " + std::to_string(q) + ":" + std::to_string(e); h = seq::mix(h, q * 20 + e); x.step(); if (!same(got, want)) { msg = "two runs, after the events" + hist + " (run:event) the listeners print " + show(got) + "instead of " + show(want); break; } } }
        if (!msg.empty()) x.violate("two-runs", "%s", msg.c_str()); x.state(h); }, nullptr, 20});
    s.push_back({"two-snapshots", 4 * 4 * 9, [=](uint64_t i, seq::Ctx &x) { seq::Radix r(i); int ea = r(4) + 1, eb = r(4) + 1, n = r(9) + 1; std::string dir = scratch() + "/two" + std::to_string(getpid()); mkdir(dir.c_str(), 0755); clean(dir); mkdir(dir.c_str(), 0755);
        std::map<std::string, Model> want; { events::SameThreadEventDispatcher d; d.add_listener(std::make_shared<SnapshotEvery>(dir + "/a", ea)); d.add_listener(std::make_shared<SnapshotEvery>(dir + "/b", eb)); auto p = mod(2, 3, 2, 0);
            for (int k = 1; k <= n; k++) { *p = *mod(2, 3, 2, k); d.dispatch(event(EPOCH, p)); x.step(); char nm[64]; for (int q = 0; q < 2; q++) if (k % (q ? eb : ea) == 0) { snprintf(nm, sizeof nm, "%c_%03d", q ? 'b' : 'a', k); want.emplace(nm, *p); } } }
        std::set<std::string> names; for (auto &w : want) names.insert(w.first); if (ls(dir) != names) { std::string g; for (auto &f : ls(dir)) g += f + " "; x.violate("two-snapshots", "two snapshot listeners, every %d and %d, after %d passes the files are: %s", ea, eb, n, g.c_str()); } else for (auto &w : want) { auto l = io::load_lda(dir + "/" + w.first); if (!eq(*l, w.second)) { x.violate("two-snapshots", "snapshot %s does not hold the parameters of its pass", w.first.c_str()); break; } }
        clean(dir); x.state(i); }, nullptr, 20});
    return seq::run(argc, argv, "C25", s);
}
