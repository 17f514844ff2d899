// C26: every point at which writing a result can fail or the process can die.
#include <dirent.h>
#include <fstream>
#include <sstream>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include "seq.hpp"
#include "ldaplusplus/NumpyFormat.hpp"
#include "ldaplusplus/Parameters.hpp"
#include "ldaplusplus/events/Events.hpp"
#include "ldaplusplus/events/ProgressEvents.hpp"
#include "applications/SnapshotEvery.hpp"
#include "applications/lda_io.hpp"
using namespace ldaplusplus;
namespace nf = ldaplusplus::numpy_format;
typedef parameters::SupervisedModelParameters<double> Model;
static std::string scratch() { const char *s = getenv("VERIF_SCRATCH"); return s ? s : "/tmp"; }
static std::string path_of(const std::string &a) { std::string v = getenv("VERIF_APPS"); std::istringstream is(v); std::string t; while (std::getline(is, t, ':')) if (t.substr(0, t.find('=')) == a) return t.substr(t.find('=') + 1); return ""; }
static std::string slurp(const std::string &p) { std::ifstream f(p, std::ios::binary); return std::string((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>()); }
static void spit(const std::string &p, const std::string &d) { std::ofstream f(p, std::ios::binary | std::ios::trunc); f.write(d.data(), d.size()); }
struct Dir { std::string d; Dir() { d = scratch() + "/w" + std::to_string(getpid()); mkdir(d.c_str(), 0755); clean(); } ~Dir() { clean(); rmdir(d.c_str()); } void clean() { std::vector<std::string> r; if (DIR *p = opendir(d.c_str())) { while (dirent *e = readdir(p)) { std::string n = e->d_name; if (n != "." && n != "..") r.push_back(n); } closedir(p); } for (auto &f : r) if (unlink((d + "/" + f).c_str())) rmdir((d + "/" + f).c_str()); } std::string operator/(const std::string &f) { return d + "/" + f; } };

// what a child did: 0 reported success, 1 reported failure, 2 died at the limit, 3 anything else
enum { OK, FAILED, DIED, OTHER };
// runs f in a child that may write no file beyond `limit` bytes; the write that exceeds it fails, or kills (a crash at that byte)
template <typename F> static int child(long limit, bool crash, F f) {
    pid_t p = fork();
    if (!p) { alarm(40); rlimit c = {0, 0}; setrlimit(RLIMIT_CORE, &c); signal(SIGXFSZ, crash ? SIG_DFL : SIG_IGN); int n = open("/dev/null", O_WRONLY); dup2(n, 1); dup2(n, 2); if (limit >= 0) { rlimit r = {(rlim_t)limit, (rlim_t)limit}; setrlimit(RLIMIT_FSIZE, &r); } int rc = FAILED; try { f(); rc = OK; } catch (...) { rc = FAILED; } _exit(rc); }
    int st; while (waitpid(p, &st, 0) < 0) {} if (WIFEXITED(st)) return WEXITSTATUS(st) == OK ? OK : WEXITSTATUS(st) == FAILED ? FAILED : OTHER; return WTERMSIG(st) == SIGXFSZ ? DIED : OTHER;
}
// runs a program likewise: any nonzero end is a reported failure
static int program(const std::string &a, const std::vector<std::string> &args, const std::string &dir, long limit, bool crash) {
    std::string exe = path_of(a); pid_t p = fork();
    if (!p) { alarm(50); if (chdir(dir.c_str())) _exit(97); rlimit c = {0, 0}; setrlimit(RLIMIT_CORE, &c); signal(SIGXFSZ, crash ? SIG_DFL : SIG_IGN); int n = open("/dev/null", O_RDWR); dup2(n, 0); dup2(n, 1); dup2(n, 2); if (limit >= 0) { rlimit r = {(rlim_t)limit, (rlim_t)limit}; setrlimit(RLIMIT_FSIZE, &r); } std::vector<char *> v; std::string nm = a; v.push_back(&nm[0]); std::vector<std::string> q = args; for (auto &s : q) v.push_back(&s[0]); v.push_back(nullptr); execv(exe.c_str(), v.data()); _exit(98); }
    int st; while (waitpid(p, &st, 0) < 0) {} if (WIFSIGNALED(st) && WTERMSIG(st) == SIGXFSZ) return DIED; if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGALRM || WTERMSIG(st) == SIGSEGV || WTERMSIG(st) == SIGBUS)) return OTHER; return WIFEXITED(st) && !WEXITSTATUS(st) ? OK : FAILED;
}
// a passing fault: the j-th write to a regular file is cut after `part` eighths of it and the attempt to continue fails; everything later works
static int g_fail_at = -1, g_part = 0, g_writes = 0, g_pending = 0;
static bool regular(int fd) { struct stat st; return !fstat(fd, &st) && S_ISREG(st.st_mode); }
static long faulty(int fd, const struct iovec *v, int n) {
    if (g_fail_at < 0 || !regular(fd)) return syscall(SYS_writev, fd, v, n);
    if (g_pending) { g_pending = 0; errno = EIO; return -1; }
    if (g_writes++ != g_fail_at) return syscall(SYS_writev, fd, v, n);
    size_t t = 0; for (int i = 0; i < n; i++) t += v[i].iov_len; size_t keep = g_part == 9 ? (t ? t - 1 : 0) : t * g_part / 8; if (!keep) { errno = EIO; return -1; }
    g_pending = 1; size_t done = 0; for (int i = 0; i < n && done < keep; i++) { size_t m = std::min(v[i].iov_len, keep - done); long q = syscall(SYS_write, fd, v[i].iov_base, m); if (q < 0) return -1; done += q; } return done;
}
extern "C" ssize_t write(int fd, const void *b, size_t n) { if (g_fail_at < 0) return syscall(SYS_write, fd, b, n); struct iovec v = {const_cast<void *>(b), n}; return faulty(fd, &v, 1); }
extern "C" ssize_t writev(int fd, const struct iovec *v, int n) { return faulty(fd, v, n); }
static const char *name(int r) { static const char *n[] = {"reports success", "reports failure", "is killed", "crashes or hangs"}; return n[r]; }
static Model model(int K, int W, int C, int salt = 0) { Model m; m.alpha.resize(K); m.beta.resize(K, W); m.eta.resize(K, C); for (int k = 0; k < K; k++) m.alpha[k] = 0.25 + k + salt; for (int i = 0; i < m.beta.size(); i++) m.beta.data()[i] = std::sqrt(2.0 + i + salt); for (int i = 0; i < m.eta.size(); i++) m.eta.data()[i] = std::sin(i + 1.0 + salt); return m; }
static bool eq(const Model &a, const Model &b) { return a.alpha.size() == b.alpha.size() && a.beta.rows() == b.beta.rows() && a.beta.cols() == b.beta.cols() && a.eta.rows() == b.eta.rows() && a.eta.cols() == b.eta.cols() && a.alpha == b.alpha && a.beta == b.beta && a.eta == b.eta; }
// 0 absent or rejected, 1 loads as `want`, 2 loads as `old`, 3 loads as something else
static int left(const std::string &p, const Model &want, const Model *old) { try { auto m = io::load_lda(p); return eq(*m, want) ? 1 : old && eq(*m, *old) ? 2 : 3; } catch (const std::exception &) { return 0; } }
template <typename M> static int left_array(const std::string &p, const M &want) { try { M m = nf::load<typename M::Scalar>(p); return m.rows() == want.rows() && m.cols() == want.cols() && m == want ? 1 : 3; } catch (const std::exception &) { return 0; } }

// every limit up to beyond the size of the file; `crash`: the process dies instead of seeing an error
static void model_case(int K, int W, int C, size_t size, size_t limit, int old, bool crash, bool snapshot, seq::Ctx &x) {
    Dir w; Model m = model(K, W, C), o = model(2, 3, 2, 50); std::string p = w / (snapshot ? "m_002" : "m"); if (old == 1) io::save_lda(p, std::make_shared<Model>(o)); if (old == 2) spit(p, std::string(size + 100, 'q'));
    int r = child(limit, crash, [&] { auto q = std::make_shared<Model>(m); if (!snapshot) io::save_lda(p, q); else { events::SameThreadEventDispatcher d; d.add_listener(std::make_shared<SnapshotEvery>(w / "m", 2)); for (int i = 0; i < 3; i++) d.dispatch(std::make_shared<events::EpochProgressEvent<double> >(q)); } }); x.step();
    const char *what = snapshot ? "a snapshot" : "a model"; bool fits = limit >= size; int l = left(p, m, old == 1 ? &o : nullptr);
    if (r == OTHER || (r == DIED && (!crash || fits))) { x.violate("crash", "saving %s of %zu bytes with room for %zu %s", what, size, limit, name(r)); return; }
    if (fits && (r != OK || l != 1)) { x.violate("complete", "saving %s of %zu bytes with room for %zu %s", what, size, limit, r != OK ? name(r) : "leaves another model"); return; }
    if (!fits && r == OK) { x.violate("unreported", "saving %s of %zu bytes with room for only %zu reports success", what, size, limit); return; }
    if (!fits && (l == 1 || l == 3)) { x.violate("leftover", "saving %s of %zu bytes with room for only %zu leaves a file that loads as a model", what, size, limit); return; }
    x.state(seq::mix(seq::mix(size, limit), old * 4 + crash * 2 + snapshot));
}
static void passing_model(int K, int W, int C, int at, int part, bool snapshot, seq::Ctx &x) {
    Dir w; Model m = model(K, W, C); std::string p = w / (snapshot ? "m_002" : "m");
    int r = child(-1, false, [&] { g_fail_at = at; g_part = part; auto q = std::make_shared<Model>(m); if (!snapshot) io::save_lda(p, q); else { events::SameThreadEventDispatcher d; d.add_listener(std::make_shared<SnapshotEvery>(w / "m", 2)); for (int i = 0; i < 3; i++) d.dispatch(std::make_shared<events::EpochProgressEvent<double> >(q)); } }); x.step();
    int l = left(p, m, nullptr); const char *what = snapshot ? "a snapshot" : "a model";
    if (r == OTHER || r == DIED) x.violate("crash", "saving %s when write %d fails once %s", what, at, name(r)); else if (r == OK && l != 1) x.violate("unreported", "saving %s reports success although write %d failed and the file %s", what, at, l ? "loads as another model" : "is incomplete"); else if (l == 3) x.violate("leftover", "saving %s when write %d fails once leaves a file that loads as another model", what, at);
    x.state(seq::mix(seq::mix(K * 1000 + W, at), part * 2 + snapshot));
}
template <typename S> static Eigen::Matrix<S, -1, -1> mat(int r, int c) { Eigen::Matrix<S, -1, -1> m(r, c); for (long i = 0; i < m.size(); i++) m.data()[i] = (S)(3 * i + 1); return m; }
template <typename S> static size_t bytes(int r, int c) { std::ostringstream o; nf::save(o, mat<S>(r, c)); return o.str().size(); }
template <typename S> static void array_case(int rr, int cc, size_t limit, bool crash, seq::Ctx &x, bool old = false) {
    Dir w; auto m = mat<S>(rr, cc); size_t size = bytes<S>(rr, cc); std::string p = w / "a", before; if (old) { Eigen::Matrix<S, -1, -1> o = mat<S>(rr, cc).array() + (S)5; nf::save(p, o); before = slurp(p); } int r = child(limit, crash, [&] { nf::save(p, m); }); x.step(); bool fits = limit >= size; int l = left_array(p, m); if (!fits && old && slurp(p) == before) l = 0;
    if (r == OTHER || (r == DIED && (!crash || fits))) x.violate("crash", "saving a %dx%d array with room for %zu of %zu bytes %s", rr, cc, limit, size, name(r)); else if (fits && (r != OK || l != 1)) x.violate("complete", "saving a %dx%d array of %zu bytes with room for %zu %s", rr, cc, size, limit, r != OK ? name(r) : "leaves another array");
    else if (!fits && r == OK) x.violate("unreported", "saving a %dx%d array of %zu bytes with room for only %zu reports success", rr, cc, size, limit); else if (!fits && l) x.violate("leftover", "saving a %dx%d array of %zu bytes with room for only %zu leaves a file that loads", rr, cc, size, limit); x.state(seq::mix(seq::mix(size, limit), crash));
}
template <typename S> static void passing_array(int rr, int cc, int at, int part, seq::Ctx &x) {
    Dir w; auto m = mat<S>(rr, cc); std::string p = w / "a"; int r = child(-1, false, [&] { g_fail_at = at; g_part = part; nf::save(p, m); }); x.step(); int l = left_array(p, m);
    if (r == OTHER || r == DIED) x.violate("crash", "saving a %dx%d array when write %d fails once %s", rr, cc, at, name(r)); else if (r == OK && l != 1) x.violate("unreported", "saving a %dx%d array reports success although write %d failed and the file %s", rr, cc, at, l ? "loads as another array" : "is incomplete"); else if (l == 3) x.violate("leftover", "saving a %dx%d array when write %d fails once leaves a file that loads as another array", rr, cc, at);
    x.state(seq::mix(rr * 1000 + cc, at * 10 + part));
}
// a stream whose device is full after n bytes, accepting up to `piece` at a time
struct Full : std::streambuf { size_t n, piece; std::string got; Full(size_t n, size_t piece) : n(n), piece(piece) {} int_type overflow(int_type c) override { if (got.size() >= n) return traits_type::eof(); got.push_back((char)c); return c; } std::streamsize xsputn(const char *s, std::streamsize k) override { std::streamsize d = 0; while (d < k) { size_t t = std::min(std::min<size_t>(piece, k - d), n - got.size()); if (!t) return d; got.append(s + d, t); d += t; } return d; } };
template <typename S> static void stream_case(int rr, int cc, size_t limit, seq::Ctx &x) {
    auto m = mat<S>(rr, cc); std::ostringstream ref; nf::save(ref, m); std::string want = ref.str(); for (size_t piece : {(size_t)1, (size_t)5, (size_t)4096}) { Full f(limit, piece); std::ostream o(&f); bool thrown = false; try { o << nf::NumpyOutput<S>(m); } catch (const std::exception &) { thrown = true; } bool bad = thrown || !o; x.step();
        if (bad != (limit < want.size())) { x.violate("stream", "writing a %dx%d array of %zu bytes to a stream with room for %zu %s", rr, cc, want.size(), limit, bad ? "fails" : "leaves the stream good"); return; } if (want.compare(0, f.got.size(), f.got)) { x.violate("stream-bytes", "bytes written before the failure are no prefix of the array"); return; } }
    x.state(seq::mix(want.size(), limit));
}
struct Data { Eigen::MatrixXi X; Eigen::MatrixXi y; };
static void data_file(const std::string &p, bool labels) { Eigen::MatrixXi X(3, 6); for (int j = 0; j < 6; j++) for (int i = 0; i < 3; i++) X(i, j) = (i * 5 + j * 3) % 4 + (i == j % 3); Eigen::MatrixXi y(6, 1); for (int j = 0; j < 6; j++) y(j, 0) = j % 2; std::ofstream f(p, std::ios::binary); f << nf::NumpyOutput<int>(X); if (labels) f << nf::NumpyOutput<int>(y); }
static const char *APP[] = {"lda", "slda", "fslda", "fslda"}, *CM[] = {"train", "train", "train", "online_train"};
static std::vector<std::string> train_args(int c, int big, bool snap) { std::vector<std::string> a = {CM[c], "-q", "--iterations=2", big ? "--topics=150" : "--topics=2", "--e_step_iterations=2"}; if (c == 3) a.push_back("--batch_size=6"); if (c == 1 || c == 2) a.push_back("--m_step_iterations=2"); if (snap) a.push_back("--snapshot_every=2"); a.push_back("data"); a.push_back("model"); return a; }
static std::string join(const std::string &a, const std::vector<std::string> &v) { std::string s = a; for (auto &x : v) s += " " + x; return s; }
// the file a run without limits writes
static std::string expected(int kind, int c, int big) { static std::map<int, std::string> memo; int k = kind * 100 + c * 10 + big; if (memo.count(k)) return memo[k]; Dir w; data_file(w / "data", c != 0); if (kind == 0) { if (program(APP[c], train_args(c, big, false), w.d, -1, false) != OK) return ""; return memo[k] = slurp(w / "model"); } io::save_lda(w / "m", std::make_shared<Model>(model(big ? 190 : 4, 3, 2))); if (program(APP[c], {"transform", "-q", "m", "data", "out"}, w.d, -1, false) != OK) return ""; return memo[k] = slurp(w / "out"); }
static void train_case(int c, int big, size_t limit, bool crash, bool snap, bool old, seq::Ctx &x) {
    std::string want = expected(0, c, big); if (want.empty()) { x.violate("clean-run", "%s does not succeed", join(APP[c], train_args(c, big, false)).c_str()); return; } if (limit > want.size() + 2) return;
    Dir w; data_file(w / "data", c != 0); std::string oldf; if (old) { io::save_lda(w / "model", std::make_shared<Model>(model(2, 3, 2, 9))); oldf = slurp(w / "model"); } auto a = train_args(c, big, snap); int r = program(APP[c], a, w.d, limit, crash); x.step(); std::string got = slurp(w / "model"), sn = slurp(w / "model_002"); bool fits = limit >= want.size(); std::string cmd = join(APP[c], a);
    if (r == OTHER || (r == DIED && (!crash || fits))) { x.violate("crash", "%s with room for %zu of %zu bytes %s", cmd.c_str(), limit, want.size(), name(r)); return; }
    if (fits && (r != OK || got != want || (snap && sn != want))) { x.violate("complete", "%s with room for %zu of %zu bytes %s", cmd.c_str(), limit, want.size(), r != OK ? name(r) : "leaves another model"); return; }
    if (!fits && r == OK) { x.violate("unreported", "%s ends successfully although only %zu of %zu bytes could be written", cmd.c_str(), limit, want.size()); return; }
    if (!fits) for (const char *f : {"model", "model_002"}) { std::string g = slurp(w / f); if (g.size() && g == oldf) continue; bool loads = true; try { io::load_lda(w / f); } catch (const std::exception &) { loads = false; } if (loads) { x.violate("leftover", "%s with room for %zu of %zu bytes leaves a file %s that loads as a model", cmd.c_str(), limit, want.size(), f); return; } }
    x.state(seq::mix(seq::mix(c * 8 + crash * 4 + snap * 2 + old, limit), big));
}
static void transform_case(int a, int big, size_t limit, bool crash, seq::Ctx &x) {
    std::string want = expected(1, a, big); if (want.empty()) { x.violate("clean-run", "%s transform does not succeed", APP[a]); return; } if (limit > want.size() + 2) return;
    Dir w; data_file(w / "data", a != 0); io::save_lda(w / "m", std::make_shared<Model>(model(big ? 190 : 4, 3, 2))); std::string m0 = slurp(w / "m"); int r = program(APP[a], {"transform", "-q", "m", "data", "out"}, w.d, limit, crash); x.step(); bool fits = limit >= want.size();
    if (slurp(w / "m") != m0) { x.violate("model-touched", "%s transform changes the stored model", APP[a]); return; }
    if (r == OTHER || (r == DIED && (!crash || fits))) { x.violate("crash", "%s transform with room for %zu of %zu bytes %s", APP[a], limit, want.size(), name(r)); return; } if (fits && (r != OK || slurp(w / "out") != want)) { x.violate("complete", "%s transform with room for %zu of %zu bytes %s", APP[a], limit, want.size(), r != OK ? name(r) : "leaves another result"); return; }
    if (!fits && r == OK) { x.violate("unreported", "%s transform ends successfully although only %zu of %zu bytes could be written", APP[a], limit, want.size()); return; }
    if (!fits) { bool loads = true; try { Eigen::MatrixXd q = nf::load<double>(w / "out"); } catch (const std::exception &) { loads = false; } if (loads) { x.violate("leftover", "%s transform with room for %zu of %zu bytes leaves a file that loads", APP[a], limit, want.size()); return; } } x.state(seq::mix(a * 4 + crash, limit));
}
// targets that cannot be opened: 0 missing directory, 1 the target is a directory, 2 a file used as a directory, 3 a name that is too long, 4 an empty name
static std::string target(Dir &w, int t, const std::string &n) { if (t == 1) { mkdir((w / n).c_str(), 0755); return w / n; } if (t == 2) { spit(w / "f", "x"); return w / ("f/" + n); } if (t == 3) return w / std::string(300, 'n'); if (t == 4) return ""; return w / ("no/such/" + n); }
static void unopenable(uint64_t i, seq::Ctx &x) {
    seq::Radix r(i); int t = r(5), k = r(3 + 4 + 3 + 4); Dir w; int res; std::string cmd;
    if (k < 3) { std::string p = target(w, t, "m"); cmd = k == 0 ? "saving a model" : k == 1 ? "saving an array" : "saving a snapshot"; if (k == 2 && (t == 1 || t == 4)) { if (t == 4) return; mkdir((w / "m_001").c_str(), 0755); p = w / "m"; } res = child(-1, false, [&] { auto m = std::make_shared<Model>(model(2, 3, 2)); if (k == 0) io::save_lda(p, m); else if (k == 1) nf::save(p, mat<double>(2, 3)); else { events::SameThreadEventDispatcher d; d.add_listener(std::make_shared<SnapshotEvery>(p, 1)); d.dispatch(std::make_shared<events::EpochProgressEvent<double> >(m)); } }); }
    else if (k < 7) { int c = k - 3; data_file(w / "data", c != 0); auto a = train_args(c, 0, false); a.back() = target(w, t, "model"); cmd = join(APP[c], a); res = program(APP[c], a, w.d, -1, false); }
    else if (k < 10) { int c = k - 7; data_file(w / "data", c != 0); io::save_lda(w / "m", std::make_shared<Model>(model(4, 3, 2))); std::vector<std::string> a = {"transform", "-q", "m", "data", target(w, t, "out")}; cmd = join(APP[c], a); res = program(APP[c], a, w.d, -1, false); }
    else { if (t) return; int c = k - 10; data_file(w / "data", c != 0); mkdir((w / "model_002").c_str(), 0755); auto a = train_args(c, 0, true); cmd = join(APP[c], a) + " with a snapshot that cannot be opened"; res = program(APP[c], a, w.d, -1, false); }
    x.step(); if (res == OTHER || res == DIED) x.violate("crash", "%s %s", cmd.c_str(), name(res)); else if (res == OK) x.violate("unreported", "%s reports success although the file cannot be opened (%d)", cmd.c_str(), t); x.state(i);
}
int main(int argc, char **argv) {
    bool th = seq::thorough(argc, argv); std::vector<seq::Space> s;
    auto size_of = [](int K, int W, int C) { std::ostringstream o; Model m = model(K, W, C); o << nf::NumpyOutput<double>(m.alpha) << nf::NumpyOutput<double>(m.beta) << nf::NumpyOutput<double>(m.eta); return o.str().size(); };
    static const int SH[][3] = {{1, 1, 1}, {2, 3, 2}, {3, 7, 4}, {2, 5, 0}, {5, 5, 5}};
    for (auto &q : SH) { int K = q[0], W = q[1], C = q[2]; size_t n = size_of(K, W, C); std::string nm = "model-" + std::to_string(K) + "x" + std::to_string(W) + "x" + std::to_string(C);
        s.push_back({nm, (n + 3) * 2 * 3, [=](uint64_t i, seq::Ctx &x) { seq::Radix r(i); bool crash = r(2); int old = r(3); model_case(K, W, C, n, r(n + 3), old, crash, false, x); }, nullptr, 60});
        s.push_back({"snapshot-" + nm, (n + 3) * 2, [=](uint64_t i, seq::Ctx &x) { seq::Radix r(i); bool crash = r(2); model_case(K, W, C, n, r(n + 3), 0, crash, true, x); }, nullptr, 60}); }
    // beyond the stream's buffer: around every multiple of 512 bytes and the ends
    for (auto &q : std::vector<std::vector<int> >{{40, 60, 3}, {2, 1030, 2}, {1100, 1, 1}}) { int K = q[0], W = q[1], C = q[2]; size_t n = size_of(K, W, C); std::vector<size_t> at; for (size_t b = 0; b <= n + 2; b++) if (th || b % 512 < 2 || b % 512 > 509 || b < 4 || b + 12 > n) at.push_back(b); s.push_back({"large-model-" + std::to_string(K) + "x" + std::to_string(W), at.size() * 2, [=](uint64_t i, seq::Ctx &x) { model_case(K, W, C, n, at[i / 2], 0, i % 2, false, x); }, nullptr, 60}); }
    static const int AS[][2] = {{1, 1}, {3, 4}, {2, 9}, {0, 3}, {7, 1}};
    for (auto &q : AS) { int R = q[0], C = q[1]; std::string nm = std::to_string(R) + "x" + std::to_string(C); size_t n = bytes<double>(R, C), ni = bytes<int>(R, C); if (R) { s.push_back({"array-" + nm, (n + 3) * 2, [=](uint64_t i, seq::Ctx &x) { array_case<double>(R, C, i / 2, i % 2, x); }, nullptr, 60}); s.push_back({"array-over-" + nm, (n + 3) * 2, [=](uint64_t i, seq::Ctx &x) { array_case<double>(R, C, i / 2, i % 2, x, true); }, nullptr, 60}); s.push_back({"array-int-" + nm, (ni + 3) * 2, [=](uint64_t i, seq::Ctx &x) { array_case<int>(R, C, i / 2, i % 2, x); }, nullptr, 60}); }
        s.push_back({"stream-" + nm, n + 3, [=](uint64_t i, seq::Ctx &x) { stream_case<double>(R, C, i, x); }, nullptr, 60}); s.push_back({"stream-int-" + nm, ni + 3, [=](uint64_t i, seq::Ctx &x) { stream_case<int>(R, C, i, x); }, nullptr, 60}); }
    { std::vector<size_t> at; size_t n = bytes<double>(90, 60); for (size_t b = 0; b <= n + 2; b++) if (b % 512 < 2 || b % 512 > 509 || b + 12 > n) at.push_back(b); s.push_back({"large-array", at.size() * 2, [=](uint64_t i, seq::Ctx &x) { array_case<double>(90, 60, at[i / 2], i % 2, x); }, nullptr, 60}); }
    // one write fails and everything after it works again
    static const int PM[][3] = {{1, 1, 1}, {2, 3, 2}, {3, 7, 4}, {40, 60, 3}, {2, 1030, 2}, {1100, 1, 1}, {3, 2, 900}, {1100, 3, 1}, {20, 60, 60}};
    s.push_back({"passing-model", 9 * 2 * 12 * 10, [](uint64_t i, seq::Ctx &x) { seq::Radix r(i); int part = r(10); bool sn = r(2); int at = r(12); const int *q = PM[r(9)]; passing_model(q[0], q[1], q[2], at, part, sn, x); }, nullptr, 60});
    static const int PA[][2] = {{1, 1}, {3, 4}, {1023, 1}, {1024, 1}, {1030, 1}, {90, 60}, {1, 2500}};
    s.push_back({"passing-array", 7 * 2 * 8 * 10, [](uint64_t i, seq::Ctx &x) { seq::Radix r(i); int part = r(10), at = r(8); bool in = r(2); const int *q = PA[r(7)]; if (in) passing_array<int>(q[0], q[1], at, part, x); else passing_array<double>(q[0], q[1], at, part, x); }, nullptr, 60});
    for (int c = 0; c < 4; c++) { std::string nm = std::string(APP[c]) + "-" + CM[c]; uint64_t n = 420;   // the model files have fewer bytes; larger limits do nothing
        s.push_back({"program-" + nm, n, [=](uint64_t i, seq::Ctx &x) { train_case(c, 0, i, false, false, i % 3 == 1, x); }, nullptr, 120}); s.push_back({"program-crash-" + nm, n, [=](uint64_t i, seq::Ctx &x) { train_case(c, 0, i, true, i % 2, i % 3 == 1, x); }, nullptr, 120}); s.push_back({"program-snapshot-" + nm, n, [=](uint64_t i, seq::Ctx &x) { train_case(c, 0, i, false, true, false, x); }, nullptr, 120});
        s.push_back({"program-large-" + nm, 20 * 4, [=](uint64_t i, seq::Ctx &x) { train_case(c, 1, i / 4 * 512 + i % 4, false, i % 2, false, x); }, nullptr, 120}); }
    for (int a = 0; a < 3; a++) { s.push_back({std::string("program-transform-") + APP[a], 2 * 340, [=](uint64_t i, seq::Ctx &x) { transform_case(a, 0, i / 2, i % 2, x); }, nullptr, 120}); s.push_back({std::string("program-transform-large-") + APP[a], 24 * 4, [=](uint64_t i, seq::Ctx &x) { transform_case(a, 1, i / 4 * 512 + i % 4, false, x); }, nullptr, 120}); }
    s.push_back({"unopenable", 5 * 14, unopenable, nullptr, 120});
    return seq::run(argc, argv, "C26", s);
}
