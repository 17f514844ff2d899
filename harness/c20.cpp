// C20: the console programs against the library, over every small set of options.
#include <dirent.h>
#include <set>
#include <sstream>
#include <sys/stat.h>
#include "seq.hpp"
#include "ldaplusplus/LDA.hpp"
#include "ldaplusplus/LDABuilder.hpp"
#include "ldaplusplus/NumpyFormat.hpp"
#include "ldaplusplus/events/ProgressEvents.hpp"
#include "ldaplusplus/em/FastOnlineSupervisedMStep.hpp"
#include "ldaplusplus/em/FastSupervisedEStep.hpp"
#include "ldaplusplus/em/FastSupervisedMStep.hpp"
#include "ldaplusplus/em/SupervisedEStep.hpp"
#include "ldaplusplus/em/SupervisedMStep.hpp"
#include "ldaplusplus/em/UnsupervisedEStep.hpp"
#include "ldaplusplus/em/UnsupervisedMStep.hpp"
using namespace ldaplusplus;
typedef parameters::SupervisedModelParameters<double> Model;
typedef std::map<std::string, std::string> Opts;
enum { LDA_TRAIN, SLDA_TRAIN, FSLDA_TRAIN, FSLDA_ONLINE, NCMD };
static const char *CMD[] = {"lda train", "slda train", "fslda train", "fslda online_train"};
static std::string app(int c) { return c == LDA_TRAIN ? "lda" : c == SLDA_TRAIN ? "slda" : "fslda"; }
static std::string scratch() { const char *s = getenv("VERIF_SCRATCH"); return s ? s : "/tmp"; }
static std::string path_of(const std::string &a) { std::string v = getenv("VERIF_APPS"); std::istringstream is(v); std::string t; while (std::getline(is, t, ':')) if (t.substr(0, t.find('=')) == a) return t.substr(t.find('=') + 1); return ""; }

// ---------------------------------------------------------------- running a program
struct Run { int status; std::string out, err; };
static std::string slurp(const std::string &p) { std::ifstream f(p, std::ios::binary); return std::string((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>()); }
static Run exec(const std::string &a, const std::vector<std::string> &args, const std::string &dir) {
    std::string o = dir + "/.out", e = dir + "/.err", exe = path_of(a); pid_t p = fork();
    if (!p) { alarm(50); if (chdir(dir.c_str())) _exit(99); int f = open(o.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644); dup2(f, 1); f = open(e.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644); dup2(f, 2); std::vector<char *> v; std::string n = a; v.push_back(&n[0]); std::vector<std::string> c = args; for (auto &s : c) v.push_back(&s[0]); v.push_back(nullptr); execv(exe.c_str(), v.data()); _exit(98); }
    int st; while (waitpid(p, &st, 0) < 0) {} Run r; r.status = WIFEXITED(st) ? WEXITSTATUS(st) : 256 + WTERMSIG(st); r.out = slurp(o); r.err = slurp(e); unlink(o.c_str()); unlink(e.c_str()); return r;
}
struct Dir { std::string d; Dir() { d = scratch() + "/w" + std::to_string(getpid()); mkdir(d.c_str(), 0755); } ~Dir() { clean(); rmdir(d.c_str()); } void clean() { for (auto &f : ls()) unlink((d + "/" + f).c_str()); } std::set<std::string> ls() { std::set<std::string> r; if (DIR *p = opendir(d.c_str())) { while (dirent *e = readdir(p)) if (e->d_name[0] != '.') r.insert(e->d_name); closedir(p); } return r; } std::string operator/(const std::string &f) { return d + "/" + f; } };

// ---------------------------------------------------------------- data and model files, read and written independently of lda_io
struct Data { Eigen::MatrixXi X; Eigen::VectorXi y; };
static Data data(int which, int n = 0) { static const int W[] = {6, 5, 4, 60, 1, 3, 130, 5}, N[] = {8, 9, 128, 300, 1, 1100, 40, 14}, C[] = {2, 3, 2, 12, 1, 4, 33, 5}; Data d; if (!n) n = N[which]; d.X.resize(W[which], n); d.y.resize(n); for (int j = 0; j < n; j++) { for (int i = 0; i < W[which]; i++) d.X(i, j) = seq::mix(seq::mix(which + 1, i), j) % 5 * (i % 2 == j % 2 ? 2 : 1) + (i == j % W[which]); d.y[j] = j < C[which] ? j : (seq::mix(j, 3) % 4 ? 0 : j % C[which]); } if (which == 7) for (int j = 0; j < n; j++) if (d.y[j] == 1 || d.y[j] == 3) d.y[j] = j % 2 ? 4 : 2; /* classes without a document */ return d; }
static void put(const std::string &p, const Data &d, bool labels, int style) {
    std::ofstream f(p, std::ios::binary); if (style % 2) { Eigen::Matrix<int, -1, -1, Eigen::RowMajor> r = d.X; f << numpy_format::NumpyOutput<int>(r); } else f << numpy_format::NumpyOutput<int>(d.X);
    if (labels) { if (style / 2) f << numpy_format::NumpyOutput<int>(d.y.data(), std::vector<size_t>{(size_t)d.y.size()}, false); else f << numpy_format::NumpyOutput<int>(d.y); }
}
static Model get(const std::string &p) { std::ifstream f(p, std::ios::binary); if (!f) throw std::runtime_error("no model file " + p.substr(p.rfind('/') + 1)); numpy_format::NumpyInput<double> ni; Model m; f >> ni; m.alpha = ni; f >> ni; m.beta = ni; f >> ni; m.eta = ni; return m; }
static bool near(const Eigen::MatrixXd &a, const Eigen::MatrixXd &b, double t) { if (a.rows() != b.rows() || a.cols() != b.cols()) return false; for (long i = 0; i < a.size(); i++) if (!seq::close(a.data()[i], b.data()[i], t, t)) return false; return true; }
static const char *differ(const Model &a, const Model &b, double t) { return !near(a.alpha, b.alpha, t) ? "prior" : !near(a.beta, b.beta, t) ? "topics" : !near(a.eta, b.eta, t) ? "classifier weights" : nullptr; }

// ---------------------------------------------------------------- what the documentation says
static Opts defaults(int c) {
    Opts o = {{"--topics", "100"}, {"--iterations", "20"}, {"--random_state", "0"}, {"--snapshot_every", "-1"}, {"--workers", "1"}, {"--compute_likelihood", "0.0"}, {"--e_step_iterations", c == LDA_TRAIN ? "30" : "10"}, {"--e_step_tolerance", c == LDA_TRAIN ? "1e-3" : "1e-4"}};
    if (c == SLDA_TRAIN) o["--fixed_point_iterations"] = "20"; if (c == SLDA_TRAIN || c == FSLDA_TRAIN) { o["--m_step_iterations"] = "200"; o["--m_step_tolerance"] = "1e-4"; } if (c != LDA_TRAIN) o["--regularization_penalty"] = "0.05"; if (c >= FSLDA_TRAIN) o["--supervised_weight"] = "1";
    if (c == FSLDA_ONLINE) { o["--batch_size"] = "128"; o["--momentum"] = "0.9"; o["--learning_rate"] = "0.01"; o["--beta_weight"] = "0.9"; }
    return o;
}
struct Rec : events::EventListenerInterface { std::vector<std::vector<double> > e{1}; std::vector<double> m; std::vector<Model> at;
    void on_event(std::shared_ptr<events::Event> v) override { if (v->id() == "ExpectationProgressEvent") e.back().push_back(std::static_pointer_cast<events::ExpectationProgressEvent<double> >(v)->likelihood()); else if (v->id() == "MaximizationProgressEvent") m.push_back(std::static_pointer_cast<events::MaximizationProgressEvent<double> >(v)->likelihood()); else if (v->id() == "EpochProgressEvent") { e.emplace_back(); at.push_back(*std::static_pointer_cast<Model>(std::static_pointer_cast<events::EpochProgressEvent<double> >(v)->model_parameters())); } } };
// The programs may hold real options in single or in double precision: the model has to be the library's for one of the two.
static bool single_precision = false;
static double real(const std::string &v) { double d = atof(v.c_str()); return single_precision ? (double)(float)d : d; }
static std::shared_ptr<em::EStepInterface<double> > classic(const Opts &o, double cl) { return std::make_shared<em::UnsupervisedEStep<double> >(atol(o.at("--e_step_iterations").c_str()), real(o.at("--e_step_tolerance")), cl, atoi(o.at("--random_state").c_str())); }
static Model train(int c, const Opts &o, const Data &d, Rec &rec, bool random, const Model *cont, const Model *unsup) {
    auto f = [&](const char *k) { return real(o.at(k)); }; auto i = [&](const char *k) { return atol(o.at(k).c_str()); };
    int C = c == LDA_TRAIN ? 1 : d.y.maxCoeff() + 1; auto m = std::make_shared<Model>();
    if (cont || unsup) { *m = cont ? *cont : *unsup; if (unsup || c == LDA_TRAIN) m->eta = Eigen::MatrixXd::Zero(m->beta.rows(), C); }
    else { LDABuilder<double> b; if (random) b.initialize_topics_random(d.X.rows(), i("--topics"), i("--random_state")); else b.initialize_topics_seeded(d.X, i("--topics"), 30, i("--random_state")); b.initialize_eta_zeros(C); *m = *LDA<double>(b).model_parameters<Model>(); }
    std::shared_ptr<em::EStepInterface<double> > e; std::shared_ptr<em::MStepInterface<double> > ms;
    if (c == LDA_TRAIN) { e = classic(o, f("--compute_likelihood")); ms = std::make_shared<em::UnsupervisedMStep<double> >(); }
    else if (c == SLDA_TRAIN) { e = std::make_shared<em::SupervisedEStep<double> >(i("--e_step_iterations"), f("--e_step_tolerance"), i("--fixed_point_iterations"), f("--compute_likelihood"), i("--random_state")); ms = std::make_shared<em::SupervisedMStep<double> >(i("--m_step_iterations"), f("--m_step_tolerance"), f("--regularization_penalty")); }
    else { e = std::make_shared<em::FastSupervisedEStep<double> >(i("--e_step_iterations"), f("--e_step_tolerance"), f("--supervised_weight"), em::FastSupervisedEStep<double>::CWeightType::Constant, f("--compute_likelihood"), i("--random_state"));
        if (c == FSLDA_TRAIN) ms = std::make_shared<em::FastSupervisedMStep<double> >(i("--m_step_iterations"), f("--m_step_tolerance"), f("--regularization_penalty"));
        else { Eigen::VectorXd w = Eigen::VectorXd::Zero(C); for (int j = 0; j < d.y.size(); j++) w[d.y[j]]++; for (int k = 0; k < C; k++) w[k] = d.y.size() / (w[k] * C); ms = std::make_shared<em::FastOnlineSupervisedMStep<double> >(w, f("--regularization_penalty"), i("--batch_size"), f("--momentum"), f("--learning_rate"), f("--beta_weight")); } }
    LDA<double> l(m, e, ms, i("--iterations"), 1); auto r = std::make_shared<Rec>(); l.get_event_dispatcher()->add_listener(r); if (c == LDA_TRAIN) l.fit(d.X); else l.fit(d.X, d.y); rec = *r; return *m;
}
static std::vector<std::string> lines(const std::string &s, const std::string &start) { std::vector<std::string> r; std::istringstream is(s); std::string l; while (std::getline(is, l)) if (l.compare(0, start.size(), start) == 0) r.push_back(l.substr(start.size())); return r; }

// ---------------------------------------------------------------- option values
struct Val { std::string name, value, form; };   // form: how it is written on the command line
static std::vector<Val> values(int c) {
    std::vector<Val> v; auto add = [&](const char *n, std::vector<const char *> vs) { for (auto s : vs) v.push_back({n, s, std::string(n) + "=" + s}); };
    add("--topics", {"3", "1"}); add("--iterations", {"0", "3"}); add("--random_state", {"5"}); add("--e_step_iterations", {"2"}); add("--e_step_tolerance", {"0.3"}); add("--compute_likelihood", {"1.0", "0.5"}); add("--workers", {"3"}); add("--snapshot_every", {"1", "2", "7", "0"});
    v.push_back({"init", "seeded", "--initialize_seeded"}); v.push_back({"init", "random", "--initialize_random"}); v.push_back({"quiet", "1", "-q"}); v.push_back({"quiet", "1", "--quiet"}); v.push_back({"continue", "model", "--continue=start"});
    if (c == SLDA_TRAIN) add("--fixed_point_iterations", {"1"}); if (c == SLDA_TRAIN || c == FSLDA_TRAIN) { add("--m_step_iterations", {"2"}); add("--m_step_tolerance", {"0.2"}); } if (c != LDA_TRAIN) { add("--regularization_penalty", {"0.7"}); v.push_back({"--regularization_penalty", "0.3", "-L 0.3"}); v.push_back({"continue", "unsupervised", "--continue_from_unsupervised=ustart"}); } if (c >= FSLDA_TRAIN) { add("--supervised_weight", {"0.4"}); v.push_back({"--supervised_weight", "0.7", "-C 0.7"}); }
    if (c == FSLDA_ONLINE) { add("--batch_size", {"8"}); add("--momentum", {"0.2"}); add("--learning_rate", {"0.3"}); add("--beta_weight", {"0.25"}); }
    return v;
}
static std::string join(const std::vector<std::string> &a) { std::string s; for (auto &x : a) s += " " + x; return s; }
static void model_file(const std::string &p, const Model &m) { std::ofstream f(p, std::ios::binary); f << numpy_format::NumpyOutput<double>(m.alpha) << numpy_format::NumpyOutput<double>(m.beta) << numpy_format::NumpyOutput<double>(m.eta); }
static Model some_model(int K, int W, int C) { Model m; m.alpha.resize(K); m.beta.resize(K, W); m.eta.resize(K, C); for (int k = 0; k < K; k++) { m.alpha[k] = 0.2 + 0.1 * k; double s = 0; for (int w = 0; w < W; w++) s += (m.beta(k, w) = 1 + (3 * k + 5 * w) % 7); m.beta.row(k) /= s; for (int q = 0; q < C; q++) m.eta(k, q) = ((k + 2 * q) % 5 - 2) * 0.3; } return m; }
// one training run with the given option values, in the given order; returns the model
static bool trainrun(int c, const std::vector<Val> &vs, int ds, int style, seq::Ctx &x, bool twice = false) {
    Opts o = defaults(c); bool random = false, quiet = false; std::string cont; std::vector<std::string> args, tail; { std::istringstream is(CMD[c]); std::string t; is >> t; is >> t; args.push_back(t); }
    for (auto &v : vs) { if (v.name == "init") random = v.value == "random"; else if (v.name == "quiet") quiet = true; else if (v.name == "continue") cont = v.value; else o[v.name] = v.value; if (v.form[0] == '@') { tail.push_back(v.form.substr(1)); continue; } size_t sp = v.form.find(' '); if (sp != std::string::npos) { args.push_back(v.form.substr(0, sp)); args.push_back(v.form.substr(sp + 1)); } else args.push_back(v.form); }
    int n = 0; if (c == FSLDA_ONLINE && ds > 2) n = atoi(o["--batch_size"].c_str()); else if (c == FSLDA_ONLINE) { ds = atoi(o["--batch_size"].c_str()) <= 8 ? 0 : 2; n = atoi(o["--batch_size"].c_str()); }
    Data d = data(ds, n); Dir w; w.clean(); put(w / "data", d, c != LDA_TRAIN, style); int C = d.y.maxCoeff() + 1; Model st = some_model(4, d.X.rows(), c == LDA_TRAIN ? 1 : C), us = some_model(5, d.X.rows(), 1); model_file(w / "start", st); model_file(w / "ustart", us);
    args.push_back("data"); args.push_back("model"); args.insert(args.end(), tail.begin(), tail.end()); if (style % 3 == 2) { std::ofstream f(w / "model"); f << std::string(100000, 'x'); }   // an older, longer file is replaced
    Run r = exec(app(c), args, w.d); x.step(); std::string cmd = app(c) + join(args);
    if (r.status) { x.violate("status", "%s ends with status %d: %s", cmd.c_str(), r.status, r.err.substr(0, 300).c_str()); return false; }
    Rec rec; Model m; bool par = o["--workers"] != "1"; double t = par ? 1e-3 : 2e-5; Model g0; bool have_g0 = w.ls().count("model") && (g0 = get(w / "model"), true);
    for (int sp = 1; sp >= 0; sp--) { single_precision = sp; m = train(c, o, d, rec, random, cont == "model" ? &st : nullptr, cont == "unsupervised" ? &us : nullptr); if (have_g0 && !differ(g0, m, t)) break; }
    std::set<std::string> want = {"data", "start", "ustart", "model"}; int ev = atoi(o["--snapshot_every"].c_str()), it = atoi(o["--iterations"].c_str()); char nm[32]; if (ev > 0) for (int k = ev; k <= it; k += ev) { snprintf(nm, sizeof nm, "model_%03d", k); want.insert(nm); }
    if (w.ls() != want) { std::string s; for (auto &f : w.ls()) s += f + " "; x.violate("files", "%s leaves the files %s", cmd.c_str(), s.c_str()); return false; }
    Model g = get(w / "model"); if (const char *e = differ(g, m, t)) { x.violate("model", "%s: the %s of the model file differ from the library's", cmd.c_str(), e); return false; } size_t least = (g.alpha.size() + g.beta.size() + g.eta.size()) * sizeof(double); if (slurp(w / "model").size() > least + 3000) { x.violate("model-rest", "%s: the model file has content after the model", cmd.c_str()); return false; }
    if (ev > 0) for (int k = ev; k <= it; k += ev) { snprintf(nm, sizeof nm, "model_%03d", k); if (const char *e = differ(get(w / nm), rec.at[k - 1], t)) { x.violate("snapshot", "%s: the %s in %s are not those after %d iterations", cmd.c_str(), e, nm, k); return false; } }
    // what is printed
    if (quiet && !r.out.empty()) { x.violate("quiet", "%s prints %zu bytes", cmd.c_str(), r.out.size()); return false; }
    if (!quiet) {
        auto ep = lines(r.out, "E-M Iteration "); bool ok = (int)ep.size() == it; for (int k = 0; ok && k < it; k++) ok = atoi(ep[k].c_str()) == k + 1; if (!ok) { x.violate("iterations", "%s announces %zu iterations instead of %d", cmd.c_str(), ep.size(), it); return false; }
        auto lk = lines(r.out, "Per document likelihood: "); std::vector<double> exp; for (auto &p : rec.e) { double s = 0; int q = 0; for (double v : p) if (std::isfinite(v) && v < 0) { s += v; q++; } if (q) exp.push_back(s / q); }
        if (!par || o["--compute_likelihood"] != "0.5") { ok = lk.size() == exp.size(); for (size_t k = 0; ok && k < exp.size(); k++) ok = seq::close(atof(lk[k].c_str()), exp[k], par ? 1e-3 : 1e-4); if (!ok) { x.violate("likelihood", "%s prints %zu likelihoods (first %s) instead of %zu (first %g)", cmd.c_str(), lk.size(), lk.empty() ? "none" : lk[0].c_str(), exp.size(), exp.empty() ? 0 : exp[0]); return false; } }
        if (c != LDA_TRAIN && !par) { auto ml = lines(r.out, "log p(y | \\bar{z}, eta): "); bool exact = !o.count("--m_step_tolerance") || atof(o["--m_step_tolerance"].c_str()) > 1e-9; size_t most = std::max(ml.size(), rec.m.size()), least = std::min(ml.size(), rec.m.size());
            ok = exact ? most == least : most <= least + least / 4 + 2; if (!exact && ok && least) ok = seq::close(atof(ml.back().c_str()), rec.m.back(), 1e-3, 1e-5);   // with no tolerance rounding decides when a pass stops
            for (size_t k = 0; ok && k < (exact ? ml.size() : std::min<size_t>(3, least)); k++) ok = seq::close(atof(ml[k].c_str()), rec.m[k], 1e-3, 1e-5); if (!ok) { x.violate("objective", "%s prints %zu objectives instead of %zu, or other values", cmd.c_str(), ml.size(), rec.m.size()); return false; } }
    }
    x.state(seq::hash(cmd + std::to_string(ds) + std::to_string(style))); return true;
}
// ---------------------------------------------------------------- transform
static void transform(int a, uint64_t i, seq::Ctx &x) {   // a: 0 lda 1 slda 2 fslda
    seq::Radix r(i); int ei = r(3), et = r(3), wk = r(2), q = r(3), ds = r(2), style = r(4); Opts o = defaults(a); std::vector<std::string> args = {"transform"}; if (ei) args.push_back("--e_step_iterations=" + (o["--e_step_iterations"] = ei == 1 ? "1" : "4")); if (et) args.push_back("--e_step_tolerance=" + (o["--e_step_tolerance"] = et == 1 ? "0.3" : "0.02")); if (wk) args.push_back("--workers=3"); if (q) args.push_back(q == 1 ? "-q" : "--quiet");
    Data d = data(ds); Dir w; w.clean(); put(w / "data", d, a != 0, style); Model m = some_model(4, d.X.rows(), d.y.maxCoeff() + 1); model_file(w / "m", m); args.insert(args.end(), {"m", "data", "out.npy"}); std::string before = slurp(w / "m"); Run rr = exec(app(a), args, w.d); x.step(); std::string cmd = app(a) + join(args);
    if (rr.status) { x.violate("status", "%s ends with status %d: %s", cmd.c_str(), rr.status, rr.err.substr(0, 300).c_str()); return; }
    Eigen::MatrixXd e, g = numpy_format::load<double>(w / "out.npy"); for (int sp = 1; sp >= 0; sp--) { single_precision = sp; LDA<double> l(std::make_shared<Model>(m), classic(o, 0), std::make_shared<em::UnsupervisedMStep<double> >(), 1, 1); e = l.transform(d.X); if (near(g, e, 2e-5)) break; }
    if (!near(g, e, 2e-5)) x.violate("transform", "%s: the output differs from the library's transform of the stored model", cmd.c_str()); if (slurp(w / "m") != before) x.violate("transform-model", "%s changes the model file", cmd.c_str()); if (q && !rr.out.empty()) x.violate("quiet", "%s prints", cmd.c_str()); if (w.ls() != std::set<std::string>{"data", "m", "out.npy"}) x.violate("files", "%s leaves other files", cmd.c_str()); x.state(i * 3 + a);
}
// ---------------------------------------------------------------- chains of programs on one directory
static void chain(uint64_t i, seq::Ctx &x) {
    seq::Radix r(i); Dir w; w.clean(); Data d = data(r(2)); put(w / "u", d, false, r(4)); put(w / "s", d, true, r(4)); Model cur; bool have = false; std::string last; int K = 3; std::string hist;
    for (int st = 0; st < 3; st++) { int c = st == 0 ? r(3) : r(4); bool tr = st && c == 3; std::string out = "m" + std::to_string(st); std::vector<std::string> args; Opts o; 
        if (tr) { int a = r(3); o = defaults(a); args = {"transform", "-q", last, a == 0 ? "u" : "s", "out"}; Run q = exec(app(a), args, w.d); hist += " | " + app(a) + join(args); x.step(); if (q.status) { x.violate("status", "%s: status %d %s", hist.c_str(), q.status, q.err.substr(0, 200).c_str()); return; } LDA<double> l(std::make_shared<Model>(cur), classic(o, 0), std::make_shared<em::UnsupervisedMStep<double> >(), 1, 1); Eigen::MatrixXd e = l.transform(d.X); if (!near(numpy_format::load<double>(w / "out"), e, 1e-4)) { x.violate("transform", "%s: output differs", hist.c_str()); return; } continue; }
        o = defaults(c); o["--iterations"] = "2"; o["--topics"] = std::to_string(K); args = {"train", "-q", "--iterations=2", "--topics=3"}; bool ctu = have && c && (int)cur.eta.cols() != d.y.maxCoeff() + 1; if (have && c && !ctu) ctu = r(2); if (have) args.push_back((ctu ? "--continue_from_unsupervised=" : "--continue=") + last); args.push_back(c == 0 ? "u" : "s"); args.push_back(out); Run q = exec(app(c), args, w.d); hist += " | " + app(c) + join(args); x.step(); if (q.status) { x.violate("status", "%s: status %d %s", hist.c_str(), q.status, q.err.substr(0, 200).c_str()); return; }
        Rec rec; Model m, g = get(w / out); for (int sp = 1; sp >= 0; sp--) { single_precision = sp; m = train(c, o, d, rec, false, have && !ctu ? &cur : nullptr, ctu ? &cur : nullptr); if (!differ(g, m, 1e-4)) break; } if (const char *e = differ(g, m, 1e-4)) { x.violate("chain", "%s: the %s differ from the library's", hist.c_str(), e); return; } cur = g; have = true; last = out; }
    x.state(seq::hash(hist));
}
// ---------------------------------------------------------------- refused command lines
static void refused(uint64_t i, seq::Ctx &x) {
    int a = i % 3; i /= 3; Dir w; w.clean(); Data d = data(0); put(w / "data", d, a != 0, 0); Model m = some_model(4, d.X.rows(), 2); model_file(w / "m", m); { std::ofstream f(w / "junk"); f << "not a numpy file at all, but long enough to be read as one if nobody looks ----------------------------------------"; }
    std::string full = slurp(w / "m"); { std::ofstream f(w / "cut", std::ios::binary); f << full.substr(0, full.size() - 3); } std::string fd = slurp(w / "data"); { std::ofstream f(w / "cutdata", std::ios::binary); f << fd.substr(0, fd.size() - 5); }
    std::vector<std::vector<std::string> > t = {{"train", "-q", "nofile", "model"}, {"train", "-q", "junk", "model"}, {"train", "-q", "cutdata", "model"}, {"train", "-q", "--continue=nofile", "data", "model"}, {"train", "-q", "--continue=cut", "data", "model"}, {"train", "-q", "--continue=junk", "data", "model"}, {"train", "--no_such_option=3", "data", "model"}, {"train", "data"}, {}, {"frobnicate", "data", "model"}, {"transform", "-q", "nofile", "data", "model"}, {"transform", "-q", "cut", "data", "model"}, {"transform", "-q", "m", "nofile", "model"}, {"transform", "-q", "m", "cutdata", "model"}, {"train", "--topics=abc", "data", "model"}, {"train", "--initialize_seeded", "--initialize_random", "data", "model"}, {"train", "-q", "--continue_from_unsupervised=nofile", "data", "model"}, {"train", "-q", "--continue_from_unsupervised=cut", "data", "model"}};
    if (i >= t.size()) { Run r = exec(app(a), {i == t.size() ? "-h" : "--help"}, w.d); x.step(); if (r.status || r.out.find("Usage:") == std::string::npos || r.out.find("--e_step_iterations") == std::string::npos) x.violate("help", "%s --help ends with %d", app(a).c_str(), r.status); return; }
    Run r = exec(app(a), t[i], w.d); x.step(); if (!r.status) x.violate("accepted", "%s%s ends successfully", app(a).c_str(), join(t[i]).c_str()); if (w.ls().count("model")) x.violate("leftover", "%s%s fails but leaves a model file", app(a).c_str(), join(t[i]).c_str()); x.state(i * 3 + a);
}
int main(int argc, char **argv) {
    bool th = seq::thorough(argc, argv); std::vector<seq::Space> s;
    for (int c = 0; c < NCMD; c++) {
        std::vector<Val> v = values(c); std::vector<std::vector<Val> > sets; sets.push_back({}); size_t n = v.size();
        for (size_t a = 0; a < n; a++) { sets.push_back({v[a]}); for (size_t b = a + 1; b < n; b++) if (v[a].name != v[b].name) { sets.push_back({v[a], v[b]}); if (th) for (size_t e = b + 1; e < n; e++) if (v[e].name != v[b].name && v[e].name != v[a].name) sets.push_back({v[b], v[a], v[e]}); } }
        s.push_back({std::string(CMD[c]).replace(std::string(CMD[c]).find(' '), 1, "-"), sets.size(), [=](uint64_t i, seq::Ctx &x) { trainrun(c, sets[i], i % 2, i % 12 % 4, x); }, nullptr, 120});
        // small models, where single options matter most: every pair of values on top of few topics and iterations
        std::vector<std::vector<Val> > small; for (auto &q : sets) { if (!th && q.size() > 2) continue; bool tp = false, it = false, wk = false; for (auto &z : q) { tp |= z.name == "--topics"; it |= z.name == "--iterations"; wk |= z.name == "continue"; } if (tp || it) continue; std::vector<Val> q2 = q; q2.push_back({"--topics", "2", "--topics=2"}); q2.push_back({"--iterations", "4", "--iterations=4"}); small.push_back(q2); }
        s.push_back({"small-" + std::string(CMD[c]).replace(std::string(CMD[c]).find(' '), 1, "-"), small.size(), [=](uint64_t i, seq::Ctx &x) { trainrun(c, small[i], (i + 1) % 2, i % 4, x); }, nullptr, 120});
    }
    // every documented numeric option over a wider range of values, in every spelling, on data of other shapes
    for (int c = 0; c < NCMD; c++) {
        std::vector<std::vector<Val> > sets; Opts df = defaults(c); static const std::map<std::string, std::vector<const char *> > R = {{"--topics", {"2", "7", "16", "33"}}, {"--iterations", {"1", "2", "11", "25"}}, {"--random_state", {"1", "2", "99", "65537", "2147483647"}}, {"--snapshot_every", {"3", "4", "10", "12", "100"}}, {"--workers", {"2", "4", "9"}}, {"--compute_likelihood", {"0", "0.25", "1"}}, {"--e_step_iterations", {"0", "1", "5", "64"}}, {"--e_step_tolerance", {"0", "1e-8", "0.01", "1", "2"}},
            {"--fixed_point_iterations", {"0", "2", "50"}}, {"--m_step_iterations", {"0", "1", "10", "300"}}, {"--m_step_tolerance", {"0", "1e-6", "0.05", "1"}}, {"--regularization_penalty", {"0", "1e-3", "1.5", "20"}}, {"--supervised_weight", {"0", "0.01", "2", "30"}}, {"--momentum", {"0", "0.5", "0.99"}}, {"--learning_rate", {"0", "1e-4", "0.1"}}, {"--beta_weight", {"0", "0.5", "0.99"}}, {"--batch_size", {"1", "2", "4", "16", "64"}}};
        sets.push_back({{"--topics", "3", "--topics=3"}, {"--iterations", "12", "--iterations=12"}});
        for (auto &d : df) for (const char *v : R.at(d.first)) for (int form = 0; form < 3; form++) { if (d.first == "--m_step_iterations" && atoi(v) > 200 && form) continue; std::vector<Val> q; q.push_back({d.first, v, form == 0 ? d.first + "=" + v : form == 1 ? d.first + " " + v : "@" + d.first + "=" + v}); if (d.first != "--topics") q.push_back({"--topics", "3", "--topics=3"}); if (d.first != "--iterations") { std::string it = d.first == "--workers" ? "3" : "12"; q.push_back({"--iterations", it, form ? "--iterations=" + it : "--iterations " + it}); } if (c == FSLDA_ONLINE && d.first != "--batch_size") q.push_back({"--batch_size", form ? "8" : "100", form ? "--batch_size=8" : "--batch_size=100"}); sets.push_back(q); }
        for (int ds : {0, 3, 4, 5, 6, 7}) {
            std::vector<std::vector<Val> > u; for (size_t k = 0; k < sets.size(); k++) { if (ds && !th && (k + ds) % (c == SLDA_TRAIN ? 12 : ds == 5 ? 4 : 3)) continue; auto q = sets[k]; if (ds >= 3) for (auto &z : q) if (z.name == "--iterations" && z.value == "12") { z.value = "3"; z.form = "--iterations=3"; } u.push_back(q); }
            s.push_back({"values" + std::to_string(ds) + "-" + std::string(CMD[c]).replace(std::string(CMD[c]).find(' '), 1, "-"), u.size(), [=](uint64_t i, seq::Ctx &x) { trainrun(c, u[i], ds, i % 4, x); }, nullptr, 200});
        }
    }
    for (int a = 0; a < 3; a++) s.push_back({"transform-" + app(a), 3 * 3 * 2 * 3 * 2 * 4, [=](uint64_t i, seq::Ctx &x) { transform(a, i, x); }, nullptr, 120});
    s.push_back({"chains", 2 * 4 * 4 * 3 * 4 * 4 * (th ? 4u : 1u), [](uint64_t i, seq::Ctx &x) { chain(i * 7, x); }, nullptr, 120});
    s.push_back({"refused", 20 * 3, [](uint64_t i, seq::Ctx &x) { refused(i, x); }, nullptr, 120});
    return seq::run(argc, argv, "C20", s);
}
