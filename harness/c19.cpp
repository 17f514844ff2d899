// C19: every truncation point, every failing byte and foreign files.
#include <sys/stat.h>
#include <unistd.h>
#include "npycase.hpp"
#include "applications/lda_io.hpp"
using namespace npy;
namespace nf = ldaplusplus::numpy_format;
static std::string scratch() { const char *s = getenv("VERIF_SCRATCH"); return s ? s : "/tmp"; }
static void spit(const std::string &p, const std::string &d) { std::ofstream f(p, std::ios::binary | std::ios::trunc); f.write(d.data(), d.size()); }

// delivers `limit` bytes in pieces of `piece`, then ends or fails
struct Faulty : std::streambuf {
    const std::string &d; size_t pos = 0, limit, piece; bool hard; char buf[64];
    Faulty(const std::string &d, size_t limit, size_t piece, bool hard) : d(d), limit(limit), piece(piece), hard(hard) {}
    int_type underflow() override { if (pos >= limit) { if (hard && limit < d.size()) throw std::runtime_error("device error"); return traits_type::eof(); } size_t n = std::min(std::min(piece, sizeof buf), limit - pos); memcpy(buf, d.data() + pos, n); pos += n; setg(buf, buf, buf + n); return traits_type::to_int_type(buf[0]); }
};
template <typename F> static int outcome(F f) { try { f(); return 0; } catch (const std::exception &) { return 1; } catch (...) { return 1; } }

int main(int argc, char **argv) {
    bool th = seq::thorough(argc, argv); static std::vector<Case> all = cases(), good; std::vector<seq::Space> s;
    for (auto &c : all) if (c.type < 10 && c.n() <= 12 && c.npy.size() < 400) good.push_back(c);
    static std::vector<std::pair<int, int> > cut; static int per = 5;    // (case, length) for every proper prefix
    for (size_t i = 0; i < good.size(); i++) if (th || i % 5 == 0 || good[i].n() == 6 || (good[i].n() == 0 && i % 2)) for (size_t l = 0; l <= good[i].npy.size(); l++) cut.emplace_back(i, l);
    s.push_back({"array-prefixes", cut.size(), [](uint64_t k, seq::Ctx &x) { const Case &c = good[cut[k].first]; size_t l = cut[k].second; bool whole = l == c.npy.size(); dispatch(c.type, [&](auto t) { typedef decltype(t) T;
        for (int v = 0; v < 4; v++) { nf::NumpyInput<T> ni; int r;
            if (v == 0) { std::istringstream is(c.npy.substr(0, l)); r = outcome([&] { is >> ni; Eigen::Matrix<T, -1, -1> m = ni; }); }
            else { Faulty f(c.npy, l, v == 1 ? 1 : 7, v == 3); std::istream is(&f); r = outcome([&] { is >> ni; Eigen::Matrix<T, -1, -1> m = ni; }); }
            x.step(); if (whole && r) x.violate("rejected", "a complete %s array %s is rejected (delivery %d)", TN[c.type], str(c.shape).c_str(), v);
            if (whole && !r) { auto e = compare<T>(ni, c); if (!e.empty()) x.violate("value", "complete array: %s", e.c_str()); }
            if (!whole && !r) x.violate("accepted", "a %s array %s cut after %zu of %zu bytes is loaded (delivery %d)", TN[c.type], str(c.shape).c_str(), l, c.npy.size(), v); }
        x.state(k); }); }, nullptr, 20});
    // the library's own files: arrays, data sets and models, every prefix
    static std::vector<std::string> files; static std::vector<int> kinds;   // 0 array f8, 1 data set with labels, 2 data set, 3 model
    { auto npyi = [](int r, int c, int f) { Eigen::MatrixXi m(r, c); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) m(i, j) = i * 7 + j + f; std::ostringstream o; nf::save(o, m); return o.str(); };
      auto npyd = [](int r, int c) { Eigen::MatrixXd m = Eigen::MatrixXd::Constant(r, c, 0.25); m(0, 0) = 3; std::ostringstream o; nf::save(o, m); return o.str(); };
      files.push_back(npyi(3, 0, 0)); kinds.push_back(2); files.push_back(npyi(0, 0, 0)); kinds.push_back(2); files.push_back(npyi(3, 0, 0) + npyi(0, 1, 1)); kinds.push_back(1);
      for (int v = 0; v < 4; v++) { int W = 3 + v * 5, N = 4 + v; files.push_back(npyd(W, N)); kinds.push_back(0); files.push_back(npyi(W, N, 0) + npyi(N, 1, 1)); kinds.push_back(1); files.push_back(npyi(W, N, 0)); kinds.push_back(2);
        std::string p = scratch() + "/m"; auto m = std::make_shared<parameters::SupervisedModelParameters<double> >(Eigen::VectorXd::Constant(2 + v, 0.5), Eigen::MatrixXd::Constant(2 + v, W, 1.0 / W), v == 3 ? Eigen::MatrixXd() : Eigen::MatrixXd(Eigen::MatrixXd::Constant(2 + v, 3, 0.1))); io::save_lda(p, m); std::ifstream f(p, std::ios::binary); files.push_back(std::string((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>())); kinds.push_back(3); unlink(p.c_str()); } }
    static std::vector<std::pair<int, int> > fcut; for (size_t i = 0; i < files.size(); i++) for (size_t l = 0; l <= files[i].size(); l++) fcut.emplace_back(i, l);
    static auto loadfile = [](int kind, const std::string &p) { return outcome([&] { Eigen::MatrixXi X, y; if (kind == 0) { Eigen::MatrixXd m = nf::load<double>(p); } else if (kind == 1) io::parse_input_data(p, X, y); else if (kind == 2) io::parse_input_data(p, X); else io::load_lda(p); }); };
    s.push_back({"file-prefixes", fcut.size(), [](uint64_t k, seq::Ctx &x) { int i = fcut[k].first; size_t l = fcut[k].second; std::string p = scratch() + "/t" + std::to_string(getpid()); spit(p, files[i].substr(0, l)); int r = loadfile(kinds[i], p); x.step(); unlink(p.c_str()); static const char *KN[] = {"array", "data set with labels", "data set", "model"}; x.state(k);
        if (l == files[i].size() && r) x.violate("rejected", "a completely written %s is rejected", KN[kinds[i]]); if (l < files[i].size() && !r) x.violate("accepted", "a %s cut after %zu of %zu bytes is loaded", KN[kinds[i]], l, files[i].size()); }, nullptr, 20});
    // foreign and missing files: every kind of loader
    static std::vector<std::string> junk = {"", "\n", std::string(1, '\0'), std::string(64, '\0'), std::string(500, 'x'), "PK\x03\x04 zip archive with a long enough content to be read as a header", "\x89PNG\r\n\x1a\n0000000000000000000000000000000000000000000000", "1 2 3\n4 5 6\n7 8 9\n10 11 12\n13 14 15\n16 17 18\n19 20 21\n22 23 24\n", "\x93NUMPY", "\x93NUMPX\x01\x00 v {'descr': '<f8', 'fortran_order': False, 'shape': (1, 1), }                         \n12345678", std::string("\x93NUMPY\x02\x00", 8) + std::string(200, ' '), std::string("\x93NUMPY\x03\x00", 8) + std::string(200, ' '), std::string("\x93NUMPY\x01\x00\x00\x00", 10), std::string("\x93NUMPY\x01\x00\x00\x00", 10) + std::string(300, 'a'), std::string("\x93NUMPY\x01\x00\xff\xff", 10) + std::string(100, ' ')};
    s.push_back({"foreign", junk.size() * 4 + 8, [](uint64_t k, seq::Ctx &x) { int kind = k % 4; size_t j = k / 4; std::string p = scratch() + "/j" + std::to_string(getpid()); if (j < junk.size()) spit(p, junk[j]); else if (j == junk.size()) p = scratch() + "/no/such/file"; else p = scratch(); int r = loadfile(kind, p); x.step(); if (j < junk.size()) unlink(p.c_str()); if (!r) x.violate("accepted", "loader %d accepts %s", kind, j < junk.size() ? ("foreign content " + std::to_string(j)).c_str() : "a missing file"); x.state(k); }, nullptr, 20});
    // one changed byte: the magic is rejected, no byte of the header crashes the reader
    static std::vector<int> few; for (size_t i = 0; i < good.size(); i++) if (good[i].n() == 6 && (good[i].type == 2 || good[i].type == 9 || th) && good[i].shape.size() == 2) few.push_back(i);
    s.push_back({"one-byte", few.size() * 128 * 256, [](uint64_t k, seq::Ctx &x) { const Case &c = good[few[k / (128 * 256)]]; size_t at_ = k / 256 % 128; unsigned char v = k % 256; if (at_ >= c.npy.size() || (unsigned char)c.npy[at_] == v) return; std::string d = c.npy; d[at_] = v; if (at_ == 9 && v > 100) return;
        dispatch(c.type, [&](auto t) { typedef decltype(t) T; std::istringstream is(d); nf::NumpyInput<T> ni; int r = outcome([&] { is >> ni; }); x.step(); if (at_ < 7 && !r) x.violate("magic", "a file whose byte %zu is changed to %d is accepted", at_, v);
            if (!r && at_ > 9) { size_t n = 1; for (auto q : ni.shape()) n *= q; if (n * sizeof(T) > d.size()) x.violate("partial", "byte %zu changed to %d: %zu elements loaded from %zu bytes", at_, v, n, d.size()); } }); }, nullptr, 20});
    return seq::run(argc, argv, "C19", s);
}
