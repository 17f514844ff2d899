// C18: npy round trips, library <-> library and library <-> numpy.
#include <unistd.h>
#include "npycase.hpp"
using namespace npy;
using namespace ldaplusplus;
namespace nf = ldaplusplus::numpy_format;
static std::string scratch() { const char *s = getenv("VERIF_SCRATCH"); return s ? s : "/tmp"; }

// all ways the library can write the values of a case: kind 0/1 raw C/Fortran, 2 ColMajor, 3 RowMajor, 4 vector, 5 row vector
template <typename T> static bool write(const Case &c, int kind, std::string &out) {
    std::ostringstream o; size_t n = c.n(); std::vector<T> v(n + 1);
    if (kind <= 1) { for (size_t i = 0; i < n; i++) v[i] = at<T>(c.raw, kind ? c_index(c.shape, i) : i); o << nf::NumpyOutput<T>(v.data(), c.shape, kind == 1); }
    else {
        if (c.shape.size() != 2) return false; size_t R = c.shape[0], C = c.shape[1];
        Eigen::Matrix<T, -1, -1> m(R, C); for (size_t i = 0; i < R; i++) for (size_t j = 0; j < C; j++) m(i, j) = at<T>(c.raw, i * C + j);
        if (kind == 2) { nf::save(o, m); } else if (kind == 3) { Eigen::Matrix<T, -1, -1, Eigen::RowMajor> r = m; nf::save(o, r); }
        else if (kind == 4) { if (C != 1) return false; Eigen::Matrix<T, -1, 1> r = m; nf::save(o, r); }
        else { if (R != 1) return false; Eigen::Matrix<T, 1, -1, Eigen::RowMajor> r = m; o << nf::NumpyOutput<T>(r); }
    }
    out = o.str(); return true;
}
int main(int argc, char **argv) {
    bool th = seq::thorough(argc, argv); static std::vector<Case> all = cases(), good, odd; for (auto &c : all) (c.type < 10 ? good : odd).push_back(c);
    std::vector<seq::Space> s;
    s.push_back({"numpy-to-library", good.size(), [](uint64_t i, seq::Ctx &x) { const Case &c = good[i]; dispatch(c.type, [&](auto t) { typedef decltype(t) T;
        std::istringstream is(c.npy); nf::NumpyInput<T> ni; is >> ni; x.step(); auto e = compare<T>(ni, c); if (!e.empty()) x.violate("value", "%s array %s%s%s written by numpy: %s", TN[c.type], str(c.shape).c_str(), c.flags & 1 ? " fortran" : "", c.flags & 2 ? " big-endian" : "", e.c_str());
        if ((size_t)is.tellg() != c.npy.size()) x.violate("position", "%s array %s: stream left at %ld of %zu bytes", TN[c.type], str(c.shape).c_str(), (long)is.tellg(), c.npy.size());
        x.state(seq::hash(c.npy)); }); }, nullptr, 20});
    s.push_back({"other-type", good.size() * 10, [](uint64_t i, seq::Ctx &x) { const Case &c = good[i / 10]; int t2 = i % 10; if (t2 == (int)c.type || c.n() > 50) return; dispatch(t2, [&](auto t) { typedef decltype(t) T;
        std::istringstream is(c.npy); nf::NumpyInput<T> ni; bool thrown = false; try { is >> ni; } catch (const std::exception &) { thrown = true; } x.step(); if (!thrown) x.violate("accepted", "an array of type %s is read as %s", TN[c.type], TN[t2]); }); }, nullptr, 20});
    s.push_back({"unsupported-type", odd.size() * 10, [](uint64_t i, seq::Ctx &x) { const Case &c = odd[i / 10]; dispatch(i % 10, [&](auto t) { typedef decltype(t) T;
        std::istringstream is(c.npy); nf::NumpyInput<T> ni; bool thrown = false; try { is >> ni; } catch (const std::exception &) { thrown = true; } x.step(); if (!thrown) x.violate("accepted", "an array with header %s is read as %s", c.npy.substr(10, 40).c_str(), TN[i % 10]); }); }, nullptr, 20});
    s.push_back({"library-to-library", good.size() * 6, [](uint64_t i, seq::Ctx &x) { const Case &c = good[i / 6]; if (c.flags) return; dispatch(c.type, [&](auto t) { typedef decltype(t) T; std::string o; if (!write<T>(c, i % 6, o)) return;
        std::istringstream is(o); nf::NumpyInput<T> ni; is >> ni; x.step(2); auto e = compare<T>(ni, c); if (!e.empty()) x.violate("value", "%s array %s written in form %d and read back: %s", TN[c.type], str(c.shape).c_str(), (int)(i % 6), e.c_str()); x.state(seq::hash(o)); }); }, nullptr, 20});
    // numpy reads what the library wrote, one process per chunk
    enum { CH = 16 };
    s.push_back({"library-to-numpy", CH, [](uint64_t k, seq::Ctx &x) { std::string o; size_t n = 0; for (size_t i = 0; i < good.size(); i++) if (!good[i].flags && i % CH == k) for (int w = 0; w < 6; w++) dispatch(good[i].type, [&](auto t) { Case c = good[i]; if (write<decltype(t)>(c, w, c.npy)) { put(o, c); n++; } });
        std::string p = scratch() + "/lib" + std::to_string(k) + "-" + std::to_string(getpid()); { std::ofstream f(p, std::ios::binary); f << o; } std::string here = __FILE__; here = here.substr(0, here.rfind('/'));
        FILE *q = popen(("python3-vt " + here + "/npygen.py read " + p).c_str(), "r"); char b[400] = ""; fgets(b, sizeof b, q); pclose(q); unlink(p.c_str()); x.step(n);
        if (strncmp(b, "ok", 2)) x.violate("numpy", "%s", b); else if ((size_t)atol(b + 3) != n) x.violate("numpy", "numpy read %s of %zu arrays", b, n); }, nullptr, 60});
    // several arrays in one stream, all triples of a sub-alphabet, types mixed, reader objects reused
    static std::vector<int> sub; for (size_t i = 0; i < good.size(); i++) if ((good[i].type == 2 || good[i].type == 9) && good[i].n() < 20 && (i * 2654435761u >> 7) % 13 == 0) sub.push_back(i);
    if (sub.size() > (th ? 40u : 24u)) sub.resize(th ? 40 : 24);
    uint64_t n = sub.size();
    s.push_back({"streams", n * n * n, [](uint64_t i, seq::Ctx &x) { seq::Radix r(i); int id[3]; std::string o; for (int q = 0; q < 3; q++) { id[q] = sub[r(sub.size())]; const Case &c = good[id[q]]; if ((i + q) % 2) o += c.npy; else dispatch(c.type, [&](auto t) { std::string w; write<decltype(t)>(c, (i / 2) % 2, w); o += w; }); }
        std::istringstream is(o); nf::NumpyInput<int> a; nf::NumpyInput<double> b; for (int q = 0; q < 3; q++) { const Case &c = good[id[q]]; std::string e; if (c.type == 2) { is >> a; e = compare<int>(a, c); } else { is >> b; e = compare<double>(b, c); } x.step(); if (!e.empty()) { x.violate("stream", "array %d of three in one stream: %s", q, e.c_str()); return; } } }, nullptr, 20});
    // through files and the load/save helpers
    s.push_back({"files", good.size(), [](uint64_t i, seq::Ctx &x) { const Case &c = good[i]; if (c.flags || c.shape.size() != 2) return; dispatch(c.type, [&](auto t) { typedef decltype(t) T; std::string p = scratch() + "/f" + std::to_string(getpid()); size_t R = c.shape[0], C = c.shape[1];
        Eigen::Matrix<T, -1, -1> m(R, C); for (size_t a = 0; a < R; a++) for (size_t b = 0; b < C; b++) m(a, b) = at<T>(c.raw, a * C + b);
        nf::save(p, m); Eigen::Matrix<T, -1, -1> g = nf::load<T>(p); x.step(2); bool ok = g.rows() == m.rows() && g.cols() == m.cols(); for (size_t a = 0; ok && a < R; a++) for (size_t b = 0; b < C; b++) ok = same<T>(g(a, b), m(a, b)); if (!ok) x.violate("file", "%s array %s saved to a file and loaded differs", TN[c.type], str(c.shape).c_str());
        Eigen::Matrix<T, -1, -1, Eigen::RowMajor> rm = m; nf::save(p, rm); g = nf::load<T>(p); std::ifstream fs(p, std::ios::binary); Eigen::Matrix<T, -1, -1> h = nf::load<T>(fs); for (size_t a = 0; ok && a < R; a++) for (size_t b = 0; b < C; b++) ok = same<T>(g(a, b), m(a, b)) && same<T>(h(a, b), m(a, b)); if (!ok) x.violate("file", "%s row major array %s saved to a file and loaded differs", TN[c.type], str(c.shape).c_str());
        // saving over what is there: other shapes, smaller and larger, and another element type
        for (int k = 0; k < 3 && !x.bad; k++) { size_t r2 = k == 0 ? 1 : k == 1 ? R + 3 : R, c2 = k == 0 ? 2 : k == 1 ? C + 1 : C; Eigen::Matrix<T, -1, -1> n(r2, c2), w; for (size_t a = 0; a < r2; a++) for (size_t b = 0; b < c2; b++) n(a, b) = (T)(a * 3 + b * 2 + 1 + k); nf::save(p, n); w = nf::load<T>(p); x.step(2); if (w.rows() != n.rows() || w.cols() != n.cols() || w != n) x.violate("overwrite", "a %zux%zu %s array saved over a %s one and loaded differs", r2, c2, TN[c.type], str(c.shape).c_str()); }
        { Eigen::MatrixXi n(2, 2); n << 1, -2, 3, 40000; nf::save(p, n); Eigen::MatrixXi w = nf::load<int>(p); if (w.rows() != 2 || w.cols() != 2 || w != n) x.violate("overwrite", "an integer array saved over a %s one and loaded differs", TN[c.type]); }
        unlink(p.c_str()); }); }, nullptr, 20});
    // every value of the one byte types and every 16 bit value, both directions
    s.push_back({"all-values", 4, [](uint64_t k, seq::Ctx &x) { static const int ty[] = {0, 4, 1, 5}; dispatch(ty[k], [&](auto t) { typedef decltype(t) T; size_t n = sizeof(T) == 1 ? 256 : 65536; Case c; c.type = ty[k]; c.shape = {n / 16, 16}; for (size_t i = 0; i < n; i++) { T v = (T)i; c.raw.append((char *)&v, sizeof v); } for (int w = 0; w < 4; w++) { std::string o; write<T>(c, w, o); std::istringstream is(o); nf::NumpyInput<T> ni; is >> ni; x.step(n); auto e = compare<T>(ni, c); if (!e.empty()) x.violate("value", "%s", e.c_str()); 
        if (sizeof(T) == 2) { size_t at_ = o.find("'<"); std::string sw = o; sw[at_ + 1] = '>'; size_t h = sw.size() - 2 * n; for (size_t i = 0; i < n; i++) std::swap(sw[h + 2 * i], sw[h + 2 * i + 1]); std::istringstream js(sw); js >> ni; e = compare<T>(ni, c); if (!e.empty()) x.violate("swapped", "%s", e.c_str()); } } }); }, nullptr, 60});
    return seq::run(argc, argv, "C18", s);
}
