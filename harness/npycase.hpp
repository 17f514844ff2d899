// Array cases exchanged with npygen.py.
#pragma once
#include <sstream>
#include <string>
#include <vector>
#include "seq.hpp"
#include "ldaplusplus/NumpyFormat.hpp"
namespace npy {
struct Case { uint32_t type, flags; std::vector<size_t> shape; std::string npy, raw; size_t n() const { size_t r = 1; for (auto d : shape) r *= d; return r; } };
static const char *TN[] = {"i1", "i2", "i4", "i8", "u1", "u2", "u4", "u8", "f4", "f8"};
static const int TS[] = {1, 2, 4, 8, 1, 2, 4, 8, 4, 8};
inline std::vector<Case> load(const std::string &path) {
    std::ifstream f(path, std::ios::binary); std::string d((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>()); size_t p = 0; std::vector<Case> r;
    auto g = [&](void *o, size_t n) { memcpy(o, d.data() + p, n); p += n; };
    while (p < d.size()) { Case c; uint32_t nd; uint64_t v; g(&c.type, 4); g(&c.flags, 4); g(&nd, 4); for (uint32_t i = 0; i < nd; i++) { g(&v, 8); c.shape.push_back(v); } g(&v, 8); c.npy = d.substr(p, v); p += v; g(&v, 8); c.raw = d.substr(p, v); p += v; r.push_back(c); }
    return r;
}
inline void put(std::string &o, const Case &c) {
    auto a = [&](const void *p, size_t n) { o.append((const char *)p, n); }; uint32_t nd = c.shape.size(); uint64_t v; a(&c.type, 4); a(&c.flags, 4); a(&nd, 4); for (auto s : c.shape) { v = s; a(&v, 8); } v = c.npy.size(); a(&v, 8); o += c.npy; v = c.raw.size(); a(&v, 8); o += c.raw;
}
// offset in C order of the element stored at position i of Fortran ordered data
inline size_t c_index(const std::vector<size_t> &s, size_t i) {
    std::vector<size_t> ix(s.size()); for (size_t d = 0; d < s.size(); d++) { ix[d] = i % s[d]; i /= s[d]; } size_t o = 0; for (size_t d = 0; d < s.size(); d++) o = o * s[d] + ix[d]; return o;
}
template <typename T> bool same(T a, T b) { return !memcmp(&a, &b, sizeof a) || (a != a && b != b); }
template <typename T> T at(const std::string &raw, size_t i) { T v; memcpy(&v, raw.data() + i * sizeof(T), sizeof v); return v; }
inline std::string str(const std::vector<size_t> &s) { std::string o = "("; for (auto d : s) o += std::to_string(d) + ","; return o + ")"; }

// the array just read against the case; empty string if equal
template <typename T> std::string compare(const ldaplusplus::numpy_format::NumpyInput<T> &ni, const Case &c, bool exact_shape = true) {
    if (exact_shape && ni.shape() != c.shape) return "shape " + str(ni.shape()) + " instead of " + str(c.shape);
    for (size_t i = 0; i < c.n(); i++) { size_t j = ni.fortran_contiguous() ? c_index(c.shape, i) : i; if (!same(ni.data()[i], at<T>(c.raw, j))) return "element " + std::to_string(j) + " differs"; }
    {   // as a matrix: the first dimension gives the rows, the others together the columns (in the order of the file if it is column major)
        size_t rows = c.shape.empty() ? 1 : c.shape[0], cols = 1; for (size_t i = 1; i < c.shape.size(); i++) cols *= c.shape[i]; if (rows * cols == 0 && c.shape.size() > 2) return "";
        Eigen::Matrix<T, -1, -1> m = ni; Eigen::Matrix<T, -1, -1, Eigen::RowMajor> r = ni;
        if ((size_t)m.rows() != rows || (size_t)m.cols() != cols || (size_t)r.rows() != rows || (size_t)r.cols() != cols) return "matrix of shape " + std::to_string(m.rows()) + "x" + std::to_string(m.cols());
        for (size_t i = 0; i < rows; i++) for (size_t j = 0; j < cols; j++) { T w = at<T>(c.raw, i * cols + j); if (c.shape.size() > 2 && ni.fortran_contiguous()) { T f = at<T>(c.raw, c_index(c.shape, j * rows + i)); if (!same<T>(m(i, j), r(i, j))) return "matrices differ"; if (same<T>(m(i, j), f)) continue; } if (!same<T>(m(i, j), w) || !same<T>(r(i, j), w)) return "matrix element (" + std::to_string(i) + "," + std::to_string(j) + ") differs"; }
    }
    return "";
}
template <typename F> void dispatch(int t, F f) {
    switch (t) { case 0: f(int8_t()); break; case 1: f(int16_t()); break; case 2: f(int32_t()); break; case 3: f(int64_t()); break; case 4: f(uint8_t()); break; case 5: f(uint16_t()); break; case 6: f(uint32_t()); break; case 7: f(uint64_t()); break; case 8: f(float()); break; default: f(double()); }
}
inline std::vector<Case> cases() {   // generated once per run
    const char *sc = getenv("VERIF_SCRATCH"); std::string p = std::string(sc ? sc : "/tmp") + "/npycases.bin"; std::string here = __FILE__; here = here.substr(0, here.rfind('/'));
    if (system(("python3-vt " + here + "/npygen.py gen " + p).c_str())) { fprintf(stderr, "cannot run numpy\n"); exit(2); }
    return load(p);
}
}  // namespace npy
