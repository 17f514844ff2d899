// C24: numeric kernels over (nearly) their whole domain.
#include <limits>
#include "seq.hpp"
#include "ldaplusplus/utils.hpp"
using namespace ldaplusplus::math_utils;
typedef long double LD;

// --- references
static double ref_digamma(double x0) {
    if (x0 < 1e-300) return -1 / x0;
    LD x = x0, r = 0; while (x < 30) { r -= 1 / x; x += 1; }
    LD i = 1 / x, i2 = i * i;
    r += logl(x) - i / 2 - i2 * (1 / 12.0L - i2 * (1 / 120.0L - i2 * (1 / 252.0L - i2 * (1 / 240.0L - i2 / 132.0L))));
    return (double)r;
}
// the granularity of the table is 1/1023 of the reduced argument
static double tol_exp(double x) { double a = std::fabs(x); return (a < 1 ? 1.0 : 2 * a) / 1022.0 + 1e-6; }
template <typename S> static const char *bad_exp(S x, S f) {
    const double lo = std::log((double)std::numeric_limits<S>::min()), hi = std::log((double)std::numeric_limits<S>::max());
    if (std::isnan(f)) return "is not a number";
    if (f < 0) return "is negative";
    double t = tol_exp(x); if (std::fabs((double)x) > 101) t = 1e-4;
    if (x > hi + t) return std::isinf(f) ? nullptr : "should be infinite";
    if (x < lo - t) return f <= std::numeric_limits<S>::min() * (S)4 ? nullptr : "should vanish";
    if (x > hi - t && std::isinf(f)) return nullptr;
    if (x < lo + t && f <= std::numeric_limits<S>::min() * (S)4) return nullptr;
    if (std::isinf(f)) return "is infinite";
    if (!(f > 0)) return "is zero";
    return std::fabs(std::log((double)f) - (double)x) <= t ? nullptr : "is not within the accuracy of the table";
}
template <typename S> static const char *bad_dig(S x, S d) {
    double r = ref_digamma(x); const bool f = sizeof(S) == 4;
    if (std::fabs(r) > (double)std::numeric_limits<S>::max()) return std::isinf(d) && d < 0 ? nullptr : std::fabs((double)d) > 1e38 && d < 0 ? nullptr : "should saturate";
    if (std::isnan(d)) return "is not a number";
    return std::fabs((double)d - r) <= (f ? 3e-6 : 2e-10) + (f ? 3e-6 : 1e-13) * std::fabs(r) ? nullptr : "is off";
}
static float fbits(uint32_t b) { float f; memcpy(&f, &b, 4); return f; }
static double dbits(uint64_t b) { double f; memcpy(&f, &b, 8); return f; }
static uint64_t dbitsof(double d) { uint64_t b; memcpy(&b, &d, 8); return b; }
template <typename S> static void try_exp(S x, seq::Ctx &c) { S f = fast_exp(x); if (const char *e = bad_exp<S>(x, f)) c.violate(sizeof(S) == 4 ? "exp-float" : "exp-double", "fast_exp(%.17g) = %.17g %s, exp = %.17g", (double)x, (double)f, e, std::exp((double)x)); }
template <typename S> static void try_dig(S x, seq::Ctx &c) { S f = digamma(x); if (const char *e = bad_dig<S>(x, f)) c.violate(sizeof(S) == 4 ? "digamma-float" : "digamma-double", "digamma(%.17g) = %.17g %s, reference %.17g", (double)x, (double)f, e, ref_digamma(x)); }

// --- matrices
template <typename S> static double sumtol() { return sizeof(S) == 4 ? 2e-5 : 1e-11; }
template <typename S, int O> static void norm(int R, int C, const std::vector<double> &v, seq::Ctx &x) {
    typedef Eigen::Matrix<S, -1, -1, O> M; M m(R, C); for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) m(i, j) = (S)v[i * C + j];
    for (int rows = 0; rows < 2; rows++) {
        M n = m; if (rows) normalize_rows(n); else normalize_cols(n); x.step();
        if (n.rows() != R || n.cols() != C) { x.violate("normalise", "shape changed"); return; }
        for (int a = 0; a < (rows ? R : C); a++) {
            LD s = 0, ns = 0, abs = 0; int len = rows ? C : R; auto at = [&](const M &q, int b) { return (LD)(rows ? q(a, b) : q(b, a)); };
            bool zero = true; for (int b = 0; b < len; b++) { s += at(m, b); abs += fabsl(at(m, b)); ns += at(n, b); zero = zero && at(m, b) == 0; }
            if (zero) { for (int b = 0; b < len; b++) if (at(n, b) != 0) { x.violate("normalise-zero", "an all-zero %s was changed to %Lg", rows ? "row" : "column", at(n, b)); return; } continue; }
            if (fabsl(s) < abs * 1e-3L) continue;                    // cancelling sums have no well-defined scale
            if (fabsl(ns - 1) > sumtol<S>() * (double)(abs / fabsl(s))) { x.violate("normalise-sum", "a %s sums to %Lg after normalisation", rows ? "row" : "column", ns); return; }
            for (int b = 0; b < len; b++) if (fabsl(at(n, b) * s - at(m, b)) > sumtol<S>() * (double)abs * (double)(abs / fabsl(s))) { x.violate("normalise-ratio", "normalisation changed the proportions of a %s", rows ? "row" : "column"); return; }
        }
    }
}
static uint64_t ipow(uint64_t b, int e) { uint64_t r = 1; while (e--) r *= b; return r; }

static bool zero_at(uint64_t salt, int i) { return i < 6 ? (salt >> i) & 1 : seq::mix(salt, i) % 3 == 0; }
template <typename S> static void helpers(int R, int C, uint64_t salt, seq::Ctx &x) {
    typedef Eigen::Matrix<S, -1, -1> M; typedef Eigen::Matrix<S, -1, 1> Vv; typedef Eigen::Matrix<S, 1, -1> Rv;
    const S inf = std::numeric_limits<S>::infinity(), nan = std::numeric_limits<S>::quiet_NaN(); const S tab[] = {0, 1, -2, (S)0.5, 3, (S)1e-3};
    auto val = [&](int i) { return tab[seq::mix(salt, i + 1) % 6]; };
    M m(R, C); for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) m(i, j) = val(i * C + j) + (S)(i * C + j) * (S)0.125 * (S)(salt % 2);
    // reshape keeps column major order, both ways
    Vv v = Vv::Constant(R * C, 7); reshape_into(m, v); for (int j = 0; j < C; j++) for (int i = 0; i < R; i++) if (v[j * R + i] != m(i, j)) { x.violate("reshape", "matrix to vector moves element %d,%d", i, j); return; }
    M b = M::Constant(R, C, 9); reshape_into(v, b); if (b != m) { x.violate("reshape", "vector to matrix does not invert matrix to vector"); return; } x.step(2);
    // product of the non-zero elements
    double p = 1, pt = 1; for (int i = 0; i < m.size(); i++) if (m.data()[i] != 0) p *= m.data()[i]; pt = product_of_nonzeros(m); if (!seq::close(p, pt, 1e-4, 1e-30)) x.violate("product", "product of the non-zero elements is %g, expected %g", pt, p);
    Eigen::Array<S, -1, -1> ar = m.array(); if (!seq::close(p, product_of_nonzeros(ar), 1e-4, 1e-30)) x.violate("product", "product of the non-zero elements of an array differs");
    // scaled sums ignore zero weights whatever the row holds, and accumulate
    for (int bad = 0; bad < 3; bad++) {
        Vv w(R); for (int i = 0; i < R; i++) w[i] = zero_at(salt, i) ? 0 : (S)(i + 1) * (S)0.5; M q = m; for (int i = 0; i < R; i++) if (w[i] == 0 && bad) q.row(i).setConstant(bad == 1 ? inf : nan);
        Vv e = Vv::Constant(C, 2); Rv got = e.transpose(); sum_rows_scaled(q, w, got); for (int i = 0; i < R; i++) if (w[i] != 0) e += w[i] * m.row(i).transpose();
        for (int j = 0; j < C; j++) if (!seq::close(got[j], e[j], 1e-4, 1e-5)) { x.violate("rows-scaled", "scaled sum of rows is %g, expected %g", (double)got[j], (double)e[j]); return; }
        M qt = q.transpose(); Vv g2 = Vv::Constant(C, 2); sum_cols_scaled(qt, w, g2); for (int j = 0; j < C; j++) if (!seq::close(g2[j], e[j], 1e-4, 1e-5)) { x.violate("cols-scaled", "scaled sum of columns is %g, expected %g", (double)g2[j], (double)e[j]); return; }
        // the weights may also be integers cast element by element, as documents are
        Eigen::VectorXi wi(R); for (int i = 0; i < R; i++) wi[i] = zero_at(salt, i) ? 0 : i + 1; Vv g3 = Vv::Constant(C, 4); sum_cols_scaled(qt, wi.cast<S>(), g3); for (int j = 0; j < C; j++) if (!seq::close(g3[j], 2 * e[j], 1e-4, 1e-5)) { x.violate("cols-scaled", "scaled sum of columns with integer weights is %g, expected %g", (double)g3[j], 2.0 * e[j]); return; }
        x.step(3);
    }
    // element-wise functors
    M u = m; if (u.size()) u(0, 0) = nan; if (u.size() > 1) u.data()[1] = inf; if (u.size() > 2) u.data()[2] = -inf;
    for (int i = 0; i < u.size(); i++) { S z = u.data()[i]; if (CwiseIsNaN<S>()(z) != (z != z)) x.violate("isnan", "is-nan of %g", (double)z); if (CwiseIsInf<S>()(z) != (z == inf || z == -inf)) x.violate("isinf", "is-inf of %g", (double)z); S d = CwiseScalarDivideByMatrix<S>(3)(z); if (z == 0 ? d != 0 : z == z && !seq::close(d, 3 / z, 1e-6)) x.violate("divide", "3 divided by %g is %g", (double)z, (double)d);
        if (z == z && z > 0 && z < 50) { if (CwiseDigamma<S>()(z) != digamma(z) || CwiseFastExp<S>()(z) != fast_exp(z) || !seq::close(CwiseLgamma<S>()(z), std::lgamma((double)z), 1e-5, 1e-5)) x.violate("functor", "element-wise functions of %g differ from the functions", (double)z); } }
    x.state(seq::mix(salt, R * 10 + C));
}

// the same for large matrices; magnitudes chosen so that products stay representable
template <typename S> static void large_helpers(int R, int C, uint64_t salt, seq::Ctx &x) {
    typedef Eigen::Matrix<S, -1, -1> M; typedef Eigen::Matrix<S, -1, 1> Vv; typedef Eigen::Matrix<S, 1, -1> Rv; const S inf = std::numeric_limits<S>::infinity(), nan = std::numeric_limits<S>::quiet_NaN();
    M m(R, C); for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) m(i, j) = (S)(seq::mix(salt, i * C + j) % 4 == 0 ? 0.0 : (seq::mix(salt, i * C + j) % 1000) / 128.0 - 2);
    Vv v = Vv::Constant(R * C, 7); reshape_into(m, v); for (int j = 0; j < C; j++) for (int i = 0; i < R; i++) if (v[j * R + i] != m(i, j)) { x.violate("reshape", "%dx%d matrix to vector moves element %d,%d", R, C, i, j); return; }
    M b = M::Constant(R, C, 9); reshape_into(v, b); if (b != m) { x.violate("reshape", "vector to %dx%d matrix does not invert matrix to vector", R, C); return; }
    M q = m; for (long i = 0; i < q.size(); i++) q.data()[i] = q.data()[i] == 0 ? (S)0 : (S)(i % 97 == 0 && i < 6000 ? 2.0 : i % 97 == 50 && i < 6000 ? 0.5 : i % 3 ? 1.0 : -1.0); double p = 1; for (long i = 0; i < q.size(); i++) if (q.data()[i] != 0) p *= q.data()[i]; double g = product_of_nonzeros(q); if (std::isfinite((S)p) && (S)p != 0 && !seq::close(g, p, 1e-4)) { x.violate("product", "product of the non-zero elements of a %dx%d matrix is %g, expected %g", R, C, g, p); return; }
    for (int bad = 0; bad < 3; bad++) { Vv w(R); for (int i = 0; i < R; i++) w[i] = seq::mix(salt + 5, i) % (salt + 2) ? 0 : (S)((i % 9) + 1) * (S)0.5; M z = m; for (int i = 0; i < R; i++) if (w[i] == 0 && bad) z.row(i).setConstant(bad == 1 ? inf : nan); Eigen::VectorXd e = Eigen::VectorXd::Constant(C, 2); for (int i = 0; i < R; i++) if (w[i] != 0) e += (double)w[i] * m.row(i).transpose().template cast<double>();
        Rv got = Rv::Constant(C, 2); sum_rows_scaled(z, w, got); M zt = z.transpose(); Vv g2 = Vv::Constant(C, 2); sum_cols_scaled(zt, w, g2); x.step(2);
        for (int j = 0; j < C; j++) if (!seq::close(got[j], e[j], 1e-4, 1e-2) || !seq::close(g2[j], e[j], 1e-4, 1e-2)) { x.violate("scaled", "scaled sum over %d of length %d: entry %d is %g by rows and %g by columns, expected %g", R, C, j, (double)got[j], (double)g2[j], e[j]); return; } }
    x.state(seq::mix(salt, R * 1000 + C));
}
int main(int argc, char **argv) {
    bool th = seq::thorough(argc, argv); std::vector<seq::Space> s;
    // every single precision argument: blocks of 2^16 bit patterns
    s.push_back({"exp-floats", 65536, [=](uint64_t i, seq::Ctx &c) {
        float a = std::fabs(fbits((uint32_t)i << 16)); if (!(a <= std::numeric_limits<float>::infinity())) return;
        bool full = th || (a >= 0x1p-11f && a < 128); unsigned n = 0;
        for (uint32_t l = 0; l < 65536; l += full ? 1 : 257) { float x = fbits((uint32_t)i << 16 | l); if (std::isnan(x)) continue; n++; float f = fast_exp(x); if (bad_exp<float>(x, f)) { try_exp<float>(x, c); break; } }
        c.step(n); c.state(i); }, nullptr, 60});
    s.push_back({"digamma-floats", 32768, [=](uint64_t i, seq::Ctx &c) {
        float a = fbits((uint32_t)i << 16); if (!(a < std::numeric_limits<float>::infinity())) return;
        bool full = th || (a >= 0x1p-3f && a < 16); unsigned n = 0;
        for (uint32_t l = 0; l < 65536; l += full ? (th ? 1 : 3) : 257) { float x = fbits((uint32_t)i << 16 | l); if (std::isnan(x) || x == 0) continue; n++; float f = digamma(x); if (bad_dig<float>(x, f)) { try_dig<float>(x, c); break; } }
        c.step(n); c.state(i); }, nullptr, 60});
    // doubles: at both sides of every table cell edge of every octave, and in its middle
    s.push_back({"exp-edges", 1025 * 18, [=](uint64_t i, seq::Ctx &c) { int o = (int)(i / 1025) - 9; int k = i % 1025; double e = (k ? k : 1e-9) / 1024.0 * std::pow(2.0, o); for (int sg = -1; sg <= 1; sg += 2) for (int u = -3; u <= 3; u++) { double x = dbits(dbitsof(e) + u) * sg; try_exp<double>(x, c); try_exp<double>(x + sg * e / 2048, c); float y = (float)x; try_exp<float>(y, c); c.step(3); }
        double e2 = k / 1023.0 * std::pow(2.0, o); for (int u = -2; u <= 2; u++) { double x = k ? dbits(dbitsof(e2) + u) : 0; try_exp<double>(x, c); try_exp<double>(-x, c); c.step(2); } c.state(i); }, nullptr, 60});
    // doubles: every exponent with a complete set of leading mantissa bits
    int mb = th ? 14 : 8;
    s.push_back({"exp-doubles", 4096, [=](uint64_t i, seq::Ctx &c) { for (uint64_t m = 0; m < (1ull << mb); m++) for (int l = 0; l < 3; l++) { double x = dbits(i << 52 | m << (52 - mb) | (l == 1 ? 1 : l == 2 ? (1ull << (52 - mb)) - 1 : 0)); if (std::isnan(x)) continue; try_exp<double>(x, c); c.step(); } c.state(i); }, nullptr, 60});
    s.push_back({"digamma-doubles", 2047, [=](uint64_t i, seq::Ctx &c) { for (uint64_t m = 0; m < (1ull << mb); m++) for (int l = 0; l < 3; l++) { double x = dbits(i << 52 | m << (52 - mb) | (l == 1 ? 1 : l == 2 ? (1ull << (52 - mb)) - 1 : 0)); if (x == 0) continue; try_dig<double>(x, c); c.step(); } c.state(i); }, nullptr, 60});
    s.push_back({"digamma-grid", 2000, [=](uint64_t i, seq::Ctx &c) { int n = th ? 20000 : 1000; for (int k = 0; k < n; k++) { double x = (i + (k + 1.0) / n) / 100; try_dig<double>(x, c); try_dig<double>(std::nextafter(x, 0), c); c.step(2); } c.state(i); }, nullptr, 60});
    s.push_back({"exp-special", 1, [=](uint64_t, seq::Ctx &c) { const double inf = INFINITY; if (fast_exp(inf) != inf || fast_exp(-inf) != 0 || fast_exp((float)inf) != (float)inf || fast_exp(-(float)inf) != 0) c.violate("special", "infinite arguments"); if (fast_exp(0.0) != 1 || fast_exp(-0.0) != 1 || fast_exp(0.0f) != 1) c.violate("special", "exp(0)"); }, nullptr, 60});
    // normalisation: every matrix over a small table of entries
    for (int R = 0; R <= 3; R++) for (int C = 0; C <= 3; C++) { int cells = R * C; if (cells > 6) continue; uint64_t n = ipow(7, cells); if (!th && n > 20000) n = ipow(5, cells);
        int base = n == ipow(7, cells) ? 7 : 5;
        s.push_back({"normalise" + std::to_string(R) + "x" + std::to_string(C), n, [=](uint64_t i, seq::Ctx &c) { static const double T[] = {0, 1, 0.1, 1e-30, 12345.678, 3, 1e20}; std::vector<double> v; seq::Radix r(i); for (int q = 0; q < cells; q++) v.push_back(T[r(base)]); norm<double, Eigen::ColMajor>(R, C, v, c); norm<float, Eigen::ColMajor>(R, C, v, c); norm<double, Eigen::RowMajor>(R, C, v, c); c.state(i); }, nullptr, 60}); }
    s.push_back({"normalise-large", 40 * 40, [=](uint64_t i, seq::Ctx &c) { int R = i % 40 + 1, C = i / 40 + 1; std::vector<double> v; for (int q = 0; q < R * C; q++) v.push_back(seq::mix(i, q) % 5 == 0 || (q / C) % 7 == 6 ? 0 : (seq::mix(i, q) % 1000) * std::pow(10.0, (int)(seq::mix(q, i) % 7) - 3)); norm<double, Eigen::ColMajor>(R, C, v, c); norm<float, Eigen::ColMajor>(R, C, v, c); norm<float, Eigen::RowMajor>(R, C, v, c); c.state(i); }, nullptr, 60});
    s.push_back({"normalise-tiny", 400, [=](uint64_t i, seq::Ctx &c) { seq::Radix r(i); double sc = std::pow(10.0, -(300 + r(9))); int n = r(4) + 1; std::vector<double> v; for (int q = 0; q < n * n; q++) v.push_back(sc * (1 + (q * 3 + (int)r.v) % 5)); norm<double, Eigen::ColMajor>(n, n, v, c); c.state(i); }, nullptr, 60});
    s.push_back({"helpers", 6 * 6 * 64, [=](uint64_t i, seq::Ctx &c) { seq::Radix r(i); int R = r(6), C = r(6); helpers<double>(R, C, r.v, c); helpers<float>(R, C, r.v, c); }, nullptr, 60});
    static const int BR[] = {1, 2, 17, 64, 130, 300, 1500};
    s.push_back({"normalise-huge", 7 * 7 * 3, [=](uint64_t i, seq::Ctx &c) { seq::Radix r(i); int R = BR[r(7)], C = BR[r(7)], k = r(3); if ((long)R * C > 150000) return; std::vector<double> v; for (long q = 0; q < (long)R * C; q++) v.push_back(k == 0 ? (seq::mix(3, q) % 3 ? seq::mix(3, q) % 97 : 0.0) : k == 1 ? (q / C % 5 == 4 || q % C % 5 == 4 ? 0.0 : 1e-4 * (1 + q % 7)) : q == (long)R * C - 1 ? 2.0 : 0.0); norm<double, Eigen::ColMajor>(R, C, v, c); norm<float, Eigen::RowMajor>(R, C, v, c); c.state(i); }, nullptr, 60});
    s.push_back({"helpers-large", 6 * 6 * 4, [=](uint64_t i, seq::Ctx &c) { static const int L[] = {1, 7, 33, 64, 70, 150}; seq::Radix r(i); int R = L[r(6)], C = L[r(6)]; large_helpers<double>(R, C, r.v, c); large_helpers<float>(R, C, r.v, c); }, nullptr, 60});
    return seq::run(argc, argv, "C24", s);
}
