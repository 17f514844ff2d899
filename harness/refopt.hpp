// Reference objectives of the classifier updates.
#pragma once
#include <vector>
#include <cmath>
#include "ref.hpp"
namespace ref {
struct Problem {
    M X;                 // topics x documents (row major)
    std::vector<M> var;  // per document, empty for the first order objective
    D y; V w; double L;  // class weights, penalty
    static V default_weights(const D &y) {
        int C = 0; for (int v : y) C = std::max(C, v + 1);
        V n(C, 0.0), w(C); for (int v : y) n[v]++;
        for (int c = 0; c < C; c++) w[c] = y.size() / (n[c] * C);
        return w;
    }
    long double value(const std::vector<std::vector<long double> > &eta) const {
        int K = X.size(), C = eta[0].size(); long double ll = 0, nn = 0;
        for (size_t d = 0; d < y.size(); d++) {
            std::vector<long double> t(C, 0); long double s = 0;
            for (int c = 0; c < C; c++) {
                for (int k = 0; k < K; k++) t[c] += eta[k][c] * X[k][d];
                long double q = 0;
                if (!var.empty()) for (int a = 0; a < K; a++) for (int b = 0; b < K; b++) q += eta[a][c] * var[d][a][b] * eta[b][c];
                s += std::exp(t[c]) * (1 + q / 2);
            }
            ll += w[y[d]] * (t[y[d]] - std::log(s));
        }
        for (auto &r : eta) for (auto x : r) nn += x * x;
        return -ll + L * nn / 2;
    }
    static std::vector<std::vector<long double> > ld(const M &m) { std::vector<std::vector<long double> > r; for (auto &x : m) r.push_back(std::vector<long double>(x.begin(), x.end())); return r; }
    double value(const M &eta) const { return value(ld(eta)); }
    M derivative(const M &eta) const {   // the derivative written out, for large data sets
        int K = X.size(), C = eta[0].size(); M g(K, V(C)); for (int k = 0; k < K; k++) for (int c = 0; c < C; c++) g[k][c] = L * eta[k][c];
        for (size_t d = 0; d < y.size(); d++) {
            std::vector<long double> e(C), q(C, 0); long double s = 0; std::vector<std::vector<long double> > ve(var.empty() ? 0 : K, std::vector<long double>(C, 0));
            for (int c = 0; c < C; c++) {
                long double t = 0; for (int k = 0; k < K; k++) t += (long double)eta[k][c] * X[k][d];
                if (!var.empty()) for (int a = 0; a < K; a++) { for (int b = 0; b < K; b++) ve[a][c] += ((long double)var[d][a][b] + var[d][b][a]) * eta[b][c]; q[c] += ve[a][c] * eta[a][c] / 2; }
                e[c] = std::exp(t); s += e[c] * (1 + q[c] / 2);
            }
            for (int k = 0; k < K; k++) for (int c = 0; c < C; c++) g[k][c] += w[y[d]] * (double)(e[c] * (X[k][d] * (1 + q[c] / 2) + (var.empty() ? 0 : ve[k][c] / 2)) / s - (c == y[d] ? X[k][d] : 0));
        }
        return g;
    }
    M gradient(const M &eta) const {     // central differences in extended precision
        if (eta.size() * eta[0].size() * y.size() > 300) return derivative(eta);
        auto e = ld(eta); M g = eta; const long double h = 1e-5L;
        for (size_t i = 0; i < e.size(); i++) for (size_t j = 0; j < e[i].size(); j++) {
            auto o = e[i][j];
            // five point stencil: error of order h^4
            e[i][j] = o + h; long double a1 = value(e); e[i][j] = o - h; long double b1 = value(e);
            e[i][j] = o + 2 * h; long double a2 = value(e); e[i][j] = o - 2 * h; long double b2 = value(e); e[i][j] = o;
            g[i][j] = (8 * (a1 - b1) - (a2 - b2)) / (12 * h);
        }
        return g;
    }
};
}  // namespace ref
