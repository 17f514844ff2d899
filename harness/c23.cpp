// C23: corpora under every number of shuffles, label vectors and seeds.
#include <algorithm>
#include <random>
#include <set>
#include "seq.hpp"
#include "ldaplusplus/Document.hpp"
using namespace ldaplusplus::corpus;

static void priors(const EigenClassificationCorpus &c, const Eigen::VectorXi &y, seq::Ctx &x) {
    int mx = -1, lab = 0; for (int i = 0; i < y.size(); i++) { mx = std::max(mx, y[i]); lab += y[i] >= 0; } double s = 0;
    for (int k = 0; k <= mx; k++) { int n = 0; for (int i = 0; i < y.size(); i++) n += y[i] == k; double p = c.get_prior(k); s += p; if (!seq::close(p, (double)n / lab, 1e-5, 1e-7)) x.violate("prior", "prior of class %d is %g, its frequency among labelled documents is %d/%d", k, p, n, lab); }
    if (lab && !seq::close(s, 1, 1e-5)) x.violate("prior-sum", "priors sum to %g", s);
}
// a corpus of N distinct (or duplicate) documents
static void classified(int N, const std::vector<int> &lab, int seed, int shuffles, bool dup, seq::Ctx &x) {
    Eigen::MatrixXi X(3, N); Eigen::VectorXi y(N); for (int j = 0; j < N; j++) { X(0, j) = dup ? j / 2 : j + 1; X(1, j) = j * j % 5; X(2, j) = dup ? 1 : 100 - j; y[j] = lab[j]; }
    const Eigen::MatrixXi X0 = X; const Eigen::VectorXi y0 = y;
    Eigen::MatrixXi OX = Eigen::MatrixXi::Constant(3, 4, 7); Eigen::VectorXi Oy(4); Oy << 1, 0, 1, 3;   // an unrelated corpus alive and shuffled in between
    EigenClassificationCorpus c(X, y, seed), c2(X, y, seed), other(OX, Oy, seed); EigenCorpus u(X, seed), u2(X, seed);
    if (c.size() != (size_t)N || u.size() != (size_t)N) { x.violate("size", "corpus of %d documents reports %zu", N, c.size()); return; }
    std::vector<std::shared_ptr<Document> > held; std::vector<std::vector<int> > heldw;
    for (int s = 0; s <= shuffles; s++) {
        if (s) { c.shuffle(); other.shuffle(); (void)other.at(1)->get_words(); c2.shuffle(); u.shuffle(); u2.shuffle(); x.step(); }
        std::multiset<std::vector<int> > seen, want, useen, uwant;
        for (int j = 0; j < N; j++) {
            auto d = std::static_pointer_cast<ClassificationDocument>(c.at(j)); auto e = std::static_pointer_cast<ClassificationDocument>(c2.at(j)); auto f = u.at(j), g = u2.at(j);
            std::vector<int> w, v; for (int i = 0; i < 3; i++) { w.push_back(d->get_words()[i]); v.push_back(f->get_words()[i]); }
            if (d->get_words().size() != 3 || f->get_words().size() != 3) { x.violate("words", "document has another number of words"); return; }
            useen.insert(v); w.push_back(d->get_class()); seen.insert(w);
            if (s == 0) for (int i = 0; i < 3; i++) if (w[i] != X0(i, j) || w[3] != y0[j] || v[i] != X0(i, j)) { x.violate("initial-order", "document %d is out of order before the first shuffle", j); return; }
            if (e->get_words() != d->get_words() || e->get_class() != d->get_class() || f->get_words() != g->get_words()) { x.violate("seed", "two corpora with the same seed differ after %d shuffles", s); return; }
            if (d->get_corpus().get() != static_cast<const Corpus *>(&c) || f->get_corpus().get() != static_cast<const Corpus *>(&u)) { x.violate("corpus", "document %d does not refer to its corpus", j); return; }
            if (d->get_corpus()->size() != (size_t)N) { x.violate("corpus", "corpus reached through a document has another size"); return; }
            held.push_back(d); heldw.push_back(w);
            // reading twice gives the same
            if (c.at(j)->get_words() != d->get_words()) { x.violate("stable", "reading document %d twice differs", j); return; }
        }
        for (int j = 0; j < N; j++) { std::vector<int> w = {X0(0, j), X0(1, j), X0(2, j)}; uwant.insert(w); w.push_back(y0[j]); want.insert(w); }
        if (seen != want) { x.violate("permutation", "labelled corpus of %d documents is no permutation with its labels after %d shuffles", N, s); return; }
        if (useen != uwant) { x.violate("permutation", "corpus of %d documents is no permutation after %d shuffles", N, s); return; }
        uint64_t h = N; for (auto &w : heldw) for (int q : w) h = seq::mix(h, q); x.state(h);
    }
    for (size_t i = 0; i < held.size(); i++) { auto d = std::static_pointer_cast<ClassificationDocument>(held[i]); for (int q = 0; q < 3; q++) if (d->get_words()[q] != heldw[i][q] || d->get_class() != heldw[i][3]) { x.violate("held", "a document handed out earlier changed after later shuffles"); return; } }
    if (X != X0 || y != y0) x.violate("data", "shuffling changed the caller's data");
    priors(c, y, x);
}
static uint64_t ipow(uint64_t b, int e) { uint64_t r = 1; while (e--) r *= b; return r; }
int main(int argc, char **argv) {
    bool th = seq::thorough(argc, argv); std::vector<seq::Space> s;
    for (int N = 0; N <= (th ? 7 : 5); N++) s.push_back({"labels" + std::to_string(N), ipow(5, N) * 3 * 2, [=](uint64_t i, seq::Ctx &x) { static const int LV[] = {0, 1, 2, -1, 5}; static const int SD[] = {0, 1, 12345}; seq::Radix r(i); int sd = SD[r(3)], dup = r(2); std::vector<int> l; for (int q = 0; q < N; q++) l.push_back(LV[r(5)]); classified(N, l, sd, th ? 6 : 4, dup, x); }, nullptr, 20});
    s.push_back({"sizes", (uint64_t)(th ? 400 : 130) * 4, [=](uint64_t i, seq::Ctx &x) { seq::Radix r(i); int sd = r(4) * 77, N = (int)r.v; std::vector<int> l; for (int q = 0; q < N; q++) l.push_back((q * 7 + N) % 4 - (N % 2)); classified(N, l, sd, 12, N % 3 == 0, x); }, nullptr, 20});
    // large corpora and many classes
    s.push_back({"large", 9 * 3, [=](uint64_t i, seq::Ctx &x) { static const int NS[] = {255, 256, 257, 1000, 2049, 5000, 33000, 66000, 140000}; seq::Radix r(i); int N = NS[r(9)], cl = r(3);
        Eigen::MatrixXi X(2, N); Eigen::VectorXi y(N); for (int j = 0; j < N; j++) { X(0, j) = j + 1; X(1, j) = j % 3; y[j] = cl == 0 ? j % 3 - 1 : cl == 1 ? (j * 7) % 300 : j % 1500; }
        EigenClassificationCorpus c(X, y, 3); EigenCorpus u(X, 3);
        for (int s = 0; s < 3; s++) { if (s) { c.shuffle(); u.shuffle(); x.step(); } std::vector<char> a(N + 1, 0), b(N + 1, 0); int moved = 0;
            for (int j = 0; j < N; j++) { auto d = std::static_pointer_cast<ClassificationDocument>(c.at(j)); auto f = u.at(j); int v = d->get_words()[0], w = f->get_words()[0];
                if (v < 1 || v > N || w < 1 || w > N || a[v]++ || b[w]++) { x.violate("permutation", "document %d of %d appears twice or not at all after %d shuffles", j, N, s); return; }
                if (d->get_class() != y[v - 1]) { x.violate("labels", "a document of a corpus of %d has class %d instead of %d", N, d->get_class(), y[v - 1]); return; }
                if (s == 0 && (v != j + 1 || w != j + 1)) { x.violate("initial-order", "document %d of %d is out of order before the first shuffle", j, N); return; } moved += v != j + 1; }
            if (s && moved < N / 2) { x.violate("shuffled", "only %d of %d documents move in a shuffle", moved, N); return; } }
        std::vector<int> n(2000, 0); int lab = 0, mx = 0; for (int j = 0; j < N; j++) if (y[j] >= 0) { n[y[j]]++; lab++; mx = std::max(mx, y[j]); }
        for (int k = 0; k <= mx; k++) if (!seq::close(c.get_prior(k), (double)n[k] / lab, 1e-4, 1e-9)) { x.violate("prior", "prior of class %d is %g, its frequency among labelled documents is %d/%d", k, c.get_prior(k), n[k], lab); return; }
        x.state(seq::mix(N, cl)); }, nullptr, 120});
    s.push_back({"order-reachability", 4, [=](uint64_t i, seq::Ctx &x) {   // every order of 3 documents is reached, the identity is left
        std::set<std::vector<int> > seen; Eigen::MatrixXi X(1, 3); X << 1, 2, 3; EigenCorpus c(X, (int)i); for (int k = 0; k < 400; k++) { c.shuffle(); std::vector<int> o; for (int j = 0; j < 3; j++) o.push_back(c.at(j)->get_words()[0]); seen.insert(o); x.step(); }
        if (seen.size() != 6) x.violate("orders", "only %zu of 6 orders appear in 400 shuffles", seen.size()); x.state(seen.size() + i); }, nullptr, 20});
    s.push_back({"indexes", 60 * 3, [=](uint64_t i, seq::Ctx &x) { seq::Radix r(i); int sd = r(3), N = (int)r.v; CorpusIndexes a(N, sd), b(N, sd); for (int k = 0; k < 8; k++) { std::vector<int> v; for (int j = 0; j < N; j++) { if (a.get_index(j) != b.get_index(j)) x.violate("seed", "indices with one seed differ"); v.push_back(a.get_index(j)); if (!k && a.get_index(j) != j) x.violate("initial-order", "indices start shuffled"); } std::sort(v.begin(), v.end()); for (int j = 0; j < N; j++) if (v[j] != j) { x.violate("permutation", "indices of %d documents are no permutation", N); return; } a.shuffle(); b.shuffle(); x.step(); } x.state(N * 3 + sd); }, nullptr, 20});
    return seq::run(argc, argv, "C23", s);
}
