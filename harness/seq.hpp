// Exhaustive enumeration of finite case spaces on the real code.  See DESIGN.md.
//
// A harness declares spaces; every case of every space is executed in forked
// worker processes, so a crash or a hang of the code under test is attributed
// to its case and reported as a violation rather than ending the check.
#pragma once
#include <atomic>
#include <cerrno>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <ctime>
#include <exception>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <map>
#include <string>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

namespace seq {

inline uint64_t mix(uint64_t h, uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; return h ^ (h >> 29); }
inline uint64_t hash(const void *p, size_t n, uint64_t h = 1469598103934665603ull) {
    const unsigned char *c = (const unsigned char *)p;
    for (size_t i = 0; i < n; i++) h = (h ^ c[i]) * 1099511628211ull;
    return h ^ (h >> 31);
}
inline uint64_t hash(const std::string &s, uint64_t h = 1469598103934665603ull) { return hash(s.data(), s.size(), h); }

// mixed radix decoder of a case number
struct Radix {
    size_t v;
    explicit Radix(size_t i) : v(i) {}
    int operator()(int n) { int r = v % n; v /= n; return r; }
};

struct Viol { char key[160]; char msg[1200]; int space; uint64_t idx; };
enum { MAXV = 64, MAXW = 32 };
struct Shared {
    std::atomic<uint64_t> next, done, steps, nstates, checks;
    std::atomic<int> nviol, vlock, stop;
    std::atomic<uint64_t> cur[MAXW];         // global case number + 1, 0 = idle
    std::atomic<long> started[MAXW];         // seconds
    Viol v[MAXV];
    uint64_t mask;
    std::atomic<uint64_t> table[1];
};

class Ctx {
  public:
    Shared *sh; int space; uint64_t idx; std::string prefix; bool print; int bad = 0;
    std::string (*unused)() = nullptr;
    std::function<std::string()> describe;
    void step(uint64_t n = 1) { sh->steps.fetch_add(n, std::memory_order_relaxed); }
    void state(uint64_t h) {
        h = mix(mix(h, 77), space + 1); if (!h) h = 1;
        uint64_t i = h & sh->mask;
        for (int k = 0; k < 4096; k++, i = (i + 1) & sh->mask) {
            uint64_t c = sh->table[i].load(std::memory_order_relaxed);
            if (c == h) return;
            if (!c) { if (sh->table[i].compare_exchange_strong(c, h)) { sh->nstates.fetch_add(1); return; } if (c == h) return; }
        }
    }
    void violate(const char *key, const char *fmt, ...) __attribute__((format(printf, 3, 4))) {
        char m[900]; va_list ap; va_start(ap, fmt); vsnprintf(m, sizeof m, fmt, ap); va_end(ap);
        bad++;
        std::string k = prefix + ":" + key;
        std::string full = m; if (describe) full += " [" + describe() + "]";
        if (print) printf("%s: %s\n", k.c_str(), full.c_str());
        report(sh, k, full, space, idx);
    }
    static void report(Shared *sh, const std::string &k, const std::string &m, int space, uint64_t idx) {
        int e = 0; while (!sh->vlock.compare_exchange_weak(e, 1)) { e = 0; usleep(50); }
        int n = sh->nviol; bool dup = false;
        for (int i = 0; i < n; i++) if (k.substr(0, 159) == sh->v[i].key) {
            dup = true;
            if (idx < sh->v[i].idx && space == sh->v[i].space) { sh->v[i].idx = idx; snprintf(sh->v[i].msg, sizeof sh->v[i].msg, "%s", m.c_str()); }
        }
        if (!dup && n < MAXV) {
            snprintf(sh->v[n].key, sizeof sh->v[n].key, "%s", k.c_str());
            snprintf(sh->v[n].msg, sizeof sh->v[n].msg, "%s", m.c_str());
            sh->v[n].space = space; sh->v[n].idx = idx; sh->nviol = n + 1;
        }
        sh->vlock = 0;
    }
};

struct Space {
    std::string name;
    uint64_t n;
    std::function<void(uint64_t, Ctx &)> run;
    std::function<std::string(uint64_t)> describe;   // may be empty
    int timeout;                                     // seconds per case
};

inline bool close(double a, double b, double rtol, double atol = 0) {
    if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
    if (std::isinf(a) || std::isinf(b)) return a == b;
    return std::fabs(a - b) <= atol + rtol * std::fmax(std::fabs(a), std::fabs(b));
}

inline std::string esc(const std::string &s) {
    std::string o;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c < 0x20 || c > 0x7e) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o;
}
inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

inline std::string crash_line(const std::string &file) {
    std::ifstream f(file); std::string l, best, last;
    while (std::getline(f, l)) {
        if (l.empty()) continue;
        if (best.empty() && (l.find("ERROR: AddressSanitizer") != std::string::npos || l.find("ssertion") != std::string::npos ||
                             l.find("runtime error") != std::string::npos || l.find("terminate called") != std::string::npos)) best = l;
        last = l;
    }
    return (best.empty() ? last : best).substr(0, 300);
}

inline bool thorough(int argc, char **argv) {
    for (int i = 1; i + 1 < argc; i++) if (std::string(argv[i]) == "--tier") return std::string(argv[i + 1]) == "thorough";
    return false;
}

inline int run(int argc, char **argv, const char *property, std::vector<Space> spaces) {
    std::string out, replay, only; double budget = 300;
    for (int i = 1; i + 1 < argc; i++) {
        std::string a = argv[i];
        if (a == "--out") out = argv[i + 1];
        if (a == "--replay") replay = argv[i + 1];
        if (a == "--only") only = argv[i + 1];
        if (a == "--budget") budget = atof(argv[i + 1]);
    }
    setvbuf(stdout, nullptr, _IOLBF, 0);
    const char *sc = getenv("VERIF_SCRATCH"); std::string scratch = sc ? sc : "/tmp";
    size_t tbits = 23;
    size_t bytes = sizeof(Shared) + (size_t(1) << tbits) * 8;
    Shared *sh = (Shared *)mmap(nullptr, bytes, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (sh == MAP_FAILED) { perror("mmap"); return 3; }
    sh->mask = (uint64_t(1) << tbits) - 1;

    if (!replay.empty()) {
        std::ifstream f(replay); std::string nm; uint64_t idx; f >> nm >> idx;
        for (size_t s = 0; s < spaces.size(); s++) if (spaces[s].name == nm) {
            Ctx c; c.sh = sh; c.space = s; c.idx = idx; c.prefix = nm; c.print = true;
            auto d = spaces[s].describe; if (d) { c.describe = [=] { return d(idx); }; printf("case: %s\n", d(idx).c_str()); }
            try { spaces[s].run(idx, c); } catch (std::exception &e) { c.violate("exception", "unexpected exception: %s", e.what()); }
            printf(c.bad ? "reproduced\n" : "not reproduced\n");
            return c.bad ? 1 : 0;
        }
        fprintf(stderr, "unknown space %s\n", nm.c_str()); return 3;
    }

    std::vector<uint64_t> base; uint64_t total = 0; std::vector<int> map;
    std::vector<Space> used;
    for (auto &s : spaces) if (only.empty() || s.name.find(only) != std::string::npos) { base.push_back(total); total += s.n; used.push_back(s); }
    auto locate = [&](uint64_t g, size_t &s, uint64_t &i) { s = 0; while (s + 1 < used.size() && base[s + 1] <= g) s++; i = g - base[s]; };

    long ncpu = sysconf(_SC_NPROCESSORS_ONLN); if (ncpu < 1) ncpu = 1; if (ncpu > 8) ncpu = 8;
    int W = ncpu; double t0 = now(); bool exhaustive = true; int crashes = 0;
    uint64_t chunk = total / (W * 200) + 1; if (chunk > 64) chunk = 64;
    std::vector<pid_t> pid(W, 0);
    // cases of a worker that crashed: the rest of its chunk is put back here
    std::vector<std::pair<uint64_t, uint64_t>> todo;
    std::vector<std::pair<uint64_t, uint64_t>> given(W, {0, 0});
    struct Pipe { int fd[2]; };
    auto spawn = [&](int w, std::pair<uint64_t, uint64_t> first) {
        fflush(stdout);
        pid_t p = fork();
        if (p < 0) { perror("fork"); exit(3); }
        if (p == 0) {
            std::string ef = scratch + "/worker" + std::to_string(w) + ".err";
            int fd = open(ef.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644); if (fd >= 0) { dup2(fd, 2); ::close(fd); }
            auto doit = [&](uint64_t g) {
                size_t s; uint64_t i; locate(g, s, i);
                sh->started[w] = (long)now(); sh->cur[w] = g + 1;
                Ctx c; c.sh = sh; c.space = s; c.idx = i; c.prefix = used[s].name; c.print = false;
                auto d = used[s].describe; if (d) c.describe = [=] { return d(i); };
                try { used[s].run(i, c); }
                catch (std::exception &e) { c.violate("exception", "unexpected exception: %s", e.what()); }
                catch (...) { c.violate("exception", "unexpected exception of unknown type"); }
                sh->done++;
            };
            for (uint64_t g = first.first; g < first.second && !sh->stop; g++) doit(g);
            while (!sh->stop) {
                uint64_t b = sh->next.fetch_add(chunk); if (b >= total) break;
                for (uint64_t g = b; g < b + chunk && g < total && !sh->stop; g++) doit(g);
            }
            sh->cur[w] = 0;
            fflush(stdout); _exit(0);
        }
        pid[w] = p;
    };
    for (int w = 0; w < W; w++) spawn(w, {0, 0});
    int alive = W;
    while (alive > 0) {
        int st; pid_t p = waitpid(-1, &st, WNOHANG);
        if (p <= 0) {
            if (now() - t0 > budget && !sh->stop) { sh->stop = 1; exhaustive = false; }
            for (int w = 0; w < W; w++) if (pid[w]) {
                uint64_t c = sh->cur[w]; if (!c) continue;
                size_t s; uint64_t i; locate(c - 1, s, i);
                int lim = used[s].timeout > 0 ? used[s].timeout : 30;
                if ((long)now() - sh->started[w] > lim) { kill(pid[w], SIGKILL); }
            }
            usleep(2000); continue;
        }
        int w = 0; while (w < W && pid[w] != p) w++;
        if (w == W) continue;
        pid[w] = 0; alive--;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
        uint64_t c = sh->cur[w]; sh->cur[w] = 0;
        if (!c) { fprintf(stderr, "worker %d ended with status %d outside a case\n", w, st); return 3; }
        size_t s; uint64_t i; locate(c - 1, s, i);
        bool hang = WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL;
        std::string m = hang ? "did not finish within the time limit"
                             : "ended abnormally (" + (WIFSIGNALED(st) ? std::string("signal ") + std::to_string(WTERMSIG(st)) : "exit " + std::to_string(WEXITSTATUS(st))) + "): " +
                                   crash_line(scratch + "/worker" + std::to_string(w) + ".err");
        if (used[s].describe) m += " [" + used[s].describe(i) + "]";
        Ctx::report(sh, used[s].name + (hang ? ":hang" : ":crash"), m, s, i);
        if (++crashes > 24) { sh->stop = 1; exhaustive = false; continue; }
        // continue with the rest of the chunk (chunks start at multiples of chunk)
        uint64_t g = c - 1; uint64_t e = (g / chunk + 1) * chunk; if (e > total) e = total;
        spawn(w, {g + 1, e}); alive++;
    }
    if (sh->done < total && !crashes) exhaustive = false;
    int nv = sh->nviol;
    std::string js = "{\"coverage\":{";
    js += "\"states\":" + std::to_string(sh->nstates.load()) + ",\"transitions\":" + std::to_string(sh->steps.load()) +
          ",\"traces_validated_against_impl\":" + std::to_string(sh->done.load()) + ",\"cases_declared\":" + std::to_string(total) +
          ",\"exhaustive\":" + (exhaustive ? "true" : "false") + ",\"samples\":[";
    for (size_t s = 0; s < used.size(); s++) {
        js += std::string(s ? "," : "") + "{\"space\":\"" + esc(used[s].name) + "\",\"cases\":" + std::to_string(used[s].n);
        if (used[s].describe && used[s].n) js += ",\"example\":\"" + esc(used[s].describe(used[s].n * 2 / 3)) + "\"";
        js += "}";
    }
    js += "]},\"violations\":[";
    for (int i = 0; i < nv; i++)
        js += std::string(i ? "," : "") + "{\"key\":\"" + esc(sh->v[i].key) + "\",\"message\":\"" + esc(sh->v[i].msg) + "\",\"replay\":\"" + esc(used[sh->v[i].space].name + " " + std::to_string(sh->v[i].idx)) + "\"}";
    js += "]}\n";
    if (!out.empty()) { std::ofstream f(out); f << js; } else printf("%s", js.c_str());
    return nv ? 1 : 0;
}

}  // namespace seq
