// C05 (sequential part): every operation sequence up to a length on each
// dispatcher, with listeners that add, remove or dispatch while being called.
#include <algorithm>
#include <memory>
#include <set>
#include "seq.hpp"
#include "ldaplusplus/events/Events.hpp"
using namespace ldaplusplus::events;

struct Ev : Event { int n; const void *owner; explicit Ev(int n, const void *o = nullptr) : Event("Ev"), n(n), owner(o) {} };
enum { NL = 3, A_NONE = 0, A_RM_SELF, A_RM_NEXT, A_ADD_NEXT, A_DISPATCH, A_READD, NA };
enum Kind { PLAIN, SAFE, SAME };
static const char *KN[] = {"EventDispatcher", "ThreadSafeEventDispatcher", "SameThreadEventDispatcher"};

struct Sim {
    Kind kind; seq::Ctx &x; std::shared_ptr<EventDispatcherInterface> d; ThreadSafeEventDispatcher *safe = nullptr;
    struct L : EventListenerInterface { Sim *s; int i, script; bool fired = false; void on_event(std::shared_ptr<Event> e) override { Ev *v = static_cast<Ev *>(e.get()); if (v->owner && v->owner != s) s->bad("foreign", "listener %d receives an event given to another dispatcher", i); else s->deliver(i, v->n); } };
    std::shared_ptr<L> l[NL]; bool reg[NL] = {}; bool ok = true; int next = 0; std::string trace;
    struct E { std::set<int> must, may; int got[NL] = {}; bool opened = false, done = false, queued = false; };
    std::vector<E> ev; std::vector<int> stack; std::vector<int> pending; int last[NL];
    Sim(Kind k, seq::Ctx &x, const int *scripts) : kind(k), x(x) {
        if (k == PLAIN) d = std::make_shared<EventDispatcher>();
        else { auto s = k == SAFE ? std::make_shared<ThreadSafeEventDispatcher>() : std::make_shared<SameThreadEventDispatcher>(); safe = s.get(); d = s; }
        for (int i = 0; i < NL; i++) { l[i] = std::make_shared<L>(); l[i]->s = this; l[i]->i = i; l[i]->script = scripts[i]; last[i] = -1; }
    }
    void bad(const char *key, const char *f, int a = 0, int b = 0) { if (ok) { char m[200]; snprintf(m, 200, f, a, b); x.violate(key, "%s: %s after%s", KN[kind], m, trace.c_str()); } ok = false; }
    void open(int n) { auto &e = ev[n]; if (e.opened) return; e.opened = true; for (int i = 0; i < NL; i++) if (reg[i]) e.must.insert(i); }
    void close(int n) { auto &e = ev[n]; if (e.done) return; open(n); e.done = true; for (int i : e.must) if (e.got[i] != 1) bad("missed", "listener %d was registered but did not receive event %d", i, n); }
    void add(int i) { if (reg[i]) return; trace += " add" + std::to_string(i); reg[i] = true; for (int n : stack) ev[n].may.insert(i); d->add_listener(l[i]); x.step(); }
    void rem(int i) { trace += " remove" + std::to_string(i); reg[i] = false; for (int n : stack) { if (ev[n].must.erase(i)) ev[n].may.insert(i); } d->remove_listener(l[i]); x.step(); }
    void dispatch() {
        int n = next++; ev.emplace_back(); trace += " dispatch" + std::to_string(n); x.step();
        if (kind == SAFE) { pending.push_back(n); ev[n].queued = true; d->dispatch(std::make_shared<Ev>(n, this)); if (!ev[n].done && ev[n].opened) bad("early", "event %d delivered before it was processed", n); }
        else { open(n); d->dispatch(std::make_shared<Ev>(n, this)); close(n); }
    }
    void process() {
        if (!safe) return; trace += " process"; x.step();
        std::vector<int> now = pending; size_t before = pending.size();
        safe->process_events();
        for (int n : now) close(n);
        // events dispatched meanwhile may have been delivered already or wait
        std::vector<int> rest; for (size_t i = before; i < pending.size(); i++) { int n = pending[i]; if (ev[n].opened) close(n); else rest.push_back(n); }
        pending = rest;
    }
    void deliver(int i, int n) {
        if (n < 0 || n >= (int)ev.size()) { bad("foreign", "unknown event %d", n); return; }
        auto &e0 = ev[n];
        if (e0.done) { bad("again", "event %d delivered to listener %d after it was done", n, i); return; }
        if (e0.queued && stack.empty()) for (int q : pending) if (q < n && !ev[q].done) close(q);
        open(n); auto &e = ev[n];
        if (!e.must.count(i) && !e.may.count(i)) { bad("unregistered", "listener %d receives event %d although it is not registered", i, n); return; }
        if (++e.got[i] > 1) { bad("twice", "listener %d receives event %d twice", i, n); return; }
        if (stack.empty()) { if (n < last[i]) bad("order", "listener %d receives event %d too late", i, n); last[i] = n; }
        x.step();
        L &me = *l[i]; if (me.fired || me.script == A_NONE || stack.size() > 3) return;
        me.fired = true; stack.push_back(n); int j = (i + 1) % NL;
        switch (me.script) {
        case A_RM_SELF: rem(i); break;
        case A_RM_NEXT: rem(j); break;
        case A_ADD_NEXT: add(j); break;
        case A_DISPATCH: dispatch(); break;
        case A_READD: rem(i); add(i); break;
        }
        stack.pop_back();
    }
    void op(int o) { if (o < NL) add(o); else if (o < 2 * NL) rem(o - NL); else if (o == 2 * NL) dispatch(); else process(); }
    uint64_t hash() { uint64_t h = kind; for (int i = 0; i < NL; i++) h = seq::mix(h, reg[i]); for (auto &e : ev) for (int g : e.got) h = seq::mix(h, g + 10 * e.done); return h; }
};
static void run(Kind k, int len, uint64_t code, const int *scripts, seq::Ctx &x) {
    Sim s(k, x, scripts); int ops = k == SAFE ? 8 : k == SAME ? 8 : 7; seq::Radix r(code);
    for (int i = 0; i < len && s.ok; i++) { s.op(r(ops)); x.state(s.hash()); }
    for (int i = 0; i < 3 && s.ok; i++) s.process();
    if (s.ok && k != PLAIN && !s.pending.empty()) s.bad("lost", "%d events are never delivered", (int)s.pending.size());
    x.state(s.hash());
}
static uint64_t ipow(uint64_t b, int e) { uint64_t r = 1; while (e--) r *= b; return r; }
int main(int argc, char **argv) {
    bool th = seq::thorough(argc, argv); std::vector<seq::Space> s;
    for (int k = 0; k < 3; k++) {
        int ops = k == PLAIN ? 7 : 8, len = th ? 8 : 6, len2 = th ? 6 : 5;
        s.push_back({std::string(KN[k]) + "-sequences", ipow(ops, len), [=](uint64_t i, seq::Ctx &x) { int z[NL] = {0, 0, 0}; run((Kind)k, len, i, z, x); }, nullptr, 10});
        s.push_back({std::string(KN[k]) + "-reentrant", ipow(ops, len2) * NA * NA, [=](uint64_t i, seq::Ctx &x) { seq::Radix r(i); int z[NL]; z[0] = r(NA); z[1] = r(NA); z[2] = 0; run((Kind)k, len2, r.v, z, x); }, nullptr, 10});
        s.push_back({std::string(KN[k]) + "-reentrant3", ipow(ops, len2 - 1) * NA * NA * NA, [=](uint64_t i, seq::Ctx &x) { seq::Radix r(i); int z[NL]; z[0] = r(NA); z[1] = r(NA); z[2] = r(NA);
            Sim m((Kind)k, x, z); for (int q = 0; q < NL; q++) m.add(q); seq::Radix c(r.v); for (int q = 0; q < len2 - 1 && m.ok; q++) { m.op(c(ops)); x.state(m.hash()); } for (int q = 0; q < 3 && m.ok; q++) m.process(); }, nullptr, 10});
    }
    // two dispatchers used in turn never see each other's events or listeners
    for (int k = 0; k < 9; k++) { int la = th ? 6 : 5; uint64_t n = ipow(6, la);
        s.push_back({"two-" + std::to_string(k / 3) + std::to_string(k % 3), n, [=](uint64_t i, seq::Ctx &x) { int z[NL] = {0, 0, 0}; Sim a((Kind)(k / 3), x, z), b((Kind)(k % 3), x, z); a.add(0); b.add(1); Sim *w[2] = {&a, &b}; seq::Radix r(i);
            for (int q = 0; q < la && a.ok && b.ok; q++) { int o = r(6); Sim &m = *w[o % 2]; if (o / 2 == 0) m.dispatch(); else if (o / 2 == 1) m.process(); else if (m.reg[2]) m.rem(2); else m.add(2); x.state(seq::mix(a.hash(), b.hash())); }
            for (int q = 0; q < 2; q++) for (auto *m : w) if (a.ok && b.ok) m->process(); for (auto *m : w) if (m->ok && !m->pending.empty()) m->bad("lost", "%d events are never delivered", (int)m->pending.size()); }, nullptr, 10}); }
    // long queues and many listeners
    s.push_back({"long", 3 * 6 * 4 * 2, [](uint64_t i, seq::Ctx &x) {
        static const int ne[] = {1, 17, 65, 130, 257, 3000}, nl[] = {1, 2, 33, 300}; seq::Radix r(i); int k = r(3), E = ne[r(6)], L = nl[r(4)], rounds = 1 + r(2); if (E == 3000 && L < 3) E = 70000;
        std::shared_ptr<EventDispatcherInterface> d; ThreadSafeEventDispatcher *safe = nullptr;
        if (k == PLAIN) d = std::make_shared<EventDispatcher>(); else { auto q = k == SAFE ? std::make_shared<ThreadSafeEventDispatcher>() : std::make_shared<SameThreadEventDispatcher>(); safe = q.get(); d = q; }
        std::vector<std::vector<int> > got(L); std::vector<std::shared_ptr<EventListenerInterface> > ls; for (int l = 0; l < L; l++) ls.push_back(d->add_listener([&got, l](std::shared_ptr<Event> e) { got[l].push_back(static_cast<Ev *>(e.get())->n); }));
        std::vector<bool> reg(L, true); std::vector<std::vector<int> > want(L); int n = 0;
        for (int q = 0; q <= rounds; q++) {
            for (int e = 0; e < E; e++, n++) { d->dispatch(std::make_shared<Ev>(n)); x.step(); for (int l = 0; l < L; l++) if (reg[l]) want[l].push_back(n); }
            if (safe) safe->process_events();
            for (int l = 0; l < L; l++) if (got[l] != want[l]) { x.violate("long", "%s: listener %d of %d has %zu events after %d dispatches, %zu were due", KN[k], l, L, got[l].size(), n, want[l].size()); return; }
            for (int l = q; l < L; l += 3) { if (reg[l]) d->remove_listener(ls[l]); else d->add_listener(ls[l]); reg[l] = !reg[l]; }
            x.state(seq::mix(seq::mix(k, n), L));
        }
    }, nullptr, 20});
    // the same event object dispatched more than once: every dispatch counts
    s.push_back({"repeated", 3 * ipow(5, 6), [](uint64_t i, seq::Ctx &x) {
        seq::Radix r(i); int k = r(3); std::shared_ptr<EventDispatcherInterface> d; ThreadSafeEventDispatcher *safe = nullptr;
        if (k == PLAIN) d = std::make_shared<EventDispatcher>(); else { auto q = k == SAFE ? std::make_shared<ThreadSafeEventDispatcher>() : std::make_shared<SameThreadEventDispatcher>(); safe = q.get(); d = q; }
        std::vector<int> got[2], want[2]; std::shared_ptr<EventListenerInterface> ls[2]; for (int l = 0; l < 2; l++) { auto *g = got + l; ls[l] = d->add_listener([g](std::shared_ptr<Event> e) { g->push_back(static_cast<Ev *>(e.get())->n); }); }
        std::shared_ptr<Event> ev[2] = {std::make_shared<Ev>(0), std::make_shared<Ev>(1)}; std::vector<int> pend; bool reg = true; std::string t;
        auto flush = [&] { if (safe) safe->process_events(); for (int n : pend) for (int l = 0; l < 2; l++) if (l == 0 || reg) want[l].push_back(n); pend.clear(); };
        for (int q = 0; q < 6; q++) { int o = r(5); x.step(); t += " " + std::to_string(o);
            if (o < 2) { d->dispatch(ev[o]); if (k == SAFE) pend.push_back(o); else { want[0].push_back(o); if (reg) want[1].push_back(o); } }
            else if (o == 2) flush();
            else if (o == 3) { if (reg) d->remove_listener(ls[1]); else d->add_listener(ls[1]); reg = !reg; }
            else ev[0] = std::make_shared<Ev>(0); }
        flush(); for (int l = 0; l < 2; l++) if (got[l] != want[l]) { x.violate("repeated", "%s: listener %d receives %zu events, %zu were dispatched (operations%s; 0 and 1 dispatch, 2 processes, 3 toggles the listener)", KN[k], l, got[l].size(), want[l].size(), t.c_str()); return; }
        x.state(seq::mix(k, seq::mix(want[0].size(), want[1].size())));
    }, nullptr, 20});
    return seq::run(argc, argv, "C05", s);
}
