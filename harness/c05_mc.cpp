// C05 (concurrent part): one dispatcher used from several threads, all
// interleavings.
#include <condition_variable>
#include <mutex>
#include <thread>
#include "mc_stubs.hpp"
#include "seq.hpp"
using namespace ldaplusplus::events;

struct Ev : Event { int n; explicit Ev(int n) : Event("Ev"), n(n) {} };
enum { MAXE = 16 };
struct Rec : EventListenerInterface {
    int got[MAXE] = {}; int order[64]; int n = 0, id; std::function<void(int)> act; bool only_main = false; int owner = 0;
    explicit Rec(int id) : id(id) {}
    void on_event(std::shared_ptr<Event> e) override {
        int k = static_cast<Ev *>(e.get())->n;
        { mc::Quiet q; if (only_main && mc::self() != owner) mc::fail("thread", "listener called on thread %d, the dispatcher belongs to thread %d", mc::self(), owner);
          if (k < 0 || k >= MAXE) mc::fail("foreign", "unknown event"); if (got[k]++) mc::fail("twice", "listener %d receives event %d twice", id, k); if (n < 64) order[n++] = k; mc::touch(this); }
        if (act) act(k);
    }
    void expect(std::initializer_list<int> all) { mc::Quiet q; int c = 0; for (int k : all) { c++; if (got[k] != 1) mc::fail("missed", "listener %d never receives event %d", id, k); } if (n != c) mc::fail("extra", "listener %d receives %d events instead of %d", id, n, c); uint64_t h = id; for (int i = 0; i < n; i++) h = seq::mix(h, order[i]); mc::outcome(h); }
    void ordered(int a, int b) { mc::Quiet q; int pa = -1, pb = -1; for (int i = 0; i < n; i++) { if (order[i] == a) pa = i; if (order[i] == b) pb = i; } if (pa >= 0 && pb >= 0 && pa > pb) mc::fail("order", "listener %d receives event %d before %d of the same thread", id, b, a); }
    bool has(int k) { mc::Quiet q; return got[k]; }
};
typedef std::shared_ptr<Rec> R;
static R rec(int id) { return std::make_shared<Rec>(id); }
template <class D> static void send(D &d, int n) { d.dispatch(std::make_shared<Ev>(n)); }

int main(int argc, char **argv) {
    bool th = seq::thorough(argc, argv); std::vector<mc::Scenario> s;
    auto add = [&](const char *n, int pb, std::function<void()> b) { s.push_back({std::string(n) + (pb < 0 ? "-all" : "-p" + std::to_string(pb)), b, pb, 0, true, true}); };
    int P = -1;
    add("safe-dispatch-vs-process", -1, [] {
        ThreadSafeEventDispatcher d; R a = rec(0), b = rec(1); d.add_listener(a); d.add_listener(b);
        std::thread t([&] { send(d, 1); send(d, 2); }); d.process_events(); send(d, 3); d.process_events(); t.join(); d.process_events();
        a->expect({1, 2, 3}); b->expect({1, 2, 3}); a->ordered(1, 2); b->ordered(1, 2); });
    add("safe-two-dispatchers", P, [] {
        ThreadSafeEventDispatcher d; R a = rec(0); d.add_listener(a);
        std::thread t([&] { send(d, 1); send(d, 2); }), u([&] { send(d, 3); send(d, 4); }); d.process_events(); d.process_events(); t.join(); u.join(); d.process_events();
        a->expect({1, 2, 3, 4}); a->ordered(1, 2); a->ordered(3, 4); });
    add("safe-two-processors", -1, [] {
        ThreadSafeEventDispatcher d; R a = rec(0); d.add_listener(a); send(d, 1); send(d, 2);
        std::thread t([&] { d.process_events(); }); d.process_events(); t.join(); d.process_events(); a->expect({1, 2}); });
    add("safe-remove-vs-process", -1, [] {
        ThreadSafeEventDispatcher d; R a = rec(0), b = rec(1); d.add_listener(a); d.add_listener(b); send(d, 1);
        std::thread t([&] { d.remove_listener(b); }); d.process_events(); t.join(); send(d, 2); d.process_events();
        a->expect({1, 2}); if (b->has(2)) mc::fail("removed", "removed listener receives a later event"); });
    add("safe-remove-then-dispatch", -1, [] {
        ThreadSafeEventDispatcher d; R a = rec(0), b = rec(1); d.add_listener(b); d.add_listener(a); send(d, 1);
        std::thread t([&] { d.remove_listener(b); send(d, 2); }); d.process_events(); d.process_events(); t.join(); d.process_events();
        a->expect({1, 2}); if (b->has(2)) mc::fail("removed", "listener receives an event dispatched after its removal"); });
    add("safe-add-vs-process", -1, [] {
        ThreadSafeEventDispatcher d; R a = rec(0), b = rec(1); d.add_listener(a); send(d, 1);
        std::thread t([&] { d.add_listener(b); send(d, 2); }); d.process_events(); d.process_events(); t.join(); send(d, 3); d.process_events();
        a->expect({1, 2, 3}); if (!b->has(2) || !b->has(3)) mc::fail("missed", "listener misses an event dispatched after it was added"); });
    add("safe-readd", P, [] {
        ThreadSafeEventDispatcher d; R a = rec(0); d.add_listener(a);
        std::thread t([&] { d.remove_listener(a); d.add_listener(a); send(d, 2); }); send(d, 1); d.process_events(); t.join(); d.process_events();
        if (!a->has(2)) mc::fail("missed", "listener misses an event dispatched after it was added again"); });
    add("safe-add-add-remove", P, [] {
        ThreadSafeEventDispatcher d; R a = rec(0), b = rec(1), c = rec(2); d.add_listener(c);
        std::thread t([&] { d.add_listener(a); d.remove_listener(c); }), u([&] { d.add_listener(b); }); t.join(); u.join(); send(d, 1); d.process_events();
        a->expect({1}); b->expect({1}); if (c->n) mc::fail("removed", "removed listener called"); });
    add("safe-reentrant", P, [] {
        ThreadSafeEventDispatcher d; R a = rec(0), b = rec(1); d.add_listener(a);
        a->act = [&](int k) { if (k == 1) { d.add_listener(b); send(d, 5); } if (k == 2) d.remove_listener(b); };
        std::thread t([&] { send(d, 1); send(d, 2); send(d, 3); }); d.process_events(); t.join(); d.process_events(); d.process_events(); d.process_events();
        a->expect({1, 2, 3, 5}); a->ordered(1, 2); a->ordered(2, 3); if (b->has(3)) mc::fail("removed", "listener removed while event 2 was handled receives event 3"); });
    add("same-worker-vs-owner", -1, [] {
        SameThreadEventDispatcher d; R a = rec(0); a->only_main = true; d.add_listener(a);
        std::thread t([&] { send(d, 1); send(d, 2); }); send(d, 3); if (!a->has(3)) mc::fail("immediate", "event dispatched by the owner is not delivered immediately");
        d.process_events(); t.join(); d.process_events(); a->expect({1, 2, 3}); a->ordered(1, 2); });
    add("same-two-workers", P, [] {
        SameThreadEventDispatcher d; R a = rec(0), b = rec(1); a->only_main = b->only_main = true; d.add_listener(a); d.add_listener(b);
        std::thread t([&] { send(d, 1); }), u([&] { send(d, 2); }); d.process_events(); t.join(); u.join(); send(d, 3); a->expect({1, 2, 3}); b->expect({1, 2, 3}); });
    add("same-owner-order", -1, [] {
        SameThreadEventDispatcher d; R a = rec(0); a->only_main = true; d.add_listener(a);
        std::thread t([&] { send(d, 1); }); t.join(); send(d, 2); a->expect({1, 2}); a->ordered(1, 2); });
    add("same-reentrant", P, [] {
        SameThreadEventDispatcher d; R a = rec(0), b = rec(1); a->only_main = b->only_main = true; d.add_listener(a); d.add_listener(b);
        a->act = [&](int k) { if (k == 1) send(d, 5); if (k == 2) d.remove_listener(b); };
        std::thread t([&] { send(d, 1); }), u([&] { send(d, 2); }); d.process_events(); d.process_events(); t.join(); u.join(); d.process_events(); d.process_events(); send(d, 3);
        a->expect({1, 2, 3, 5}); if (b->has(3)) mc::fail("removed", "removed listener receives a later event"); });
    // the plain dispatcher shared by workers, as the composed expectation steps do
    // made on a second thread: that thread's events go out at once, those of the first wait for it
    add("same-made-elsewhere", -1, [] {
        R a = rec(0); a->only_main = true; a->owner = 1; std::shared_ptr<SameThreadEventDispatcher> d; bool ready = false; std::mutex m; std::condition_variable cv;
        std::thread t([&] { { std::lock_guard<std::mutex> l(m); d = std::make_shared<SameThreadEventDispatcher>(); d->add_listener(a); ready = true; } cv.notify_one();
            send(*d, 1); if (!a->has(1)) mc::fail("at-once", "an event dispatched on the thread that made the dispatcher is not delivered at once"); send(*d, 2); if (!a->has(2)) mc::fail("at-once", "an event dispatched on the thread that made the dispatcher is not delivered at once");
            std::unique_lock<std::mutex> l(m); cv.wait(l, [&] { return !ready; }); l.unlock(); d->process_events(); });
        { std::unique_lock<std::mutex> l(m); cv.wait(l, [&] { return ready; }); } send(*d, 3); { std::lock_guard<std::mutex> l(m); ready = false; } cv.notify_one(); t.join(); a->expect({1, 2, 3}); a->ordered(1, 2); });
    add("plain-concurrent-dispatch", -1, [] {
        EventDispatcher d; SameThreadEventDispatcher o; R a = rec(0); a->only_main = true; o.add_listener(a);
        d.EventDispatcherInterface::add_listener([&](std::shared_ptr<Event> e) { o.dispatch(e); });
        std::thread t([&] { send(d, 1); }), u([&] { send(d, 2); }); o.process_events(); t.join(); u.join(); o.process_events(); a->expect({1, 2}); });
    return mc::run(argc, argv, "C05", s);
}
