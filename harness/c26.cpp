// C26: single producer / single consumer queue
#include "conc.hpp"
#include "trap_conc.hpp"
#include <vif/utility/time.hpp>
#include <vif/utility/thread.hpp>
using namespace vif;
static long alive = 0;
struct item {   // element whose construction, moves and destruction are visible
    int v; int* heap;
    item() : v(-1), heap(nullptr) {}
    explicit item(int i) : v(i), heap(new int(i)) {}
    item(item&& o) : v(o.v), heap(o.heap) { o.heap = nullptr; o.v = -2; }
    item& operator=(item&& o) { if (this != &o) { delete heap; v = o.v; heap = o.heap; o.heap = nullptr; o.v = -2; } return *this; }
    item(const item& o) : v(o.v), heap(o.heap ? new int(*o.heap) : nullptr) {}
    item& operator=(const item& o) { item t(o); return *this = std::move(t); }
    ~item() { delete heap; }
    int get() const { return heap ? *heap : -100 - v; }
};
struct shared_t { std::atomic<int> pushed{0}, popped{0}; std::atomic<bool> done{false}; };

// producer thread pushes n items; consumer (main) pops until it has them all (spinning), FIFO
CONC_SCENARIO(spsc_pop_all) {
    unsigned n = 1 + mc::choose(mc::thorough() ? 4 : 3);
    bool prod_main = mc::flip();
    auto body = [&]{
        thread::lock_free_queue<item> q;
        auto produce = [&]{ for (unsigned i = 0; i < n; ++i) q.push(item((int)i + 10)); };
        auto consume = [&]{
            unsigned got = 0;
            while (got < n) {
                item t;
                if (q.pop(t)) { MC_CHECK(t.get() == (int)got + 10, "popped ", t.get(), " instead of element ", got); ++got; }
            }
            item t; MC_CHECK(!q.pop(t), "popped more elements than were pushed");
            MC_CHECK(q.empty() && q.size() == 0, "queue not empty after everything was popped");
        };
        if (prod_main) { std::thread t(consume); produce(); t.join(); }
        else { std::thread t(produce); consume(); t.join(); }
        mc::outcome(n*2 + prod_main);
    };
    conc::run(mc::thorough() ? 8 : 5, body);
}
// consumer makes a fixed number of attempts while the producer pushes; size/empty bounds; what is left is still there, in order
CONC_SCENARIO(spsc_attempts) {
    unsigned n = 1 + mc::choose(3), k = 1 + mc::choose(3);
    unsigned pre = mc::choose(2);
    unsigned what = mc::choose(3);   // 0 pop only, 1 size before pop, 2 empty before pop
    auto body = [&]{
        thread::lock_free_queue<item> q; shared_t s;
        for (unsigned i = 0; i < pre; ++i) q.push(item(i));
        std::thread t([&]{ for (unsigned i = pre; i < pre + n; ++i) { q.push(item(i)); ++s.pushed; } });
        unsigned got = 0; std::uint64_t h = 0;
        for (unsigned j = 0; j < k; ++j) {
            int lo = (int)pre + s.pushed - (int)got; if (lo < 0) lo = 0;   // the counter lags behind the queue
            bool must = lo > 0;
            if (what == 1) {
                std::size_t z = q.size();
                MC_CHECK((int)z >= lo && z <= pre + n - got, "size() = ", z, " but at least ", lo, " and at most ", pre + n - got, " elements are queued");
                must = must || z > 0; h = mc::mix(h, z);
            } else if (what == 2) {
                bool e = q.empty(); MC_CHECK(!(e && lo > 0), "empty() with elements in the queue"); must = must || !e; h = mc::mix(h, e);
            }
            item x; bool ok = q.pop(x);
            MC_CHECK(ok || !must, "pop failed with elements in the queue");
            if (ok) { MC_CHECK(x.get() == (int)got, "popped ", x.get(), " instead of ", got); ++got; }
            MC_CHECK(got <= pre + n, "popped too many");
            h = mc::mix(h, ok);
        }
        t.join();
        MC_CHECK(q.size() == pre + n - got, "size ", q.size(), " after the end, expected ", pre + n - got);
        unsigned drain = mc::thorough() || (n + k) % 2;
        if (drain) while (got < pre + n) { item x; MC_CHECK(q.pop(x) && x.get() == (int)got, "wrong element ", got, " left: ", x.get()); ++got; }
        mc::outcome(h);
    };
    conc::run(mc::thorough() ? 8 : 5, body);
}
// consumer and producer threads separate from main, two phases on the same queue with clear in between
CONC_SCENARIO(spsc_phases) {
    unsigned n = 1 + mc::choose(2), m = mc::choose(3), p2 = 1 + mc::choose(2);
    bool clr = mc::flip();
    auto body = [&]{
        thread::lock_free_queue<item> q; unsigned got = 0;
        { std::thread a([&]{ for (unsigned i = 0; i < n; ++i) q.push(item(i)); });
          std::thread b([&]{ for (unsigned j = 0; j < m; ++j) { item x; if (q.pop(x)) { MC_CHECK(x.get() == (int)got, "wrong order"); ++got; } } });
          a.join(); b.join(); }
        MC_CHECK(q.size() == n - got, "size ", q.size());
        if (clr) { q.clear(); MC_CHECK(q.empty() && q.size() == 0, "not empty after clear"); item x; MC_CHECK(!q.pop(x), "pop after clear"); got = n; }
        { std::thread a([&]{ for (unsigned i = n; i < n + p2; ++i) q.push(item(i)); });
          unsigned c = n + p2;
          std::thread b([&]{ while (got < c) { item x; if (q.pop(x)) { MC_CHECK(x.get() == (int)got, "wrong order in second phase: ", x.get()); ++got; } } });
          a.join(); b.join(); }
        MC_CHECK(q.empty(), "not empty at the end");
        mc::outcome(got);
    };
    conc::run(mc::thorough() ? 5 : 3, body);
}
// all histories of one thread
CONC_SCENARIO(histories) {
    unsigned len = mc::thorough() ? 9 : 7; std::vector<int> ops;
    for (unsigned i = 0; i < len; ++i) { int o = mc::choose(5); ops.push_back(o); if (o == 4) break; }
    auto body = [&]{
        thread::lock_free_queue<item> q; std::deque<int> ref; int next = 0;
        for (int o : ops) {
            if (o == 0) { q.push(item(next)); ref.push_back(next++); }
            else if (o == 1) { item x; bool ok = q.pop(x); MC_CHECK(ok == !ref.empty(), "pop returned ", ok); if (ok) { MC_CHECK(x.get() == ref.front(), "popped ", x.get(), " expected ", ref.front()); ref.pop_front(); } }
            else if (o == 2) { q.clear(); ref.clear(); }
            else if (o == 3) { item l(next); q.push(l); MC_CHECK(l.get() == next, "pushing a named value modified it"); ref.push_back(next++); }
            MC_CHECK(q.size() == ref.size() && q.empty() == ref.empty(), "size ", q.size(), " expected ", ref.size());
        }
        mc::outcome(mc::mix(ref.size(), next));
    };
    conc::run(0, body);
}
