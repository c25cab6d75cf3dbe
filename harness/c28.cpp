// C28: worker pool
#include "conc.hpp"
#include "trap_conc.hpp"
#include <vif/utility/time.hpp>
#include <vif/utility/thread.hpp>
using namespace vif;
struct task { int id; std::unique_ptr<int> p; task() : id(-1) {} explicit task(int i) : id(i), p(new int(i)) {} };
struct wsp_t { int base; int count; std::vector<int> seen; explicit wsp_t(int b, int c) : base(b), count(c) {} wsp_t(const wsp_t&) = delete; };

// items spread over the workers in turn; consume_all then join (or the destructor): all done exactly once
CONC_SCENARIO(no_workspace) {
    unsigned nt = 1 + mc::choose(mc::thorough() ? 3 : 2), n = mc::choose(4), how = mc::choose(3), rounds = 1 + mc::choose(2);
    auto body = [&]{
        std::vector<int> done(n*rounds + 1, 0); unsigned before = 0;
        std::vector<unsigned> who(n*rounds + 1, 0);
        {
            auto f = [&](task& t) { MC_CHECK(t.p && *t.p == t.id, "corrupt item"); done[t.id] += 1; who[t.id] = conc::self(); };
            thread::worker_pool<task> pool(nt, f);
            MC_CHECK(pool.size() == nt, "pool.size()");
            int id = 0;
            for (unsigned r = 0; r < rounds; ++r) {
                for (unsigned i = 0; i < n; ++i) { if (how == 2) { unsigned w = id % nt; pool.process(w, task(id)); } else pool.process(task(id)); ++id;
                    unsigned rem = pool.remaining(); MC_CHECK(rem <= id - before*0u, "remaining() = ", rem, " with ", id, " items given"); }
                pool.consume_all();
                MC_CHECK(pool.remaining() == 0, "remaining() = ", pool.remaining(), " after consume_all");
            }
            if (how != 1) { pool.join(); for (unsigned i = 0; i < n*rounds; ++i) MC_CHECK(done[i] == 1, "item ", i, " processed ", done[i], " times before join() returned"); }
        }
        for (unsigned i = 0; i < n*rounds; ++i) MC_CHECK(done[i] == 1, "item ", i, " processed ", done[i], " times");
        for (unsigned i = 0; i + nt < n*rounds; ++i) MC_CHECK(who[i] == who[i+nt], "items ", i, " and ", i+nt, " were not given to the same worker");
        for (unsigned i = 0; i < n*rounds; ++i) for (unsigned j = i+1; j < n*rounds && j < i+nt; ++j) MC_CHECK(who[i] != who[j], "items ", i, " and ", j, " were given to the same worker");
        mc::outcome(mc::mix(n, nt));
    };
    conc::run(nt == 1 ? (mc::thorough() ? 4 : 3) : nt == 2 ? (mc::thorough() ? 3 : 2) : 2, body);
}
// every worker has its own workspace and processes its items in the order given
CONC_SCENARIO(workspace) {
    unsigned nt = 1 + mc::choose(mc::thorough() ? 3 : 2), n = 1 + mc::choose(3); bool targeted = mc::flip();
    unsigned tgt = mc::choose(nt);
    auto body = [&]{
        std::vector<int> done(n + 1, 0);
        {
            auto f = [&](wsp_t& w, task& t) {
                MC_CHECK(w.base == 7 && w.count == (int)w.seen.size(), "workspace not initialised from the arguments or shared");
                w.count++; w.seen.push_back(t.id); done[t.id] += 1;
            };
            thread::worker_pool<task,wsp_t> pool(nt, f, 7, 0);
            for (unsigned i = 0; i < n; ++i) { if (targeted) pool.process(tgt, task(i)); else pool.process(task(i)); }
            pool.consume_all(); pool.join();
            unsigned tot = 0;
            for (unsigned k = 0; k < nt; ++k) {
                auto& s = pool.workers[k]->wsp.seen; tot += s.size();
                for (unsigned j = 0; j < s.size(); ++j) MC_CHECK(s[j] == (targeted ? (int)j : (int)(k + j*nt)), "worker ", k, " processed item ", s[j], " at position ", j);
                if (targeted && k != tgt) MC_CHECK(s.empty(), "item processed by a worker it was not given to");
            }
            MC_CHECK(tot == n, tot, " of ", n, " items processed");
        }
        for (unsigned i = 0; i < n; ++i) MC_CHECK(done[i] == 1, "item ", i, " processed ", done[i], " times");
        mc::outcome(mc::mix(n, nt*2+targeted));
    };
    conc::run(nt == 1 ? (mc::thorough() ? 5 : 4) : nt == 2 ? (mc::thorough() ? 3 : 2) : 2, body);
}
// join without consume_all: waits for what is running; nothing is processed twice, out of order, or after join() returned
CONC_SCENARIO(join_early) {
    unsigned nt = 1 + mc::choose(2), n = 1 + mc::choose(3);
    auto body = [&]{
        std::vector<int> done(n + 1, 0); std::atomic<bool> over(false);
        thread::worker_pool<task> pool(nt, [&](task& t) {
            MC_CHECK(!over, "item processed after join() returned");
            if (t.id >= (int)nt) MC_CHECK(done[t.id - nt] == 1, "item ", t.id, " processed before item ", t.id - nt, " of the same worker");
            done[t.id]++;
        });
        for (unsigned i = 0; i < n; ++i) pool.process(task(i));
        pool.join(); over = true;
        std::uint64_t h = nt;
        for (unsigned i = 0; i < n; ++i) { MC_CHECK(done[i] <= 1, "item ", i, " processed ", done[i], " times"); h = h*2 + done[i]; }
        pool.join();
        mc::outcome(h);
    };
    conc::run(mc::thorough() ? 4 : 3, body);
}
// a pool can be started, joined and started again; starting over ends the previous workers
CONC_SCENARIO(restart) {
    unsigned nt1 = mc::choose(3), nt2 = 1 + mc::choose(2), n = mc::choose(3); bool joined = mc::flip();
    auto body = [&]{
        std::vector<int> a(n+1, 0), b(n+1, 0);
        thread::worker_pool<task> pool;
        MC_CHECK(pool.size() == 0 && pool.remaining() == 0, "new pool is not empty");
        if (nt1) {
            pool.start(nt1, [&](task& t) { a[t.id]++; });
            for (unsigned i = 0; i < n; ++i) pool.process(task(i));
            pool.consume_all();
            if (joined) { pool.join(); for (unsigned i = 0; i < n; ++i) MC_CHECK(a[i] == 1, "item ", i, " processed ", a[i], " times"); }
        } else { pool.join(); pool.consume_all(); }
        pool.start(nt2, [&](task& t) { b[t.id]++; });
        MC_CHECK(pool.size() == nt2, "pool.size() after restart");
        for (unsigned i = 0; i < n; ++i) MC_CHECK(nt1 == 0 || a[i] == 1, "item ", i, " processed ", a[i], " times by the first workers");
        for (unsigned i = 0; i < n; ++i) pool.process(task(i));
        pool.consume_all(); pool.join();
        for (unsigned i = 0; i < n; ++i) MC_CHECK(b[i] == 1, "item ", i, " processed ", b[i], " times after the restart");
        mc::outcome(mc::mix(n, nt1*4+nt2));
    };
    conc::run(mc::thorough() ? 2 : 1, body);
}
