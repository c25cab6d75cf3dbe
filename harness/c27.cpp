// C27: background worker executing jobs in order
#include "conc.hpp"
#include "trap_conc.hpp"
#include <vif/utility/time.hpp>
#include <vif/utility/thread.hpp>
using namespace vif;

// rounds of pushing jobs (at any moment relative to the worker) and waiting
CONC_SCENARIO(push_wait) {
    unsigned rounds = 1 + mc::choose(2);
    unsigned n[2]; for (unsigned r = 0; r < rounds; ++r) n[r] = mc::choose(4);
    bool explicit_wait = mc::flip();   // last round: wait() or the destructor
    auto body = [&]{
        int log[16]; int nlog = 0; int next = 0;     // written by the worker thread, read by main after waiting: ordered, no race
        {
            thread::worker w;
            for (unsigned r = 0; r < rounds; ++r) {
                for (unsigned i = 0; i < n[r]; ++i) { int id = next++; w.push([&log, &nlog, id]() { log[nlog++] = id; }); }
                if (r + 1 < rounds || explicit_wait) {
                    w.wait();
                    MC_CHECK(nlog == next, "wait() returned with ", nlog, " of ", next, " jobs done");
                }
            }
            if (explicit_wait) w.wait();  // waiting again is harmless
        }
        MC_CHECK(nlog == next, nlog, " of ", next, " jobs executed");
        for (int i = 0; i < nlog; ++i) MC_CHECK(log[i] == i, "jobs executed out of order: ", log[i], " at position ", i);
        mc::outcome(nlog);
    };
    conc::run(mc::thorough() ? 6 : 4, body);
}
// jobs with owned state: every captured object is destroyed exactly once, results visible after wait
CONC_SCENARIO(job_state) {
    unsigned n = 1 + mc::choose(3); bool two = mc::flip();
    auto body = [&]{
        std::vector<std::unique_ptr<int>> res(n*2); auto sp = std::make_shared<int>(5);
        {
            thread::worker w; std::unique_ptr<thread::worker> w2; if (two) w2.reset(new thread::worker);
            for (unsigned i = 0; i < n; ++i) {
                w.push([sp, i, &res]() { res[i].reset(new int(*sp + i)); });
                if (two) w2->push([sp, i, n, &res]() { res[n+i].reset(new int(*sp + i)); });
            }
            w.wait();
            for (unsigned i = 0; i < n; ++i) MC_CHECK(res[i] && *res[i] == 5 + (int)i, "result of job ", i, " is missing after wait()");
        }
        for (unsigned i = 0; i < n && two; ++i) MC_CHECK(res[n+i] && *res[n+i] == 5 + (int)i, "result of job ", i, " of the second worker is missing");
        MC_CHECK(sp.use_count() == 1, "jobs are still alive: ", sp.use_count());
        mc::outcome(n*2 + two);
    };
    conc::run(two ? (mc::thorough() ? 4 : 3) : (mc::thorough() ? 6 : 4), body);
}
