// C29: parallel_for
#include "conc.hpp"
#include "trap_conc.hpp"
#include <vif/utility/time.hpp>
#include <vif/utility/thread.hpp>
using namespace vif;
struct nb_t : std::streambuf { int overflow(int c) override { return c; } };

static void one(thread::parallel_for& pf, unsigned first, unsigned last, bool two_arg) {
    std::vector<int> hits(last + 4, 0);       // distinct elements written by different threads, read by main afterwards
    int low = 0;
    auto f = [&](uint_t i) { MC_CHECK(i >= first && i < last, "called with index ", i, " outside of [", first, ",", last, ")"); hits[i] += 1; };
    if (two_arg) pf.execute(f, last); else pf.execute(f, first, last);
    for (unsigned i = first; i < last; ++i) MC_CHECK(hits[i] == 1, "index ", i, " of [", first, ",", last, ") called ", hits[i], " times");
}
// every range, number of threads and chunk size: default schedule (and one deviation in the thorough tier)
CONC_SCENARIO(ranges) {
    unsigned nt = mc::choose(5), first = mc::pick({0u,1u,3u,10u}), n = mc::choose(mc::thorough() ? 24 : 15), chunk = mc::pick({0u,1u,2u,3u,5u,7u,100u});
    bool verbose = mc::flip(); bool two = first == 0 && mc::flip();
    auto body = [&]{
        thread::parallel_for pf(nt); pf.chunk_size = chunk; pf.verbose = verbose; pf.update_rate = 0.01; pf.progress_step = 1 + n % 2;
        MC_CHECK(pf.size() == nt, "size()");
        one(pf, first, first + n, two);
        mc::outcome(mc::mix(n*8+nt, chunk*16+first));
    };
    conc::run(mc::thorough() ? 2 : 1, body);
}
// all schedules
CONC_SCENARIO(schedules) {
    unsigned nt = 1 + mc::choose(3), first = mc::choose(2)*2, n = mc::choose(5), chunk = mc::choose(3); bool verbose = mc::flip();
    auto body = [&]{
        thread::parallel_for pf(nt); pf.chunk_size = chunk; pf.verbose = verbose;
        one(pf, first, first + n, false);
        mc::outcome(mc::mix(n*8+nt, chunk*16+first));
    };
    conc::run(nt <= 2 ? (mc::thorough() ? 6 : 4) : (mc::thorough() ? 4 : 3), body);
}
// the same object executes several loops
CONC_SCENARIO(reuse) {
    unsigned nt = mc::choose(3); unsigned a0 = mc::choose(3), an = mc::choose(4), b0 = mc::choose(3), bn = mc::choose(4), chunk = mc::choose(3);
    auto body = [&]{
        thread::parallel_for pf(nt); pf.chunk_size = chunk;
        one(pf, a0, a0 + an, false);
        one(pf, b0, b0 + bn, false);
        mc::outcome(mc::mix(an*8+nt, bn));
    };
    conc::run(mc::thorough() ? 2 : 1, body);
}
