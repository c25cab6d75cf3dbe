// Controlled-scheduler exploration of multi-threaded code (stateless model checking).
// The harness is compiled with -fsanitize=thread but linked with conc_rt.cpp instead of libtsan: every
// std::thread becomes a fiber, every atomic/mutex/condition/thread/sleep operation a scheduling point,
// every plain memory access is checked for data races (happens-before) and use after free.
#ifndef CONC_HPP
#define CONC_HPP
#include "mc.hpp"
namespace conc {
    // Run `body` as the main thread of a program, under the scheduler.  `bound`: maximum number of
    // deviations from the deterministic default schedule (run until blocked/spinning, then the next).
    void run(unsigned bound, void (*body)(void*), void* data);
    template<typename F> void run(unsigned bound, F& f) { run(bound, [](void* p) { (*static_cast<F*>(p))(); }, &f); }
    [[noreturn]] void fail(const std::string& msg);
    unsigned self();                 // identity of the running thread (0: main)
    std::size_t live_blocks();       // heap blocks allocated by the program and not freed
    void expect_no_leak(bool b);     // check at the end of the run (default: true)
    struct quiet { quiet(); ~quiet(); };   // allocations of the harness itself
}
#undef MC_FAIL
#undef MC_CHECK
#define MC_FAIL(...) conc::fail(mc::str(__VA_ARGS__))
#define MC_CHECK(c, ...) do { if (!(c)) conc::fail(mc::str(__VA_ARGS__)); } while (0)
[[noreturn]] inline void conc_exit_hook_() { conc::fail("the library terminated the program"); }
namespace std { [[noreturn]] inline void conc_exit_hook_() { conc::fail("the library terminated the program"); } }
#define CONC_SCENARIO(name) MC_SCENARIO_S(name, 0xffffu)
#endif
