// Bounded exhaustive exploration of nondeterministic C++ harnesses ("stateless model checking" of a
// closed program).  A harness body asks mc::choose(n) for every nondeterministic decision; the engine
// enumerates ALL choice sequences depth-first, re-executing the body on the real code for each one.
// Every rejection by the library (vif_check -> exit, or an exception) is turned into an observable
// outcome; memory errors (ASan), crashes and hangs are attributed to the choice sequence running.
#ifndef MC_HPP
#define MC_HPP
#include <algorithm>
#include <array>
#include <atomic>
#include <cmath>
#include <complex>
#include <condition_variable>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <exception>
#include <fstream>
#include <functional>
#include <iomanip>
#include <iostream>
#include <iterator>
#include <limits>
#include <list>
#include <locale>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <random>
#include <regex>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <thread>
#include <tuple>
#include <type_traits>
#include <typeinfo>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <valarray>
#include <vector>
#include <chrono>
#include <cctype>
#include <cassert>
#include <csignal>
#include <ctime>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <glob.h>
#include <regex.h>
#include <signal.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <unistd.h>
#include <sys/time.h>

namespace mc {
    // Thrown when the library rejects (what would have been exit(EXIT_FAILURE) in a vif program)
    struct rejected {};
    // Thrown by the harness when the property is violated
    struct violation { std::string msg; };
    // Internal: prune this execution
    struct pruned {};
    // Thrown by the harness to drop a branch whose assumption does not hold
    struct skip {};
    inline void assume(bool b) { if (!b) throw skip{}; }

    [[noreturn]] inline void reject() { throw rejected{}; }

    // ---- harness API -------------------------------------------------------------------------
    unsigned choose(unsigned n);             // nondeterministic value in [0,n)
    inline bool flip() { return choose(2) == 1; }
    template<typename T> const T& pick(const std::vector<T>& v) { return v[choose((unsigned)v.size())]; }
    template<typename T> T pick(std::initializer_list<T> v) { return *(v.begin() + choose((unsigned)v.size())); }
    bool thorough();                         // thorough tier?
    void op(unsigned n = 1);                 // n operations of the real code were executed and compared
    void rejection();                        // a rejection outcome was observed (statistics)
    void outcome(std::uint64_t h);           // an observed outcome (distinct ones are counted)
    bool verbose();
    void logs(const std::string& s);
    [[noreturn]] inline void fail(const std::string& msg) { throw violation{msg}; }

    inline std::uint64_t mix(std::uint64_t h, std::uint64_t v) {
        h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
        h *= 0xff51afd7ed558ccdull; h ^= h >> 33; return h;
    }
    inline std::uint64_t hash_str(const std::string& s) {
        std::uint64_t h = 1469598103934665603ull;
        for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
        return h;
    }

    // Minimal printing (independent from the library under test)
    template<typename T> struct show_ { static void run(std::ostream& o, const T& t) { o << t; } };
    template<> struct show_<bool> { static void run(std::ostream& o, const bool& t) { o << (t ? "true" : "false"); } };
    template<> struct show_<double> { static void run(std::ostream& o, const double& t) { o << std::setprecision(17) << t; } };
    template<> struct show_<std::string> {
        static void run(std::ostream& o, const std::string& t) {
            o << '"';
            for (unsigned char c : t) {
                if (c < 32 || c >= 127) { char b[8]; snprintf(b, 8, "\\x%02x", c); o << b; } else o << c;
            }
            o << '"';
        }
    };
    template<typename T> struct show_<std::vector<T>> {
        static void run(std::ostream& o, const std::vector<T>& v) {
            o << '{'; for (std::size_t i = 0; i < v.size(); ++i) { if (i) o << ','; show_<T>::run(o, v[i]); } o << '}';
        }
    };
    template<typename T, std::size_t N> struct show_<std::array<T,N>> {
        static void run(std::ostream& o, const std::array<T,N>& v) {
            o << '['; for (std::size_t i = 0; i < v.size(); ++i) { if (i) o << ','; show_<T>::run(o, v[i]); } o << ']';
        }
    };
    template<typename T, typename U> struct show_<std::pair<T,U>> {
        static void run(std::ostream& o, const std::pair<T,U>& v) {
            o << '('; show_<T>::run(o, v.first); o << ','; show_<U>::run(o, v.second); o << ')';
        }
    };
    inline void cat_(std::ostream&) {}
    template<typename T, typename... A> void cat_(std::ostream& o, const T& t, const A&... a) {
        show_<typename std::decay<T>::type>::run(o, t); cat_(o, a...);
    }
    struct raw { std::string s; };
    template<> struct show_<raw> { static void run(std::ostream& o, const raw& r) { o << r.s; } };
    template<> struct show_<const char*> { static void run(std::ostream& o, const char* const& r) { o << r; } };
    template<> struct show_<char*> { static void run(std::ostream& o, const char* r) { o << r; } };
    template<typename... A> std::string str(const A&... a) { std::ostringstream o; cat_(o, a...); return o.str(); }

    #define MC_LOG(...) do { if (mc::verbose()) mc::logs(mc::str(__VA_ARGS__)); } while (0)
    #define MC_FAIL(...) mc::fail(mc::str(__VA_ARGS__))
    #define MC_CHECK(c, ...) do { if (!(c)) mc::fail(mc::str(__VA_ARGS__)); } while (0)

    // Run f; returns true if it completed, false if the library rejected (exit or exception).
    template<typename F> bool attempt(F&& f) {
        op();
        try { f(); return true; }
        catch (violation&) { throw; }
        catch (pruned&) { throw; }
        catch (skip&) { throw; }
        catch (...) { rejection(); return false; }
    }

    // equality that treats NaN == NaN (and distinguishes nothing else)
    template<typename T> bool same(const T& a, const T& b) { return a == b || (a != a && b != b); }
    inline bool near(double a, double b, double tol = 1e-9) {
        if (a != a || b != b) return a != a && b != b;
        if (a == b) return true;
        return std::fabs(a - b) <= tol*(1.0 + std::max(std::fabs(a), std::fabs(b)));
    }

    struct scenario { const char* name; void (*body)(); unsigned split; };
    struct registrar { registrar(const char* name, void (*body)(), unsigned split); };
    #define MC_CAT2(a,b) a##b
    #define MC_CAT(a,b) MC_CAT2(a,b)
    // split: number of leading choices that define a work unit for the parallel exploration
    #define MC_SCENARIO_S(name, split) static void name(); static mc::registrar MC_CAT(reg_,name)(#name, &name, split); static void name()
    #define MC_SCENARIO(name) MC_SCENARIO_S(name, 2)
}

namespace std {
    [[noreturn]] inline void mc_exit_hook_(int) { mc::reject(); }
    [[noreturn]] inline void mc_abort_hook_() { mc::reject(); }
}
[[noreturn]] inline void mc_exit_hook_(int) { mc::reject(); }
[[noreturn]] inline void mc_abort_hook_() { mc::reject(); }
#endif
