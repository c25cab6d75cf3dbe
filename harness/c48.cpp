// C48: progress bars, durations and dates (vif/utility/time.hpp), with a clock controlled by the harness.
#include "vifref.hpp"
#include <vif/utility/time.hpp>
#include <sys/syscall.h>
#include <sys/time.h>
#include <unistd.h>
#include <ctime>
#include <cmath>
#include <sstream>
using namespace vr;
using L = long long;
// the clock: the real one, or the time chosen by the scenario
static bool fake = false; static L fake_ns = 0;
extern "C" int clock_gettime(clockid_t c, struct timespec* t) noexcept { if (!fake) return syscall(SYS_clock_gettime, c, t); t->tv_sec = fake_ns/1000000000; t->tv_nsec = fake_ns%1000000000; return 0; }
extern "C" time_t time(time_t* p) noexcept { timespec t; clock_gettime(CLOCK_REALTIME, &t); if (p) *p = t.tv_sec; return t.tv_sec; }
extern "C" int gettimeofday(struct timeval* v, void*) noexcept { timespec t; clock_gettime(CLOCK_REALTIME, &t); v->tv_sec = t.tv_sec; v->tv_usec = t.tv_nsec/1000; return 0; }
struct Clock { Clock() { fake = true; fake_ns = 1500000000LL*1000000000; } ~Clock() { fake = false; } };
struct Capture { std::ostringstream s; std::streambuf* old; Capture() : old(std::cout.rdbuf(s.rdbuf())) {} ~Capture() { std::cout.rdbuf(old); } std::string take() { auto r = s.str(); s.str(""); return r; } };
// reads a sequence of numbers with units, which must appear at most once and in decreasing order
static bool parse(const std::string& s, std::vector<std::pair<std::string,double>> units, double& v, std::string& last) {
    sz i = 0, u = 0; v = 0; if (s.empty()) return false;
    while (i < s.size()) { sz b = i; while (i < s.size() && isdigit((unsigned char)s[i])) ++i; if (i == b) return false; double x = std::stod(s.substr(b, i - b)); b = i; while (i < s.size() && isalpha((unsigned char)s[i])) ++i; last = s.substr(b, i - b); while (u < units.size() && units[u].first != last) ++u; if (u == units.size()) return false; v += x*units[u].second; ++u; }
    return true;
}
static bool read_time(const std::string& s, double& v, std::string& last) { if (s.size() > 2 && (s.substr(s.size()-2) == "ms" || s.substr(s.size()-2) == "us" || s.substr(s.size()-2) == "ns")) { std::vector<std::pair<std::string,double>> u = {{"ms", 1e-3}, {"us", 1e-6}, {"ns", 1e-9}}; return parse(s, u, v, last); } return parse(s, {{"d", 86400}, {"h", 3600}, {"m", 60}, {"s", 1}}, v, last); }
// does the string stand for this duration, within the resolution of the format?
static bool stands_for(const std::string& s, double t) { double v; std::string u; if (!read_time(s, v, u)) return false; if (t >= 1) return (u == "s" || u == "m" || u == "h" || u == "d") && std::fabs(v - t) <= 1 + 1e-6; double unit = u == "ms" ? 1e-3 : u == "us" ? 1e-6 : u == "ns" ? 1e-9 : 1; return u != "s" && std::fabs(v - t) <= 0.5001*unit && (unit < 1e-8 || unit <= t*1.001); }
template<typename F> static void durations_(F f) {
    static const std::vector<L> D = {0, 1, 2}, H = {0, 1, 9, 10, 23}, M = {0, 1, 9, 10, 59}; L d = mc::pick(D), h = mc::pick(H), m = mc::pick(M), s = mc::pick(M); double fr = mc::pick({0.0, 0.25, 0.999}); if (d == 2 && mc::flip()) d = 1234567; f(d, h, m, s, fr);
}
MC_SCENARIO_S(long_durations, 2) { durations_([](L d, L h, L m, L s, double fr) {
    L n = ((d*24 + h)*60 + m)*60 + s; double t = n + fr; mc::assume(n > 0); MC_LOG(d, " days ", h, " hours ", m, " minutes ", s + fr, " seconds"); std::string g = vif::time_str(t), u; double v; MC_CHECK(read_time(g, v, u) && v == double(n), "time_str(", t, ") is ", g);
    MC_CHECK(vif::time_str(n) == vif::time_str(double(n)), "time_str of an integer is ", vif::time_str(n));
    // the documented digits: two for each component but the first, which is the first that is not zero
    for (sz i = 0, b = 0, k = 0; i < g.size(); ++i) if (!isdigit((unsigned char)g[i])) { MC_CHECK(k == 0 ? g[b] != '0' : i - b == 2, "malformed time ", g); b = i + 1; ++k; } mc::op(3); mc::outcome(mc::hash_str(g));
}); }
MC_SCENARIO(short_durations) {
    double x = mc::pick({1.0, 1.5, 3.0, 4.9, 9.0, 9.99}); int e = -1 - int(mc::choose(mc::thorough() ? 12 : 10)); double t = x*std::pow(10.0, e); MC_LOG(t, " seconds"); std::string s = vif::time_str(t); MC_CHECK(stands_for(s, t), "time_str(", t, ") is ", s); mc::op(); mc::outcome(mc::hash_str(s));
}
MC_SCENARIO(zero_duration) { Clock c; std::string s = vif::time_str(0.0), u; double v; MC_CHECK(read_time(s, v, u) && v == 0, "time_str(0) is ", s); s = vif::seconds_str(0.0); MC_CHECK(s == "0ns", "seconds_str(0) is ", s); mc::op(2); }
MC_SCENARIO_S(seconds, 2) {
    static const std::vector<L> A = {0, 1, 9, 10, 99, 100, 199, 999}; L s = mc::pick({0ll, 1ll, 15ll, 60ll, 3601ll, 100000ll}), ms = mc::pick(A), us = mc::pick(A), ns = mc::pick(A); double t = s + ms*1e-3 + us*1e-6 + ns*1e-9; MC_LOG(s, " s ", ms, " ms ", us, " us ", ns, " ns"); std::string g = vif::seconds_str(t), u; double v;
    MC_CHECK(parse(g, {{"s", 1}, {"ms", 1e-3}, {"us", 1e-6}, {"ns", 1e-9}}, v, u) && u == "ns", "seconds_str(", t, ") is ", g); MC_CHECK(std::fabs(v - t) <= 1.001e-9 + 1e-15*t, "seconds_str(", t, ") is ", g);
    for (sz i = 0, b = 0, k = 0; i < g.size();) { while (i < g.size() && isdigit((unsigned char)g[i])) ++i; MC_CHECK(k == 0 ? (g[b] != '0' || g == "0ns") : i - b == 3, "malformed duration ", g); while (i < g.size() && !isdigit((unsigned char)g[i])) ++i; b = i; ++k; } mc::op(); mc::outcome(mc::hash_str(g));
}
MC_SCENARIO_S(dates, 1) {
    setenv("TZ", "UTC", 1); tzset(); L year = mc::pick({1970ll, 1999ll, 2000ll, 2015ll, 2016ll, 2026ll, 2099ll, 2100ll}); Clock c; L days = 0; auto leap = [](L y) { return (y%4 == 0 && y%100 != 0) || y%400 == 0; }; for (L y = 1970; y < year; ++y) days += leap(y) ? 366 : 365; std::string prev;
    for (int m = 1; m <= 12; ++m) { int n = m == 2 ? (leap(year) ? 29 : 28) : (m == 4 || m == 6 || m == 9 || m == 11) ? 30 : 31; for (int d = 1; d <= n; ++d, ++days) for (L s : {0ll, 43200ll, 86399ll}) { fake_ns = (days*86400 + s)*1000000000 + 999999; char e[16]; snprintf(e, sizeof(e), "%04d%02d%02d", int(year), m, d); std::string g = vif::today(); MC_LOG(e); MC_CHECK(g == e, "today() is ", g, " instead of ", e); mc::op(); } }
    mc::outcome(days);
}
MC_SCENARIO(clock_) {
    Clock c; L us = mc::pick({0ll, 1ll, 999999ll, 1000000ll, 3600000001ll, 86400000000ll}); MC_LOG(us, " us later"); double a = vif::now(); fake_ns += us*1000; double b = vif::now(); MC_CHECK(std::fabs((b - a) - us*1e-6) < 1e-6, "now() advanced by ", b - a);
    L n = 0; double t = vif::profile([&]() { ++n; fake_ns += us*1000; }); MC_CHECK(n == 1 && std::fabs(t - us*1e-6) < 1e-6, "profile ran ", n, " times and measured ", t); vif::uint_t k = mc::choose(4); n = 0; t = vif::profile([&]() { ++n; fake_ns += us*1000; }, k); MC_CHECK(n == L(k) && std::fabs(t - k*us*1e-6) < 1e-6, "profile of ", k, " calls ran ", n, " times and measured ", t); mc::op(4);
}
// judges what one call printed: nothing, or a bar for 'i' iterations out of 'n'; 'end' when the bar is over
struct Bar { sz n; L start; sz longest = 0; bool done = false; };
static void judge(Bar& b, std::string s, bool printed, sz i, bool end, const char* what) {
    if (!printed && !end) { MC_CHECK(s.empty(), what, " printed '", s, "'"); return; }
    MC_CHECK(!s.empty(), what, " printed nothing"); MC_CHECK((s.back() == '\n') == end, what, end ? " did not end the line: " : " ended the line: ", s); if (end) s.pop_back(); MC_CHECK(!s.empty() && s[0] == '\r', what, " does not go back to the start of the line: ", s); sz k = s.rfind('\r'); s = s.substr(k + 1); MC_CHECK(s.find('\n') == s.npos, what, " printed several lines: ", s);
    sz nd = vif::progress_ndash; MC_CHECK(s.size() > nd + 2 && s[0] == '[' && s[nd+1] == ']', what, " printed the bar ", s); std::string bar = s.substr(1, nd); sz e = nd*i/b.n; MC_CHECK(bar == std::string(e, '-') + std::string(nd - e, ' '), what, " printed the bar ", s, " after ", i, " of ", b.n); MC_CHECK(s.size() >= b.longest, what, " leaves characters of the previous bar"); b.longest = std::max(b.longest, s.size());
    std::istringstream in(s.substr(nd + 2)); std::string c, p, t1, w1, t2, w2, t3, w3, more; in >> c >> p >> t1 >> w1 >> t2 >> w2 >> t3 >> w3; MC_CHECK(!(in >> more), what, " printed more: ", s); MC_CHECK(w1 == "elapsed," && w2 == "left," && w3 == "total", what, " printed ", s);
    MC_CHECK(c == std::to_string(i), what, " printed iteration ", c, " instead of ", i); MC_CHECK(p == std::to_string(100*i/b.n) + "%,", what, " printed ", p, " after ", i, " of ", b.n); double el = (fake_ns - b.start)*1e-9, tot = el*b.n/i, left = tot - el; double err = 2e-6*b.n/i + 1e-9*tot; auto same = [&](const std::string& s, double t) { double v; std::string u; if (!read_time(s, v, u)) return false; if (u != "ms" && u != "us" && u != "ns") return t + err >= 1 && std::fabs(v - t) <= 1 + err; double unit = u == "ms" ? 1e-3 : u == "us" ? 1e-6 : 1e-9; return t - err < 1 && std::fabs(v - t) <= 0.5001*unit + err && (unit < 1e-8 || unit <= t*1.001 + err); };
    MC_CHECK(same(t1, el), what, " printed elapsed time ", t1, " instead of ", el); MC_CHECK(same(t2, left), what, " printed remaining time ", t2, " instead of ", left); MC_CHECK(same(t3, tot), what, " printed total time ", t3, " instead of ", tot); mc::outcome(mc::hash_str(s));
}
MC_SCENARIO_S(progress_, 2) {
    static const std::vector<sz> N = {0, 1, 2, 3, 9, 10, 11, 31, 32, 33, 64, 100, 101}; sz n = mc::pick(N), mod = mc::pick({1, 2, 3, 7, 13, 200}); L dt = mc::pick({0ll, 3000000ll, 150000000ll, 2000000000ll, 90000000000ll}), jump = mc::flip() ? 100000000000ll : 0; Clock c; Capture o; MC_LOG("progress of ", n, " iterations of ", dt*1e-9, " s, printed every ", mod);
    auto p = vif::progress_start(n); Bar b{n, fake_ns}; for (sz i = 0; i < n; ++i) { fake_ns += dt; if (i == n/2) fake_ns += jump; if (mod == 1 && i % 2) vif::progress(p); else vif::progress(p, mod); judge(b, o.take(), i % mod == 0 || i + 1 == n, i + 1, i + 1 == n, "progress"); mc::op(); }
    for (int k = 0; k < 2; ++k) { vif::progress(p, mod); auto s = o.take(); MC_CHECK(s.find_first_not_of("\r\n ") == s.npos, "printed ", s, " after the end"); if (n != 0) MC_CHECK(s.empty(), "printed an empty line after the end"); }
}
MC_SCENARIO_S(progress_tick_, 2) {
    static const std::vector<sz> N = {0, 1, 2, 3, 9, 10, 11, 31, 32, 33, 64, 100, 101}; sz n = mc::pick(N); L dt = mc::pick({1000000ll, 125000000ll, 2000000000ll}); double tick = mc::pick({0.0, 0.25, 1.0, 3.0, 1e6}); Clock c; Capture o; MC_LOG("progress of ", n, " iterations of ", dt*1e-9, " s, printed every ", tick, " s");
    auto p = vif::progress_start(n); Bar b{n, fake_ns}; sz last = 0; for (sz i = 0; i < n; ++i) { fake_ns += dt; vif::progress_tick(p, tick); auto s = o.take(); bool end = i + 1 == n, due = i < 10 || (i - last)*dt*1e-9 >= tick*(1 + 1e-6), early = i >= 10 && !end && (i - last)*dt*1e-9 < tick*(1 - 1e-6); MC_CHECK(!due || !s.empty(), "nothing printed at iteration ", i); MC_CHECK(!early || s.empty(), "printed at iteration ", i, " only ", i - last, " after the previous"); if (!s.empty()) last = i; judge(b, s, !s.empty(), i + 1, end, "progress_tick"); mc::op(); }
    for (int k = 0; k < 2; ++k) { vif::progress_tick(p, tick); auto s = o.take(); MC_CHECK(s.find_first_not_of("\r\n ") == s.npos, "printed ", s, " after the end"); if (n != 0) MC_CHECK(s.empty(), "printed an empty line after the end"); }
}
MC_SCENARIO_S(print_progress_, 2) {
    sz n = mc::pick({0, 1, 2, 7, 33, 100}), mod = mc::pick({1, 2, 3, 50}); Clock c; Capture o; auto p = vif::progress_start(n); Bar b{n, fake_ns}; sz at = 0; MC_LOG("progress of ", n, " steps, printed every ", mod);
    for (unsigned k = 0; k < (mc::thorough() ? 5 : 4); ++k) { fake_ns += 700000000; at += mc::pick({0, 1, 2, 49, 100}); vif::print_progress(p, at, mod); auto s = o.take(); MC_LOG("step ", at); mc::op(); if (b.done || n == 0) { MC_CHECK(s.empty(), "printed ", s, " after the end"); continue; } bool end = at + 1 >= n; judge(b, s, at % mod == 0, std::min(at + 1, n), end, "print_progress"); b.done = end; }
}
