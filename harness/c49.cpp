// C49: messages, prompts, environment variables and commands (vif/core/print.hpp, vif/utility/os.hpp).
#include "vifref.hpp"
#include <vif/core/print.hpp>
#include <vif/utility/os.hpp>
#include <sstream>
#include <cstdlib>
using namespace vr;
struct Capture { std::ostringstream s; std::streambuf* old; Capture() : old(std::cout.rdbuf(s.rdbuf())) {} ~Capture() { std::cout.rdbuf(old); } std::string take() { auto r = s.str(); s.str(""); return r; } };
struct Forever {};
// an input that notices when it is read again and again after its end
struct Input : std::streambuf { std::string d; sz ends = 0; explicit Input(std::string s) : d(s) { setg(&d[0], &d[0], &d[0] + d.size()); } int_type underflow() override { if (++ends > 20) throw Forever(); return traits_type::eof(); } std::string left() { return std::string(gptr(), egptr()); } };
struct Feed { Input in; std::streambuf* old; std::ios::iostate ex; explicit Feed(std::string s) : in(s), old(std::cin.rdbuf(&in)), ex(std::cin.exceptions()) { std::cin.clear(); std::cin.exceptions(std::ios::badbit); } ~Feed() { std::cin.exceptions(std::ios::goodbit); std::cin.rdbuf(old); std::cin.clear(); std::cin.exceptions(ex); } };
struct Custom { int i; }; std::ostream& operator<<(std::ostream& o, const Custom& c) { return o << "<" << c.i << ">"; }
template<typename F> static void argument(F f) { switch (mc::choose(10)) { case 0: f(5, "5"); break; case 1: f("text %d", "text %d"); break; case 2: f(std::string("a\nb"), "a\nb"); break; case 3: f(-1.5, "-1.5"); break; case 4: f(vif::vec<1,vif::uint_t>{1, 2, 10}, "{1, 2, 10}"); break; case 5: f('c', "c"); break; case 6: f(Custom{7}, "<7>"); break; case 7: f("", ""); break; case 8: f(vif::uint_t(18446744073709551615ull), "18446744073709551615"); break; case 9: f(true, "1"); break; } }
template<typename ... A> static void message(const std::string& e, const A& ... a) {
    Capture o; std::string p, g; switch (mc::choose(4)) { case 0: vif::print(a...); break; case 1: vif::error(a...); p = "error: "; break; case 2: vif::warning(a...); p = "warning: "; break; case 3: vif::note(a...); p = "note: "; break; } g = o.take(); MC_LOG("message '", e, "'"); MC_CHECK(g == p + e + "\n", "printed '", g, "' instead of '", p + e, "'"); mc::op(); mc::outcome(mc::hash_str(g));
}
MC_SCENARIO_S(messages, 2) { unsigned n = 1 + mc::choose(3); argument([&](auto a, std::string s) { if (n == 1) { message(s, a); return; } argument([&](auto b, std::string t) { if (n == 2) { message(s + t, a, b); return; } argument([&](auto c, std::string u) { message(s + t + u, a, b, c); }); }); }); }
static const std::vector<std::string> LINES = {"12", "12 ", "12 x", "x", "", "-3", "  7\t", "1.5", "999999999999999999999", "1 2", "+4"};
// what a line stands for, if it is a value of the type followed by nothing
template<typename T> bool value_of(const std::string& l, T& v) { sz b = l.find_first_not_of(" \t"), e = l.find_last_not_of(" \t"); if (b == l.npos) return false; std::string w = l.substr(b, e - b + 1); if (w.find_first_of(" \t") != w.npos) return false;
    if constexpr (std::is_same<T,std::string>::value) { v = w; return true; } else { sz i = w[0] == '-' || w[0] == '+'; std::string d = w.substr(i); if (std::is_floating_point<T>::value) { if (d.empty() || d.find_first_not_of("0123456789.") != d.npos) return false; v = T(strtold(w.c_str(), nullptr)); return true; } if (d.empty() || d.find_first_not_of("0123456789") != d.npos) return false; __int128 x = 0; for (char c : d) x = x*10 + (c - '0'); if (w[0] == '-') x = -x; if (x < __int128(std::numeric_limits<T>::lowest()) || x > __int128(std::numeric_limits<T>::max())) return false; v = T(x); return true; } }
template<typename T> static void prompt_(unsigned depth) {
    unsigned n = mc::choose(depth + 1); std::vector<std::string> l; for (unsigned i = 0; i < n; ++i) l.push_back(mc::pick(LINES)); bool err = mc::flip(), newline = n == 0 || mc::flip(); std::string text, out; for (unsigned i = 0; i < n; ++i) text += l[i] + (i + 1 < n || newline ? "\n" : ""); MC_LOG("prompt answered with ", l, newline ? "" : " without a final newline", err ? ", error message" : "");
    if (!newline && l.back().empty()) --n; // no such line
    Capture o; Feed f(text); T v{}, e{}; unsigned k = 0; bool ok = false; for (; k < n && !ok; ++k) { ok = value_of(l[k], e); out += "value? "; if (!ok && err) out += "error: try again\n"; } if (!ok) out += "value? ";
    bool g = false; try { g = err ? vif::prompt("value? ", v, "try again") : vif::prompt("value? ", v); } catch (Forever&) { MC_FAIL("prompt never returns at the end of the input"); } MC_CHECK(g == ok, "prompt returned ", g); if (ok) MC_CHECK(v == e, "prompt read ", v, " instead of ", e); std::string s = o.take(); MC_CHECK(s == out, "prompt printed '", s, "' instead of '", out, "'");
    if (ok) { std::string rest; for (unsigned i = k; i < l.size(); ++i) rest += l[i] + (i + 1 < l.size() || newline ? "\n" : ""); MC_CHECK(f.in.left() == rest, "prompt left ", f.in.left(), " to read"); } mc::op(); mc::outcome(k*2 + ok);
}
MC_SCENARIO_S(prompt_int, 2) { prompt_<int>(mc::thorough() ? 4 : 3); }
MC_SCENARIO_S(prompt_uint, 2) { prompt_<vif::uint_t>(3); }
MC_SCENARIO_S(prompt_double, 2) { prompt_<double>(3); }
MC_SCENARIO_S(prompt_string, 2) { prompt_<std::string>(3); }
struct Env { const char* n; explicit Env(const char* n_) : n(n_) { unsetenv(n); } ~Env() { unsetenv(n); } };
template<typename T> static void variable(T def) {
    Env e("VERIF_C49_VARIABLE"); Env other("VERIF_C49_VARIABLE2"); setenv("VERIF_C49_VARIABLE2", "55", 1); bool set = mc::flip(); std::string s = set ? mc::pick(LINES) : ""; if (set) setenv(e.n, s.c_str(), 1); MC_LOG("variable ", set ? s : "unset"); T v{}; T x = set && value_of(s, v) ? v : def; T g = vif::system_var<T>(e.n, def); MC_CHECK(g == x, "system_var gave ", g, " instead of ", x); MC_CHECK(vif::system_var<T>("VERIF_C49_VARIABLE2", def) == T(55), "another variable"); mc::op(2); mc::outcome(set);
}
MC_SCENARIO(variables) { switch (mc::choose(4)) { case 0: variable<int>(-8); break; case 1: variable<vif::uint_t>(9); break; case 2: variable<double>(2.5); break; case 3: { Env e("VERIF_C49_VARIABLE"); bool set = mc::flip(); std::string s = set ? mc::pick(LINES) : "", d = mc::flip() ? "default" : ""; if (set) setenv(e.n, s.c_str(), 1); std::string g = vif::system_var(e.n, d), h = vif::system_var(e.n, d.c_str()); MC_LOG("string variable ", set ? s : "unset"); MC_CHECK(g == (set ? s : d) && h == g, "system_var gave '", g, "' and '", h, "'"); mc::op(2); } } }
MC_SCENARIO(commands) { static const std::vector<std::pair<std::string,bool>> C = {{"true", true}, {"false", false}, {"exit 0", true}, {"exit 3", false}, {"exit 255", false}, {"exit 256", true}, {"test a = a", true}, {"test a = b", false}, {"kill -9 $$", false}, {"/nonexistent/verif 2>/dev/null", false}, {"true; false", false}, {"false; true", true}}; auto c = mc::pick(C); MC_LOG("command ", c.first); bool g = vif::spawn(c.first); MC_CHECK(g == c.second, "spawn returned ", g); mc::op(); mc::outcome(g); }
