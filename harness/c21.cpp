// C21: command line arguments.
#include "vifref.hpp"
#include <vif/core/print.hpp>
#include <vif/utility/string.hpp>
#include <vif/utility/argv.hpp>
using namespace vr;
using vif::_; using vif::name;
using S = std::string;
struct Vars { int n = 7; double x = 0.5; bool flag = false; S s = "def"; vec<1,int> v = {1, 2}; vif::vec1s w = {"p"}; unsigned long long u = 3; vec<1,bool> b; int p = 4; };
static S strip(const S& s, const S& c) { sz a = 0, b = s.size(); while (a < b && c.find(s[a]) != S::npos) ++a; while (b > a && c.find(s[b-1]) != S::npos) --b; return s.substr(a, b - a); }
static const S WS = " \t\n\r", Q = "'\"";
// what each argument says: (name, has value, value)
struct Tok { S name; bool eq; S val; };
static Tok tok(const S& a) { Tok t; S s = strip(a, WS); sz d = 0; while (d < 2 && d < s.size() && s[d] == '-') ++d; s = s.substr(d); sz p = s.find('='); t.eq = p != S::npos; t.name = strip(s.substr(0, p), t.eq ? WS : S()); if (t.eq) t.val = strip(s.substr(p + 1), WS); return t; }
static bool num(const S& s, long long& r) { S t = strip(s, WS); if (t.empty()) return false; char* e; errno = 0; r = strtoll(t.c_str(), &e, 10); return !*e && errno == 0; }
static bool cv(const S& s, int& r) { long long l; if (!num(strip(s, Q), l) || l != int(l)) return false; r = int(l); return true; }
static bool cv(const S& s, unsigned long long& r) { long long l; if (!num(strip(s, Q), l) || l < 0) return false; r = l; return true; }
static bool cv(const S& s, bool& r) { long long l; if (!num(strip(s, Q), l) || (l != 0 && l != 1)) return false; r = l; return true; }
static bool cv(const S& s, double& r) { S t = strip(strip(s, Q), WS); if (t.empty()) return false; char* e; r = strtod(t.c_str(), &e); return !*e; }
static bool cv(const S& s, S& r) { r = strip(s, Q); return true; }
template<typename T> bool cvv(const Tok& t, std::vector<T>& r) {
    T e{}; if (!t.eq) { cv("1", e); r = {e}; return true; } if (t.val.size() > 1 && t.val.front() == '[' && t.val.back() == ']') { S in = t.val.substr(1, t.val.size() - 2); std::vector<T> o; if (!in.empty()) { sz p = 0; for (;;) { sz q = in.find(',', p); S el = strip(in.substr(p, q == S::npos ? q : q - p), WS); if (!cv(el, e)) return false; o.push_back(e); if (q == S::npos) break; p = q + 1; } } r = o; return true; }
    if (!cv(t.val, e)) return false; r = {e}; return true;
}
template<typename T> std::vector<T> raw(const vec<1,T>& v) { return read(v).v; }
// possible final values: arguments apply in order; once one is invalid, what later ones do is free
template<typename T, typename C> std::vector<T> finals(const S& name, T def, const std::vector<S>& args, C&& conv, bool& bad) { std::vector<T> r; T cur = def; bool err = false; for (auto& a : args) { Tok t = tok(a); if (t.name != name) continue; T x = cur; if (conv(t, x)) { if (err) r.push_back(cur); cur = x; } else { err = bad = true; } } r.push_back(cur); return r; }
template<typename T> void chk(const S& name, T def, T got, const std::vector<S>& args, bool& bad) { auto f = finals<T>(name, def, args, [](const Tok& t, T& x) { return cv(t.eq ? t.val : S("1"), x); }, bad); MC_CHECK(std::find(f.begin(), f.end(), got) != f.end(), "variable ", name, " is ", got, " instead of ", f.back()); }
template<typename T> void chkv(const S& name, std::vector<T> def, std::vector<T> got, const std::vector<S>& args, bool& bad) { auto f = finals<std::vector<T>>(name, def, args, [](const Tok& t, std::vector<T>& x) { return cvv(t, x); }, bad); MC_CHECK(std::find(f.begin(), f.end(), got) != f.end(), "vector ", name, " is ", got, " instead of ", f.back()); }
static const std::vector<S>& tokens() {
    static const std::vector<S> t = {"n=5", "-n=-6", "--n=12", "n", "--n", "n=abc", "n=5x", " n = 8 ", "nn=5", "n=", "s=hello", "s='a b'", "s=n=5", "s", "s=", "v=[3,4,5]", "v=[]", "v=4", "v=[1,x]", "v=[6, 7]", "v", "-v=[8]", "flag", "-flag", "--flag", "flag=0", "flag=1", "flag=yes", "x=1e3", "x=-2.5", "w=[a,b]", "w=q", "w='[z]'", "w=['a', \"b\"]", "w", "u=5", "u=-1", "b=[1,0]", "b", "pow=2", "-pow=9", "p=11", "unknown=3", "flagg", "fla", "=5", "-", "--", "---n=5", "x"}; return t;
}
struct Cap { std::ostringstream o; std::streambuf *a, *b; Cap() { a = std::cout.rdbuf(o.rdbuf()); b = std::cerr.rdbuf(o.rdbuf()); } ~Cap() { std::cout.rdbuf(a); std::cerr.rdbuf(b); } };
static void check(const Vars& x, const std::vector<S>& a, const S& out, bool warned) {
    Vars d; bool bad = false; chk<int>("n", d.n, x.n, a, bad); chk<double>("x", d.x, x.x, a, bad); chk<bool>("flag", d.flag, x.flag, a, bad); chk<S>("s", d.s, x.s, a, bad); chk<unsigned long long>("u", d.u, x.u, a, bad); chk<int>("pow", d.p, x.p, a, bad); chkv<int>("v", {1, 2}, raw(x.v), a, bad); chkv<S>("w", {"p"}, raw(x.w), a, bad); chkv<bool>("b", {}, raw(x.b), a, bad);
    bool unk = false; for (auto& s : a) { S nm = tok(s).name; bool k = false; for (const char* c : {"n", "x", "flag", "s", "u", "pow", "v", "w", "b"}) k = k || nm == c; if (!k) { unk = true; if (warned) MC_CHECK(out.find("'" + strip(s, WS) + "'") != S::npos, "no warning about the unknown argument ", s); } }
    if (warned) MC_CHECK(!out.empty() == (unk || bad), "warnings: ", out);
}
static std::vector<char*> argvs(std::vector<S>& a) { static char prog[] = "prog"; std::vector<char*> r = {prog}; for (auto& s : a) r.push_back(&s[0]); r.push_back(nullptr); return r; }
MC_SCENARIO_S(reading, 2) {
    unsigned m = mc::choose(4); std::vector<S> a; for (unsigned i = 0; i < m; ++i) a.push_back(mc::pick(tokens())); MC_LOG("arguments ", a); auto cv = a; auto pv = argvs(cv); Vars x; S out; mc::op();
    { Cap c; auto &n = x.n; auto& flag = x.flag; auto& s = x.s; auto& v = x.v; auto& w = x.w; auto& u = x.u; auto& b = x.b; auto& p = x.p; vif::read_args(a.size() + 1, pv.data(), arg_list(n, x.x, flag, name(p, "pow"), s, v, w, u, b)); out = c.o.str(); } check(x, a, out, true); mc::outcome(mc::mix(x.n*31 + x.p, mc::hash_str(x.s + vif::to_string(x.v) + vif::to_string(x.w))));
}
MC_SCENARIO_S(two_reads, 2) { // several read() calls on the same arguments
    unsigned m = mc::choose(mc::thorough() ? 4 : 3); std::vector<S> a; for (unsigned i = 0; i < m; ++i) a.push_back(mc::pick(tokens())); MC_LOG("arguments in two steps ", a); auto cv = a; auto pv = argvs(cv); Vars x; S out; mc::op();
    { Cap c; { vif::program_arguments pa(a.size() + 1, pv.data()); auto &n = x.n; auto& flag = x.flag; auto& s = x.s; auto& v = x.v; auto& w = x.w; auto& u = x.u; auto& b = x.b; auto& p = x.p; pa.read(arg_list(name(p, "pow"), n, v)); pa.read(arg_list(x.x, flag, s)); pa.read(arg_list(w, u, b)); } out = c.o.str(); } check(x, a, out, true);
}
MC_SCENARIO(writing) { // write then serialize then read back
    int n = mc::pick({0, -3, 41}), m = mc::pick({1, 2}); bool flag = mc::flip(); S s = mc::pick(std::vector<S>{"abc", "x=y", "q"}); unsigned k = mc::choose(3); vec<1,int> v; for (unsigned i = 0; i < k; ++i) v.push_back(10*i); vif::vec1s w = {s, "z"}; double x = 0.25;
    MC_LOG("write ", n, " ", m, " ", flag, " ", s); S ser; { Cap c; vif::program_arguments pa(vif::vec1s{}); unsigned o = mc::choose(2); if (o == 0) pa.write(arg_list(n, name(m, "named"), flag, s, name(v, "list"), w, x)); else { pa.write(arg_list(name(m, "named"), n, flag)); pa.write(arg_list(s, name(v, "list"), w, x)); } ser = pa.serialize(); }
    for (auto& part : {mc::str("n=", n), mc::str("named=", m), mc::str("flag=", int(flag)), "s=" + s}) MC_CHECK((" " + ser + " ").find(" " + part + " ") != S::npos, "serialize lacks ", part, ": ", ser);
    struct { int n = -1, m = -1; bool flag; S s; vec<1,int> v = {9}; vif::vec1s w; double x = -1; } r; r.flag = !flag; { Cap c; vif::program_arguments pb(vif::split(ser, " ")); auto& n = r.n; auto& m = r.m; auto& flag = r.flag; auto& s = r.s; auto& v = r.v; auto& w = r.w; auto& x = r.x; pb.read(arg_list(name(v, "list"), n, w, name(m, "named"), flag, x, s)); }
    MC_CHECK(r.n == n && r.m == m && r.flag == flag && r.s == s && r.x == x && raw(r.v) == raw(v) && raw(r.w) == raw(w), "reading back ", ser, " gives ", r.n, " ", r.m, " ", r.s, " ", raw(r.v), " ", raw(r.w));
    // merged with later arguments, the later ones win; unread ones are defaults from the first
    Cap c; vif::program_arguments p1(vif::split(ser, " ")), p2(vif::vec1s{"n=99", "list=[7]"}); p1.merge(p2); { int n = 0, m = 0; vec<1,int> l; p1.read(arg_list(n, name(l, "list"), name(m, "named"))); MC_CHECK(n == 99 && m == r.m && raw(l) == std::vector<int>{7}, "merged arguments give ", n, " ", m, " ", raw(l)); }
}
MC_SCENARIO(commands) { static const std::vector<S> t = {"a", "a b", "x=1", "x=a b", "-f", "x=", "l=[1, 2]"}; unsigned m = mc::choose(4); std::vector<S> a; S e = "prog"; for (unsigned i = 0; i < m; ++i) { S s = mc::pick(t); a.push_back(s); sz p = s.find('='); if (s.find(' ') != S::npos) s = p == S::npos ? "\"" + s + "\"" : s.substr(0, p + 1) + "\"" + s.substr(p + 1) + "\""; e += " " + s; } MC_LOG("make_cmd ", a); auto cv = a; auto pv = argvs(cv); S g = vif::make_cmd(a.size() + 1, pv.data()); MC_CHECK(g == e, "make_cmd gives ", g, " instead of ", e); }
