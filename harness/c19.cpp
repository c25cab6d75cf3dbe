// C19: conversions between values and strings.
#include "vifref.hpp"
#include <vif/core/print.hpp>
#include <vif/utility/string.hpp>
using namespace vr;
using vif::_;
using S = std::string;
static bool ws(char c) { return c == ' ' || c == '\t'; }
static S word(const S& al, unsigned n) { unsigned m = mc::choose(n + 1); S r; for (unsigned i = 0; i < m; ++i) r += al[mc::choose(al.size())]; return r; }
static S strip(const S& s) { sz a = 0, b = s.size(); while (a < b && ws(s[a])) ++a; while (b > a && ws(s[b-1])) --b; return s.substr(a, b - a); }
static bool digit(char c) { return c >= '0' && c <= '9'; }
// independent grammars
static bool ref_int(const S& s0, __int128& v) { S s = strip(s0); sz i = 0; bool neg = false; if (i < s.size() && (s[i] == '+' || s[i] == '-')) neg = s[i++] == '-'; if (i >= s.size()) return false; v = 0; for (; i < s.size(); ++i) { if (!digit(s[i])) return false; if (v < (__int128(1) << 100)) v = v*10 + (s[i] - '0'); } if (neg) v = -v; return true; }
static bool ref_float(const S& s0, long double& v) {
    S s = strip(s0); sz i = 0; if (i < s.size() && (s[i] == '+' || s[i] == '-')) ++i; sz d = 0; while (i < s.size() && digit(s[i])) { ++i; ++d; } if (i < s.size() && s[i] == '.') { ++i; while (i < s.size() && digit(s[i])) { ++i; ++d; } } if (!d) return false;
    if (i < s.size() && (s[i] == 'e' || s[i] == 'E')) { ++i; if (i < s.size() && (s[i] == '+' || s[i] == '-')) ++i; sz k = 0; while (i < s.size() && digit(s[i])) { ++i; ++k; } if (!k) return false; } if (i != s.size()) return false; v = strtold(s.c_str(), nullptr); return true;
}
template<typename T> bool refc(const S& s, T& t, std::true_type) { __int128 v; if (!ref_int(s, v) || v < __int128(std::numeric_limits<T>::lowest()) || v > __int128(std::numeric_limits<T>::max())) return false; t = T(v); return true; }
template<typename T> bool refc(const S& s, T& t, std::false_type) {
    S u; for (char c : s) u += toupper(c); if (u == "NAN" || u == "+NAN" || u == "-NAN") { t = std::numeric_limits<T>::quiet_NaN(); return true; } if (u == "INF" || u == "+INF" || u == "INF+") { t = std::numeric_limits<T>::infinity(); return true; } if (u == "-INF" || u == "INF-") { t = -std::numeric_limits<T>::infinity(); return true; }
    long double v; if (!ref_float(s, v)) return false; if (std::fabs(v) > (long double)std::numeric_limits<T>::max()*1.0000001L) return false; t = sizeof(T) == 4 ? T(strtof(strip(s).c_str(), nullptr)) : T(strtod(strip(s).c_str(), nullptr)); return true;
}
template<typename T> void conv(const S& s) {
    T e = 0, g = 7; bool good = refc<T>(s, e, std::is_integral<T>{}), ok = vif::from_string(s, g); MC_LOG("from_string ", s, " to a type of size ", sizeof(T)); mc::op();
    MC_CHECK(ok == good, "from_string(", s, ") returns ", ok); if (ok) MC_CHECK(mc::same(g, e), "from_string(", s, ") gives ", g, " instead of ", e);
}
static void all(const S& s) { conv<int>(s); conv<unsigned>(s); conv<long>(s); conv<unsigned long>(s); conv<short>(s); conv<unsigned short>(s); conv<float>(s); conv<double>(s); { bool g = false; __int128 v = 0; bool good = ref_int(s, v) && (v == 0 || v == 1), ok = vif::from_string(s, g); MC_CHECK(ok == good, "from_string to bool of ", s, " returns ", ok); if (ok) MC_CHECK(g == (v == 1), "from_string to bool"); } mc::outcome(mc::hash_str(s)); }
MC_SCENARIO_S(syntax, 3) { all(word("1-+.e ", mc::thorough() ? 7 : 6)); }
MC_SCENARIO_S(letters, 3) { all(word("nafi+-", mc::thorough() ? 5 : 4)); }
MC_SCENARIO_S(letters2, 3) { S s = mc::pick(std::vector<S>{"nan", "NAN", "NaN", "inf", "INF", "Inf", "abc", "0x1", "1e", "1 2", "1,2", "12abc", "infinity", "--1", "1.5.2"}); s = mc::pick(std::vector<S>{"", "+", "-", " ", "x", "1"}) + s + mc::pick(std::vector<S>{"", "+", "-", "x", "1"}); if (s.find(' ') == S::npos || s.find_first_of("nNiI") == S::npos) all(s); }
MC_SCENARIO_S(limits, 2) {
    static const std::vector<S> b = {"127", "128", "255", "256", "32767", "32768", "65535", "65536", "2147483647", "2147483648", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "99999999999999999999999", "0", "00012", "1e37", "1e38", "3.4e38", "3.5e38", "1e39", "1e128", "1e308", "1.7e308", "1.8e308", "1e309", "1e999", "1e-30", "0.1", "123456789.123456789", "1e0", "1E5", "1e+5"};
    S s = mc::pick(b); s = mc::pick(std::vector<S>{"", "-", "+", " ", "\t-"}) + s + mc::pick(std::vector<S>{"", " ", " \t"}); all(s);
}
template<typename T> void trip(T x) { T g = 0; S s = vif::to_string(x); std::ostringstream o; o << x; MC_LOG("to_string of ", x); MC_CHECK(s == o.str(), "to_string gives ", s, " instead of ", o.str()); MC_CHECK(vif::from_string(s, g) && g == x, "from_string does not undo to_string: ", s, " ", g); }
template<typename T> void edges() { sz k = mc::choose(9); T lo = std::numeric_limits<T>::lowest(), hi = std::numeric_limits<T>::max(); trip<T>(k == 0 ? lo : k == 1 ? hi : k == 2 ? T(lo + 1) : k == 3 ? T(hi - 1) : k == 4 ? T(hi/2) : k == 5 ? T(0) : k == 6 ? T(1) : k == 7 ? T(10) : T(-1)); }
MC_SCENARIO(roundtrip_int) { unsigned k = mc::choose(6); if (k == 0) edges<int>(); if (k == 1) edges<unsigned>(); if (k == 2) edges<long>(); if (k == 3) edges<unsigned long>(); if (k == 4) edges<short>(); if (k == 5) edges<unsigned short>(); }
static S pf(const char* f, int p, double x) { char b[512]; snprintf(b, 512, f, p, x); return b; }
static const std::vector<double>& doubles() { static const std::vector<double> v = {0, 1, -1, 0.15, 3150.15, 0.123456789123456789, 1e-5, 12345678.9, 1e20, -2.5e-300, 1e300, 1.0/3, 99.9999999, INFINITY, -INFINITY}; return v; }
MC_SCENARIO(formats) {
    double x = mc::pick(doubles()); int p = mc::pick({0, 1, 3, 8, 17}); MC_LOG("format of ", x, " precision ", p); const double cx = x;
    auto eq = [&](const S& g, const S& e, const char* w) { MC_CHECK(g == e, w, " gives ", g, " instead of ", e); }; namespace F = vif::format;
    eq(vif::to_string(x), pf("%.*g", 6, x), "to_string"); eq(vif::to_string(F::scientific(x)), pf("%.*e", 6, x), "scientific"); eq(vif::to_string(F::fixed(x)), pf("%.*f", 6, x), "fixed"); eq(vif::to_string(F::precision(x, p)), pf("%.*g", p, x), "precision");
    eq(vif::to_string(F::fixed(F::precision(x, p))), pf("%.*f", p, x), "fixed precision"); eq(vif::to_string(F::precision(F::fixed(cx), p)), pf("%.*f", p, x), "precision fixed"); eq(vif::to_string(F::scientific(F::precision(x, p))), pf("%.*e", p, x), "scientific precision"); eq(vif::to_string(F::precision(F::scientific(cx), p)), pf("%.*e", p, x), "precision scientific");
    std::ostringstream o; o << F::scientific(x) << "," << x << "," << F::precision(x, p) << "," << x << "," << F::fixed(x) << "," << x; eq(o.str(), pf("%.*e", 6, x) + "," + pf("%.*g", 6, x) + "," + pf("%.*g", p, x) + "," + pf("%.*g", 6, x) + "," + pf("%.*f", 6, x) + "," + pf("%.*g", 6, x), "the stream's own format after formatting");
    o.str(""); o << std::setprecision(3) << std::scientific << std::showpos; o << F::fixed(x) << "," << x << "," << F::precision(x, p) << "," << x << "," << F::scientific(F::precision(x, p)) << "," << x; eq(o.str(), pf("%+.*f", 3, x) + "," + pf("%+.*e", 3, x) + "," + pf("%+.*e", p, x) + "," + pf("%+.*e", 3, x) + "," + pf("%+.*e", p, x) + "," + pf("%+.*e", 3, x), "formats in a stream with its own format");
    if (std::isfinite(x)) { double g = 0; MC_CHECK(vif::from_string(vif::to_string(F::precision(x, 17)), g) && g == x, "17 digits do not restore the value"); }
    vec<1,double> v = {x, 1.5, x}; expect1(vif::to_string_vector(F::scientific(v)), {pf("%.*e", 6, x), pf("%.*e", 6, 1.5), pf("%.*e", 6, x)}, "to_string_vector scientific"); expect1(vif::to_string_vector(F::precision(v, p)), {pf("%.*g", p, x), pf("%.*g", p, 1.5), pf("%.*g", p, x)}, "to_string_vector precision"); expect1(vif::to_string_vector(F::fixed(v)), {pf("%.*f", 6, x), pf("%.*f", 6, 1.5), pf("%.*f", 6, x)}, "to_string_vector fixed");
    expect1(vif::to_string_vector(v), {pf("%.*g", 6, x), "1.5", pf("%.*g", 6, x)}, "to_string_vector"); S q = pf("%.*e", 6, x); eq(vif::to_string(F::scientific(v)), "{" + q + ", " + pf("%.*e", 6, 1.5) + ", " + q + "}", "scientific vector");
}
template<typename T> void vecs(std::vector<T> al, std::vector<S> st) {
    unsigned n = mc::choose(4); std::vector<T> x; std::vector<S> e; S j = "{"; for (unsigned i = 0; i < n; ++i) { unsigned k = mc::choose(al.size()); x.push_back(al[k]); e.push_back(st[k]); if (i) j += ", "; j += st[k]; } j += "}"; MC_LOG("vector ", j);
    const auto v = make1(x); auto w = v; MC_CHECK(vif::to_string(v) == j, "to_string of a vector gives ", vif::to_string(v)); MC_CHECK(vif::to_string(w[_]) == j, "to_string of a view gives ", vif::to_string(w[_])); expect1(vif::to_string_vector(v), e, "to_string_vector"); expect1(vif::to_string_vector(w[_]), e, "to_string_vector of a view");
    vec<2,T> m = vif::reform(v, n, 1); Arr<S> em({n, 1}, e); expect(vif::to_string_vector(m), em, "to_string_vector in two dimensions"); MC_CHECK(vif::to_string(m) == j, "to_string of a matrix");
}
MC_SCENARIO(vectors) { unsigned k = mc::choose(4); if (k == 0) vecs<int>({0, -5, 1234567}, {"0", "-5", "1234567"}); if (k == 1) vecs<bool>({false, true}, {"0", "1"}); if (k == 2) vecs<S>({"", "a b"}, {"", "a b"}); if (k == 3) vecs<double>({0.5, -1e20, 1e-7}, {"0.5", "-1e+20", "1e-07"}); }
template<typename T> void from_vec() {
    static const std::vector<S> al = {"1", "2.5", "abc", "-3", " 7 ", "", "1e128"}; unsigned n = mc::choose(4); std::vector<S> x; Arr<bool> e({n}); std::vector<T> val(n); for (unsigned i = 0; i < n; ++i) { x.push_back(mc::pick(al)); e.v[i] = refc<T>(x[i], val[i], std::is_integral<T>{}); } MC_LOG("from_string of ", x);
    sz m = mc::choose(3); vec<1,T> t(m); const auto v = make1(x); auto w = v; auto cmp = [&](const vec<1,bool>& r, const std::vector<T>& g) { expect(r, e, "from_string of a vector"); MC_CHECK(g.size() == n, "output has ", g.size(), " values"); for (unsigned i = 0; i < n; ++i) if (e.v[i]) MC_CHECK(g[i] == val[i], "value ", i, " is ", g[i]); };
    auto r = vif::from_string(v, t); cmp(r, read(t).v); vec<1,T> t2; auto r2 = vif::from_string(w[_], t2); cmp(r2, read(t2).v); expect1(v, x, "argument");
    vec<1,T> big(m + 1); big[_] = T(9); bool ok = mc::attempt([&]() { auto r3 = vif::from_string(v, big[1-_]); auto g = read(big).v; MC_CHECK(g[0] == 9, "element outside of the view changed"); g.erase(g.begin()); cmp(r3, g); }); if (m > 0) MC_CHECK(ok == (m == n), "from_string into a view of ", m, " elements: ", ok);
}
MC_SCENARIO_S(from_vectors, 3) { unsigned k = mc::choose(3); if (k == 0) from_vec<int>(); if (k == 1) from_vec<double>(); if (k == 2) from_vec<unsigned>(); }
