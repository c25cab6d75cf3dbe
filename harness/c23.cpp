// C23: ASCII tables.
#include "vifref.hpp"
#include "fsutil.hpp"
#include <vif/core/print.hpp>
#include <vif/core/string_conversion.hpp>
#include <vif/utility/string.hpp>
#include <vif/io/filesystem.hpp>
#include <vif/io/ascii.hpp>
using namespace vr;
using namespace fsu;
using vif::_;
namespace A = vif::ascii;
using Cells = std::vector<std::vector<S>>; // [column][row]
static S gfmt(const char* f, double x) { char b[64]; snprintf(b, sizeof b, f, x); return b; }
static S cell(int i) { return std::to_string(i); } static S cell(double d) { return gfmt("%g", d); } static S cell(float d) { return gfmt("%g", d); } static S cell(const S& s) { return s; } static S cell(bool b) { return b ? "1" : "0"; }
template<typename T> const std::vector<T>& pool();
template<> const std::vector<int>& pool<int>() { static const std::vector<int> p = {7, -51, 9852, 0, 2147483647, -2147483647 - 1}; return p; }
template<> const std::vector<double>& pool<double>() { static const std::vector<double> p = {0.5, 1e-5, -1234567.0, 0.0, 1e300, 3.14159265}; return p; }
template<> const std::vector<float>& pool<float>() { static const std::vector<float> p = {0.25f, 100000.0f, -1e-5f, 1e10f}; return p; }
template<> const std::vector<S>& pool<S>() { static const std::vector<S> p = {"a", "long_word", "x#y", "3.5", "b"}; return p; }
static bool g_csv = false;
static const std::vector<S>& spool() { static const std::vector<S> p = {"a b", "", " lead", "trail ", "q"}; return p; } // only for single delimiters
template<typename T> T val(unsigned k) { return pool<T>()[k % pool<T>().size()]; }
template<> bool val<bool>(unsigned k) { return k % 3 != 1; }
template<> S val<S>(unsigned k) { auto& p = g_csv ? spool() : pool<S>(); return p[k % p.size()]; }
template<typename T> vec<1,T> col(sz r, unsigned b, Cells& c) { vec<1,T> v(r); c.emplace_back(); for (sz i = 0; i < r; ++i) { T x = val<T>(b + i); v[i] = x; c.back().push_back(cell(x)); } return v; }
template<typename T> vec<2,T> mat(sz r, sz n, unsigned b) { vec<2,T> v(r, n); for (sz i = 0; i < r; ++i) for (sz j = 0; j < n; ++j) v(i,j) = val<T>(b + 2*i + j); return v; }
template<typename T> std::vector<S> mcol(const vec<2,T>& v, sz j) { std::vector<S> c; for (sz i = 0; i < v.dims[0]; ++i) c.push_back(cell(T(v(i,j)))); return c; }
static S rpad(const S& s, sz w) { return s.size() < w ? S(w - s.size(), ' ') + s : s; }
static S render(const A::output_format& o, const Cells& c, sz rows, const std::vector<S>& hdr) {
    std::vector<sz> w(c.size(), o.min_width); if (o.auto_width) for (sz j = 0; j < c.size(); ++j) { for (auto& s : c[j]) w[j] = std::max(w[j], s.size()); if (!hdr.empty()) w[j] = std::max(w[j], hdr[j].size() + (j ? 0 : o.header_chars.size())); }
    S r; if (!hdr.empty()) { for (sz j = 0; j < c.size(); ++j) if (j == 0) r += o.header_chars + rpad(hdr[0], w[0] > o.header_chars.size() ? w[0] - o.header_chars.size() : 0); else r += o.delim + rpad(hdr[j], w[j]); r += "\n"; }
    for (sz i = 0; i < rows; ++i) { for (sz j = 0; j < c.size(); ++j) r += (j ? o.delim : S()) + rpad(c[j][i], w[j]); r += "\n"; } return r;
}
static S trim(const S& s) { sz a = s.find_first_not_of(" "), b = s.find_last_not_of(" "); return a == S::npos ? S() : s.substr(a, b + 1 - a); }
template<typename T> void back1(const vec<1,T>& v, const std::vector<S>& c, bool single, bool padded) { auto r = read(v); MC_CHECK(r.v.size() == c.size(), "read back ", r.v.size(), " rows instead of ", c.size()); for (sz i = 0; i < c.size(); ++i) { T x = r.v[i]; if constexpr (std::is_same<T,S>::value) { MC_CHECK(padded ? trim(x) == trim(c[i]) : x == c[i], "read back ", x, " instead of ", c[i]); } else { std::istringstream ss(c[i]); T e; ss >> e; MC_CHECK(x == e, "read back ", x, " instead of ", c[i]); } } }
template<typename T> void back2(const vec<2,T>& v, const std::vector<std::vector<S>>& c, bool single, bool padded) { MC_CHECK(v.dims[1] == c.size(), "read back ", v.dims[1], " columns"); for (sz j = 0; j < c.size(); ++j) back1<T>(vec<1,T>(v(_,j)), c[j], single, padded); }
static std::vector<S> sub(const Cells& c, sz j) { return c[j]; }
// ---- writing: exact layout; what is written is read back ------------------------------------------
MC_SCENARIO_S(layout, 4) {
    Dir dir; unsigned schema = mc::choose(10), f = mc::choose(7); sz r = mc::choose(4); unsigned b = mc::choose(mc::thorough() ? 30 : 6); g_csv = f >= 4;
    A::output_format o; if (f == 1) o.min_width = 5; if (f == 2) { o.auto_width = false; o.min_width = 4; } if (f == 3) { o.delim = "\t"; } if (f == 4) o = A::output_format::csv(); if (f == 5) { o = A::output_format::csv(); o.auto_width = true; o.delim = "::"; } if (f == 6) { o = A::output_format::csv(); o.delim = " ; "; }
    unsigned h = mc::choose(4); if (h == 1) o.header_chars = ""; if (h == 2) o.header_chars = "%%%"; MC_LOG("schema ", schema, " format ", f, " header ", h, " rows ", r, " values ", b); bool named = h == 3;
    A::input_format in; if (f >= 4) { in = A::input_format::csv(); in.delim = o.delim; } if (h == 1) in.skip_first = 1; if (h == 2) in.skip_pattern = "%"; bool padded = f == 5; mc::op(2);
    Cells c; std::vector<S> hdr, nm; auto mk = [&](const std::vector<S>& n) { nm = n; if (h) { hdr = h == 3 ? n : std::vector<S>(); if (h != 3) for (sz j = 0; j < c.size(); ++j) hdr.push_back(j % 2 ? "H" : "header" + std::to_string(j)); if (h != 3) for (auto& s : hdr) o.header.push_back(s); } };
    const char* F = "t.dat"; auto chk = [&]() { S g = slurp(F), e = render(o, c, r, hdr); MC_CHECK(g == e, "written ", g, " instead of ", e); mc::outcome(mc::hash_str(g)); };
    auto old = mc::choose(2); if (old) put(F, S(500, 'z'));
    // a table whose only column may be an empty string cannot be told from blank lines
    switch (schema) {
    case 0: { auto x = col<int>(r, b, c); mk({"x"}); if (named) A::write_table(F, o, ftable(x)); else A::write_table(F, o, x); chk(); vec<1,int> y = {1, 2}; A::read_table(F, in, y); back1(y, c[0], g_csv, padded); break; }
    case 1: { auto x = col<int>(r, b, c); auto y = col<double>(r, b + 1, c); mk({"x", "y"}); if (named) A::write_table(F, o, ftable(x, y)); else if (f == 0 && h == 0) A::write_table(F, x, y); else A::write_table(F, o, x, y); chk(); vec<1,int> a; vec<1,double> d; if (f == 0 && h == 0) A::read_table(F, a, d); else A::read_table(F, in, a, d); back1(a, c[0], g_csv, padded); back1(d, c[1], g_csv, padded); break; }
    case 2: { struct { vec<1,S> name; } t; t.name = col<S>(r, b, c); auto n = col<int>(r, b + 3, c); mk({"name", "n"}); if (named) A::write_table(F, o, ftable(t.name, n)); else A::write_table(F, o, t.name, n); chk(); vif::vec1s s; vec<1,int> a; A::read_table(F, in, s, a); back1(s, c[0], g_csv, padded); back1(a, c[1], g_csv, padded); s.clear(); A::read_table(F, in, s); back1(s, c[0], g_csv, padded); A::read_table(F, in, _, a); back1(a, c[1], g_csv, padded); break; }
    case 3: { mc::assume(!named); auto x = col<int>(r, b, c); auto m = mat<double>(r, 2, b); auto s = col<S>(r, b + 1, c); S t; c = {c[0], mcol(m, 0), mcol(m, 1), c[1]}; mk({}); A::write_table(F, o, x, A::columns(2, m), s); chk(); vec<1,int> a; vec<2,double> d; vif::vec1s q; A::read_table(F, in, a, A::columns(2, d), q); back1(a, c[0], g_csv, padded); back2(d, {c[1], c[2]}, g_csv, padded); back1(q, c[3], g_csv, padded); A::read_table(F, in, A::columns(3, _), q); back1(q, c[3], g_csv, padded); break; }
    case 4: { mc::assume(!named); auto m = mat<int>(r, 2, b); auto s = mat<S>(r, 2, b + 1); auto x = col<int>(r, b, c); c = {mcol(m, 0), mcol(s, 0), mcol(m, 1), mcol(s, 1), c[0]}; mk({}); A::write_table(F, o, A::columns(2, m, s), x); chk(); vec<2,int> a(1, 7); vec<2,S> q; vec<1,int> z; A::read_table(F, in, A::columns(2, a, q), z); back2(a, {c[0], c[2]}, g_csv, padded); back2(q, {c[1], c[3]}, g_csv, padded); back1(z, c[4], g_csv, padded); A::read_table(F, in, A::columns(2, a, _), z); back2(a, {c[0], c[2]}, g_csv, padded); back1(z, c[4], g_csv, padded); A::read_table(F, in, A::columns(2, _, q)); back2(q, {c[1], c[3]}, g_csv, padded); break; }
    case 5: { auto m = mat<int>(r, 3, b); auto x = col<bool>(r, b, c); c = {mcol(m, 0), mcol(m, 1), mcol(m, 2), c[0]}; mk({"m_1", "m_2", "m_3", "x"}); if (named) A::write_table(F, o, ftable(m, x)); else A::write_table(F, o, m, x); chk(); vec<2,int> a; vec<1,bool> z; A::read_table(F, in, A::columns(3, a), z); back2(a, {c[0], c[1], c[2]}, g_csv, padded); back1(z, c[3], g_csv, padded); break; }
    case 6: { auto d = col<double>(r, b, c); auto x = col<int>(r, b + 2, c); auto y = col<float>(r, b, c); for (sz i = 0; i < r; ++i) c[0][i] = gfmt("%e", d[i]); mk({"vif::format::scientific(d)", "x", "y"}); if (named) A::write_table(F, o, ftable(vif::format::scientific(d), x, y)); else A::write_table(F, o, vif::format::scientific(d), x[_], y); chk(); vec<1,double> a; vec<1,int> z; vec<1,float> q; A::read_table(F, in, a, z, q); back1(a, c[0], g_csv, padded); back1(z, c[1], g_csv, padded); back1(q, c[2], g_csv, padded); break; }
    case 7: { mc::assume(!named); auto m = mat<double>(r, 2, b); auto n = mat<double>(r, 2, b + 3); for (sz j = 0; j < 2; ++j) { c.emplace_back(); for (sz i = 0; i < r; ++i) c.back().push_back(gfmt("%.3g", m(i,j))); c.push_back(mcol(n, j)); } mk({}); auto fm = vif::format::precision(m, 3); A::write_table(F, o, A::columns(2, fm, n)); chk(); vec<2,double> a, z; A::read_table(F, in, A::columns(2, a, z)); back2(a, {c[0], c[2]}, g_csv, padded); back2(z, {c[1], c[3]}, g_csv, padded); break; }
    case 8: { mc::assume(!named); auto m = mat<int>(r, 3, b); c = {mcol(m, 0), mcol(m, 1)}; mk({}); A::write_table(F, o, A::columns(2, m)); chk(); vec<2,int> a; A::read_table(F, in, A::columns(2, a)); back2(a, {c[0], c[1]}, g_csv, padded); break; } // fewer columns than the vector has
    case 9: { sz n1 = mc::choose(3), n2 = mc::choose(4); auto m = mat<int>(r, n1, b); auto n = mat<double>(r, n2, b + 1); auto x = col<int>(r, b, c), y = col<int>(r, b + 2, c); Cells k = {c[0]}; std::vector<S> q = {"x"}; for (sz j = 0; j < n1; ++j) { k.push_back(mcol(m, j)); q.push_back("m_" + std::to_string(j + 1)); } for (sz j = 0; j < n2; ++j) { k.push_back(mcol(n, j)); q.push_back("n_" + std::to_string(j + 1)); } k.push_back(c[1]); q.push_back("y"); c = k; mk(q); if (named) A::write_table(F, o, ftable(x, m, n, y)); else A::write_table(F, o, x, m, n, y); chk(); break; } // any width
    }
    auto t = tree(); MC_CHECK(t.size() == 1 && t.count(F), "other files were created");
}
// ---- reading: every file of a few lines ------------------------------------------------------------
static std::vector<std::vector<S>> parse(const S& text, const A::input_format& o, bool& ambiguous) {
    std::vector<std::vector<S>> r; sz p = 0, skipped = 0; ambiguous = false; while (p < text.size()) { sz e = text.find('\n', p); S l = text.substr(p, e == S::npos ? e : e - p); p = e == S::npos ? text.size() : e + 1; while (!l.empty() && l.back() == '\r') l.pop_back();
        sz b = l.find_first_not_of(" \t"); if (b == S::npos || (o.auto_skip && l.compare(b, o.skip_pattern.size(), o.skip_pattern) == 0)) { if (skipped < o.skip_first) ambiguous = true; continue; } if (skipped < o.skip_first) { ++skipped; continue; }
        std::vector<S> t; if (o.delim_single) { sz q = 0; for (;;) { sz d = l.find(o.delim, q); t.push_back(l.substr(q, d == S::npos ? d : d - q)); if (d == S::npos) break; q = d + o.delim.size(); } } else { S w; for (char c : l + o.delim[0]) if (o.delim.find(c) != S::npos) { if (!w.empty()) t.push_back(w); w.clear(); } else w += c; } r.push_back(t); } return r;
}
static bool tonum(const S& s, double& d, bool integer) { S t = s; sz a = t.find_first_not_of(" \t"), b = t.find_last_not_of(" \t"); if (a == S::npos) return false; t = t.substr(a, b + 1 - a); char* e; errno = 0; if (integer) { long long l = strtoll(t.c_str(), &e, 10); if (l != int(l)) return false; d = l; } else { d = strtod(t.c_str(), &e); if (std::isinf(d)) return false; } return !*e && e != t.c_str(); }
struct Got { std::vector<std::vector<double>> n; std::vector<std::vector<S>> s; };
MC_SCENARIO_S(reading, 4) {
    Dir dir; unsigned mode = mc::choose(6), schema = mc::choose(9); A::input_format o;
    static const std::vector<S> std_ = {"1 2", " 3\t4 ", "5", "# 6 7", "  #x y", "", " \t", "8 9 10 11", "a b", "1e3 2", "3000000000 1", "-5 +6 7 8", "2#3 4"}, csv = {"1,2", ",2", "1,", ",", " a b ,c", "#,1", "3,4,5,6", ",,,", " 5 , 6 ", "", "7", "\t"}, dbl = {"1::2", "::2", "1:::2", "1::", "::::", "3::4::5::6", "1:2", "", "%5::6"};
    if (mode == 1) o.auto_skip = false; if (mode == 2) o.skip_first = 1; if (mode == 3) o = A::input_format::csv(); if (mode == 4) { o = A::input_format::csv(); o.delim = "::"; o.skip_pattern = "%"; } if (mode == 5) { o.skip_first = 2; }
    auto& P = mode == 3 ? csv : mode == 4 ? dbl : std_; unsigned nl = mc::choose(mc::thorough() ? 5 : 4), end = mc::choose(3); S text; for (unsigned i = 0; i < nl; ++i) { text += mc::pick(P); if (i + 1 < nl || end != 1) text += end == 2 ? "\r\n" : "\n"; }
    bool amb; auto rows = parse(text, o, amb); mc::assume(!amb); put("t", text); MC_LOG("file ", text, " mode ", mode, " schema ", schema);
    static const std::vector<S> T = {"i", "ss", "_i", "ii", "i_i_", "is", "ds", "IS", "__s"}; S t = T[schema]; bool ok = true, scalar = schema == 7; sz n = rows.size(); if (scalar && n > 1) ok = false;
    if (ok) for (auto& w : rows) for (sz j = 0; j < t.size(); ++j) { double d; if (j >= w.size() || (strchr("iI", t[j]) && !tonum(w[j], d, true)) || (t[j] == 'd' && !tonum(w[j], d, false))) ok = false; }
    vec<1,int> i1 = {99, 98, 97, 96, 95, 94}; vec<2,int> i2; vec<1,double> d1; vif::vec1s s1 = {"old"}, s2; vec<2,S> ss; int is = -77; S st = "unset";
    bool got = mc::attempt([&] { switch (schema) { case 0: A::read_table("t", o, i1); break; case 1: A::read_table("t", o, s1, s2); break; case 2: A::read_table("t", o, _, i1); break; case 3: A::read_table("t", o, A::columns(2, i2)); break; case 4: A::read_table("t", o, A::columns(2, i2, _)); break; case 5: A::read_table("t", o, A::columns(1, i2, ss)); break; case 6: A::read_table("t", o, d1, s1); break; case 7: A::read_table("t", o, is, st); break; case 8: A::read_table("t", o, A::columns(2, _), s1); break; } });
    MC_CHECK(got == ok, ok ? "the table is rejected" : "a malformed table is accepted"); if (!ok) return;
    auto I = [&](sz j) { std::vector<int> r; for (auto& w : rows) { double d; tonum(w[j], d, true); r.push_back(int(d)); } return r; }; auto St = [&](sz j) { std::vector<S> r; for (auto& w : rows) r.push_back(w[j]); return r; };
    auto I2 = [&](std::vector<sz> js) { Arr<int> a({n, js.size()}); for (sz k = 0; k < js.size(); ++k) { auto v = I(js[k]); for (sz i = 0; i < n; ++i) a.v[i*js.size() + k] = v[i]; } return a; };
    switch (schema) { case 0: expect1(i1, I(0), "column 0"); break; case 1: expect1(s1, St(0), "column 0"); expect1(s2, St(1), "column 1"); break; case 2: expect1(i1, I(1), "column 1"); break; case 3: expect(i2, I2({0, 1}), "columns"); break; case 4: expect(i2, I2({0, 2}), "columns 0, 2"); break; case 5: expect(i2, I2({0}), "column 0"); expect(ss, Arr<S>({n, 1}, St(1)), "column 1"); break;
        case 6: { std::vector<double> e; for (auto& w : rows) { double d; tonum(w[0], d, false); e.push_back(d); } expect1(d1, e, "column 0"); expect1(s1, St(1), "column 1"); break; } case 7: MC_CHECK(n == 0 ? is == -77 && st == "unset" : is == I(0)[0] && st == St(1)[0], "scalars are ", is, " ", st); break; case 8: expect1(s1, St(2), "column 2"); break; }
    MC_CHECK(slurp("t") == text, "reading changed the file");
}
// ---- what cannot be written or read is rejected ----------------------------------------------------
MC_SCENARIO(mismatch) {
    Dir dir; sz a = mc::choose(4), b = mc::choose(4), c = mc::choose(4); unsigned k = mc::choose(6), f = mc::choose(2); A::output_format o = f ? A::output_format::csv() : A::output_format::standard(); vec<1,int> x(a), y(b), z(c); vec<2,int> m(b, c), q(b, c); bool ok = true, got = true; MC_LOG("sizes ", a, " ", b, " ", c, " case ", k);
    switch (k) { case 0: ok = a == b && b == c; got = mc::attempt([&] { A::write_table("t", o, x, y, z); }); break;
    case 1: ok = a == b; got = mc::attempt([&] { A::write_table("t", o, x, A::columns(c, m), y); }); break;
    case 2: ok = a <= c; got = mc::attempt([&] { A::write_table("t", o, A::columns(a, m, q)); }); break; // more columns than there are
    case 3: { o.header = vif::replicate(S("h"), a); ok = a == 0 || a == 2; got = mc::attempt([&] { A::write_table("t", o, y, y); }); break; }
    case 4: { o.header = vif::replicate(S("h"), a); ok = a == 0 || a == c + 1; got = mc::attempt([&] { A::write_table("t", o, y, m); }); break; }
    case 5: { vec<2,int> w(a, c); ok = a == b; got = mc::attempt([&] { A::write_table("t", o, A::columns(c, vif::format::scientific(m)), A::columns(c, w)); }); break; } }
    MC_CHECK(got == ok, ok ? "rejected" : "columns of different sizes are accepted");
}
MC_SCENARIO(files) {
    Dir dir; ::mkdir("d", 0755); put("r", "1 2\n"); chmod("r", 0); ::mkdir("ro", 0555); put("g", "1 2\n"); unsigned k = mc::choose(8); sz n = mc::pick<sz>({0, 1, 100000}); vec<1,int> x(n), y(n); bool ok = false, got = true; MC_LOG("file case ", k); unsigned f = mc::choose(2); A::output_format o = f ? A::output_format::csv() : A::output_format::standard(); bool root = geteuid() == 0;
    switch (k) { case 0: got = mc::attempt([&] { A::read_table("missing", x, y); }); break; case 1: got = mc::attempt([&] { A::read_table("d", x, y); }); break; case 2: if (root) return; got = mc::attempt([&] { A::read_table("r", x, y); }); break; case 3: got = mc::attempt([&] { A::write_table("d", o, x, y); }); break;
    case 4: if (root) return; got = mc::attempt([&] { A::write_table("ro/t", o, x, y); }); break; case 5: got = mc::attempt([&] { A::write_table("no/t", o, x, y); }); break; case 6: ok = n == 0; got = mc::attempt([&] { A::write_table("/dev/full", o, x, y); }); break; case 7: if (root) return; got = mc::attempt([&] { A::write_table("r", o, x, y); }); chmod("r", 0644); MC_CHECK(slurp("r") == "1 2\n", "unwritable file changed"); break; }
    MC_CHECK(got == ok, ok ? "rejected" : "the error is not reported");
}
