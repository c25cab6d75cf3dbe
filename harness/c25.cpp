// C25: FITS tables.
#ifndef PART
#define PART 0
#endif
#include "vifref.hpp"
#include "fitsref.hpp"
#undef exit
#undef _exit
#undef abort
#undef terminate
#undef quick_exit
#include <fitsio.h>
static void leave(int c) { _exit(c); }
#include "trap.hpp"
#include <vif/core/print.hpp>
#include <vif/core/string_conversion.hpp>
#include <vif/utility/string.hpp>
#include <vif/io/filesystem.hpp>
#include <vif/io/fits.hpp>
using namespace vr; using namespace fsu; using fr::HDU; using vif::_;
namespace F = vif::fits;
// Rejections that happen in destructors end the program: observe them in a child process
template<typename G> bool accepted(G g) { mc::op(); fflush(stdout); fflush(stderr); pid_t p = fork(); if (p == 0) { std::set_terminate([] { leave(42); }); try { g(); leave(0); } catch (...) { leave(42); } } int st = 0; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} MC_CHECK(WIFEXITED(st) && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 42), "crash, status ", st); return WEXITSTATUS(st) == 0; }
template<typename T> const std::vector<T>& ext();
template<> const std::vector<bool>& ext<bool>() { static const std::vector<bool> p = {true, false, true}; return p; }
template<> const std::vector<char>& ext<char>() { static const std::vector<char> p = {'a', 0, 127, -128, -1, 1, ' '}; return p; }
template<> const std::vector<short>& ext<short>() { static const std::vector<short> p = {1, 0, 32767, -32768, -1, 256}; return p; }
template<> const std::vector<int_t>& ext<int_t>() { static const std::vector<int_t> p = {1, 0, std::numeric_limits<int_t>::max(), std::numeric_limits<int_t>::min(), -1, 1l << 53, 4294967296l}; return p; }
template<> const std::vector<uint_t>& ext<uint_t>() { static const std::vector<uint_t> p = {1, 0, ~0ul, 1ul << 63, (1ul << 53) + 1, 65536}; return p; }
template<> const std::vector<float>& ext<float>() { static const std::vector<float> p = {1.5f, 0.0f, -0.0f, INFINITY, -INFINITY, NAN, 1e-45f, 3.4e38f, 1.17549435e-38f, -1e-40f}; return p; }
template<> const std::vector<double>& ext<double>() { static const std::vector<double> p = {1.5, 0.0, -0.0, INFINITY, -INFINITY, NAN, 5e-324, 1.7e308, 2.2250738585072014e-308, -1e-310, 0.1}; return p; }
template<> const std::vector<S>& ext<S>() { static const std::vector<S> p = {"a", "", "some words", "it's", "x", "100000000000000000000000000", "y/z"}; return p; }
template<typename T> struct code; template<> struct code<bool> { static const char c = 'B'; static const sz w = 1; }; template<> struct code<char> { static const char c = 'B'; static const sz w = 1; }; template<> struct code<short> { static const char c = 'I'; static const sz w = 2; }; template<> struct code<int_t> { static const char c = 'K'; static const sz w = 8; }; template<> struct code<uint_t> { static const char c = 'K'; static const sz w = 8; }; template<> struct code<float> { static const char c = 'E'; static const sz w = 4; }; template<> struct code<double> { static const char c = 'D'; static const sz w = 8; }; template<> struct code<S> { static const char c = 'A'; static const sz w = 1; };
template<typename T> T elt(const S& d, sz off, bool sbyte) { if constexpr (std::is_same<T,bool>::value) return d[off] != 0; else if constexpr (std::is_same<T,char>::value) return char(int((unsigned char)d[off]) - (sbyte ? 128 : 0)); else return fr::be<T>(d, off); }
template<typename T> Arr<T> col(const Dims& d, unsigned base) { Arr<T> a(d); auto& p = ext<T>(); for (sz i = 0; i < a.v.size(); ++i) a.v[i] = p[(base + i) % p.size()]; return a; }
template<typename T> bool bits(const T& a, const T& b) { if constexpr (std::is_floating_point<T>::value) return (std::isnan(a) && std::isnan(b)) || (a == b && std::signbit(a) == std::signbit(b)); else return a == b; }
template<std::size_t D, typename T> void got(const vec<D,T>& v, const Arr<T>& a, const char* w) { auto r = vr::read(v); mc::op(); MC_CHECK(r.d == a.d, w, ": dims ", r.d, " instead of ", a.d); for (sz i = 0; i < a.v.size(); ++i) MC_CHECK(bits<T>(r.v[i], a.v[i]), w, ": value ", i, " is ", T(r.v[i]), " instead of ", T(a.v[i])); mc::outcome(mc::mix(a.v.size(), a.v.empty() ? 0 : std::hash<T>()(a.v[0]))); }
template<typename T> sz maxlen(const Arr<T>& a) { sz n = 1; if constexpr (std::is_same<T,S>::value) for (auto& s : a.v) n = std::max(n, s.size()); return n; }
static S tdim(const Dims& d) { S s = "("; for (sz i = d.size(); i-- > 0;) s += (i + 1 < d.size() ? "," : "") + std::to_string(d[i]); return s + ")"; }
static S up(S s) { for (char& c : s) c = char(toupper(c)); return s; }
// offset of a column in a row and its width, from the TFORM keywords
struct Loc { int c = 0; sz off = 0, repeat = 0; char code = 0; };
static Loc locate(const HDU& h, const S& name) { Loc l; sz off = 0; int n = int(h.num("TFIELDS")); for (int c = 1; c <= n; ++c) { S f = h.str("TFORM" + std::to_string(c)); sz p = 0; sz rep = 0; while (isdigit((unsigned char)f[p])) rep = rep*10 + (f[p++] - '0'); if (p == 0) rep = 1; char k = f[p]; sz w = k == 'D' || k == 'K' ? 8 : k == 'E' || k == 'J' ? 4 : k == 'I' ? 2 : 1; if (h.str("TTYPE" + std::to_string(c)) == name) { MC_CHECK(l.c == 0, "two columns called ", name); l.c = c; l.off = off; l.repeat = rep; l.code = k; } off += rep*w; } MC_CHECK(sz(h.num("NAXIS1")) == off, "row width ", h.num("NAXIS1"), " instead of ", off); return l; }
// what is stored in the file is what was given
template<typename T> void filed(const S& file, sz hdu, const S& name, const Arr<T>& a, bool rows) {
    auto f = fr::load(file); MC_CHECK(hdu < f.size() && f[hdu].str("XTENSION") == "BINTABLE", "no table in HDU ", hdu); auto& h = f[hdu]; auto l = locate(h, up(name)); MC_CHECK(l.c > 0, "no column ", name, " in the file"); Dims in = a.d; sz nr = 1; if (rows) { nr = a.d[0]; in.erase(in.begin()); } MC_CHECK(sz(h.num("NAXIS2")) == nr, "table has ", h.num("NAXIS2"), " rows instead of ", nr); sz len = maxlen(a), n = 1; for (sz x : in) n *= x;
    MC_CHECK(l.code == code<T>::c, "stored as type ", S(1, l.code)); MC_CHECK(l.repeat == n*len, "repeat count is ", l.repeat, " instead of ", n*len); S c = std::to_string(l.c); if (!in.empty()) { Dims td = in; if (std::is_same<T,S>::value) td.push_back(len); if (td.size() > 1) MC_CHECK(h.str("TDIM" + c) == tdim(td), "TDIM is ", h.str("TDIM" + c), " instead of ", tdim(td)); }
    sz rw = sz(h.num("NAXIS1")), w = std::is_same<T,S>::value ? len : code<T>::w; bool sb = h.has("TZERO" + c); if (sb) MC_CHECK(h.num("TZERO" + c) == -128, "TZERO"); for (sz i = 0; i < a.v.size(); ++i) { sz r = n ? i/n : 0, k = n ? i%n : 0, off = r*rw + l.off + k*w; if constexpr (std::is_same<T,S>::value) { S s = h.data.substr(off, len).c_str(); MC_CHECK(fr::rtrim(s) == a.v[i], "string ", i, " stored as ", s, " instead of ", a.v[i]); } else { T t = elt<T>(h.data, off, sb); MC_CHECK(bits<T>(t, a.v[i]), "value ", i, " stored as ", t, " instead of ", T(a.v[i])); } }
}
template<typename T> bool info_ok(const F::column_info& ci, const Arr<T>& a, bool rows) { using C = F::column_info; auto t = std::is_same<T,S>::value ? C::string : std::is_same<T,bool>::value ? C::boolean : std::is_same<T,char>::value ? C::byte : std::is_integral<T>::value ? C::integer : std::is_same<T,float>::value ? C::float_simple : C::float_double; return ci.type == t; }
// ---- every type and shape, alone or after another column -------------------------------------------
template<std::size_t D, typename T> void roundtrip() {
    Dir dir; bool rows = mc::flip(); Dims d; for (sz i = 0; i < D; ++i) d.push_back(rows ? (i ? 1 : 2) + mc::choose(D == 1 ? 3 : 2) : mc::choose(D == 1 ? 5 : D == 2 ? 4 : 3)); unsigned b = mc::choose(mc::thorough() ? unsigned(ext<T>().size()) : 3); auto a = col<T>(d, b); auto v = make<D,T>(a); unsigned other = mc::choose(3); MC_LOG(rows ? "rows " : "columns ", a, " other ", other); const char* N = "t.fits"; if (mc::flip()) put(N, S(5000, 'x'));
    Arr<short> o1 = col<short>({d[0]}, 1); auto o = make<1,short>(o1); { F::output_table t(N); if (rows) t.set_format(F::table_format::row_oriented); if (other == 1) t.write_column("oth", o); if (other == 0) t.write_column("Data", v); else if (D == 1) t.write_columns("Data", v); else { Dims d2 = d; d2[0] += 1; Arr<T> g(d2); for (sz i = 0; i < a.v.size(); ++i) g.v[g.v.size() - a.v.size() + i] = a.v[i]; auto big = make<D,T>(g); vif::vec1u ids; for (sz i = 0; i < d[0]; ++i) ids.push_back(i + 1); if constexpr (D == 2) t.write_columns("Data", big(ids,_)); else if constexpr (D == 3) t.write_columns("Data", big(ids,_,_)); } if (other == 2) t.write_column("oth", o); }
    filed<T>(N, 1, "DATA", a, rows); if (other) filed<short>(N, 1, "oth", o1, rows); auto f = fr::load(N); MC_CHECK(f.size() == 2 && f[0].naxis() == 0 && f[1].num("TFIELDS") == (other ? 2 : 1), "layout of the file");
    auto rd = [&](F::input_table& t) { vec<D,T> w; { std::array<uint_t,D> wd; wd.fill(2); w = vec<D,T>(wd); } F::table_read_options opt; if (rows && D == 2 && d[1] == 1) opt = opt | F::dim_promote; bool r = bool(t.read_column(opt, "data", w)); MC_CHECK(r, "column cannot be read back"); if (!(rows && D >= 2 && d[1] == 1)) got(w, a, "column"); if (other) { vec<1,short> x; MC_CHECK(bool(t.read_column("OTH", x)), "other column cannot be read"); got(x, o1, "other column"); }
        vec<1,short> y = {5, 6}; MC_CHECK(!bool(t.read_column("nope", y)), "a missing column is read"); MC_CHECK(bool(t.read_column(F::missing, "nope", y)) && y.size() == 2 && y[1] == 6, "missing column with option 'missing'"); };
    // a row of single elements has no inner dimension in the file
    { F::input_table t(N); rd(t); bool nulls = a.v.empty(); F::column_info ci; bool empty_byte = sizeof(T) == 1 && nulls && !std::is_same<T,S>::value; if (!empty_byte) { MC_CHECK(t.read_column_info("data", ci), "read_column_info"); MC_CHECK(ci.name == "DATA" && ci.column_id == (other == 1 ? 2 : 1), "column info: ", ci.name, " ", ci.column_id); if (sizeof(T) > 1 || std::is_same<T,S>::value) MC_CHECK(info_ok<T>(ci, a, rows), "column type is wrong"); { auto e = d; if (rows && D == 2 && d[1] == 1) e.pop_back(); expect1(ci.dims, std::vector<uint_t>(e.begin(), e.end()), "column info dimensions"); } if (std::is_same<T,S>::value) MC_CHECK(ci.length == maxlen(a), "string length is ", ci.length); } MC_CHECK(!t.read_column_info("nope", ci), "info about a missing column"); F::input_table t2(std::move(t)); rd(t2); MC_CHECK(!t.is_open(), "moved table is still open"); }
    if (!rows && D < 3) { vec<D+1,T> u; { F::input_table t(N); MC_CHECK(!bool(t.read_column("data", u)), "read with too many dimensions"); MC_CHECK(bool(t.read_column(F::dim_promote, "data", u)), "dim_promote"); Dims e = d; e.insert(e.begin(), 1); Arr<T> ea(e, a.v); got(u, ea, "promoted column"); } }
    if constexpr (D > 1) if (!rows) { vec<D-1,T> u; F::input_table t(N); MC_CHECK(!bool(t.read_column("data", u)), "read with too few dimensions"); if constexpr (!std::is_same<T,S>::value) { vec<1,T> q; MC_CHECK(bool(t.read_column(F::flatten, "data", q)), "flatten"); got(q, Arr<T>({a.v.size()}, a.v), "flattened column"); } T s = T(); MC_CHECK(!bool(t.read_column("data", s)), "several dimensions read into a scalar"); rd(t); }
}
#define RT(T) MC_SCENARIO_S(roundtrip_##T, 3) { switch (mc::choose(3)) { case 0: roundtrip<1,T>(); break; case 1: roundtrip<2,T>(); break; case 2: roundtrip<3,T>(); break; } }
#if PART == 0
RT(bool) RT(char)
#elif PART == 1
RT(short) RT(int_t)
#elif PART == 2
RT(uint_t) RT(float)
#elif PART == 3
RT(double) RT(S)
#elif PART == 4
// ---- reading into another type ---------------------------------------------------------------------
template<typename T, typename U> void convert(bool must, bool mustnot) {
    Dir dir; sz n = 1 + mc::choose(2); unsigned b = mc::choose(unsigned(ext<T>().size())); bool el = mc::flip(); auto a = col<T>({n}, b); auto v = make<1,T>(a); F::write_table("c.fits", "V", v); vec<1,U> u; MC_LOG("values ", a); bool rep = true;
    for (sz i = 0; i < n; ++i) { T x = a.v[i]; if (std::is_unsigned<U>::value && std::is_signed<T>::value && x < 0) rep = false; if (std::is_same<T,uint_t>::value && double(x) > 9.2e18) rep = false; if (std::is_same<U,bool>::value && x != 0 && x != 1) rep = false; } bool ok; F::table t("c.fits");
    if (el) { mc::assume(sizeof(T) > 1); ok = mc::attempt([&] { u.resize(n); for (sz i = 0; i < n; ++i) { U x = U(); t.read_elements("v", x, F::at(i)); u[i] = x; } }); } else { ok = mc::attempt([&] { if (!t.read_column("v", u)) mc::reject(); }); } if (mustnot) MC_CHECK(!ok, "lossy conversion accepted"); if (!rep) return; if (must) MC_CHECK(ok, "conversion rejected"); bool narrow = !ok; if (!ok) { if (!el) { bool q = mc::attempt([&] { if (!t.read_column(F::narrow, "v", u)) mc::reject(); }); if (!q) return; bool fit = true; for (sz i = 0; i < n; ++i) { double x = double(T(a.v[i])); if (std::isfinite(x) && (std::fabs(x) > double(std::numeric_limits<U>::max()) || x < double(std::numeric_limits<U>::lowest()))) fit = false; } if (!fit) return; } else return; }
    auto r = vr::read(u); MC_CHECK(r.v.size() == n, "size"); for (sz i = 0; i < n; ++i) { U e = U(T(a.v[i])); MC_CHECK(bits<U>(r.v[i], e) || U(r.v[i]) == e || (narrow && std::is_same<U,float>::value && !std::isnormal(double(e))), "value ", T(a.v[i]), " read as ", U(r.v[i])); }
}
template<typename T> void convert_to(unsigned k) { using std::is_same; const bool fl = std::is_floating_point<T>::value, is8 = sizeof(T) == 1, is16 = sizeof(T) == 2;
    switch (k) { case 0: convert<T,bool>(is_same<T,bool>::value, !is8); break; case 1: convert<T,char>(is8, !is8); break; case 2: convert<T,short>(is8 || is16, !is8 && !is16); break; case 3: convert<T,int_t>(!fl, fl); break; case 4: convert<T,uint_t>(!fl, fl); break; case 5: convert<T,float>(is8 || is16 || is_same<T,float>::value, is_same<T,double>::value); break; case 6: convert<T,double>(true, false); break; } }
MC_SCENARIO_S(conversion, 2) { unsigned t = mc::choose(7), k = mc::choose(7); switch (t) { case 0: convert_to<bool>(k); break; case 1: convert_to<char>(k); break; case 2: convert_to<short>(k); break; case 3: convert_to<int_t>(k); break; case 4: convert_to<uint_t>(k); break; case 5: convert_to<float>(k); break; case 6: convert_to<double>(k); break; } }
// ---- several columns of any type, scalars ----------------------------------------------------------
template<typename T> bool scalar_same(const T& a, const T& b) { return bits<T>(a, b); }
MC_SCENARIO_S(scalars, 2) {
    Dir dir; unsigned b = mc::choose(11), how = mc::choose(3); bool bo = ext<bool>()[b % 3]; char ch = ext<char>()[b % 7]; short sh = ext<short>()[b % 6]; int_t in = ext<int_t>()[b % 7]; uint_t un = ext<uint_t>()[b % 6]; float fl = ext<float>()[b % 10]; double db = ext<double>()[b % 11]; S st = ext<S>()[b % 7]; vec<1,double> v = {db, 1.0}; const char* N = "s.fits"; MC_LOG("scalars ", b, " ", how);
    auto bo0 = bo; auto ch0 = ch; auto sh0 = sh; auto in0 = in; auto un0 = un; auto fl0 = fl; auto db0 = db; auto st0 = st;
    if (how == 0) F::write_table(N, ftable(bo, ch, sh, in, un, fl, db, st, v)); else if (how == 1) F::write_table(N, "bo", bo, "ch", ch, "sh", sh, "in", in, "un", un, "fl", fl, "db", db, "st", st, "v", v); else { F::table t(N); t.update_columns("bo", bo, "ch", ch, "sh", sh); t.update_columns("in", in, "un", un, "fl", fl, "db", db, "st", st, "v", v); }
    bo = !bo; ch = 'q'; sh = 9; in = 9; un = 9; fl = 9; db = 9; st = "unset"; v = {};
    if (how == 0) F::read_table(N, ftable(bo, ch, sh, in, un, fl, db, st, v)); else if (how == 1) F::read_table(N, "V", v, "ST", st, "db", db, "fl", fl, "un", un, "in", in, "sh", sh, "ch", ch, "bo", bo); else F::read_table_loose(N, "bo", bo, "ch", ch, "none", v, "sh", sh, "in", in, "un", un, "fl", fl, "db", db, "st", st, "v", v);
    mc::op(9); MC_CHECK(bo == bo0 && ch == ch0 && sh == sh0 && in == in0 && un == un0 && bits(fl, fl0) && bits(db, db0) && st == fr::trim(st0), "scalars read back are ", bo, " ", int(ch), " ", sh, " ", in, " ", un, " ", fl, " ", db, " ", st); got(v, Arr<double>({2}, {db0, 1.0}), "vector");
    // single values can be read into vectors of one element
    { vec<1,short> a; F::read_table(N, "sh", a); got(a, Arr<short>({1}, {sh0}), "scalar as vector"); vif::vec1s s; F::read_table(N, "st", s); if (!st0.empty()) got(s, Arr<S>({1}, {fr::trim(st0)}), "string as vector"); }
    auto ci = F::read_table_columns(N); MC_CHECK(ci.size() == 9, "read_table_columns finds ", ci.size(), " columns"); const char* names[] = {"BO", "CH", "SH", "IN", "UN", "FL", "DB", "ST", "V"}; for (sz i = 0; i < 9; ++i) MC_CHECK(ci[i].name == names[i] && ci[i].column_id == int(i) + 1, "column ", i, " is ", ci[i].name);
    auto c2 = F::read_table_columns(N, 1); MC_CHECK(c2.size() == 9, "read_table_columns with HDU");
}
MC_SCENARIO(rejections) {
    Dir dir; unsigned k = mc::choose(8); vec<1,double> v = {1.0, 2.0}; vif::vec1s s = {"a", "b"}; F::write_table("r.fits", "v", v, "s", s); MC_LOG("case ", k); vec<1,int_t> iv; double d = 5; S st = "u"; vif::vec2d v2; vif::vec1s sv; bool ok = true;
    switch (k) { case 0: ok = accepted([&] { F::read_table("r.fits", "w", v); }); break; case 1: ok = accepted([&] { F::read_table("r.fits", "v", iv); }); break; case 2: ok = accepted([&] { F::read_table("r.fits", "v", v2); }); break; case 3: ok = accepted([&] { F::read_table("r.fits", "v", d); }); break; case 4: ok = accepted([&] { F::read_table("r.fits", "s", v); }); break; case 5: ok = accepted([&] { F::read_table("r.fits", "v", sv); }); break; case 6: ok = accepted([&] { F::read_table("missing.fits", "v", v); }); break; case 7: ok = accepted([&] { vec<1,double> w = {1.0, 2.0, 3.0}; F::output_table t("q.fits"); t.set_format(F::table_format::row_oriented); t.write_columns("a", v, "b", w); }); break; }
    MC_CHECK(!ok, "accepted"); MC_CHECK(accepted([&] { F::read_table("r.fits", "v", v, "s", sv); }), "rejected");
}
// elements are read and updated with exactly the dimensions that are accessed
template<std::size_t D, bool W, typename A> void element_shape(sz first, sz n, sz rows, const A& at, sz ranges) {
    vec<3,short> c(2, 2, 3); for (sz i = 0; i < 12; ++i) c[i] = short(i*7 - 3); { F::output_table t("s.fits"); if (rows) t.set_format(F::table_format::row_oriented); t.write_columns("c", c, "d", c); }
    auto e = vr::read(c); Arr<short> full = e; mc::op(); mc::outcome(D*4 + ranges); auto shape = [&](auto& v) { if constexpr (D == 1) { v.dims[0] = 3; v.resize(); } if constexpr (D == 2) { v.dims[0] = 2; v.dims[1] = 3; v.resize(); } if constexpr (D == 3) { v.dims = c.dims; v.resize(); } };
    bool want = D == ranges;
    if constexpr (D == 0) { short x = 55; { F::table t("s.fits"); if (W) { bool ok = mc::attempt([&] { t.update_elements("C", x, at); }); MC_CHECK(ok == want, "update of one element"); if (ok) full.v[first] = 55; } else { bool ok = mc::attempt([&] { t.read_elements("C", x, at); }); MC_CHECK(ok == want, "reading one element"); if (ok) MC_CHECK(x == e.v[first], "element"); else MC_CHECK(x == 55, "refused but modified"); } } }
    else { vec<D,short> v; if (W) { shape(v); for (sz i = 0; i < v.size(); ++i) v[i] = short(100 + i); } F::table t("s.fits"); bool ok = mc::attempt([&] { if (W) t.update_elements("C", v, at); else t.read_elements("C", v, at); }); MC_CHECK(ok == want, W ? "update" : "reading"); if (ok) { MC_CHECK(v.size() == n, "number of elements ", v.size()); for (sz i = 0; i < n; ++i) { if (W) full.v[first + i] = short(100 + i); else MC_CHECK(v[i] == e.v[first + i], "element ", i); } } }
    vec<3,short> r, d; F::read_table("s.fits", "c", r, "d", d); got(r, full, "column afterwards"); got(d, e, "other column");
}
template<bool W, typename A> void element_dims(sz first, sz n, sz rows, const A& at, sz ranges) { switch (mc::choose(4)) { case 0: return element_shape<0,W>(first, n, rows, at, ranges); case 1: return element_shape<1,W>(first, n, rows, at, ranges); case 2: return element_shape<2,W>(first, n, rows, at, ranges); default: return element_shape<3,W>(first, n, rows, at, ranges); } }
template<bool W> void element_shapes() {
    Dir dir; using vif::_; sz rows = mc::choose(2), k = mc::choose(3), i = mc::choose(2); MC_LOG(rows ? "rows" : "columns", " ranges ", k, " at ", i);
    if (k == 0) { sz j = mc::choose(2), l = mc::choose(3); element_dims<W>((i*2 + j)*3 + l, 1, rows, F::at(i, j, l), 0); } else if (k == 1) { sz j = mc::choose(2); element_dims<W>((i*2 + j)*3, 3, rows, F::at(i, j, _), 1); } else element_dims<W>(i*6, 6, rows, F::at(i, _, _), 2);
}
MC_SCENARIO(element_shapes_read) { element_shapes<false>(); }
MC_SCENARIO(element_shapes_update) { element_shapes<true>(); }
// columns of strings with up to three dimensions, read with any number of dimensions and options
template<std::size_t D> vec<D,S> str_vec(unsigned n0) { vec<D,S> v; for (sz i = 0; i < D; ++i) v.dims[i] = i == 0 ? n0 : i + 1; v.resize(); for (sz i = 0; i < v.size(); ++i) v[i] = std::string(1 + i%3, 'a' + i%26); return v; }
template<std::size_t D, std::size_t R> void str_read(const vec<D,S>& v, const F::table_read_options& op, unsigned o, bool rows) {
    F::input_table t("s.fits"); vec<R,S> r; bool ok = mc::attempt([&] { if (!t.read_column(op, "s", r)) mc::reject(); }); mc::outcome(D*100 + R*10 + ok); if (D == R) MC_CHECK(ok, "same dimensions refused"); if (R > D && !rows) MC_CHECK(ok == bool(o & 1), "promotion"); if (R < D && !(o & 2)) MC_CHECK(!ok, "fewer dimensions");
    if (!ok) return; MC_CHECK(r.size() == v.size(), r.size(), " elements of ", v.size()); for (sz i = 0; i < v.size(); ++i) MC_CHECK(r[i] == v[i], "string ", i, " is '", r[i], "' instead of '", v[i], "'"); for (sz i = 0; i < R && R >= D; ++i) MC_CHECK(r.dims[i] == (i < R - D ? 1 : v.dims[i - (R - D)]), "dimensions");
}
template<std::size_t D> void str_shapes() {
    Dir dir; bool rows = mc::flip(); unsigned o = mc::choose(4), r = mc::choose(4); auto v = str_vec<D>(1 + mc::choose(3)); mc::assume(D == 1 || !rows || v.dims[0] > 1); /* a single row is read as a column-oriented table */ F::table_read_options op; if (o & 1) op = op | F::dim_promote; if (o & 2) op = op | F::flatten; MC_LOG(rows ? "rows " : "columns ", v.dims, " options ", o, " into ", r, " dimensions"); { F::output_table t("s.fits"); if (rows) t.set_format(F::table_format::row_oriented); t.write_column("s", v); } mc::op();
    switch (r) { case 0: { F::input_table t("s.fits"); S x = "-"; bool ok = mc::attempt([&] { if (!t.read_column(op, "s", x)) mc::reject(); }); mc::outcome(ok); if (v.size() != 1) MC_CHECK(!ok, v.size(), " strings read into one"); if (ok) MC_CHECK(x == v[0], "string"); else MC_CHECK(x == "-", "refused but modified"); break; } case 1: str_read<D,1>(v, op, o, rows); break; case 2: str_read<D,2>(v, op, o, rows); break; default: str_read<D,3>(v, op, o, rows); }
}
MC_SCENARIO(string_shapes_1) { str_shapes<1>(); }
MC_SCENARIO(string_shapes_2) { str_shapes<2>(); }
MC_SCENARIO(string_shapes_3) { str_shapes<3>(); }
// a column is read into a single value exactly when it holds one element, whatever the format and the options
template<typename T> void one_element(const vec<1,T>& all) {
    Dir dir; bool rows = mc::flip(); sz n = mc::choose(4); bool two = mc::flip(); vec<1,T> v; for (sz i = 0; i < n; ++i) v.push_back(all[i]); unsigned o = mc::choose(4); F::table_read_options op; if (o == 1) op = F::flatten; else if (o == 2) op = F::dim_promote; else if (o == 3) op = F::permissive; MC_LOG(rows ? "rows " : "columns ", n, two ? " (n,1)" : "", " options ", o);
    mc::assume(n > 0 || !std::is_same<T,S>::value); { F::output_table t("e.fits"); if (rows) t.set_format(F::table_format::row_oriented); if (two) t.write_column("v", vif::reform(v, n, 1)); else t.write_column("v", v); } mc::op(); mc::outcome(n*4 + o);
    F::input_table t("e.fits"); T x = all[3]; bool ok = bool(t.read_column(op, "v", x)); if (n != 1) MC_CHECK(!ok, n, " elements read into a single value"); else if (!std::is_same<T,S>::value && !two) MC_CHECK(ok, "a single element is refused"); if (ok) MC_CHECK(x == v[0], "value"); else MC_CHECK(x == all[3], "refused but modified");
}
MC_SCENARIO(one_double) { one_element<double>({1.5, -2.0, 4.0, 9.0}); }
MC_SCENARIO(one_short) { one_element<short>({1, -2, 4, 9}); }
MC_SCENARIO(one_string) { one_element<S>({"ab", "c", "def", "zz"}); }
// each reading option allows one kind of mismatch, and no other
MC_SCENARIO(options) {
    Dir dir; vec<1,double> v = {1.5, -2.0}; vec<2,short> m(2, 3); for (sz i = 0; i < 6; ++i) m[i] = short(i*7); vec<3,int_t> c(2, 1, 3); for (sz i = 0; i < 6; ++i) c[i] = int_t(i) - 2; F::write_table("o.fits", "v", v, "m", m, "c", c); unsigned o = mc::choose(17), how = mc::choose(3); F::table_read_options op; if (o == 16) { op = F::permissive; o = 15; } else { if (o & 1) op = op | F::narrow; if (o & 2) op = op | F::missing; if (o & 4) op = op | F::dim_promote; if (o & 8) op = op | F::flatten; } MC_LOG("options ", o, " method ", how); F::input_table t("o.fits"); mc::op(5); mc::outcome(o);
    auto rd = [&](const char* n, auto& x) { if (how == 0) return bool(t.read_column(op, n, x)); auto go = [&]() { F::input_table t("o.fits"); if (how == 1) { t.read_columns(op, n, x); return; } vec<1,double> w; t.read_columns(op, "V", w, n, x); got(w, vr::read(v), "first column"); }; if (!accepted(go)) return false; go(); return true; };
    vec<1,double> a = {7.0}; MC_CHECK(rd("nope", a) == bool(o & 2) && a.size() == 1 && a[0] == 7.0, "missing column"); vec<1,float> f; MC_CHECK(rd("v", f) == bool(o & 1), "narrowing"); if (o & 1) got(f, Arr<float>({2}, {1.5f, -2.0f}), "narrowed column"); vec<2,double> p; MC_CHECK(rd("v", p) == bool(o & 4), "promoted dimensions"); if (o & 4) got(p, Arr<double>({1, 2}, {1.5, -2.0}), "promoted column"); vec<1,short> q; MC_CHECK(rd("m", q) == bool(o & 8), "flattening"); if (o & 8) got(q, Arr<short>({6}, {0, 7, 14, 21, 28, 35}), "flattened column"); vec<2,short> s; MC_CHECK(rd("m", s), "exact match"); got(s, vr::read(m), "column"); vec<1,S> st; MC_CHECK(!rd("v", st), "numbers read as strings");
    // more dimensions: only a 1-D vector can receive a flattened column, any number of dimensions can be added
    vec<2,int_t> c2; MC_CHECK(!rd("c", c2), "three dimensions read into two"); vec<1,int_t> c1; MC_CHECK(rd("c", c1) == bool(o & 8), "flattening three dimensions"); if (o & 8) got(c1, Arr<int_t>({6}, {-2, -1, 0, 1, 2, 3}), "flattened column of three dimensions"); vec<3,int_t> c3; MC_CHECK(rd("c", c3), "three dimensions"); got(c3, vr::read(c), "column of three dimensions"); vec<5,int_t> c5; MC_CHECK(rd("c", c5) == bool(o & 4), "promoting three dimensions to five"); if (o & 4) got(c5, Arr<int_t>({1, 1, 2, 1, 3}, {-2, -1, 0, 1, 2, 3}), "column promoted to five dimensions"); int_t cs = 9; MC_CHECK(!rd("c", cs), "three dimensions read into a scalar"); double vs = 9; MC_CHECK(!rd("v", vs), "one dimension read into a scalar"); vec<4,short> m4; MC_CHECK(rd("m", m4) == bool(o & 4), "promoting two dimensions to four"); if (o & 4) got(m4, Arr<short>({1, 1, 2, 3}, {0, 7, 14, 21, 28, 35}), "column promoted to four dimensions");
}
#elif PART == 5
// ---- histories --------------------------------------------------------------------------------------
struct MC { S name; unsigned kind, base; }; // kind 0: vec1d(2), 1: vec2 short 2x3, 2: vec1s(2), 3: vec1 int_t (3 in column-oriented tables)
struct MT { bool rows; std::vector<MC> c; };
static Arr<double> k0(unsigned b) { return Arr<double>({2}, {b + 0.5, b*2.0}); } static Arr<short> k1(unsigned b) { Arr<short> a({2, 3}); for (sz i = 0; i < 6; ++i) a.v[i] = short(b*10 + i); return a; } static Arr<S> k2(unsigned b) { return Arr<S>({2}, {b % 2 ? "x" : "longer string", "s" + std::to_string(b)}); } static Arr<int_t> k3(unsigned b, bool rows) { return rows ? Arr<int_t>({2}, {int_t(b), -5}) : Arr<int_t>({3}, {int_t(b), -5, 7}); }
template<typename G> void with(const MC& c, bool rows, G g) { switch (c.kind) { case 0: { auto a = k0(c.base); g(a, make<1,double>(a)); break; } case 1: { auto a = k1(c.base); g(a, make<2,short>(a)); break; } case 2: { auto a = k2(c.base); g(a, make<1,S>(a)); break; } case 3: { auto a = k3(c.base, rows); g(a, make<1,int_t>(a)); break; } } }
static void apicheck(const F::input_table& t, const MT& m) { for (S n : {"A", "B", "C"}) { const MC* c = nullptr; for (auto& x : m.c) if (x.name == n) { c = &x; break; } F::column_info ci; MC_CHECK(t.read_column_info(n, ci) == (c != nullptr), "presence of column ", n); if (!c) continue; with(*c, m.rows, [&](auto& a, auto v) { auto e = v; v.clear(); MC_CHECK(bool(t.read_column(n, v)), "column ", n, " cannot be read"); got(v, a, n.c_str()); }); } auto ci = t.read_columns_info(); MC_CHECK(ci.size() == m.c.size(), "table has ", ci.size(), " columns instead of ", m.c.size()); for (sz i = 0; i < m.c.size(); ++i) MC_CHECK(ci[i].name == m.c[i].name, "column ", i, " is ", ci[i].name, " instead of ", m.c[i].name); }
static void filecheck(const char* N, const MT& m) { for (auto& c : m.c) with(c, m.rows, [&](auto& a, auto v) { filed(N, 1, c.name, a, m.rows); }); auto f = fr::load(N); MC_CHECK(f.size() == 2 && f[1].num("TFIELDS") == (long long)m.c.size(), "table has ", f[1].num("TFIELDS"), " columns"); }
MC_SCENARIO_S(histories, 5) {
    Dir dir; const char* N = "t.fits"; MT m; m.rows = mc::flip(); unsigned cnt = 1; std::unique_ptr<F::table> t(new F::table(N)); if (m.rows) t->set_format(F::table_format::row_oriented); { MC c{"A", mc::choose(4), cnt}; with(c, m.rows, [&](auto& a, auto v) { t->write_column("a", v); }); m.c.push_back(c); } unsigned steps = mc::thorough() ? 4 : 3; apicheck(*t, m);
    for (unsigned s = 0; s < steps; ++s) { ++cnt; unsigned k = mc::choose(7); auto find = [&](const S& n) { for (sz i = 0; i < m.c.size(); ++i) if (m.c[i].name == n) return i; return m.c.size(); };
        switch (k) {
        case 0: { S n = mc::pick<S>({"B", "C"}); mc::assume(find(n) == m.c.size()); MC c{n, mc::choose(4), cnt}; MC_LOG("write_column ", n, " kind ", c.kind); with(c, m.rows, [&](auto& a, auto v) { t->write_column(n, v); }); m.c.push_back(c); break; }
        case 1: { S n = mc::pick<S>({"A", "B"}); MC c{n, mc::choose(4), cnt}; MC_LOG("update_column ", n, " kind ", c.kind); with(c, m.rows, [&](auto& a, auto v) { t->update_column(n == "A" ? "a" : "B", v); }); sz i = find(n); if (i < m.c.size()) m.c.erase(m.c.begin() + i); m.c.push_back(c); break; }
        case 2: { S n = mc::pick<S>({"A", "B"}); sz i = find(n); mc::assume(m.c.size() > 1 || i == m.c.size()); MC_LOG("remove_column ", n); t->remove_column(n); if (i < m.c.size()) m.c.erase(m.c.begin() + i); break; }
        case 3: { bool mv = mc::flip(); MC_LOG(mv ? "move" : "close and reopen"); if (mv) { std::unique_ptr<F::table> u(new F::table(std::move(*t))); t = std::move(u); } else { t.reset(); filecheck(N, m); t.reset(new F::table(N)); } break; }
        case 4: { sz i = find("A"); mc::assume(i < m.c.size() && m.c[i].kind != 2); auto& c = m.c[i]; MC_LOG("elements of A"); unsigned q = mc::choose(3);
            // update everything with other values, through at()
            MC o = c; o.base = cnt; if (c.kind == 1) { auto a = k1(cnt); auto now = k1(c.base); auto v = make<2,short>(a); if (q == 0) { sz r = mc::choose(3); vec<1,short> w = {a.v[0], a.v[1], a.v[2]}; bool ok = mc::attempt([&] { t->update_elements("A", w, F::at(r,_)); }); MC_CHECK(ok == (r < 2), "update_elements ", ok ? "outside of the column accepted" : "rejected"); vec<2,short> z; MC_CHECK(bool(t->read_column("A", z)), "read"); auto e = now; if (ok) for (sz j = 0; j < 3; ++j) e.v[r*3 + j] = w[j]; got(z, e, "column after update of a row"); vec<1,short> y; bool okr = mc::attempt([&] { t->read_elements("A", y, F::at(r,_)); }); MC_CHECK(okr == (r < 2), "read_elements"); if (okr) got(y, Arr<short>({3}, {w[0], w[1], w[2]}), "read_elements"); if (ok) { if (r == 0) { for (sz j = 0; j < 3; ++j) w[j] = a.v[3 + j]; t->update_elements("A", w, F::at(1,_)); c = o; } else { for (sz j = 0; j < 3; ++j) w[j] = now.v[3 + j]; t->update_elements("A", w[_], F::at(1,_)); } } }
                else if (q == 1) { sz r = mc::choose(3), l = mc::choose(4); short x = 99, y = -1; bool e = r < 2 && l < 3; bool ok = mc::attempt([&] { t->update_elements("A", x, F::at(r,l)); }); MC_CHECK(ok == e, "update_elements ", ok ? "outside of the column accepted" : "rejected"); bool okr = mc::attempt([&] { t->read_elements("A", y, F::at(r,l)); }); MC_CHECK(okr == e && (!e || y == 99), "read_elements gives ", y); if (e) { vec<2,short> z; MC_CHECK(bool(t->read_column("A", z)), "read"); auto ee = now; ee.v[r*3 + l] = 99; got(z, ee, "column after update of an element"); short back = now.v[r*3 + l]; t->update_elements("A", back, F::at(r,l)); } }
                else { for (sz r = 0; r < 2; ++r) { auto w = v(r,_); t->update_elements("A", w, F::at(r,_)); } c = o; MC_CHECK(!mc::attempt([&] { vec<1,short> w = {1, 2}; t->update_elements("A", w, F::at(0,_)); }) && !mc::attempt([&] { vec<1,short> w = {1, 2}; t->update_elements("A", w, F::at(0)); }), "wrong number of elements accepted"); } }
            else if (c.kind == 0) { auto a = k0(cnt); if (q == 0) { for (sz r = 0; r < 2; ++r) t->update_elements("A", a.v[r], F::at(r)); c = o; } else if (q == 1) { mc::assume(false); } else { sz r = mc::pick<sz>({2, 3, sz(-1)}); double x = 5; MC_CHECK(!mc::attempt([&] { t->update_elements("A", x, F::at(r)); }) && !mc::attempt([&] { t->read_elements("A", x, F::at(r)); }), "elements outside of the column accepted"); } }
            else { mc::assume(q == 0); auto a = k3(cnt, m.rows); for (sz r = 0; r < a.v.size(); ++r) { t->update_elements("A", a.v[r], F::at(r)); int_t y = 0; t->read_elements("A", y, F::at(r)); MC_CHECK(y == a.v[r], "read_elements gives ", y); } c = o; } break; }
        case 5: { MC_LOG("failed operations"); vif::vec3d w; MC_CHECK(!bool(t->read_column("A", w)), "column read with other dimensions"); vec<1,double> z = {1.0, 2.0, 3.0, 4.0}; MC_CHECK(!bool(t->read_column("zz", z)) && z.size() == 4, "missing column read"); MC_CHECK(!mc::attempt([&] { t->set_format(m.rows ? F::table_format::column_oriented : F::table_format::row_oriented); }), "format of existing table changed"); if (m.rows) MC_CHECK(!mc::attempt([&] { t->write_column("D", z); }), "column with another number of rows accepted"); break; }
        case 6: { mc::assume(find("C") == m.c.size()); MC_LOG("allocate_column C"); t->allocate_column<short>("C", 2, 3); { vec<2,short> z; MC_CHECK(bool(t->read_column("C", z)) && z.dims[0] == 2 && z.dims[1] == 3, "allocated column"); } auto a = k1(cnt); auto v = make<2,short>(a); if (m.rows) for (sz r = 0; r < 2; ++r) { vec<1,short> w = {a.v[r*3], a.v[r*3+1], a.v[r*3+2]}; t->update_elements("C", w, F::at(r,_)); } else for (sz r = 0; r < 2; ++r) t->update_elements("C", v(r,_), F::at(r,_)); m.c.push_back(MC{"C", 1, cnt}); break; }
        }
        apicheck(*t, m); }
    t.reset(); filecheck(N, m); { F::input_table u(N); apicheck(u, m); }
}
// the number of rows of a table changes only if all its columns do
MC_SCENARIO(rowcount) {
    Dir dir; sz n = 2 + mc::choose(3), k = mc::choose(5); bool other = mc::flip(), reopen = mc::flip(); vec<1,double> a(n), b(k), o(n); for (sz i = 0; i < n; ++i) { a[i] = i; o[i] = 10.0*i; } for (sz i = 0; i < k; ++i) b[i] = 100.0 + i; MC_LOG("rows ", n, " then ", k, other ? " with" : " without", " another column"); std::unique_ptr<F::table> t(new F::table("r.fits")); t->set_format(F::table_format::row_oriented); t->write_column("A", a); if (other) t->write_column("O", o); if (reopen) { t.reset(); t.reset(new F::table("r.fits")); }
    bool ok = mc::attempt([&] { t->update_column("A", b); }); MC_CHECK(ok == (!other || n == k), ok ? "column with another number of rows accepted" : "update of the only column rejected"); if (!ok) return; vec<1,double> r; MC_CHECK(bool(t->read_column("a", r)), "read"); got(r, vr::read(b), "column"); if (k != 1) { t.reset(); filed<double>("r.fits", 1, "A", vr::read(b), true); F::input_table q("r.fits"); MC_CHECK(bool(q.read_column("a", r)), "read"); got(r, vr::read(b), "column"); }
}
// tables and images in other HDUs of the same file
MC_SCENARIO_S(hdus, 4) {
    Dir dir; const char* N = "f.fits"; sz n = 1 + mc::choose(3); std::vector<unsigned> kind(4, 0); unsigned order = mc::choose(2); MC_LOG("HDUs ", n); { F::output_file f(N); for (sz i = 0; i <= n; ++i) { sz h = order ? n - i : i; unsigned k = mc::choose(3); if (h == 0 && k == 2) mc::assume(false); f.reach_hdu(h); kind[h] = k; MC_LOG("HDU ", h, " kind ", k); if (k == 1) { auto a = k1(unsigned(h)); f.write(make<2,short>(a)); } if (k == 2) { auto a = k0(unsigned(h)); f.write_column("v", make<1,double>(a)); } } MC_CHECK(f.hdu_count() == n + 1, "file has ", f.hdu_count(), " HDUs"); }
    F::input_file f(N); MC_CHECK(f.hdu_count() == n + 1, "file has ", f.hdu_count(), " HDUs instead of ", n + 1); for (sz h = 0; h <= n; ++h) { f.reach_hdu(h); mc::op(); MC_CHECK(f.hdu_type() == (kind[h] == 0 ? F::empty_hdu : kind[h] == 1 ? F::image_hdu : F::table_hdu), "type of HDU ", h, " is ", int(f.hdu_type())); if (kind[h] == 1) { vec<2,short> v; f.read(v); got(v, k1(unsigned(h)), "image"); } if (kind[h] == 2) { vec<1,double> v; MC_CHECK(bool(f.read_column("v", v)), "table"); got(v, k0(unsigned(h)), "table"); } }
}
#endif
