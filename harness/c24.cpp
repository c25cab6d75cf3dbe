// C24: FITS images, HDUs and header keywords.
#include "vifref.hpp"
#include "fitsref.hpp"
#undef exit
#undef _exit
#undef abort
#undef terminate
#undef quick_exit
#include <fitsio.h>
#include "trap.hpp"
#include <vif/core/print.hpp>
#include <vif/core/string_conversion.hpp>
#include <vif/utility/string.hpp>
#include <vif/io/filesystem.hpp>
#include <vif/io/fits.hpp>
using namespace vr; using namespace fsu; using fr::HDU; using vif::_;
namespace F = vif::fits;
template<typename T> const std::vector<T>& ext();
template<> const std::vector<bool>& ext<bool>() { static const std::vector<bool> p = {true, false, true}; return p; }
template<> const std::vector<char>& ext<char>() { static const std::vector<char> p = {'a', 0, 127, -128, -1, 1, ' '}; return p; }
template<> const std::vector<short>& ext<short>() { static const std::vector<short> p = {1, 0, 32767, -32768, -1, 256}; return p; }
template<> const std::vector<int_t>& ext<int_t>() { static const std::vector<int_t> p = {1, 0, std::numeric_limits<int_t>::max(), std::numeric_limits<int_t>::min(), -1, 1l << 53, 4294967296l}; return p; }
template<> const std::vector<uint_t>& ext<uint_t>() { static const std::vector<uint_t> p = {1, 0, ~0ul, 1ul << 63, (1ul << 53) + 1, 65536}; return p; }
template<> const std::vector<float>& ext<float>() { static const std::vector<float> p = {1.5f, 0.0f, -0.0f, INFINITY, -INFINITY, NAN, 1e-45f, 3.4e38f, 1.17549435e-38f, -1e-40f}; return p; }
template<> const std::vector<double>& ext<double>() { static const std::vector<double> p = {1.5, 0.0, -0.0, INFINITY, -INFINITY, NAN, 5e-324, 1.7e308, 2.2250738585072014e-308, -1e-310, 0.1}; return p; }
template<typename T> Arr<T> img(const Dims& d, unsigned base) { Arr<T> a(d); auto& p = ext<T>(); for (sz i = 0; i < a.v.size(); ++i) a.v[i] = p[(base + i) % p.size()]; return a; }
template<typename T> bool bits(T a, T b) { if constexpr (std::is_floating_point<T>::value) return (std::isnan(a) && std::isnan(b)) || (a == b && std::signbit(a) == std::signbit(b)); else return a == b; }
template<typename T> void filed(const HDU& h, const Arr<T>& a, const char* w) { using X = fr::FT<T>; MC_CHECK(h.num("BITPIX") == X::bitpix && h.naxis() == a.d.size() && h.dims() == a.d, w, ": stored with bitpix ", h.num("BITPIX"), " dims ", h.dims(), " instead of ", a.d); if (X::bitpix > 8) MC_CHECK(!h.has("BZERO") && !h.has("BSCALE"), w, ": scaled data"); for (sz i = 0; i < a.v.size(); ++i) MC_CHECK(bits<T>(X::get(h, i), a.v[i]), w, ": value ", i, " stored as ", T(X::get(h, i)), " instead of ", T(a.v[i])); }
template<std::size_t D, typename T> void got(const vec<D,T>& v, const Arr<T>& a, const char* w) { auto r = vr::read(v); mc::op(); MC_CHECK(r.d == a.d, w, ": dims ", r.d, " instead of ", a.d); for (sz i = 0; i < a.v.size(); ++i) MC_CHECK(bits<T>(r.v[i], a.v[i]), w, ": value ", i, " is ", T(r.v[i]), " instead of ", T(a.v[i])); mc::outcome(mc::mix(a.v.size(), a.v.empty() ? 0 : std::hash<T>()(a.v[0]))); }
template<sz D> Dims dims() { Dims d; for (sz i = 0; i < D; ++i) d.push_back(mc::choose(D == 1 ? 5 : D == 2 ? 4 : 3)); return d; }
template<std::size_t D, typename T> void roundtrip() {
    Dir dir; Dims d = dims<D>(); unsigned b = mc::choose(mc::thorough() ? unsigned(ext<T>().size()) : 3); auto a = img<T>(d, b); MC_LOG("image ", a); const char* N = "i.fits"; if (mc::flip()) put(N, S(5000, 'x'));
    auto v = make<D,T>(a); bool hd = mc::flip(), view = D == 1 ? false : mc::flip(); F::header hdr; if (hd) MC_CHECK(F::setkey(hdr, "KEY", 5), "setkey");
    if (view) { Dims d2 = d; d2[0] += 1; Arr<T> g(d2); for (sz i = 0; i < a.v.size(); ++i) g.v[g.v.size() - a.v.size() + i] = a.v[i]; auto big = make<D,T>(g); vif::vec1u ids; for (sz i = 0; i < d[0]; ++i) ids.push_back(i + 1); if constexpr (D == 2) { if (hd) F::write(N, big(ids,_), hdr); else F::write(N, big(ids,_)); } else if constexpr (D == 3) { if (hd) F::write(N, big(ids,_,_), hdr); else F::write(N, big(ids,_,_)); } }
    else { if (hd) F::write(N, v, hdr); else F::write(N, v); }
    auto f = fr::load(N); MC_CHECK(f.size() == 1, "file has ", f.size(), " HDUs"); filed<T>(f[0], a, "file"); MC_CHECK(f[0].has("KEY") == hd && (!hd || f[0].str("KEY") == "5"), "header keyword");
    MC_CHECK(F::file_axes(N) == D, "file_axes"); auto fd = F::file_dimensions(N); expect1(fd, std::vector<uint_t>(d.begin(), d.end()), "file_dimensions");
    vec<D,T> w; { std::array<uint_t,D> wd; wd.fill(2); w = vec<D,T>(wd); } F::header h2; if (hd) { F::read(N, w, h2); int k = 0; MC_CHECK(F::getkey(h2, "KEY", k) && k == 5, "keyword read back"); MC_CHECK(h2 == F::read_header(N), "read_header"); } else F::read(N, w); got(w, a, "read");
    { vec<D,T> u; F::read_hdu(N, u, 0); got(u, a, "read_hdu"); F::header h3; vec<D,T> u2; F::read_hdu(N, u2, 0, h3); got(u2, a, "read_hdu with header"); bool r = mc::attempt([&] { F::read_hdu(N, u, 1); }); MC_CHECK(!r, "reading a missing HDU is accepted"); }
    { vec<D+1,T> u; MC_CHECK(!mc::attempt([&] { F::read(N, u); }), "read with too many dimensions"); } if constexpr (D > 1) { vec<D-1,T> u; MC_CHECK(!mc::attempt([&] { F::read(N, u); }), "read with too few dimensions"); }
    // update with other values
    auto a2 = img<T>(d, b + 1); auto v2 = make<D,T>(a2); F::update_hdu(N, v2, 0); f = fr::load(N); MC_CHECK(f.size() == 1, "update changed the number of HDUs"); filed<T>(f[0], a2, "updated file"); MC_CHECK(f[0].has("KEY") == hd, "update changed the header");
    Dims d3 = d; d3[D-1] += 1; auto v3 = make<D,T>(Arr<T>(d3)); MC_CHECK(!mc::attempt([&] { F::update_hdu(N, v3, 0); }), "update with other dimensions accepted"); MC_CHECK(fr::load(N)[0].data == f[0].data, "rejected update changed the data");
    auto t = tree(); MC_CHECK(t.size() == 1, "other files were created");
}
#define RT(T) MC_SCENARIO_S(roundtrip_##T, 3) { switch (mc::choose(3)) { case 0: roundtrip<1,T>(); break; case 1: roundtrip<2,T>(); break; case 2: roundtrip<3,T>(); break; } }
RT(bool) RT(char) RT(short) RT(int_t) RT(uint_t) RT(float) RT(double)
// ---- reading into another type: exact, or rejected ------------------------------------------------
template<typename T, typename U> void convert(bool must, bool mustnot) {
    Dir dir; sz n = mc::choose(3); unsigned b = mc::choose(unsigned(ext<T>().size())); auto a = img<T>({n}, b); auto v = make<1,T>(a); F::write("c.fits", v); vec<1,U> u; MC_LOG("values ", a); bool rep = true;
    for (sz i = 0; i < n; ++i) { T x = a.v[i]; if (std::is_unsigned<U>::value && std::is_signed<T>::value && x < 0) rep = false; if (std::is_same<T,uint_t>::value && double(x) > 9.2e18) rep = false; if (std::is_same<U,bool>::value && x != 0 && x != 1) rep = false; }
    bool ok = mc::attempt([&] { F::read("c.fits", u); }); if (mustnot) MC_CHECK(!ok, "lossy conversion accepted"); if (!rep) return; if (must) MC_CHECK(ok, "conversion rejected"); if (!ok) return;
    auto r = vr::read(u); MC_CHECK(r.v.size() == n, "size"); for (sz i = 0; i < n; ++i) MC_CHECK(bits<U>(r.v[i], U(T(a.v[i]))), "value ", T(a.v[i]), " read as ", U(r.v[i]));
}
template<typename T> void convert_to(unsigned k) { using std::is_same; const bool fl = std::is_floating_point<T>::value, is8 = sizeof(T) == 1, is16 = sizeof(T) == 2;
    switch (k) { case 0: convert<T,bool>(is_same<T,bool>::value, !is8); break; case 1: convert<T,char>(is8, !is8); break; case 2: convert<T,short>(is8 || is16, !is8 && !is16); break; case 3: convert<T,int_t>(!fl, fl); break; case 4: convert<T,uint_t>(!fl, fl); break; case 5: convert<T,float>(is8 || is16 || is_same<T,float>::value, is_same<T,double>::value); break; case 6: convert<T,double>(true, false); break; } }
MC_SCENARIO_S(conversion, 2) { unsigned t = mc::choose(7), k = mc::choose(7); switch (t) { case 0: convert_to<bool>(k); break; case 1: convert_to<char>(k); break; case 2: convert_to<short>(k); break; case 3: convert_to<int_t>(k); break; case 4: convert_to<uint_t>(k); break; case 5: convert_to<float>(k); break; case 6: convert_to<double>(k); break; } }
// ---- subsets and pixels ----------------------------------------------------------------------------
struct Sel { bool ok; sz a, b; };
template<typename G> void axis(sz n, G g) { using vif::_; unsigned k = mc::choose(5); switch (k) {
    case 0: { sz i = mc::choose(n + 1); if (mc::flip()) { g(uint_t(i), Sel{i < n, i, i}); } else { g(uint_t(-1), Sel{false, 0, 0}); } break; }
    case 1: g(_, Sel{n > 0, 0, n - 1}); break;
    case 2: { sz i = mc::choose(n + 2); g(_-i, Sel{i < n, 0, i}); break; }
    case 3: { sz i = mc::choose(n + 2); g(i-_, Sel{i < n, i, n - 1}); break; }
    case 4: { sz i = mc::choose(n + 2), j = mc::choose(n + 2); g(i-_-j, Sel{i <= j && j < n, i, j}); break; } } }
template<sz D, typename T> void check_subset(const Arr<T>& a, const std::vector<Sel>& s, bool ok, const vec<D,T>& v) {
    bool e = true; for (auto& x : s) e = e && x.ok; MC_CHECK(ok == e, e ? "subset rejected" : "subset outside of the image accepted"); if (!ok) return; Dims d; for (auto& x : s) d.push_back(x.b - x.a + 1); Arr<T> r(d); for (sz i = 0; i < r.v.size(); ++i) { auto m = multi(d, i); for (sz k = 0; k < m.size(); ++k) m[k] += s[k].a; r.v[i] = a.v[flat(a.d, m)]; } got(v, r, "subset");
}
template<typename T> void subset1() { Dir dir; sz n = 1 + mc::choose(4); auto a = filled<T>({n}, 1); F::write("s.fits", make<1,T>(a)); F::input_image im("s.fits"); axis(n, [&](auto r, Sel s) { vec<1,T> v = {T(9)}; MC_LOG("subset ", s.a, "..", s.b); bool ok = mc::attempt([&] { im.read_subset(v, r); }); check_subset<1,T>(a, {s}, ok, v); vec<1,T> w; im.read(w); got(w, a, "read after a subset"); }); }
template<typename T> void subset2() { Dir dir; Dims d = {1 + mc::choose(3), 1 + mc::choose(3)}; auto a = filled<T>(d, 1); F::write("s.fits", make<2,T>(a)); F::input_image im("s.fits"); axis(d[0], [&](auto r, Sel s) { axis(d[1], [&](auto q, Sel t) { vec<2,T> v(2, 2); MC_LOG("image ", d, " subset ", s.a, "..", s.b, " , ", t.a, "..", t.b); bool ok = mc::attempt([&] { im.read_subset(v, r, q); }); check_subset<2,T>(a, {s, t}, ok, v); vec<2,T> w; im.read(w); got(w, a, "read after a subset"); }); }); }
MC_SCENARIO_S(subset, 5) { switch (mc::choose(4)) { case 0: subset1<double>(); break; case 1: subset1<short>(); break; case 2: subset2<double>(); break; case 3: subset2<int_t>(); break; } }
MC_SCENARIO_S(subset3, 3) { Dir dir; Dims d = {1 + mc::choose(2), 1 + mc::choose(3), 1 + mc::choose(2)}; auto a = filled<float>(d, 1); F::write("s.fits", make<3,float>(a)); F::input_image im("s.fits"); std::vector<Sel> s; unsigned k = mc::choose(4); sz i = mc::choose(d[0] + 1), j = mc::choose(d[1] + 1), j2 = mc::choose(d[1] + 1), l = mc::choose(d[2] + 1); vec<3,float> v; bool ok; auto S1 = [&](sz n, sz x) { return Sel{x < n, x, x}; };
    switch (k) { case 0: ok = mc::attempt([&] { im.read_subset(v, i, j-_-j2, l); }); s = {S1(d[0], i), {j <= j2 && j2 < d[1], j, j2}, S1(d[2], l)}; break; case 1: ok = mc::attempt([&] { im.read_subset(v, _, j-_-j2, _-l); }); s = {{true, 0, d[0]-1}, {j <= j2 && j2 < d[1], j, j2}, {l < d[2], 0, l}}; break; case 2: ok = mc::attempt([&] { im.read_subset(v, i-_, _, l-_); }); s = {{i < d[0], i, d[0]-1}, {true, 0, d[1]-1}, {l < d[2], l, d[2]-1}}; break; case 3: ok = mc::attempt([&] { im.read_subset(v, i, _-j, _); }); s = {S1(d[0], i), {j < d[1], 0, j}, {true, 0, d[2]-1}}; break; }
    check_subset<3,float>(a, s, ok, v);
}
MC_SCENARIO_S(pixels, 4) { Dir dir; unsigned D = 1 + mc::choose(3); Dims d; for (unsigned i = 0; i < D; ++i) d.push_back(1 + mc::choose(3)); auto a = filled<double>(d, 1); a.v[0] = INFINITY; switch (D) { case 1: F::write("p.fits", make<1,double>(a)); break; case 2: F::write("p.fits", make<2,double>(a)); break; case 3: F::write("p.fits", make<3,double>(a)); break; }
    F::input_image im("p.fits"); unsigned n = mc::choose(5); vif::vec1u p; bool e = n == D; for (unsigned i = 0; i < n; ++i) { sz dn = i < D ? d[i] : 1; sz x = mc::choose(dn + 2); if (x == dn + 1) x = sz(-1); if (i < D) e = e && x < d[i]; p.push_back(x); } double v = 0; bool ok = mc::attempt([&] { v = im.read_pixel(p); }); MC_CHECK(ok == e, e ? "pixel rejected" : "pixel outside of the image accepted"); if (ok) { std::vector<sz> m; for (auto x : p) m.push_back(x); MC_CHECK(bits(v, a.v[flat(d, m)]), "pixel is ", v); }
    if (D == n && e) { bool ok2 = mc::attempt([&] { float f = im.read_pixel<float>(p); }); MC_CHECK(!ok2, "lossy conversion accepted"); MC_CHECK(bits(im.read_pixel(p), v), "object unusable after an error"); }
}
