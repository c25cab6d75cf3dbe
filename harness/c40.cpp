// C40: astrometry (vif/astro/wcs.hpp) against the closed form of the gnomonic projection and linear axes.
#include "vifall.hpp"
using namespace vr;
using R = long double; using vd = std::vector<double>; using vif::vec1d; using vif::vec1s; using vif::vec2d; namespace va = vif::astro;
const R Pi_ = 3.14159265358979323846264338327950288L, DR = Pi_/180;
struct Quiet { std::streambuf *a, *b; Quiet() : a(std::cout.rdbuf(nullptr)), b(std::cerr.rdbuf(nullptr)) {} ~Quiet() { std::cout.rdbuf(a); std::cerr.rdbuf(b); } };

// reference: two celestial axes with matrix cd (intermediate x to the East, y to the North), pixel (px,py)
struct Ref { R ra0, dec0, c1, c2, cd[2][2];
    void sky(R px, R py, R& ra, R& dec) const { R x = (cd[0][0]*(px - c1) + cd[0][1]*(py - c2))*DR, y = (cd[1][0]*(px - c1) + cd[1][1]*(py - c2))*DR; R d0 = dec0*DR, r = hypotl(x, y), c = atanl(r); if (r == 0) { ra = ra0; dec = dec0; } else { dec = asinl(cosl(c)*sinl(d0) + y*sinl(c)*cosl(d0)/r)/DR; ra = ra0 + atan2l(x*sinl(c), r*cosl(d0)*cosl(c) - y*sinl(d0)*sinl(c))/DR; } }
    void pix(R ra, R dec, R& px, R& py) const { R a = (ra - ra0)*DR, d = dec*DR, d0 = dec0*DR, D = sinl(d)*sinl(d0) + cosl(d)*cosl(d0)*cosl(a), x = cosl(d)*sinl(a)/D/DR, y = (cosl(d0)*sinl(d) - sinl(d0)*cosl(d)*cosl(a))/D/DR, t = cd[0][0]*cd[1][1] - cd[0][1]*cd[1][0]; px = c1 + (cd[1][1]*x - cd[0][1]*y)/t; py = c2 + (cd[0][0]*y - cd[1][0]*x)/t; } };
std::string key(const std::string& k, const std::string& v) { std::string r = k; r.resize(8, ' '); r += "= " + v; r.resize(80, ' '); return r; }
std::string num(R x) { char b[60]; snprintf(b, 60, "%.17Lg", x); return b; } std::string str(const std::string& s) { return "'" + s + "'"; }
R turn(R d) { d = fmodl(d, 360); if (d > 180) d -= 360; if (d < -180) d += 360; return d; }
bool nr(double a, R b, R t) { return std::fabs(a - b) <= t; }
#ifndef PART
#define PART 0
#endif
#if PART == 0
// a header with two celestial axes (in any order) and possibly a third one, before or after them
struct Setup { Ref r; std::string h; int ax1, ax2; bool swapped; sz naxis; int third = -1; R w0, wd, wc; unsigned unit = 0; std::vector<sz> n; };
Setup make_setup(bool full) {
    Setup s; s.r.ra0 = mc::pick(vd{150.25, 0, 359.9875}); s.r.dec0 = mc::pick(vd{0, 45, -70.5, 89.5}); R sc = mc::pick(vd{1, 0.05, 36})/3600; s.r.c1 = mc::pick(vd{1, 20.5}); s.r.c2 = mc::pick(vd{1, -7.25}); unsigned rot = full ? mc::choose(4) : mc::choose(2)*2; R a = rot == 1 ? 30*DR : rot == 3 ? 90*DR : 0, f = rot == 2 ? 1 : -1; s.r.cd[0][0] = f*sc*cosl(a); s.r.cd[0][1] = -f*sc*sinl(a); s.r.cd[1][0] = sc*sinl(a); s.r.cd[1][1] = sc*cosl(a);
    unsigned t = full ? mc::choose(8) : 0; s.swapped = t % 2 == 1; s.naxis = t < 2 ? 2 : 3; s.third = t < 2 ? -1 : int(t/2) - 1; s.ax1 = s.third == 0 ? 1 : 0; s.ax2 = s.third == 2 || s.naxis == 2 ? s.ax1 + 1 : 2; 
    // FITS axis of RA and Dec; the first celestial FITS axis is x
    int ra = s.swapped ? s.ax2 : s.ax1, de = s.swapped ? s.ax1 : s.ax2; s.h = key("SIMPLE", "T") + key("BITPIX", "-64") + key("NAXIS", num(s.naxis)); s.n = {7, 5, 4}; s.n.resize(s.naxis); for (sz i = 0; i < s.naxis; ++i) s.h += key("NAXIS" + num(i + 1), num(s.n[i]));
    auto K = [](const char* k, int i) { return k + num(i + 1); }; s.h += key(K("CTYPE", ra), str("RA---TAN")) + key(K("CTYPE", de), str("DEC--TAN")) + key(K("CRVAL", ra), num(s.r.ra0)) + key(K("CRVAL", de), num(s.r.dec0)) + key(K("CRPIX", s.ax1), num(s.r.c1)) + key(K("CRPIX", s.ax2), num(s.r.c2)) + key(K("CUNIT", ra), str("deg")) + key(K("CUNIT", de), str("deg"));
    int row[2] = {ra, de}, col[2] = {s.ax1, s.ax2}; for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) s.h += key("CD" + num(row[i] + 1) + "_" + num(col[j] + 1), num(s.r.cd[i][j]));
    if (s.third >= 0) { s.w0 = 2.5; s.wd = 0.125; s.wc = 3; s.h += key(K("CTYPE", s.third), str("WAVE")) + key(K("CUNIT", s.third), str("um")) + key(K("CRVAL", s.third), num(s.w0)) + key(K("CRPIX", s.third), num(s.wc)) + key("CD" + num(s.third + 1) + "_" + num(s.third + 1), num(s.wd)); }
    s.h += key("EQUINOX", "2000.0") + key("RADESYS", str("FK5")); { std::string e = "END"; e.resize(80, ' '); s.h += e; } MC_LOG("ra0=", double(s.r.ra0), " dec0=", double(s.r.dec0), " scale=", double(sc*3600), " rotation ", rot, " axes ", t, " crpix ", double(s.r.c1), " ", double(s.r.c2)); return s;
}
void check_sky(const va::wcs& w, const Setup& s, const char* what) {
    R sc = hypotl(s.r.cd[0][0], s.r.cd[1][0]); vec1d X, Y, ra, dec; std::vector<R> era, edec; for (double x : {1.0, -30.0, 20.5, 100.0}) for (double y : {1.0, 50.25, -7.0}) { X.push_back(x); Y.push_back(y); R a, d; s.r.sky(x, y, a, d); era.push_back(a); edec.push_back(d); }
    { vec1d junk = {1, 2}; ra = junk; dec = junk; } va::xy2ad(w, X, Y, ra, dec); mc::op(); MC_CHECK(ra.size() == X.size() && dec.size() == X.size(), what, ": xy2ad sizes"); R tol = std::max(sc*1e-6L, R(1e-11)); for (sz i = 0; i < X.size(); ++i) { MC_CHECK(nr(turn(ra[i] - era[i])*cosl(edec[i]*DR), 0, tol) && nr(dec[i], edec[i], tol), what, ": pixel ", X[i], ",", Y[i], " is at ", ra[i], ",", dec[i], " and not ", double(era[i]), ",", double(edec[i])); MC_CHECK(ra[i] >= 0 && ra[i] <= 360, what, ": RA ", ra[i]); double a1, d1; if (i % 5 == 0) { va::xy2ad(w, X[i], Y[i], a1, d1); MC_CHECK(a1 == ra[i] && d1 == dec[i], what, ": scalar xy2ad"); } }
    vec1d x2, y2; va::ad2xy(w, ra, dec, x2, y2); mc::op(); MC_CHECK(x2.size() == X.size() && y2.size() == X.size(), what, ": ad2xy sizes"); R tp = std::max(R(1e-6), R(1e-11)/sc); for (sz i = 0; i < X.size(); ++i) { MC_CHECK(nr(x2[i], X[i], tp) && nr(y2[i], Y[i], tp), what, ": pixel ", X[i], ",", Y[i], " comes back as ", x2[i], ",", y2[i]); R ex, ey; s.r.pix(ra[i], dec[i], ex, ey); MC_CHECK(nr(x2[i], ex, tp) && nr(y2[i], ey, tp), what, ": ad2xy"); double a1, d1; if (i % 5 == 1) { va::ad2xy(w, ra[i], dec[i], a1, d1); MC_CHECK(a1 == x2[i] && d1 == y2[i], what, ": scalar ad2xy"); } }
    mc::outcome(std::uint64_t(std::llround(ra[1]*1e6)) ^ std::uint64_t(std::llround(dec[1]*1e6)));
}
MC_SCENARIO_S(sky, 5) {
    Quiet q; Setup s = make_setup(true); va::wcs w(s.h); MC_CHECK(w.is_valid() && w.axis_count() == s.naxis, "header not understood"); MC_CHECK(w.dims.size() == s.naxis, "dims"); for (sz i = 0; i < s.naxis; ++i) MC_CHECK(w.dims[i] == s.n[s.naxis - 1 - i], "dimension ", i, " is ", w.dims[i]);
    check_sky(w, s, "wcs"); unsigned k = mc::choose(6);
    if (k == 0) { va::wcs v(std::move(w)); MC_CHECK(!w.is_valid() && v.is_valid(), "moved"); check_sky(v, s, "moved wcs"); vec1d x; MC_CHECK(!mc::attempt([&]() { va::ad2xy(w, vec1d{1}, vec1d{2}, x, x); }), "moved structure used"); }
    if (k == 1) { va::wcs v(2); v = std::move(w); MC_CHECK(!w.is_valid() && v.is_valid() && v.dims.size() == s.naxis, "moved"); check_sky(v, s, "assigned wcs"); va::wcs u = va::extast(s.h); v = std::move(u); check_sky(v, s, "assigned twice"); v.update(); v.flag_dirty(); v.update(); check_sky(v, s, "updated"); }
    if (k == 2) { double p = -1; MC_CHECK(va::get_pixel_size(w, p), "no pixel size"); R sc = hypotl(s.r.cd[0][0], s.r.cd[1][0])*3600; MC_CHECK(nr(p, sc, sc*1e-4L), "pixel size is ", p, " and not ", double(sc)); double a = -1; MC_CHECK(va::get_image_rotation(w, a), "no rotation"); R x, y; s.r.pix(s.r.ra0, s.r.dec0 + 1/3600.0L, x, y); R e = -atan2l(x - s.r.c1, y - s.r.c2)/DR; MC_CHECK(nr(turn(a - e), 0, 1e-3), "rotation is ", a, " and not ", double(e)); }
    if (k == 3) { vec2d x(2, 3), y(2, 3), ra, dec; for (sz i = 0; i < 6; ++i) { x[i] = i; y[i] = 3.0*i - 5; } va::xy2ad(w, x, y, ra, dec); MC_CHECK(ra.dims == x.dims && dec.dims == x.dims, "dims of xy2ad"); vec2d x2, y2; va::ad2xy(w, ra, dec, x2, y2); MC_CHECK(x2.dims == x.dims && y2.dims == x.dims, "dims of ad2xy"); for (sz i = 0; i < 6; ++i) { R a, d; s.r.sky(x[i], y[i], a, d); MC_CHECK(nr(dec[i], d, 1e-8) && nr(turn(ra[i] - a)*cosl(d*DR), 0, 1e-8) && nr(x2[i], x[i], 1e-4) && nr(y2[i], y[i], 1e-4), "2-D coordinates"); } vec1d e, f = {1}, g = {2}; va::ad2xy(w, e, e, f, g); MC_CHECK(f.empty() && g.empty(), "no coordinates"); f = {1}; g = f; va::xy2ad(w, e, e, f, g); MC_CHECK(f.empty() && g.empty(), "no coordinates"); }
    if (k == 4) { vec1d a = {1, 2}, b = {1, 2, 3}, x, y; MC_CHECK(!mc::attempt([&]() { va::ad2xy(w, a, b, x, y); }) && !mc::attempt([&]() { va::xy2ad(w, a, b, x, y); }), "coordinates of other sizes accepted"); }
    if (k == 5) { int xi = 3, yi = -2; double a, d, a2, d2; R ea, ed; for (double f : {0.75, 2.5}) { va::xy2ad(w, xi, f, a, d); s.r.sky(xi, f, ea, ed); MC_CHECK(nr(d, ed, 1e-9) && nr(turn(a - ea)*cosl(ed*DR), 0, 1e-9), "integer and fractional pixel"); va::xy2ad(w, f, yi, a, d); s.r.sky(f, yi, ea, ed); MC_CHECK(nr(d, ed, 1e-9) && nr(turn(a - ea)*cosl(ed*DR), 0, 1e-9), "fractional and integer pixel"); int ir = int(s.r.ra0); va::ad2xy(w, ir, double(s.r.dec0) + 0.001*f, a, d); va::ad2xy(w, double(ir), double(s.r.dec0) + 0.001*f, a2, d2); MC_CHECK(a == a2 && d == d2, "integer RA"); } float fx = 1.5f; vif::vec1f vx = {1.5f, 2}, ra; va::xy2ad(w, vx, vec1d{1, 2}, ra, vx); MC_CHECK(ra.size() == 2 && nr(vx[0], [&] { s.r.sky(1.5, 1, ea, ed); return ed; }(), 1e-4), "float"); (void)fx; }
}
#else
MC_SCENARIO_S(linear_axes, 4) { // wavelength and frequency axes
    Quiet q; static const std::vector<std::pair<const char*, R>> wu = {{"m", 1}, {"cm", 1e-2L}, {"mm", 1e-3L}, {"um", 1e-6L}, {"nm", 1e-9L}, {"Angstrom", 1e-10L}, {"micron", 1e-6L}, {"microns", 1e-6L}}, fu = {{"Hz", 1}, {"kHz", 1e3L}, {"MHz", 1e6L}, {"GHz", 1e9L}, {"THz", 1e12L}};
    bool wave = mc::flip(); unsigned cu = mc::choose(wave ? wu.size() : fu.size()); bool cube = mc::flip(), cunit = mc::choose(4) != 0; R c0 = mc::pick(vd{2.5, 400}), cd = mc::pick(vd{0.125, -0.5}), cp = mc::pick(vd{1, 3.5}); sz n = mc::choose(4) + 1; int ax = cube ? 2 : 0; std::string h = key("SIMPLE", "T") + key("BITPIX", "-64") + key("NAXIS", cube ? "3" : "1"); if (cube) h += key("NAXIS1", "6") + key("NAXIS2", "8") + key("NAXIS3", num(n)) + key("CTYPE1", str("RA---TAN")) + key("CTYPE2", str("DEC--TAN")) + key("CRVAL1", "10.0") + key("CRVAL2", "20.0") + key("CRPIX1", "2.0") + key("CRPIX2", "5.0") + key("CDELT1", "-0.001") + key("CDELT2", "0.001") + key("CUNIT1", str("deg")) + key("CUNIT2", str("degree")); else h += key("NAXIS1", num(n));
    std::string a = num(ax + 1); h += key("CTYPE" + a, str(wave ? "WAVE" : "FREQ")) + key("CRVAL" + a, num(c0)) + key("CDELT" + a, num(cd)) + key("CRPIX" + a, num(cp)); if (cunit) h += key("CUNIT" + a, str(wave ? wu[cu].first : fu[cu].first)); { std::string e = "END"; e.resize(80, ' '); h += e; } R si = cunit ? (wave ? wu : fu)[cu].second : 1; MC_LOG(wave ? "wave" : "freq", " unit ", cu, " given ", cunit, " cube ", cube);
    va::wcs w(h); MC_CHECK(w.is_valid(), "header not understood"); sz axis = cube ? 0 : 0; MC_CHECK(w.axis_count() == (cube ? 3u : 1u) && w.dims[axis] == n && w.find_axis(wave ? "WAVE" : "freq") == axis && w.find_axis("XXX") == vif::npos, "axis");
    using U = va::axis_unit; static const std::vector<std::pair<U, R>> units = {{U::native, 1}, {U::wcslib_default, 1}, {U::wave_m, 1}, {U::wave_cm, 1e2L}, {U::wave_mm, 1e3L}, {U::wave_um, 1e6L}, {U::wave_nm, 1e9L}, {U::wave_Angstrom, 1e10L}, {U::freq_Hz, 1}, {U::freq_kHz, 1e-3L}, {U::freq_MHz, 1e-6L}, {U::freq_GHz, 1e-9L}, {U::freq_THz, 1e-12L}, {U::sky_deg, 1}, {U::sky_rad, DR}};
    unsigned u = mc::choose(units.size()); int ty = u < 2 ? 0 : u < 8 ? 1 : u < 13 ? 2 : 3; bool ok = cunit ? u != 0 && (ty == 0 || ty == (wave ? 1 : 2)) : u == 0; std::string why; if (!cunit) { ok = w.valid_unit(axis, units[u].first, why); if (ok && ty != 0) MC_CHECK(ty == (wave ? 1 : 2), "unit of another kind accepted"); } MC_CHECK(w.valid_unit(axis, units[u].first, why) == ok, "unit ", u, " valid: ", !ok, " ", why); MC_LOG("output unit ", u);
    vec1d x = {1, 2.5, -3, 100}, y = {7}, z; bool got = mc::attempt([&]() { va::x2w(w, axis, x, y, units[u].first); }); MC_CHECK(got == ok, "x2w: unit accepted: ", got); double sy = 0, sx = 0; if (ok) { MC_CHECK(y.size() == 4, "size"); for (sz i = 0; i < 4; ++i) { R e = (c0 + cd*(x[i] - cp))*si*units[u].second; MC_CHECK(nr(y[i], e, std::fabs(e)*1e-10L + 1e-10L*std::fabs(c0*si*units[u].second)), "pixel ", x[i], " has coordinate ", y[i], " and not ", double(e)); va::x2w(w, axis, x[i], sy, units[u].first); MC_CHECK(sy == y[i], "scalar x2w"); mc::outcome(std::uint64_t(i) + 1); } }
    vec1d yi; if (ok) yi = y; else yi = {1, 2}; got = mc::attempt([&]() { va::w2x(w, axis, yi, z, units[u].first); }); MC_CHECK(got == ok, "w2x: unit accepted: ", got); if (ok) for (sz i = 0; i < 4; ++i) { MC_CHECK(nr(z[i], x[i], 1e-6), "pixel ", x[i], " comes back as ", z[i]); va::w2x(w, axis, yi[i], sx, units[u].first); MC_CHECK(sx == z[i], "scalar w2x"); }
    vec1d b; got = mc::attempt([&]() { b = va::build_axis(w, axis, units[u].first); }); MC_CHECK(got == ok, "build_axis: unit accepted: ", got); if (ok) { MC_CHECK(b.size() == n, "build_axis: ", b.size(), " values"); for (sz i = 0; i < n; ++i) { R e = (c0 + cd*(i + 1 - cp))*si*units[u].second; MC_CHECK(nr(b[i], e, std::fabs(e)*1e-10L + 1e-10L*std::fabs(c0*si*units[u].second)), "build_axis ", i, ": ", b[i], " and not ", double(e)); } }
    sz na = cube ? 3 : 1; MC_CHECK(!w.valid_unit(na, U::wcslib_default, why) && !mc::attempt([&]() { va::x2w(w, na, x, y); }) && !mc::attempt([&]() { va::w2x(w, na, x, y); }) && !mc::attempt([&]() { va::build_axis(w, na); }), "axis that does not exist"); if (!cube) { MC_CHECK(!mc::attempt([&]() { va::ad2xy(w, x, x, y, z); }) && !mc::attempt([&]() { va::xy2ad(w, x, x, y, z); }), "sky coordinates of a spectrum"); }
}
MC_SCENARIO_S(headers, 4) { // make_wcs_header, filter_wcs
    Quiet q; unsigned k = mc::choose(4); va::make_wcs_header_params p; 
    if (k == 0) { bool ps = mc::flip(), sr = mc::flip(), pr = mc::flip(), dm = mc::flip(), old = mc::flip(); double sc = mc::pick(vd{0.06, 1.123456789, 100}), r = mc::pick(vd{150.123456789, 0.25}), d = mc::pick(vd{-52.6456789012, 10}); if (ps) p.pixel_scale = sc; if (sr) { p.sky_ref_ra = r; p.sky_ref_dec = d; } if (pr) { p.pixel_ref_x = 12.5; p.pixel_ref_y = -3; } if (dm) { p.dims_x = 64; p.dims_y = 33; }
        vif::fits::header h, g; if (old) { std::string e = "END"; e.resize(80, ' '); h = key("CRVAL1", "1.0") + key("OTHER", "5") + e; } g = h; MC_CHECK(va::make_wcs_header(p, h), "make_wcs_header fails"); vec1s s; auto f = [](double x) { return num(x); }; if (dm) s.push_back("dims:64,33"); if (ps) s.push_back("pixel_scale:" + f(sc)); if (pr) s.push_back("PIXEL_REF:12.5,-3"); if (sr) s.push_back(" sky_ref:" + f(r) + "," + f(d)); MC_CHECK(va::make_wcs_header(s, g) && g == h, "make_wcs_header from text"); mc::op(2);
        auto has = [&](const char* n, double v, double t, bool in) { double x; bool b = vif::fits::getkey(h, n, x); MC_CHECK(b == in && (!b || nr(x, v, t)), "keyword ", n, " is ", b ? num(x) : "absent"); }; has("CDELT1", -sc/3600, 1e-15, ps); has("CDELT2", sc/3600, 1e-15, ps); has("CRPIX1", 12.5, 0, pr); has("CRPIX2", -3, 0, pr); if (!old || sr) has("CRVAL1", r, 1e-12, sr); has("CRVAL2", d, 1e-12, sr); has("NAXIS1", 64, 0, dm); has("NAXIS2", 33, 0, dm); if (old) has("OTHER", 5, 0, true); if (old && !sr) has("CRVAL1", 1, 0, true); MC_CHECK(h.size() % 80 == 0 && h.substr(h.size() - 80, 4) == "END ", "header ill formed"); mc::outcome(h.size());
        if (ps && sr && pr && dm) { va::wcs w(h); MC_CHECK(w.is_valid() && w.dims.size() == 2 && w.dims[0] == 33 && w.dims[1] == 64, "dims"); double x, y, z; va::ad2xy(w, r, d, x, y); MC_CHECK(nr(x, 12.5, 1e-6) && nr(y, -3, 1e-6), "reference at ", x, " ", y); MC_CHECK(va::get_pixel_size(w, z) && nr(z, sc, sc*1e-4), "pixel size"); va::ad2xy(w, r, d + sc/3600, x, y); MC_CHECK(nr(x, 12.5, 1e-4) && nr(y, -2, 1e-4), "one pixel North at ", x, " ", y); va::ad2xy(w, r + sc/3600/cosl(d*DR), d, x, y); MC_CHECK(nr(x, 11.5, 1e-2) && nr(y, -3, 1e-2), "one pixel East at ", x, " ", y); } }
    if (k == 1) { auto b = mc::pick<std::string>({"pixel_scale", "pixel_scale:abc", "pixel_scale:", "sky_ref:1", "sky_ref:1,2,3", "sky_ref:a,2", "sky_ref:1,b", "pixel_ref:5", "pixel_ref:x,1", "pixel_ref:1,x", "dims:10", "dims:1,2,3", "dims:a,2", "dims:1,b", "unknown:3", "pixel_scale:1:2", ""}); vif::fits::header h; vec1s s = {"pixel_scale:1"}; if (mc::flip()) s.push_back(b); else s = {b}; MC_LOG(s); MC_CHECK(!va::make_wcs_header(s, h), "accepted: ", b); mc::op(); }
    if (k == 2) { static const std::vector<std::string> ks = {"RADECSYS", "CRVAL1", "NAXIS1", "OBJECT", "CD1_1", "PC001001", "EQUINOX", "SECPIX1", "COMMENT", "DEC"}; std::string h, e; unsigned m = mc::choose(1 << 10); if (__builtin_popcount(m) > (mc::thorough() ? 10 : 4)) return; for (unsigned i = 0; i < 10; ++i) if (m >> i & 1) { auto l = key(ks[i], "1.0"); h += l; if (i != 2 && i != 3 && i != 8) e += l; } std::string end = "END"; end.resize(80, ' '); h += end; e += end; mc::op(); MC_CHECK(va::filter_wcs(h) == e, "filter_wcs of ", h, " is ", va::filter_wcs(h)); mc::outcome(m); }
    if (k == 3) { unsigned j = mc::choose(3); std::string h; if (j == 1) { h = "END"; h.resize(80, ' '); } if (j == 2) h = key("OBJECT", str("x")) + key("BITPIX", "8"); bool thrown = false; double a = 0; bool valid = true, ps = true, ro = true; vec1d x = {1}, y; thrown = !mc::attempt([&]() { va::wcs w(h); valid = w.is_valid(); if (!valid) { ps = va::get_pixel_size(w, a); ro = va::get_image_rotation(w, a); MC_CHECK(!mc::attempt([&]() { va::ad2xy(w, x, x, y, y); }) && !mc::attempt([&]() { va::xy2ad(w, x, x, y, y); }) && !mc::attempt([&]() { va::x2w(w, 0, x, y); }) && !mc::attempt([&]() { va::w2x(w, 0, x, y); }) && !mc::attempt([&]() { va::build_axis(w, 0); }), "used without astrometry"); } }); if (!thrown && !valid) MC_CHECK(!ps && !ro, "pixel size without astrometry"); mc::op(); mc::outcome(thrown*2 + valid); }
}
#endif
