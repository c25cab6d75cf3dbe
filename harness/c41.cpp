// C41: regridding of images (regrid_drizzle, regrid_interpolate) and cutouts (cutout_extractor) in vif/astro/image.hpp, against exact overlaps of pixels.
// PART 0: drizzle, 1: interpolate, 2: cutouts.
#ifndef PART
#define PART 0
#endif
#include "vifall.hpp"
#include "fsutil.hpp"
using namespace vr;
using R = long double; using L = long long; using vd = std::vector<double>; using vif::vec1d; using vif::vec2d; namespace va = vif::astro;
const R Pi_ = 3.14159265358979323846264338327950288L, DR = Pi_/180;
struct Quiet { std::streambuf *a, *b; Quiet() : a(std::cout.rdbuf(nullptr)), b(std::cerr.rdbuf(nullptr)) {} ~Quiet() { std::cout.rdbuf(a); std::cerr.rdbuf(b); } };
std::string key(const std::string& k, const std::string& v) { std::string r = k; r.resize(8, ' '); r += "= " + v; r.resize(80, ' '); return r; }
std::string num(R x) { char b[60]; snprintf(b, 60, "%.17Lg", x); return b; } std::string str(const std::string& s) { return "'" + s + "'"; }
bool nr(R a, R b, R t) { return std::fabs(a - b) <= t; }
// pixel grid: intermediate coordinates are m*(p + 1 - c), for 0-based pixel p = (x,y); all grids are tangent at the same point of the sky
struct Grid { sz ny, nx; R c[2], m[2][2];
    void to(R x, R y, R& u, R& v) const { R a = x + 1 - c[0], b = y + 1 - c[1]; u = m[0][0]*a + m[0][1]*b; v = m[1][0]*a + m[1][1]*b; }
    void from(R u, R v, R& x, R& y) const { R t = m[0][0]*m[1][1] - m[0][1]*m[1][0]; x = (m[1][1]*u - m[0][1]*v)/t + c[0] - 1; y = (m[0][0]*v - m[1][0]*u)/t + c[1] - 1; }
    std::string header(sz planes = 0) const { std::string h = key("SIMPLE", "T") + key("BITPIX", "-64") + key("NAXIS", planes ? "3" : "2") + key("NAXIS1", num(nx)) + key("NAXIS2", num(ny)); if (planes) h += key("NAXIS3", num(planes)) + key("CTYPE3", str("WAVE")) + key("CUNIT3", str("um")) + key("CRVAL3", "2.0") + key("CRPIX3", "1.0") + key("CD3_3", "0.5"); h += key("CTYPE1", str("RA---TAN")) + key("CTYPE2", str("DEC--TAN")) + key("CRVAL1", "150.25") + key("CRVAL2", "-30.5") + key("CRPIX1", num(c[0])) + key("CRPIX2", num(c[1])) + key("CUNIT1", str("deg")) + key("CUNIT2", str("deg")); for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) h += key("CD" + num(i + 1) + "_" + num(j + 1), num(m[i][j])); std::string e = "END"; e.resize(80, ' '); return h + e; } };
const R scale = 0.5L/3600;
Grid plain(sz ny, sz nx) { return Grid{ny, nx, {1.5L, 2}, {{-scale, 0}, {0, scale}}}; }
using Pt = std::pair<R,R>; using Poly = std::vector<Pt>;
Poly clip(const Poly& p, R a, R b, R c) { Poly r; auto f = [&](Pt q) { return a*q.first + b*q.second + c; }; for (sz i = 0; i < p.size(); ++i) { Pt u = p[i], v = p[(i + 1) % p.size()]; R fu = f(u), fv = f(v); if (fu >= 0) r.push_back(u); if ((fu > 0 && fv < 0) || (fu < 0 && fv > 0)) { R t = fu/(fu - fv); r.push_back({u.first + t*(v.first - u.first), u.second + t*(v.second - u.second)}); } } return r; }
R area(const Poly& p) { R s = 0; for (sz i = 0; i < p.size(); ++i) { auto &u = p[i], &v = p[(i + 1) % p.size()]; s += u.first*v.second - u.second*v.first; } return std::fabs(s)/2; }
Grid other(sz ny, sz nx, const vd& ox, const vd& oy) { R q = mc::pick(vd{1, 0.5, 2, 0.75}), a = mc::pick(vd{0, 30, 90})*DR, f = mc::flip() ? 1 : -1, dx = mc::pick(ox), dy = mc::pick(oy); Grid g; g.ny = ny; g.nx = nx; R s = scale*q; g.m[0][0] = f*s*cosl(a); g.m[0][1] = -f*s*sinl(a); g.m[1][0] = s*sinl(a); g.m[1][1] = s*cosl(a); g.c[0] = 1.5L + dx; g.c[1] = 2 + dy; MC_LOG("grid ", ny, "x", nx, " scale ", double(q), " rotation ", double(a/DR), " flip ", double(f), " offset ", double(dx), ",", double(dy)); return g; }
std::pair<sz,sz> shape(bool big = false) { static const std::vector<std::pair<sz,sz>> q = {{1,1},{2,2},{1,3},{3,2}}, t = {{1,1},{2,2},{1,3},{3,2},{3,1},{2,3},{3,3}}, b = {{2,2},{3,4},{5,4}}; return mc::pick(big ? b : mc::thorough() ? t : q); }

#if PART == 0
template<std::size_t D, typename T> void drizzle(bool swap_dest, bool few) {
    Quiet quiet; auto ss = shape(), ds = few && !mc::thorough() ? std::pair<sz,sz>{2, 3} : shape(); Grid s = plain(ss.first, ss.second), d = other(ds.first, ds.second, few && !mc::thorough() ? vd{0.25, 1} : mc::thorough() ? vd{0, 0.25, 1, -1.5} : vd{0, 0.25, -1.5}, few && !mc::thorough() ? vd{-0.625, 0} : mc::thorough() ? vd{0, -0.625, 2} : vd{0, -0.625}); if (mc::flip()) { std::swap(s, d); std::swap(s.ny, d.ny); std::swap(s.nx, d.nx); }
    va::regrid_drizzle_params o; unsigned op = mc::choose(6); o.pixfrac = op < 2 ? 1 : 0.5; o.linearize = op % 2; o.dest_pixfrac = op >= 4; MC_LOG("source ", s.ny, "x", s.nx, " pixfrac ", o.pixfrac, " linearize ", o.linearize, " dest_pixfrac ", o.dest_pixfrac);
    const sz np = D == 3 ? 2 : 1; vif::vec<D,T> img; if constexpr (D == 3) img.resize(np, s.ny, s.nx); else img.resize(s.ny, s.nx); for (sz i = 0; i < img.size(); ++i) img[i] = T(1 + (i*i*3) % 17); va::wcs ws(s.header(D == 3 ? np : 0)), wd(d.header(swap_dest ? 4 : 0)); vec2d wei(7, 2); vif::vec<D,double> res; if (!mc::attempt([&]() { res = va::regrid_drizzle(img, ws, wd, wei, o); })) MC_FAIL("refused"); mc::op();
    MC_CHECK(wei.dims[0] == d.ny && wei.dims[1] == d.nx && res.dims[D-2] == d.ny && res.dims[D-1] == d.nx && (D == 2 || res.dims[0] == np), "dimensions of the result"); std::uint64_t h = 0;
    for (sz y = 0; y < d.ny; ++y) for (sz x = 0; x < d.nx; ++x) { R w = 0; std::vector<R> f(np); bool edge = false;
        for (sz j = 0; j < s.ny; ++j) for (sz i = 0; i < s.nx; ++i) { Poly p; R hp = R(o.pixfrac)/2; for (auto c : {Pt{-hp,-hp}, Pt{hp,-hp}, Pt{hp,hp}, Pt{-hp,hp}}) { R u, v, a, b; s.to(i + c.first, j + c.second, u, v); d.from(u, v, a, b); p.push_back({a, b}); } R A = area(p); p = clip(p, 1, 0, -(x - 0.5L)); p = clip(p, -1, 0, x + 0.5L); p = clip(p, 0, 1, -(y - 0.5L)); p = clip(p, 0, -1, y + 0.5L); R o2 = area(p); if (o2 > 0 && o2 < 1e-6L) edge = true; w += o2; for (sz k = 0; k < np; ++k) f[k] += img[(k*s.ny + j)*s.nx + i]*o2/A*(R(o.pixfrac)*o.pixfrac); }
        MC_CHECK(nr(wei(y,x), w, 1e-5L), "weight of pixel ", y, ",", x, " is ", wei(y,x), " instead of ", double(w)); if (w < 1e-4L || edge) { if (w < 1e-12L) for (sz k = 0; k < np; ++k) { double r = res[(k*d.ny + y)*d.nx + x]; MC_CHECK(!std::isfinite(r) || wei(y,x) > 0, "value ", r, " in pixel ", y, ",", x, " which is not covered"); } continue; } for (sz k = 0; k < np; ++k) { double r = res[(k*d.ny + y)*d.nx + x]; R e = f[k]/w; MC_CHECK(nr(r, e, 1e-4L*(1 + std::fabs(e))), "pixel ", y, ",", x, " is ", r, " instead of ", double(e)); h = mc::mix(h, std::uint64_t(std::llround(e*1000))); } }
    mc::outcome(h);
}
MC_SCENARIO_S(drizzle_image, 6) { drizzle<2,double>(false, false); }
MC_SCENARIO_S(drizzle_float, 6) { drizzle<2,float>(true, true); }
MC_SCENARIO_S(drizzle_cube, 6) { drizzle<3,double>(false, true); }
MC_SCENARIO(drizzle_checks) { Quiet q; Grid g = plain(2, 3); va::wcs w(g.header()), w3(g.header(4)); vec2d i(2, 3), bad(3, 2), bad2(2, 2); vif::vec3d c(4, 2, 3), bad3(3, 2, 3); unsigned k = mc::choose(6); mc::op(); bool ok = mc::attempt([&]() { if (k == 0) va::regrid_drizzle(i, w, w); if (k == 1) va::regrid_drizzle(c, w3, w); if (k == 2) va::regrid_drizzle(bad, w, w); if (k == 3) va::regrid_drizzle(bad2, w, w); if (k == 4) va::regrid_drizzle(i, w3, w); if (k == 5) va::regrid_drizzle(bad3, w3, w); }); MC_CHECK(ok == (k < 2), "image and astrometry with other dimensions accepted: ", ok); mc::outcome(k); }
#endif

#if PART == 1
template<typename T> void interp(bool cube, bool few) {
    Quiet quiet; auto ss = shape(true), ds = few && !mc::thorough() ? std::pair<sz,sz>{2, 3} : shape(); Grid s = plain(ss.first, ss.second), d = other(ds.first, ds.second, vd{0.28125, 1.40625, -1, -3}, vd{0.15625, 2}); bool integral = true; va::regrid_interpolate_params o; unsigned me = mc::choose(3); o.method = std::vector<va::interpolation_method>{va::interpolation_method::nearest, va::interpolation_method::linear, va::interpolation_method::cubic}[me]; o.linearize = mc::flip(); o.conserve_flux = mc::flip(); MC_LOG("source ", s.ny, "x", s.nx, " method ", me, " linearize ", o.linearize, " conserve ", o.conserve_flux);
    vif::vec<2,T> img(s.ny, s.nx); for (sz i = 0; i < img.size(); ++i) img[i] = T(1 + (i*i*3) % 17); va::wcs ws(s.header()), wd(d.header(cube ? 2 : 0)); vec2d res; if (!mc::attempt([&]() { res = va::regrid_interpolate(img, ws, wd, o); })) MC_FAIL("refused"); mc::op(); MC_CHECK(res.dims[0] == d.ny && res.dims[1] == d.nx, "dimensions of the result are ", res.dims[0], "x", res.dims[1]); std::uint64_t h = 0; R A = (d.m[0][0]*d.m[1][1] - d.m[0][1]*d.m[1][0])/(s.m[0][0]*s.m[1][1] - s.m[0][1]*s.m[1][0]); A = std::fabs(A);
    { R u, v, a, b, a2, b2, a3, b3; d.to(0, 0, u, v); s.from(u, v, a, b); d.to(1, 0, u, v); s.from(u, v, a2, b2); d.to(0, 1, u, v); s.from(u, v, a3, b3); integral = nr(a, roundl(a), 1e-6L) && nr(b, roundl(b), 1e-6L) && nr(a2 - a, 1, 1e-6L) && nr(b2, b, 1e-6L) && nr(b3 - b, 1, 1e-6L) && nr(a3, a, 1e-6L); }
    for (sz y = 0; y < d.ny; ++y) for (sz x = 0; x < d.nx; ++x) { R u, v, a, b; d.to(x, y, u, v); s.from(u, v, a, b); double e = vif::dnan; if ((integral && o.linearize) || me == 0) { if (nr(std::fabs(a - roundl(a)), 0.5L, 1e-3L) || nr(std::fabs(b - roundl(b)), 0.5L, 1e-3L)) continue; L i = llroundl(a), j = llroundl(b); if (i >= 0 && i < L(s.nx) && j >= 0 && j < L(s.ny)) e = img(j, i); }
        else { if (nr(a, roundl(a), 1e-3L) || nr(b, roundl(b), 1e-3L)) continue; L i = floorl(a), j = floorl(b); if (me == 1) { if (i >= 0 && i + 1 < L(s.nx) && j >= 0 && j + 1 < L(s.ny)) { R p = a - i, q = b - j; e = (1-p)*(1-q)*img(j,i) + p*(1-q)*img(j,i+1) + (1-p)*q*img(j+1,i) + p*q*img(j+1,i+1); } } else if (i >= 1 && i + 2 < L(s.nx) && j >= 1 && j + 2 < L(s.ny)) e = vif::bicubic_strict(img, double(b), double(a), vif::dnan); }
        if (o.conserve_flux) e *= A; double r = res(y,x); MC_CHECK(std::isnan(r) == std::isnan(e) && (std::isnan(e) || nr(r, e, 1e-3L*(1 + std::fabs(e)))), "pixel ", y, ",", x, " at ", double(b), ",", double(a), " is ", r, " instead of ", e); if (!std::isnan(e)) h = mc::mix(h, std::uint64_t(std::llround(e*1000))); }
    mc::outcome(h);
}
MC_SCENARIO_S(interpolate_image, 6) { interp<double>(false, false); }
MC_SCENARIO_S(interpolate_cube, 6) { interp<double>(true, true); }
MC_SCENARIO_S(interpolate_float, 6) { interp<float>(false, true); }
#endif

#if PART == 2
template<typename T> struct Def { static T v() { return 0; } }; template<> struct Def<double> { static double v() { return vif::dnan; } }; template<> struct Def<float> { static float v() { return vif::fnan; } };
template<typename T> bool eq(T a, T b) { return a == b || (a != a && b != b); }
template<typename T> void cutout(unsigned mode) { // mode 0: one image, 1: several sections, 2: distortion
    fsu::Dir dir; Quiet quiet; auto ss = mc::pick(mode == 1 && !mc::thorough() ? std::vector<std::pair<sz,sz>>{{4,6}} : std::vector<std::pair<sz,sz>>{{1,1},{4,6},{7,3}}); Grid g = plain(ss.first, ss.second); std::vector<std::vector<T>> im; std::vector<Grid> gs; sz ns = mode == 1 ? 2 : 1; 
    for (sz k = 0; k < ns; ++k) { Grid t = g; if (k) { t.c[0] += mc::pick(vd{2, -3}); t.c[1] += mc::pick(vd{0, 1}); t.ny += 1; } vif::vec<2,T> v(t.ny, t.nx); std::vector<T> q; for (sz i = 0; i < v.size(); ++i) { v[i] = T(1 + (i*i*3 + k*100) % 57); if (std::is_floating_point<T>::value && i % 5 == 3) v[i] = Def<T>::v(); q.push_back(v[i]); } im.push_back(q); gs.push_back(t); vif::fits::write("i" + std::to_string(k) + ".fits", v, t.header()); }
    va::cutout_extractor x; if (mode == 1) { unsigned how = mc::choose(2); if (how == 0) { fsu::put("all.sectfits", "# list\ni0.fits\n\ni1.fits\n"); x.setup_image("all.sectfits"); } else { x.setup_image("i0.fits"); x.setup_image("i1.fits"); } } else x.setup_image("i0.fits"); MC_CHECK(nr(x.aspix, 0.5, 1e-4), "pixel size ", x.aspix); R off = 0; if (mode == 2) { Grid t = plain(3, 3); vec2d a(3, 3), b(3, 3); for (sz i = 0; i < 9; ++i) { a[i] = 0; b[i] = double(scale*2)*(i/3); } vec2d none; vif::fits::write("d.fits", none); { vif::fits::output_image o("d.fits"); o.reach_hdu(1); o.write(a); o.write_header(t.header()); o.reach_hdu(2); o.write(b); } x.setup_distortion("d.fits"); }
    double size = mc::pick(vd{0.25, 1.25, 2.75}); bool few = (mode || sizeof(T) == 4) && !mc::thorough(); R px = mc::pick(few ? vd{0.125, 2.75, 5, -9.5} : vd{0.125, 2.75, -1.25, 5, 40, -9.5}), py = mc::pick(few ? vd{0.25, 3.375, -2} : vd{0.25, 3.375, -2, 7.25, -30}); L hs = std::max(1.0, std::ceil(0.5*size/0.5)); R u, v; g.to(px, py, u, v); R d0 = -30.5L*DR, xx = u*DR, yy = v*DR, rr = hypotl(xx, yy), c = atanl(rr), ra = 150.25L, dec = -30.5L; if (rr > 0) { dec = asinl(cosl(c)*sinl(d0) + yy*sinl(c)*cosl(d0)/rr)/DR; ra += atan2l(xx*sinl(c), rr*cosl(d0)*cosl(c) - yy*sinl(d0)*sinl(c))/DR; } (void)off;
    bool udef = mc::flip(); unsigned hm = mc::choose(3); bool wh = hm > 0, stale = hm == 2; T def = udef ? T(-5) : Def<T>::v(); MC_LOG("image ", ss.first, "x", ss.second, " position ", double(px), ",", double(py), " size ", size, " default ", udef, " header ", wh, " reused ", stale); vif::vec<2,T> cut; vif::fits::header h; if (stale) { Grid o = g; for (auto& r : o.m) for (auto& m : r) m *= 3; h = o.header(); cut.resize(2, 9); } bool got; if (!mc::attempt([&]() { if (wh) got = udef ? x.get_cutout(cut, h, double(ra), double(dec), size, def) : x.get_cutout(cut, h, double(ra), double(dec), size); else got = udef ? x.get_cutout(cut, double(ra), double(dec), size, def) : x.get_cutout(cut, double(ra), double(dec), size); })) MC_FAIL("refused"); mc::op();
    R sy = 0; if (mode == 2) { L i = llroundl(px), j = llroundl(py); if (i >= 0 && i < 3 && j >= 0 && j < 3) sy = 2*j; } MC_CHECK(cut.dims[0] == sz(2*hs + 1) && cut.dims[1] == sz(2*hs + 1), "cutout of ", cut.dims[0], "x", cut.dims[1], " instead of ", 2*hs + 1);
    std::vector<T> e(cut.size(), def); std::vector<bool> cov(cut.size()); bool any = false; R fx = 0, fy = 0; for (sz k = 0; k < ns; ++k) { R a, b; gs[k].from(u, v, a, b); b -= sy; L xc = llroundl(a), yc = llroundl(b); bool ov = false; for (L i = 0; i < 2*hs + 1; ++i) for (L j = 0; j < 2*hs + 1; ++j) { L yy = yc - hs + i, x2 = xc - hs + j; if (yy < 0 || x2 < 0 || yy >= L(gs[k].ny) || x2 >= L(gs[k].nx)) continue; ov = true; T val = im[k][yy*gs[k].nx + x2]; sz p = i*(2*hs + 1) + j; if (!cov[p] || e[p] != e[p]) { if (!cov[p] || val == val) e[p] = val; cov[p] = true; } } if (ov && !any) { any = true; fx = a - xc; fy = b - yc; } }
    MC_CHECK(got == any, "reported as covered: ", got); for (sz i = 0; i < cut.size(); ++i) MC_CHECK(eq(cut[i], e[i]), "pixel ", i, " of the cutout is ", double(cut[i]), " instead of ", double(e[i])); mc::outcome(any ? 1 + hs : 0);
    if (wh) { double k; MC_CHECK(vif::fits::getkey(h, "NAXIS1", k) && k == 2*hs + 1 && vif::fits::getkey(h, "NAXIS2", k) && k == 2*hs + 1, "the header gives a size of ", k); va::wcs w(h); double cx, cy; va::ad2xy(w, double(ra), double(dec), cx, cy); MC_CHECK(nr(cx, hs + 1 + fx, 1e-4) && nr(cy, hs + 1 + fy, 1e-4), "position at ", cx, ",", cy, " in the header"); double p; MC_CHECK(va::get_pixel_size(w, p) && nr(p, 0.5, 1e-4), "pixel size in the header is ", p); va::ad2xy(w, double(ra), double(dec + scale), cx, cy); MC_CHECK(nr(cx, hs + 1 + fx, 1e-3) && nr(cy, hs + 2 + fy, 1e-3), "North in the header"); }
}
MC_SCENARIO_S(cutout_double, 6) { cutout<double>(0); }
MC_SCENARIO_S(cutout_float, 6) { cutout<float>(0); }
MC_SCENARIO_S(cutout_sections, 6) { cutout<double>(1); }
MC_SCENARIO_S(cutout_distorted, 6) { cutout<double>(2); }
#endif
