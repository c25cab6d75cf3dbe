// C42: extraction of cutouts for stacking (vif/astro/qstack.hpp) and combination of the cutouts, against direct definitions.
// PART 0: one image, sections; 1: image and weights, combination, truncated files.
#ifndef PART
#define PART 0
#endif
#include "vifall.hpp"
#include <vif/astro/qstack.hpp>
#include "fsutil.hpp"
using namespace vr;
using R = long double; using L = long long; using vd = std::vector<double>; using vif::vec1d; using vif::vec1u; namespace va = vif::astro;
const R DR = 3.14159265358979323846264338327950288L/180, scale = 0.5L/3600;
struct Quiet { std::streambuf *a, *b; Quiet() : a(std::cout.rdbuf(nullptr)), b(std::cerr.rdbuf(nullptr)) {} ~Quiet() { std::cout.rdbuf(a); std::cerr.rdbuf(b); } };
std::string key(const std::string& k, const std::string& v) { std::string r = k; r.resize(8, ' '); r += "= " + v; r.resize(80, ' '); return r; }
std::string num(R x) { char b[60]; snprintf(b, 60, "%.17Lg", x); return b; }
// image whose pixel (x,y), 1-based, is at (x + ox, y + oy) in the common frame of 0.5" pixels
struct Img { L ny, nx, ox, oy; vd v; R sx = 0, sy = 0; double at(L x, L y) const { return x < 1 || y < 1 || x > nx || y > ny ? NAN : v[(y - 1)*nx + x - 1]; }
    std::string header(bool cube = false) const { std::string h = key("SIMPLE", "T") + key("BITPIX", "-64") + key("NAXIS", "2") + key("NAXIS1", num(nx)) + key("NAXIS2", num(ny)) + key("CTYPE1", "'RA---TAN'") + key("CTYPE2", "'DEC--TAN'") + key("CRVAL1", "150.25") + key("CRVAL2", "-30.5") + key("CRPIX1", num(1 - ox + sx)) + key("CRPIX2", num(1 - oy + sy)) + key("CUNIT1", "'deg'") + key("CUNIT2", "'deg'") + key("CD1_1", num(-scale)) + key("CD1_2", "0") + key("CD2_1", "0") + key("CD2_2", num(scale)); if (cube) h += key("CRPIX3", "1") + key("CRVAL3", "1") + key("CD3_3", "1"); std::string e = "END"; e.resize(80, ' '); return h + e; }
    template<typename T> void write(const std::string& f) const { vif::vec<2,T> m(ny, nx); for (sz i = 0; i < m.size(); ++i) m[i] = T(v[i]); vif::fits::write(f, m, header()); } };
void sky(R fx, R fy, double& ra, double& dec) { R u = -(fx - 1)*scale*DR, v = (fy - 1)*scale*DR, d0 = -30.5L*DR, r = hypotl(u, v), c = atanl(r); if (r == 0) { ra = 150.25; dec = -30.5; return; } dec = double(asinl(cosl(c)*sinl(d0) + v*sinl(c)*cosl(d0)/r)/DR); ra = double(150.25L + atan2l(u*sinl(c), r*cosl(d0)*cosl(c) - v*sinl(d0)*sinl(c))/DR); }
bool same(double a, double b) { return a == b || (!std::isfinite(a) && !std::isfinite(b)); } // CFITSIO reads infinities as undefined pixels
Img image(L ny, L nx, int seed) { Img g{ny, nx, 0, 0, {}}; for (L i = 0; i < ny*nx; ++i) g.v.push_back(1 + (i*i*3 + i + seed*100) % 257); return g; }
struct Src { L x, y; double fx, fy; }; // nearest pixel (in the common frame, 1-based) and offset from its centre
std::vector<Src> sources(L x0, L x1, L y0, L y1, int pat) { std::vector<Src> s; static const double off[] = {0.25, -0.375, 0, 0.4375}; for (L x = x0; x <= x1; ++x) for (L y = y0; y <= y1; ++y) { sz k = s.size() + pat; s.push_back({x, y, pat == 3 ? 0 : off[k % 4], pat == 3 ? 0 : off[(k/2 + 1) % 4]}); } return s; }
void coords(const std::vector<Src>& s, vec1d& ra, vec1d& dec) { ra.resize(s.size()); dec.resize(s.size()); for (sz i = 0; i < s.size(); ++i) sky(s[i].x + s[i].fx, s[i].y + s[i].fy, ra[i], dec[i]); }

// what must come out: one cutout per retained source
struct Cut { vd p; sz sect; double dx, dy; };
std::map<sz,Cut> expected(const std::vector<Img>& im, const std::vector<Src>& s, L h, bool keep) {
    std::map<sz,Cut> r; for (sz k = 0; k < im.size(); ++k) for (sz i = 0; i < s.size(); ++i) { const Img& g = im[k]; L cx = s[i].x - g.ox, cy = s[i].y - g.oy; if (cx + h < 1 || cx - h > g.nx || cy + h < 1 || cy - h > g.ny) continue; vd p; bool fin = true; for (L y = cy - h; y <= cy + h; ++y) for (L x = cx - h; x <= cx + h; ++x) { p.push_back(g.at(x, y)); fin = fin && std::isfinite(p.back()); } if (!keep && !fin) continue; auto it = r.find(i); if (it == r.end()) r[i] = {p, k, s[i].fx, s[i].fy}; else for (sz j = 0; j < p.size(); ++j) if (!std::isfinite(it->second.p[j])) it->second.p[j] = p[j]; } return r; }
template<typename T> void compare(const std::map<sz,Cut>& e, const vif::vec<3,T>& cube, const vec1u& ids, sz pre, L h, const va::qstack_output& o, const va::qstack_params& p, const char* w) {
    mc::op(); sz n = 2*h + 1; MC_CHECK(ids.size() == pre + e.size(), w, ": ", ids.size() - pre, " sources instead of ", e.size()); MC_CHECK(cube.dims[0] == ids.size() && cube.dims[1] == n && cube.dims[2] == n && cube.size() == ids.size()*n*n, w, ": cube of ", cube.dims[0], "x", cube.dims[1], "x", cube.dims[2]); std::set<sz> seen; MC_CHECK(o.dx.size() == (p.save_offsets ? e.size() : 0) && o.dy.size() == o.dx.size(), w, ": ", o.dx.size(), " offsets"); MC_CHECK(o.sect.size() == (p.save_section ? e.size() : 0), w, ": ", o.sect.size(), " sections");
    for (sz k = 0; k < pre; ++k) { MC_CHECK(ids[k] == 1000 + k, w, ": previous source lost"); for (sz j = 0; j < n*n; ++j) MC_CHECK(cube[k*n*n + j] == T(-5), w, ": previous cutout modified"); }
    for (sz k = pre; k < ids.size(); ++k) { auto it = e.find(ids[k]); MC_CHECK(it != e.end() && seen.insert(ids[k]).second, w, ": unexpected source ", ids[k]); for (sz j = 0; j < n*n; ++j) MC_CHECK(same(cube[k*n*n + j], T(it->second.p[j])), w, ": source ", ids[k], ", pixel (", j/n, ",", j%n, ") is ", double(cube[k*n*n + j]), " instead of ", it->second.p[j]); if (p.save_offsets) MC_CHECK(std::fabs(o.dx[k - pre] - it->second.dx) < 1e-4 && std::fabs(o.dy[k - pre] - it->second.dy) < 1e-4, w, ": offset ", o.dx[k - pre], ",", o.dy[k - pre], " instead of ", it->second.dx, ",", it->second.dy); if (p.save_section) MC_CHECK(o.sect[k - pre] == it->second.sect, w, ": section ", o.sect[k - pre], " instead of ", it->second.sect); }
    mc::outcome(mc::mix(e.size(), h));
}
template<typename T> vif::vec<3,T> before(sz pre, L h) { vif::vec<3,T> c; if (pre) { c.resize(pre, 2*h + 1, 2*h + 1); for (auto& x : c) x = T(-5); } return c; }
vec1u before_ids(sz pre) { vec1u i; for (sz k = 0; k < pre; ++k) i.push_back(1000 + k); return i; }

#if PART == 0
template<typename T> void single() {
    fsu::Dir dir; Quiet quiet; auto ss = mc::pick(std::vector<std::pair<L,L>>{{1,1},{2,3},{5,4},{1,6},{7,7}}); L h = mc::choose(mc::thorough() ? 5 : 4); Img g = image(ss.first, ss.second, 0); sz bad = mc::choose(4); if (bad == 1) g.v[0] = NAN; if (bad == 2) g.v[g.v.size()/2] = INFINITY; if (bad == 3) g.v.back() = -INFINITY; va::qstack_params p; p.keep_nan = mc::flip(); p.save_offsets = mc::flip(); p.save_section = mc::thorough() ? mc::flip() : p.save_offsets; sz pre = mc::choose(mc::thorough() ? 3 : 2); unsigned pat = mc::choose(4); MC_LOG("image ", g.ny, "x", g.nx, " half size ", h, " bad pixel ", bad, " keep_nan ", p.keep_nan, " previous ", pre, " pattern ", pat);
    bool twod = pat || mc::flip(); g.write<T>("i.fits"); if (!twod) { if (g.ny == 1 || g.nx == 1) return; vif::vec<3,T> m(1, g.ny, g.nx); for (sz i = 0; i < m.size(); ++i) m[i] = T(g.v[i]); vif::fits::write("i.fits", m, g.header(true)); } auto s = sources(-h - 1, g.nx + h + 2, -h - 1, g.ny + h + 2, pat); vec1d ra, dec; coords(s, ra, dec); auto cube = before<T>(pre, h); vec1u ids = before_ids(pre); va::qstack_output o; if (!mc::attempt([&]() { o = va::qstack(ra, dec, "i.fits", h, cube, ids, p); })) MC_FAIL("refused"); compare(expected({g}, s, h, p.keep_nan), cube, ids, pre, h, o, p, "qstack"); MC_CHECK(ra.size() == s.size() && dec.size() == s.size(), "coordinates modified");
}
MC_SCENARIO_S(single_double, 5) { single<double>(); }
MC_SCENARIO_S(single_float, 5) { single<float>(); }
MC_SCENARIO_S(sections, 5) {
    fsu::Dir dir; Quiet quiet; L h = mc::choose(3); std::vector<Img> im = {image(4, 5, 0), image(3, 6, 1)}; im[1].ox = mc::pick(std::vector<L>{0, 2, -3, 20}); im[1].oy = mc::pick(std::vector<L>{0, 1, -3}); if (mc::flip()) im.push_back(image(2, 2, 2)); if (im.size() == 3) { im[2].ox = 3; im[2].oy = -1; } unsigned bad = mc::choose(3); if (bad) im[0].v[7] = NAN; if (bad == 2) im[1].v[9] = NAN; std::string list = "# sections\n"; for (sz k = 0; k < im.size(); ++k) { im[k].write<double>("s" + std::to_string(k) + ".fits"); list += "s" + std::to_string(k) + ".fits\n\n"; } fsu::put("a.sectfits", list); va::qstack_params p; p.keep_nan = mc::flip(); p.save_offsets = true; p.save_section = mc::flip(); sz pre = mc::choose(2); MC_LOG(im.size(), " sections, offset ", im[1].ox, ",", im[1].oy, " half size ", h, " bad ", bad, " keep_nan ", p.keep_nan);
    auto s = sources(-h - 3, 8 + h, -h - 3, 7 + h, mc::choose(2)); vec1d ra, dec; coords(s, ra, dec); auto cube = before<double>(pre, h); vec1u ids = before_ids(pre); va::qstack_output o; if (!mc::attempt([&]() { o = va::qstack(ra, dec, "a.sectfits", h, cube, ids, p); })) MC_FAIL("refused"); compare(expected(im, s, h, p.keep_nan), cube, ids, pre, h, o, p, "qstack");
}
// sources at the edge between two pixels: either is the central one, but the cutout is the one around it
MC_SCENARIO_S(between, 4) {
    fsu::Dir dir; Quiet quiet; L h = mc::choose(3); Img g = image(4, 3, 0); double x = mc::choose(15) - 5 + 0.5, y = mc::flip() ? x : mc::choose(12) - 4 + 0.5; g.sx = x - 1; g.sy = y - 1; g.write<double>("i.fits"); bool w = mc::flip(); MC_LOG("source at ", x, ",", y, " half size ", h, " weights ", w); vec1d ra = {150.25}, dec = {-30.5}; vif::vec3d c, wc; vec1u ids; va::qstack_params p; p.keep_nan = true; p.save_offsets = true; va::qstack_output o; mc::op(); if (!mc::attempt([&]() { o = w ? va::qstack(ra, dec, "i.fits", "i.fits", h, c, wc, ids, p) : va::qstack(ra, dec, "i.fits", h, c, ids, p); })) MC_FAIL("refused"); MC_CHECK(ids.size() <= 1 && o.dx.size() == ids.size() && o.dy.size() == ids.size(), ids.size(), " sources"); if (ids.empty()) { auto far = [&](double u, L n) { return w ? u - h - 0.5 < 1 || u + h + 0.5 > n : u + h - 0.5 < 1 || u - h + 0.5 > n; }; MC_CHECK(far(x, g.nx) || far(y, g.ny), "source lost"); return; }
    MC_CHECK(std::fabs(o.dx[0]) <= 0.5 + 1e-6 && std::fabs(o.dy[0]) <= 0.5 + 1e-6, "offset ", o.dx[0], ",", o.dy[0]); Src q{std::lround(x - o.dx[0]), std::lround(y - o.dy[0]), o.dx[0], o.dy[0]}; Img f = g; f.sx = f.sy = 0; auto e = expected({f}, {q}, h, true); compare(e, c, ids, 0, h, o, p, "qstack"); if (w) compare(e, wc, ids, 0, h, o, p, "weights");
}
MC_SCENARIO(refused) { fsu::Dir dir; Quiet quiet; Img g = image(3, 3, 0); g.write<double>("i.fits"); vec1d ra = {150.25, 150.25}, dec = {-30.5, -30.5}, one = {150.25}; vif::vec3d c, w; vec1u i; unsigned k = mc::choose(6); if (k == 4) { vif::vec3d m(2, 3, 3); vif::fits::write("c.fits", m, g.header(true)); } if (k == 5) image(3, 4, 0).write<double>("w.fits"); MC_LOG("case ", k); mc::op(); MC_CHECK(!mc::attempt([&]() { if (k == 0) va::qstack(ra, dec, "none.fits", 1, c, i); if (k == 1) va::qstack(ra, one, "i.fits", 1, c, i); if (k == 2) va::qstack(ra, one, "i.fits", "i.fits", 1, c, w, i); if (k == 3) va::qstack(ra, dec, "i.fits", "none.fits", 1, c, w, i); if (k == 4) va::qstack(ra, dec, "c.fits", 1, c, i); if (k == 5) va::qstack(ra, dec, "i.fits", "w.fits", 1, c, w, i); }), "accepted"); }
#endif

#if PART == 1
// image and weight map: both cutouts are kept, for sources fully covered
template<typename T> void weighted() {
    fsu::Dir dir; Quiet quiet; auto ss = mc::pick(std::vector<std::pair<L,L>>{{1,1},{2,3},{5,4},{7,7}}); L h = mc::choose(mc::thorough() ? 4 : 3); Img g = image(ss.first, ss.second, 0), w = image(ss.first, ss.second, 3); sz bad = mc::choose(4); if (bad == 1) g.v[0] = NAN; if (bad == 2) w.v[w.v.size()/2] = INFINITY; if (bad == 3) { g.v.back() = NAN; w.v[0] = NAN; } va::qstack_params p; p.keep_nan = mc::flip(); p.save_offsets = mc::flip(); p.save_section = mc::flip(); sz pre = mc::choose(2); unsigned sect = mc::choose(2); g.write<T>("i.fits"); w.write<T>("w.fits"); if (sect) { fsu::put("i.sectfits", "i.fits\n"); fsu::put("w.sectfits", "w.fits\n"); } MC_LOG("image ", g.ny, "x", g.nx, " half size ", h, " bad pixel ", bad, " keep_nan ", p.keep_nan, " sections ", sect);
    auto s = sources(-h - 1, g.nx + h + 2, -h - 1, g.ny + h + 2, mc::choose(2)); { std::vector<Src> in; for (auto& q : s) if (q.x - h >= 1 && q.x + h <= g.nx && q.y - h >= 1 && q.y + h <= g.ny) in.push_back(q); else if (!p.keep_nan) in.push_back(q); s = in; } vec1d ra, dec; coords(s, ra, dec); auto cube = before<T>(pre, h), wc = before<T>(pre, h); vec1u ids = before_ids(pre); va::qstack_output o; auto ei = expected({g}, s, h, p.keep_nan), ew = expected({w}, s, h, p.keep_nan); bool match = ei.size() == ew.size(); for (auto& x : ei) match = match && ew.count(x.first); bool ok = mc::attempt([&]() { o = va::qstack(ra, dec, sect ? "i.sectfits" : "i.fits", sect ? "w.sectfits" : "w.fits", h, cube, wc, ids, p); });
    if (sect && !match) { MC_CHECK(!ok, "different sources on the image and the weights accepted"); return; } MC_CHECK(ok, "refused"); for (auto it = ei.begin(); it != ei.end();) if (!ew.count(it->first)) it = ei.erase(it); else ++it; for (auto it = ew.begin(); it != ew.end();) if (!ei.count(it->first)) it = ew.erase(it); else ++it; compare(ei, cube, ids, pre, h, o, p, "image"); compare(ew, wc, ids, pre, h, o, p, "weights");
}
MC_SCENARIO_S(weighted_double, 5) { weighted<double>(); }
MC_SCENARIO_S(weighted_float, 5) { weighted<float>(); }
// a file which lost its end is reported, or everything is extracted right
MC_SCENARIO_S(truncated, 3) {
    fsu::Dir dir; Quiet quiet; Img g = image(40, 40, 0); g.write<double>("i.fits"); g.write<double>("w.fits"); std::string d = fsu::slurp("i.fits"); sz cut = mc::choose(d.size()/720); bool wht = mc::flip(); fsu::put(wht && mc::flip() ? "w.fits" : "i.fits", d.substr(0, 720*cut + 1)); auto s = sources(8, 40, 8, 8, 0); for (auto& q : sources(20, 20, 15, 40, 0)) s.push_back(q); vec1d ra, dec; coords(s, ra, dec); vif::vec3d c, w; vec1u ids; va::qstack_output o; va::qstack_params p; p.keep_nan = mc::flip(); if (p.keep_nan) { s = sources(8, 38, 8, 38, 0); coords(s, ra, dec); } MC_LOG("file cut at ", 720*cut + 1, " of ", d.size()); bool ok = mc::attempt([&]() { if (wht) o = va::qstack(ra, dec, "i.fits", "w.fits", 1, c, w, ids, p); else o = va::qstack(ra, dec, "i.fits", 1, c, ids, p); }); mc::op(); if (!ok) return; auto e = expected({g}, s, 1, p.keep_nan); compare(e, c, ids, 0, 1, o, p, "qstack of a truncated file"); if (wht) compare(e, w, ids, 0, 1, o, p, "weights of a truncated file");
}
MC_SCENARIO_S(combine, 4) {
    sz n = 1 + mc::choose(4), a = 1 + mc::choose(2), b = 1 + mc::choose(3); unsigned pat = mc::choose(5); vif::vec3d f(n, a, b), w(n, a, b); for (sz i = 0; i < f.size(); ++i) { f[i] = double((i*i*(pat + 1) + 3*i) % 11) - 4; w[i] = 1 + (i*(pat + 2)) % 3; } MC_LOG("cube ", n, "x", a, "x", b, " pattern ", pat); auto m = va::qstack_mean(f), wm = va::qstack_mean(f, w), md = va::qstack_median(f); mc::op(3); for (auto* q : {&m, &wm, &md}) MC_CHECK(q->dims[0] == a && q->dims[1] == b, "dimensions of the stack");
    for (sz j = 0; j < a*b; ++j) { double t = 0, tw = 0, sw = 0; vd v; for (sz i = 0; i < n; ++i) { t += f[i*a*b + j]; tw += f[i*a*b + j]*w[i*a*b + j]; sw += w[i*a*b + j]; v.push_back(f[i*a*b + j]); } std::sort(v.begin(), v.end()); MC_CHECK(std::fabs(m[j] - t/n) < 1e-9, "mean of pixel ", j, " is ", m[j]); MC_CHECK(std::fabs(wm[j] - tw/sw) < 1e-9, "weighted mean of pixel ", j, " is ", wm[j]); double lo = v[(n - 1)/2], hi = v[n/2]; MC_CHECK(md[j] >= lo - 1e-9 && md[j] <= hi + 1e-9, "median of pixel ", j, " is ", md[j], " not between ", lo, " and ", hi); }
    // bootstraps draw whole cutouts, the same ones in both cubes
    sz nb = mc::choose(3), ns = 1 + mc::choose(3); auto seed = vif::make_seed(42 + pat); sz calls = 0; auto slice = [&](const vif::vec3d& c, sz k, const vif::vec3d& from) { std::set<sz> r; for (sz i = 0; i < n; ++i) { bool eq = true; for (sz j = 0; j < a*b; ++j) eq = eq && c[k*a*b + j] == from[i*a*b + j]; if (eq) r.insert(i); } return r; }; auto good = [&](const vif::vec3d& tf, const vif::vec3d& tw) { ++calls; MC_CHECK(tf.dims[0] == ns && tf.dims[1] == a && tf.dims[2] == b && tw.dims == tf.dims, "dimensions of the bootstrapped cube"); for (sz k = 0; k < ns; ++k) { auto x = slice(tf, k, f), y = slice(tw, k, w); bool c = false; for (sz i : x) c = c || y.count(i); MC_CHECK(c, "bootstrapped cutout ", k, " is none of the cutouts"); } };
    va::qstack_bootstrap(f, nb, ns, seed, [&](const vif::vec3d& t) { ++calls; for (sz k = 0; k < ns; ++k) MC_CHECK(!slice(t, k, f).empty() && t.dims[0] == ns, "bootstrapped cutout ", k, " is none of the cutouts"); }); MC_CHECK(calls == nb, "number of bootstraps"); calls = 0; va::qstack_bootstrap(f, w, nb, ns, seed, good); MC_CHECK(calls == nb, "number of bootstraps"); calls = 0; va::qstack_bootstrap(nb, ns, seed, good, f, w); MC_CHECK(calls == nb, "number of bootstraps"); auto s2 = seed, s3 = seed, s4 = seed; auto bm = va::qstack_mean_bootstrap(f, nb, ns, seed); auto bw = va::qstack_mean_bootstrap(f, w, nb, ns, s2); auto bd = va::qstack_median_bootstrap(f, nb, ns, s3); sz k = 0; va::qstack_bootstrap(f, w, nb, ns, s4, [&](const vif::vec3d& tf, const vif::vec3d& tw) { auto e1 = va::qstack_mean(tf), e2 = va::qstack_mean(tf, tw), e3 = va::qstack_median(tf); for (sz j = 0; j < a*b; ++j) MC_CHECK(bm[k*a*b + j] == e1[j] && bw[k*a*b + j] == e2[j] && bd[k*a*b + j] == e3[j], "bootstrapped stack ", k, " pixel ", j); ++k; }); if (nb) MC_CHECK(bm.dims[0] == nb && bw.dims[0] == nb && bd.dims[0] == nb && bm.size() == nb*a*b, "dimensions of the bootstraps"); mc::op(6); mc::outcome(mc::mix(n, ns));
}
#endif
