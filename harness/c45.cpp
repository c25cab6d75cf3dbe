// C45: DS9 regions (vif/astro/ds9.hpp): reading, writing, conversions between sky and pixels, masks.
#include "vifall.hpp"
#include <vif/astro/ds9.hpp>
#include "fsutil.hpp"
using namespace vr;
using R = long double; using L = long long; using vd = std::vector<double>; using vif::vec1d; using vif::vec2b; namespace va = vif::astro; namespace ds = vif::astro::ds9; using regs_t = vif::vec<1,ds::region>;
const R DR = 3.14159265358979323846264338327950288L/180;
struct Quiet { std::streambuf *a, *b; Quiet() : a(std::cout.rdbuf(nullptr)), b(std::cerr.rdbuf(nullptr)) {} ~Quiet() { std::cout.rdbuf(a); std::cerr.rdbuf(b); } };
bool nr(double a, double b, double t) { return std::fabs(a - b) <= t; }
std::string num(double x) { char b[60]; snprintf(b, 60, "%.12g", x); return b; }
struct Reg { std::string type, color, text; bool physical; vd p; };
void compare(const regs_t& g, const std::vector<Reg>& e, double tol, const char* w) { MC_CHECK(g.size() == e.size(), w, ": ", g.size(), " regions instead of ", e.size()); for (sz i = 0; i < e.size(); ++i) { MC_CHECK(g[i].type == e[i].type && g[i].physical == e[i].physical, w, ": region ", i, " is a ", g[i].physical ? "physical " : "sky ", g[i].type); MC_CHECK(g[i].color == e[i].color && g[i].text == e[i].text, w, ": region ", i, " has color '", g[i].color, "' and text '", g[i].text, "' instead of '", e[i].color, "' and '", e[i].text, "'"); MC_CHECK(g[i].params.size() == e[i].p.size(), w, ": parameters of region ", i); for (sz k = 0; k < e[i].p.size(); ++k) MC_CHECK(nr(g[i].params[k], e[i].p[k], tol), w, ": parameter ", k, " of region ", i, " is ", g[i].params[k], " instead of ", e[i].p[k]); } }
// files made of any sequence of lines
MC_SCENARIO_S(reading, 3) {
    fsu::Dir dir; Quiet quiet; unsigned n = 1 + mc::choose(mc::thorough() ? 5 : 4); std::string f, color = "green"; bool phys = false; std::vector<Reg> e; bool crlf = false;
    for (unsigned i = 0; i < n; ++i) { unsigned k = mc::choose(14); auto add = [&](Reg r) { r.physical = phys; if (phys) { r.p[0] -= 1; r.p[1] -= 1; } e.push_back(r); }; std::string q = phys ? "" : "\""; // sizes in arcsec on the sky
        switch (k) { case 0: f += "physical"; phys = true; break; case 1: f += "fk5"; phys = false; break; case 2: f += "global color=red dashlist=8 3"; color = "red"; break; case 3: f += "# circle(1,2,3)"; break; case 4: f += "circle(10.5,-3,2.5" + q + ")"; add({"circle", color, "", 0, {10.5, -3, 2.5}}); break; case 5: f += "box( 4, 5 ,6" + q + ", 7" + q + ",30) # color=blue text={two words}"; add({"box", "blue", "two words", 0, {4, 5, 6, 7, 30}}); break; case 6: f += "circle(1,2,3" + q + ") # text=one width=2"; add({"circle", color, "one", 0, {1, 2, 3}}); break; case 7: f += "ellipse(1,2,3" + q + ",4" + q + ",0)"; break; case 8: f += "circle(1,2)"; break; case 9: f += "circle(a,2,3" + q + ")"; break; case 10: f += std::string("circle(1,2,3") + (phys ? "\"" : "") + ")"; break; case 11: f += ""; break; case 12: f += "circle(10:00:00,-30:30:00,3" + q + ")"; if (!phys) add({"circle", color, "", 0, {150, -30.5, 3}}); break; case 13: f += "  box(1,2,3" + q + ",4" + q + ",x)"; break; }
        f += i + 1 < n || mc::flip() ? "\n" : ""; }
    (void)crlf; fsu::put("r.reg", f); MC_LOG("file ", f); regs_t g; ds::read_regions("r.reg", g); mc::op(); compare(g, e, 1e-9, "reading"); bool all = true; for (auto& r : e) all = all && r.physical; regs_t h; bool ok = mc::attempt([&]() { ds::read_regions_physical("r.reg", h); }); MC_CHECK(ok == all, "reading as physical ", ok ? "accepted" : "refused"); if (ok) compare(h, e, 1e-9, "reading as physical"); mc::outcome(mc::mix(e.size(), phys)); if (n == 1) MC_CHECK(!mc::attempt([&]() { ds::read_regions("none.reg", g); }), "missing file accepted");
}
std::string key(const std::string& k, const std::string& v) { std::string r = k; r.resize(8, ' '); r += "= " + v; r.resize(80, ' '); return r; }
va::wcs frame(double scale, double ang, bool flip, double cx, double cy) { R c = cosl(ang*DR), s = sinl(ang*DR), k = scale/3600.0L, fx = flip ? 1 : -1; std::string h = key("SIMPLE", "T") + key("BITPIX", "-64") + key("NAXIS", "2") + key("NAXIS1", "20") + key("NAXIS2", "30") + key("CTYPE1", "'RA---TAN'") + key("CTYPE2", "'DEC--TAN'") + key("CRVAL1", "150.25") + key("CRVAL2", "-30.5") + key("CRPIX1", num(cx)) + key("CRPIX2", num(cy)) + key("CUNIT1", "'deg'") + key("CUNIT2", "'deg'") + key("CD1_1", num(double(fx*k*c))) + key("CD1_2", num(double(-fx*k*s))) + key("CD2_1", num(double(k*s))) + key("CD2_2", num(double(k*c))); std::string e = "END"; e.resize(80, ' '); return va::wcs(h + e); }
void sky(R u, R v, double& ra, double& dec) { u *= DR; v *= DR; R d0 = -30.5L*DR, r = hypotl(u, v), c = atanl(r); if (r == 0) { ra = 150.25; dec = -30.5; return; } dec = double(asinl(cosl(c)*sinl(d0) + v*sinl(c)*cosl(d0)/r)/DR); ra = double(150.25L + atan2l(u*sinl(c), r*cosl(d0)*cosl(c) - v*sinl(d0)*sinl(c))/DR); }
MC_SCENARIO_S(converting, 4) {
    fsu::Dir dir; Quiet quiet; double sc = mc::pick(vd{0.5, 2}), an = mc::pick(vd{0, 30}), cx = mc::pick(vd{1, 10.5}); bool fl = mc::flip(); va::wcs w = frame(sc, an, fl, cx, 5); double x = mc::pick(vd{0, 3.25, -2, 18}), y = mc::pick(vd{0, 7.5, 40}), s1 = mc::pick(vd{0.75, 4}), ag = mc::pick(vd{0, 25}); bool box = mc::flip(); ds::region r; r.type = box ? "box" : "circle"; r.physical = true; r.params = box ? vec1d{x, y, s1, 2*s1, ag} : vec1d{x, y, s1}; MC_LOG(r.type, " at ", x, ",", y, " pixel ", sc, " rotated by ", an); R c = cosl(an*DR), s = sinl(an*DR), k = sc/3600.0L, fx = fl ? 1 : -1, dx = x + 1 - cx, dy = y + 1 - 5; double ra, dec; sky(fx*k*(c*dx - s*dy), k*(s*dx + c*dy), ra, dec); mc::op(4);
    auto a = ds::physical_to_wcs(w, r); MC_CHECK(!a.physical && nr(a.params[0], ra, 1e-8) && nr(a.params[1], dec, 1e-8), "converted to ", a.params[0], ",", a.params[1], " instead of ", ra, ",", dec); MC_CHECK(nr(a.params[2], s1*sc, 1e-4) && (!box || (nr(a.params[3], 2*s1*sc, 1e-4) && a.params[4] == ag)), "size ", a.params[2], " instead of ", s1*sc); auto b = ds::wcs_to_physical(w, a); MC_CHECK(b.physical, "not physical"); for (sz i = 0; i < r.params.size(); ++i) MC_CHECK(nr(b.params[i], r.params[i], 1e-4), "converted back, parameter ", i, " is ", b.params[i]); auto same = ds::wcs_to_physical(w, r); MC_CHECK(same.params[0] == x && same.physical, "physical region modified"); auto same2 = ds::physical_to_wcs(w, a); MC_CHECK(same2.params[0] == a.params[0] && !same2.physical, "sky region modified");
    // through files, in both forms
    regs_t in; in.push_back(r); in.push_back(a); std::vector<Reg> ep = {{r.type, "green", "", true, {}}}, es; for (double v : r.params) ep[0].p.push_back(v); ep.push_back(ep[0]); es = ep; for (auto& q : es) { q.physical = false; q.p.clear(); for (double v : a.params) q.p.push_back(v); } regs_t g; ds::write_regions_physical("p.reg", in, w); ds::read_regions("p.reg", g); compare(g, ep, 1e-4, "written as physical"); g.clear(); ds::write_regions_wcs("w.reg", in, w); ds::read_regions("w.reg", g); compare(g, es, 1e-8 + 1e-4*0, "written on the sky"); g.clear(); ds::read_regions_physical("w.reg", w, g); compare(g, ep, 1e-4, "read as physical"); regs_t one; one.push_back(r); ds::write_regions_physical("q.reg", one); g.clear(); ds::read_regions_physical("q.reg", g); compare(g, {ep[0]}, 1e-9, "written without astrometry"); MC_CHECK(!mc::attempt([&]() { ds::write_regions_physical("z.reg", in); }), "sky region accepted without astrometry"); mc::outcome(mc::mix(box, L(x*4)));
}
// pixels of a region
int inside(const Reg& r, double y, double x) { if (r.type == "circle") { int n = 0, m = 0; for (double a : {-0.5, 0.5}) for (double b : {-0.5, 0.5}) { double d = (x + a - r.p[0])*(x + a - r.p[0]) + (y + b - r.p[1])*(y + b - r.p[1]) - r.p[2]*r.p[2]; if (std::fabs(d) < 1e-9) ++m; else if (d < 0) ++n; } return n >= 3 ? 1 : n + m < 3 ? 0 : -1; } R c = cosl(r.p[4]*DR), s = sinl(r.p[4]*DR), dx = x - r.p[0], dy = y - r.p[1], u = fabsl(c*dx + s*dy) - r.p[2]/2, v = fabsl(c*dy - s*dx) - r.p[3]/2; if (fabsl(u) < 1e-6 || fabsl(v) < 1e-6) { if (u > 1e-6 || v > 1e-6) return 0; return -1; } return u < 0 && v < 0; }
MC_SCENARIO_S(masking, 4) {
    fsu::Dir dir; Quiet quiet; auto d = mc::pick(std::vector<std::pair<sz,sz>>{{1,1},{5,5},{4,9},{8,3}}); unsigned n = 1 + mc::choose(2); std::vector<Reg> rs; regs_t g; for (unsigned i = 0; i < n; ++i) { bool box = mc::flip(); double x = mc::pick(i ? vd{1, 2.75} : vd{-3, 0, 1.25, 2, 4, 11}), y = mc::pick(i ? vd{2} : vd{-4, 0, 2.5, 3}), s = mc::pick(i ? vd{2.25} : vd{0.8, 2.25, 7}); Reg r{box ? "box" : "circle", "green", "", true, box ? vd{x, y, s, 1.5*s + 0.3, mc::pick(i ? vd{15} : vd{0, 35, 90, -120})} : vd{x, y, s}}; rs.push_back(r); ds::region q; q.type = r.type; q.physical = true; for (double v : r.p) q.params.push_back(v); g.push_back(q); } vec2b m(d.first, d.second); bool pre = mc::flip(); if (pre) m[0] = true; vec2b m0 = m, m1 = m; MC_LOG(n, " regions on ", d.first, "x", d.second, ", first at ", rs[0].p[0], ",", rs[0].p[1]); ds::mask_regions(g, m); mc::op(3); ds::write_regions_physical("m.reg", g); ds::mask_regions("m.reg", m1); sz cnt = 0;
    for (sz y = 0; y < d.first; ++y) for (sz x = 0; x < d.second; ++x) { int e = m0(y, x) ? 1 : 0; for (auto& r : rs) { int k = inside(r, double(y), double(x)); if (k == 1) e = 1; if (k == -1 && e == 0) e = -1; } cnt += m(y, x); if (e == -1) continue; MC_CHECK(m(y, x) == (e == 1), "pixel ", y, ",", x, " is ", m(y, x) ? "" : "not ", "in the mask"); MC_CHECK(m1(y, x) == (e == 1), "pixel ", y, ",", x, " is ", m1(y, x) ? "" : "not ", "in the mask from a file"); } MC_CHECK(m.dims == m0.dims, "dimensions"); vec2b z; MC_CHECK(!mc::attempt([&]() { ds::mask_region(g[0], z); }), "empty mask accepted"); ds::region q = g[0]; q.physical = false; MC_CHECK(!mc::attempt([&]() { ds::mask_region(q, m); }), "sky region accepted"); mc::outcome(mc::mix(cnt, n));
}
