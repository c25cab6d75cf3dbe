// C43: photometry through filters, PSF fitting and subtraction, cosmology, pair counts and random positions (vif/astro/astro.hpp).
// PART 0: fluxes and filters; 1: sources on images; 2: cosmology and positions.
#ifndef PART
#define PART 0
#endif
#include "vifall.hpp"
#include "fsutil.hpp"
using namespace vr;
using R = long double; using L = long long; using U = std::uint64_t; using vd = std::vector<double>; using vif::vec1d; using vif::vec1u; using vif::vec2d; using vec1s = vif::vec<1,std::string>; namespace va = vif::astro;
struct Quiet { std::streambuf *a, *b; Quiet() : a(std::cout.rdbuf(nullptr)), b(std::cerr.rdbuf(nullptr)) {} ~Quiet() { std::cout.rdbuf(a); std::cerr.rdbuf(b); } };
bool same(double a, R b, double t = 1e-9) { return (a != a && b != b) || std::fabs(a - double(b)) <= t*(1 + std::fabs(double(b))); }
std::string show(const vd& v) { std::string r; for (double x : v) r += (r.empty() ? "" : ",") + std::to_string(x); return r; }
vec1d mk(const vd& v) { vec1d r; for (double x : v) r.push_back(x); return r; }

#if PART == 0
R lin(const vd& x, const vd& y, R t) { for (sz i = 0; i + 1 < x.size(); ++i) if (t >= x[i] && t <= x[i+1]) return y[i] + (y[i+1] - y[i])*(t - x[i])/(x[i+1] - x[i]); return NAN; }
// trapezoids between all the points of both
R flux(const vd& fl, const vd& fr, const vd& l, const vd& s) { if (l.front() > fl.front() || l.back() < fl.back()) return NAN; std::set<double> n(fl.begin(), fl.end()); for (double x : l) if (x > fl.front() && x < fl.back()) n.insert(x); R r = 0, px = 0, py = 0; bool first = true; for (double x : n) { R y = lin(fl, fr, x)*lin(l, s, x); if (!first) r += 0.5L*(y + py)*(x - px); first = false; px = x; py = y; } return r; }
vd nodes(sz n, const vd& from) { vd r; sz i = 0; for (sz k = 0; k < n; ++k) { sz left = from.size() - i - (n - k) + 1; i += mc::choose(left); r.push_back(from[i++]); } return r; }
vd values(sz n, int pat) { vd r; for (sz i = 0; i < n; ++i) r.push_back(pat == 0 ? 1 : pat == 1 ? 1 + double((i*i + 2*i)%5) : pat == 2 ? (i%2 ? 0 : 3) : -1.5 + double(i)); return r; }
template<typename T> void fluxes() {
    static const vd grid = {1, 2, 2.5, 4, 5}, big = {0.5, 1, 2, 3, 5, 6}; sz nf = 2 + mc::choose(2), ns = 1 + mc::choose(4); vd fl = nodes(nf, grid), l = nodes(ns, big); int pat = mc::choose(4); vd fr = values(nf, pat), s = values(ns, (pat + 1)%4); MC_LOG("filter ", show(fl), " SED ", show(l), " pattern ", pat); vif::vec<1,T> vfl, vfr, vl, vs; for (double x : fl) vfl.push_back(T(x)); for (double x : fr) vfr.push_back(T(x)); for (double x : l) vl.push_back(T(x)); for (double x : s) vs.push_back(T(x)); R e = flux(fl, fr, l, s); mc::op(3); double g = va::sed2flux(vfl, vfr, vl, vs); MC_CHECK(same(g, e), "flux is ", g, " instead of ", double(e)); mc::outcome(mc::mix(e != e, U(L(e*4096))));
    va::filter_t f; f.lam = vfl; f.res = vfr; MC_CHECK(same(va::sed2flux(f, vl, vs), e), "flux through a filter"); vif::vec<2,T> l2(2, ns), s2(2, ns); for (sz i = 0; i < 2*ns; ++i) { l2[i] = vl[i%ns]*T(i < ns ? 1 : 2); s2[i] = vs[i%ns]*T(i < ns ? 1 : 3); } auto m = va::sed2flux(f, l2, s2); vd lb = l, sb = s; for (auto& x : lb) x *= 2; for (auto& x : sb) x *= 3; MC_CHECK(m.size() == 2 && same(m[0], e) && same(m[1], flux(fl, fr, lb, sb)), "fluxes of several SEDs"); vif::vec<1,T> rl(2*ns), rs(2*ns); for (sz i = 0; i < ns; ++i) { rl[2*i] = vl[i]; rs[2*i] = vs[i]; rl[2*i+1] = rs[2*i+1] = T(-9); } vec1u ids; for (sz i = 0; i < ns; ++i) ids.push_back(2*i); MC_CHECK(same(va::sed2flux(vfl, vfr, rl[ids], rs[ids]), e), "flux of views");
}
MC_SCENARIO_S(fluxes_double, 5) { fluxes<double>(); }
MC_SCENARIO_S(fluxes_float, 5) { fluxes<float>(); }
MC_SCENARIO(refused) { unsigned k = mc::choose(5); vec1d a = {1, 2}, b = {1, 2, 3}, z; mc::op(); MC_CHECK(!mc::attempt([&]() { if (k == 0) va::sed2flux(a, b, b, b); if (k == 1) va::sed2flux(a, a, b, a); if (k == 2) va::sed2flux(z, z, a, a); if (k == 3) va::sed2flux(a, a, z, z); if (k == 4) va::sed_luminosity(b, a, 1, 2); }), "case ", k, " accepted"); }
MC_SCENARIO_S(luminosity, 4) {
    static const vd grid = {1, 2, 2.5, 4, 5}, lim = {0.5, 1, 1.25, 2, 2.25, 2.5, 3, 4, 4.5, 5, 6}; sz ns = 2 + mc::choose(4); vd l = nodes(ns, grid), s = values(ns, mc::choose(4)); double l0 = mc::pick(lim), l1 = mc::pick(lim); mc::assume(l0 <= l1); MC_LOG("SED ", show(l), " ", show(s), " from ", l0, " to ", l1); vd q; for (sz i = 0; i < ns; ++i) q.push_back(s[i]/l[i]); R e = 0; if (l0 < l.front() || l1 > l.back()) e = NAN; else { std::set<double> n = {l0, l1}; for (double x : l) if (x > l0 && x < l1) n.insert(x); R px = l0, py = lin(l, q, l0); for (double x : n) { R y = lin(l, q, x); e += 0.5L*(y + py)*(x - px); px = x; py = y; } } mc::op(2); double g = va::sed_luminosity(mk(l), mk(s), l0, l1); MC_CHECK(same(g, e), "luminosity is ", g, " instead of ", double(e)); mc::outcome(U(L(e*4096)));
    if (l0 == 1 && l1 == 4) { vd m; for (double x : l) m.push_back(8*std::pow(5, x - 1)); double h = va::lir_8_1000(mk(m), mk(s)); bool cov = m.front() <= 8 && m.back() >= 1000; R t = NAN; if (cov) { vd qq; for (sz i = 0; i < ns; ++i) qq.push_back(s[i]/m[i]); t = 0; std::set<double> n = {8, 1000}; for (double x : m) if (x > 8 && x < 1000) n.insert(x); R px = 8, py = lin(m, qq, 8); for (double x : n) { R y = lin(m, qq, x); t += 0.5L*(y + py)*(x - px); px = x; py = y; } } MC_CHECK(same(h, t), "infrared luminosity is ", h, " instead of ", double(t)); }
}
MC_SCENARIO_S(convert, 3) { // ratio of the rest-frame luminosity in one band to the observed flux in another
    va::filter_t a, b; a.lam = mk({1, 2, 3}); a.res = mk({0, 1, 0}); b.lam = mk({0.5, 1.5}); b.res = mk({1, 1}); if (mc::flip()) std::swap(a, b); double z = mc::pick(vd{0, 0.25, 1, 3}), d = mc::pick(vd{10, 1000}); vd l = {0.125, 0.5, 1, 2, 4, 8, 16}, s = values(7, mc::choose(2)); MC_LOG("z=", z, " d=", d); vd lo, so; const R k = 1e32L*3.839e26L/(2.9979e14L*4*3.14159265358979323846L*3.0856e22L*3.0856e22L); for (sz i = 0; i < 7; ++i) { lo.push_back(l[i]*(1 + z)); so.push_back(double(k*(1 + z)*l[i]*s[i]/(d*d))); } auto t = [](const vec1d& v) { vd r; for (double x : v) r.push_back(x); return r; }; R e = flux(t(b.lam), t(b.res), l, s)/flux(t(a.lam), t(a.res), lo, so); double g = va::sed_convert(a, b, z, d, mk(l), mk(s)); mc::op(); MC_CHECK(same(g/double(e), 1, 1e-6), "conversion factor ", g, " instead of ", double(e)); mc::outcome(U(L(e)));
}
MC_SCENARIO_S(filters, 3) {
    fsu::Dir dir; Quiet quiet; unsigned nl = 1 + mc::choose(4); std::string db; std::map<std::string,std::string> ref; static const std::vector<std::string> lines = {"a=fa.dat", "# c=fc.dat", "b=fb.dat", "", "  a2=fa.dat  ", "bad line", "x=y=z"}; mkdir("sub", 0755); for (unsigned i = 0; i < nl; ++i) { std::string s = mc::pick(lines); db += s + (i + 1 < nl || mc::flip() ? "\n" : ""); if (s == lines[0]) ref.insert({"a", "fa.dat"}); if (s == lines[2]) ref.insert({"b", "fb.dat"}); if (s == lines[4]) ref.insert({"a2", "fa.dat"}); } bool sub = mc::flip(); std::string pre = sub ? "sub/" : ""; fsu::put(pre + "db.dat", db); fsu::put(pre + "fa.dat", "# lam res\n1 0\n2 1\n3 0\n"); fsu::put(pre + "fb.dat", "4 0.25\n6 0.25\n8 0.25\n"); MC_LOG("database ", (db)); auto d = va::read_filter_db(pre + "db.dat"); mc::op(2); MC_CHECK(d.size() == ref.size(), d.size(), " filters instead of ", ref.size()); for (auto& x : ref) MC_CHECK(d.count(x.first), "filter ", x.first, " missing");
    for (std::string n : {"a", "b", "a2", "c", "x", ""}) { va::filter_t f; bool ok = va::get_filter(d, n, f); MC_CHECK(ok == (ref.count(n) > 0), "filter ", n, ok ? " found" : " not found"); if (!ok) continue; bool isb = n == "b"; vd l = isb ? vd{4, 6, 8} : vd{1, 2, 3}, r = isb ? vd{.25, .25, .25} : vd{0, 1, 0}; MC_CHECK(f.lam.size() == 3 && f.res.size() == 3, "size of the filter"); for (sz i = 0; i < 3; ++i) MC_CHECK(f.lam[i] == l[i] && f.res[i] == r[i], "content of the filter ", n); MC_CHECK(same(f.rlam, isb ? 6 : 2), "central wavelength ", f.rlam); }
    va::filter_bank_t bank; vec1s q = {"a", "b"}; bool all = va::get_filters(d, q, bank); bool ea = ref.count("a") && ref.count("b"); MC_CHECK(all == ea && (!ea || bank.size() == 2), "list of filters"); va::filter_t f; double lo = mc::pick(vd{0.5, 3, 8}), hi = lo*2; char b[80]; snprintf(b, 80, "n:range:%g:%g", lo, hi); MC_CHECK(va::get_filter(d, b, f) && same(f.rlam, 0.5*(lo + hi), 1e-6), "range filter"); R in = 0; for (sz i = 0; i + 1 < f.lam.size(); ++i) { MC_CHECK(f.lam[i] < f.lam[i+1], "order of the range filter"); in += 0.5L*(f.res[i] + f.res[i+1])*(f.lam[i+1] - f.lam[i]); } MC_CHECK(same(double(in), 1, 1e-6), "normalisation of the range filter"); MC_CHECK(same(va::sed2flux(f, mk({0.01, 100}), mk({2, 2})), 2, 1e-6), "flux through the range filter"); snprintf(b, 80, "n:file:%sfb.dat", pre.c_str()); MC_CHECK(va::get_filter(d, b, f) && f.lam.size() == 3 && same(f.rlam, 6), "filter from a file"); for (std::string s : {"n:range:1", "n:range:a:2", "n:range:1:b", "n:file", "n:else:1", "n:range:1:2:3"}) MC_CHECK(!va::get_filter(d, s, f), "malformed filter ", s, " accepted"); mc::outcome(mc::mix(ref.size(), sub));
}
MC_SCENARIO_S(filter_ids, 3) { fsu::Dir dir; Quiet quiet; unsigned nl = 1 + mc::choose(3); static const std::vector<std::string> lines = {"a=3", "b=0", "# a=9", "c=x", "", "b=5", "d"}; std::string t; std::map<std::string,sz> ref; for (unsigned i = 0; i < nl; ++i) { std::string s = mc::pick(lines); t += s + "\n"; if (s == "a=3") ref.insert({"a", 3}); if (s == "b=0") ref.insert({"b", 0}); if (s == "b=5") ref.insert({"b", 5}); } fsu::put("m", t); MC_LOG("map ", (t)); auto m = va::read_filter_map("m"); mc::op(2); MC_CHECK(m.size() == ref.size(), m.size(), " filters instead of ", ref.size()); bool all = true; vec1s names = {"a", "b", "d"}; vec1u ids; for (auto& n : names) { vif::uint_t id = 77; bool ok = va::get_filter_id(m, n, id), e = ref.count(n); MC_CHECK(ok == e && id == (e ? ref[n] : vif::npos), "identifier of ", n, " is ", id); all = all && ok; } MC_CHECK(va::get_filter_id(m, names, ids) == all && ids.size() == 3, "list of identifiers"); for (sz i = 0; i < 3; ++i) MC_CHECK(ids[i] == (ref.count(names[i]) ? ref[names[i]] : vif::npos), "identifier in a list"); MC_CHECK(va::read_filter_map("none").empty() && va::read_filter_db("none").empty(), "missing files"); mc::outcome(ref.size()); }
struct Cat { vec1s bands, notes; }; struct CatB { vec1s bands; };
MC_SCENARIO_S(bands, 3) { Quiet quiet; static const std::vector<std::string> al = {"f1", "f10", "g", "f1b"}; sz n = mc::choose(4); Cat c; CatB cb; for (sz i = 0; i < n; ++i) { c.bands.push_back(mc::pick(al)); c.notes.push_back(mc::flip() ? "x" : "yx"); } cb.bands = c.bands; std::string q = mc::pick(std::vector<std::string>{"f1", "^f1$", "g", "^f1", "0$"}), r = mc::pick(std::vector<std::string>{"x", "^x$", "y"}); MC_LOG("bands ", n, " ", q, " ", r); auto hit = [](const std::string& s, const std::string& p) { bool b = p[0] == '^', e = p.back() == '$'; std::string k = p.substr(b, p.size() - b - e); if (b && e) return s == k; if (b) return s.compare(0, k.size(), k) == 0; if (e) return s.size() >= k.size() && s.compare(s.size() - k.size(), k.size(), k) == 0; return s.find(k) != s.npos; }; sz n1 = 0, n2 = 0, i1 = 0, i2 = 0; for (sz i = 0; i < n; ++i) { if (hit(c.bands[i], q)) { ++n1; i1 = i; if (hit(c.notes[i], r)) { ++n2; i2 = i; } } } vif::uint_t b = 99; mc::op(4); auto chk = [&](bool ok, sz m, sz e, const char* w) { MC_CHECK(ok == (m == 1) && b == (m == 1 ? e : 99), w, ": ", ok ? "found " : "not found ", b, " among ", m, " matching bands"); b = 99; }; chk(va::get_band(c.bands, q, b), n1, i1, "list"); chk(va::get_band(c, q, b), n1, i1, "catalog"); chk(va::get_band(cb, q, b), n1, i1, "catalog without notes"); chk(va::get_band(c, q, r, b), n2, i2, "catalog with note"); mc::outcome(mc::mix(n1, n2)); }
#endif

#if PART == 1
vec2d psf(sz a, sz b, int pat) { vec2d p(a, b); for (sz i = 0; i < p.size(); ++i) p[i] = pat == 0 ? (i == p.size()/2 ? 1 : 0.125) : 1 + double((i*i*3 + i)%7); return p; }
MC_SCENARIO_S(fit, 5) { // exact model
    auto is = mc::pick(std::vector<std::pair<sz,sz>>{{5,5},{4,7},{9,6}}), ps = mc::pick(std::vector<std::pair<sz,sz>>{{3,3},{3,5},{5,1},{1,3}}); int pat = mc::choose(2); L y = mc::choose(is.first), x = mc::choose(is.second); double bg = mc::pick(vd{0, 2, -1.5}), fl = mc::pick(vd{1, -3, 250}); vec2d p = psf(ps.first, ps.second, pat), img(is.first, is.second), err(is.first, is.second); L hy = ps.first/2, hx = ps.second/2; for (auto& v : img) v = 1e3; for (sz i = 0; i < err.size(); ++i) err[i] = 1 + i%3; sz in = 0; std::set<double> vals; for (L i = -hy; i <= hy; ++i) for (L j = -hx; j <= hx; ++j) if (y + i >= 0 && x + j >= 0 && y + i < L(is.first) && x + j < L(is.second)) { img(y + i, x + j) = bg + fl*p(i + hy, j + hx); ++in; vals.insert(p(i + hy, j + hx)); } sz bad = mc::choose(2); MC_LOG("image ", is.first, "x", is.second, " PSF ", ps.first, "x", ps.second, " at ", y, ",", x); if (bad && in > 4 && y + 1 < L(is.first) && hy) { img(y + 1, x) = NAN; vals.clear(); for (L i = -hy; i <= hy; ++i) for (L j = -hx; j <= hx; ++j) if (y + i >= 0 && x + j >= 0 && y + i < L(is.first) && x + j < L(is.second) && !(i == 1 && j == 0)) vals.insert(p(i + hy, j + hx)); } vif::vec1i pos = {y, x}; mc::op(2); auto r = va::psffit(img, err, p, pos);
    if (vals.size() < 2) return; MC_CHECK(same(r.bg, bg, 1e-6*(1 + std::fabs(fl))) && same(r.flux, fl, 1e-6), "fitted ", r.flux, " over ", r.bg, " instead of ", fl, " over ", bg); MC_CHECK(r.flux_err > 0 && std::isfinite(r.flux_err) && r.chi2 < 1e-6*(1 + fl*fl), "uncertainty ", r.flux_err, " chi2 ", r.chi2); if (y == L(is.first)/2 && x == L(is.second)/2) { auto c = va::psffit(img, err, p); MC_CHECK(c.flux == r.flux && c.bg == r.bg, "fit at the centre"); auto u = va::psffit(img, 2.0, p); MC_CHECK(same(u.flux, fl, 1e-6), "fit with a single uncertainty"); } mc::outcome(mc::mix(in, bad));
}
MC_SCENARIO_S(subtract, 4) { auto is = mc::pick(std::vector<std::pair<sz,sz>>{{5,5},{4,7},{1,3}}), ps = mc::pick(std::vector<std::pair<sz,sz>>{{3,3},{3,5},{5,1},{1,3},{1,1}}); L y = L(mc::choose(is.first + 6)) - 3, x = L(mc::choose(is.second + 6)) - 3; double fl = mc::pick(vd{1, -3}); vec2d p = psf(ps.first, ps.second, 1), img(is.first, is.second); for (sz i = 0; i < img.size(); ++i) img[i] = double(i); vec2d e = img; L hy = ps.first/2, hx = ps.second/2; for (L i = -hy; i <= hy; ++i) for (L j = -hx; j <= hx; ++j) if (y + i >= 0 && x + j >= 0 && y + i < L(is.first) && x + j < L(is.second)) e(y + i, x + j) -= fl*p(i + hy, j + hx); vec2d c = img; vif::vec1i pos = {y, x}; MC_LOG("PSF ", ps.first, "x", ps.second, " at ", y, ",", x, " of ", is.first, "x", is.second); va::srcsub(img, p, fl, pos); mc::op(2); for (sz i = 0; i < e.size(); ++i) MC_CHECK(same(img[i], e[i]), "pixel ", i, " is ", img[i], " instead of ", e[i]); if (y == L(is.first)/2 && x == L(is.second)/2) { va::srcsub(c, p, fl); for (sz i = 0; i < e.size(); ++i) MC_CHECK(same(c[i], e[i]), "subtraction at the centre, pixel ", i); } mc::outcome(mc::mix(y, x)); }
MC_SCENARIO_S(pick, 4) { auto is = mc::pick(std::vector<std::pair<L,L>>{{1,1},{4,6},{5,3}}); L h = mc::choose(3); vec2d img(is.first, is.second); for (sz i = 0; i < img.size(); ++i) img[i] = double(i*i%97); bool bad = mc::flip(); if (bad) img[img.size()/2] = NAN; vec1d xs, ys; double fx = mc::pick(vd{0, 0.4, -0.4, 0.3}), fy = mc::pick(vd{0, 0.4, -0.4}); std::vector<std::pair<L,L>> c; for (L i = -2; i < is.first + 2; ++i) for (L j = -2; j < is.second + 2; ++j) { xs.push_back(i + fx); ys.push_back(j + fy); c.push_back({i, j}); } xs.push_back(NAN); ys.push_back(1); c.push_back({-99, -99}); MC_LOG("image ", is.first, "x", is.second, " half size ", h, " offsets ", fx, ",", fy); sz pre = mc::choose(2); vif::vec3d cube; vec1u ids; if (pre) { cube.resize(1, 2*h + 1, 2*h + 1); ids.push_back(1000); } va::pick_sources(img, xs, ys, h, cube, ids); mc::op(); std::vector<sz> e; for (sz k = 0; k < c.size(); ++k) { bool ok = c[k].first - h >= 0 && c[k].first + h < is.first && c[k].second - h >= 0 && c[k].second + h < is.second; if (ok) for (L i = -h; i <= h; ++i) for (L j = -h; j <= h; ++j) ok = ok && std::isfinite(img(c[k].first + i, c[k].second + j)); if (ok) e.push_back(k); } MC_CHECK(ids.size() == e.size() + pre, ids.size() - pre, " sources instead of ", e.size()); for (sz q = 0; q < e.size(); ++q) { MC_CHECK(ids[q + pre] == e[q], "source ", ids[q + pre], " instead of ", e[q]); for (L i = -h; i <= h; ++i) for (L j = -h; j <= h; ++j) MC_CHECK(cube(q + pre, i + h, j + h) == img(c[e[q]].first + i, c[e[q]].second + j), "pixel ", i, ",", j, " of source ", e[q]); } mc::outcome(mc::mix(e.size(), h)); }
// PSFs read from files: centred on their peak wherever it is, keeping all of the square around it that fits in the file, or at least all the pixels that are not zero
MC_SCENARIO_S(model_file, 4) {
    fsu::Dir dir; Quiet quiet; std::vector<std::array<sz,2>> D = {{{7,5}}, {{5,7}}, {{9,3}}, {{3,9}}}; auto d = mc::pick(D); sz py = mc::choose(d[0]), px = mc::choose(d[1]); L lim = std::min(std::min(py, d[0]-1-py), std::min(px, d[1]-1-px)); unsigned arm = mc::choose(5); mc::assume(arm == 4 || lim >= 1); L len = arm == 4 ? 0 : 1 + mc::choose(lim); vec2d q(d[0], d[1]), p; if (arm == 4) for (sz i = 0; i < q.size(); ++i) q.safe[i] = 1 + 0.125*i; q(py, px) = 50;
    static const int DY[4] = {-1, 1, 0, 0}, DX[4] = {0, 0, -1, 1}; if (arm < 4) for (L k = 1; k <= len; ++k) q(py + DY[arm]*k, px + DX[arm]*k) = 2 + k; vif::fits::write("p.fits", q); std::array<vif::uint_t,2> o{{11, 13}}; L y0 = mc::pick({5, 0, 12}), x0 = mc::pick({6, 2}); MC_LOG("PSF file of ", d[0], "x", d[1], " with its peak at ", py, ",", px, " arm ", arm, " of ", len, ", at ", y0, ",", x0); MC_CHECK(va::make_psf(o, y0, x0, "file,p.fits", p), "refused"); MC_CHECK(p.dims[0] == 11 && p.dims[1] == 13, "dimensions of the PSF");
    for (L i = 0; i < 11; ++i) for (L j = 0; j < 13; ++j) { L a = i - y0, b = j - x0; double e = std::abs(a) > lim || std::abs(b) > lim ? 0 : q(sz(py + a), sz(px + b)); MC_CHECK(same(p(i, j), e), "pixel ", i, ",", j, " is ", p(i, j), " instead of ", e); } mc::op(); mc::outcome(lim*5 + arm);
}
MC_SCENARIO_S(model, 4) { fsu::Dir dir; Quiet quiet; std::array<vif::uint_t,2> d = mc::pick(std::vector<std::array<vif::uint_t,2>>{{{5,5}}, {{4,7}}, {{1,3}}}); double y0 = mc::pick(vd{2, 1.5, 0, 6}), x0 = mc::pick(vd{2, 2.25, -1}); unsigned k = mc::choose(5); std::array<double,5> gr = k == 1 ? mc::pick(std::vector<std::array<double,5>>{{{1, 0.75, 2, 0.25, 0.5}}, {{2, 0.5, 1.5, 0.5, 1.25}}, {{-1, 1, 0, -0.5, 1}}}) : std::array<double,5>{}; vec2d p; MC_LOG("model ", k, " ", d[0], "x", d[1], " at ", y0, ",", x0); mc::op(); if (k == 4) { static const std::vector<std::string> bad = {"gaussian,a,1", "gaussian,1,b", "gaussian,1", "gaussring,1,1,1,1", "gaussring,1,1,1,1,x", "gaussring,1,1,1,y,1", "gaussring,1,1,z,1,1", "gaussring,1,t,1,1,1", "gaussring,u,1,1,1,1", "other,1", "", "file"}; std::string s = mc::pick(bad); MC_CHECK(!va::make_psf(d, y0, x0, s, p), "malformed model '", s, "' accepted"); return; } const std::vector<std::string> m = {"gaussian,2.5,1.5", "gaussring, " + vif::to_string(gr[0]) + "," + vif::to_string(gr[1]) + " ," + vif::to_string(gr[2]) + ", " + vif::to_string(gr[3]) + "," + vif::to_string(gr[4]), "gaussian, 1, 0.5, 9", "file,p.fits"}; if (k == 3) { vec2d q(7, 5); q(2, 2) = 4; q(1, 2) = 1; q(3, 2) = 2; q(2, 1) = 1.5; q(2, 3) = 0.5; q(1, 1) = 0.25; y0 = std::round(y0); x0 = std::round(x0); vif::fits::write("p.fits", q); } MC_CHECK(va::make_psf(d, y0, x0, m[k], p), "refused"); MC_CHECK(p.dims[0] == d[0] && p.dims[1] == d[1], "dimensions of the PSF"); for (sz i = 0; i < d[0]; ++i) for (sz j = 0; j < d[1]; ++j) { R r2 = (R(i) - y0)*(R(i) - y0) + (R(j) - x0)*(R(j) - x0), e; if (k == 0) e = 2.5L*expl(-r2/(2*1.5L*1.5L)); else if (k == 1) { R u = (sqrtl(r2) - R(gr[2]))/R(gr[4]); e = R(gr[0])*(expl(-r2/(2*R(gr[1])*R(gr[1]))) + R(gr[3])*expl(-u*u/2)); } else if (k == 2) e = expl(-r2/(2*0.25L)); else { L a = L(i) - L(y0) + 2, b = L(j) - L(x0) + 2; vec2d q(7, 5); q(2, 2) = 4; q(1, 2) = 1; q(3, 2) = 2; q(2, 1) = 1.5; q(2, 3) = 0.5; q(1, 1) = 0.25; e = a < 0 || b < 0 || a > 4 || b > 4 ? 0 : q(a, b); } MC_CHECK(same(p(i, j), e), "pixel ", i, ",", j, " is ", p(i, j), " instead of ", double(e)); } mc::outcome(mc::mix(k, d[0])); }
#endif

#if PART == 2
R simpson(const std::function<R(R)>& f, R b) { int n = 2000; R h = b/n, s = f(0) + f(b); for (int i = 1; i < n; ++i) s += (i%2 ? 4 : 2)*f(i*h); return s*h/3; }
struct Ref { R d, t, v, p; };
Ref cosmo_ref(R z, const va::cosmo_t& c) { if (z <= 0) return {0, 0, 0, INFINITY}; R a = z > 50 ? z : z; R chi = simpson([&](R t) { return 1/sqrtl((1 + t)*(1 + t)*(1 + t)*c.wm + c.wL); }, a), tt = simpson([&](R t) { return 1/sqrtl((1 + t)*(1 + t)*(1 + t)*c.wm + c.wL + (1 + t)*(1 + t)*c.wk)/(1 + t); }, a); R d = (1 + z)*2.99792458e5L/c.H0*chi, pi = 3.14159265358979323846L; return {d, 3.09L/(c.H0*3.155e-3L)*tt, 4*pi/3*powl(d/(1 + z), 3), pi/180/3.6L*d/((1 + z)*(1 + z))}; }
va::cosmo_t a_cosmo() { va::cosmo_t c = va::get_cosmo(mc::pick(std::vector<std::string>{"std", "wmap", "plank"})); if (mc::flip()) { c.wm = 1; c.wL = 0; } return c; }
bool rel(double a, R b, double t) { return (std::isinf(a) && std::isinf(double(b))) || std::fabs(a - double(b)) <= t*std::fabs(double(b)) + 1e-300; }
MC_SCENARIO_S(cosmology, 3) {
    auto c = a_cosmo(); double z = mc::pick(vd{-1, -0.0, 0, 0.001, 0.1, 0.5, 1, 2, 3, 6, 10}); Ref e = cosmo_ref(z, c); MC_LOG("z=", z, " H0=", c.H0, " matter ", c.wm); mc::op(8); MC_CHECK(rel(va::lumdist(z, c), e.d, 1e-6), "luminosity distance ", va::lumdist(z, c), " instead of ", double(e.d)); MC_CHECK(rel(va::lookback_time(z, c), e.t, 1e-6), "lookback time ", va::lookback_time(z, c), " instead of ", double(e.t)); MC_CHECK(rel(va::vuniverse(z, c), e.v, 1e-6), "volume ", va::vuniverse(z, c), " instead of ", double(e.v)); MC_CHECK(rel(va::propsize(z, c), e.p, 1e-6), "proper size ", va::propsize(z, c), " instead of ", double(e.p)); float f = float(z); Ref ef = cosmo_ref(f, c); MC_CHECK(rel(va::lumdist(f, c), ef.d, 1e-4) && rel(va::lookback_time(f, c), ef.t, 1e-4) && rel(va::vuniverse(f, c), ef.v, 1e-3) && rel(va::propsize(f, c), ef.p, 1e-4), "single precision"); if (z == std::floor(z)) { int i = int(z); MC_CHECK(rel(va::lumdist(i, c), e.d, 1e-6) && rel(va::lookback_time(i, c), e.t, 1e-6) && rel(va::vuniverse(i, c), e.v, 1e-6) && rel(va::propsize(i, c), e.p, 1e-6), "integer redshift: distance ", double(va::lumdist(i, c))); vif::vec1i vi = {i, 1}; auto r = va::lumdist(vi, c); MC_CHECK(r.size() == 2 && rel(r[0], e.d, 1e-6), "vector of integer redshifts"); } mc::outcome(U(L(e.d)));
}
MC_SCENARIO_S(samples, 3) { // vectors of any size
    auto c = a_cosmo(); sz n = mc::pick(std::vector<sz>{0, 1, 7, 1599, 1600, 1750}); unsigned pat = mc::choose(7), fn = mc::choose(4); vec1d z(n); for (sz i = 0; i < n; ++i) z[i] = pat == 0 ? 0.5 + 1e-3*i : pat == 1 ? 1.5 : pat == 2 ? 0 : pat == 3 ? (i%2 ? -1 : 2) : pat == 4 ? (i == 3 ? NAN : 0.1 + 0.01*((i*7919)%500)) : pat == 5 ? (i == n - 1 ? 4 : -0.5) : 0.01*std::pow(500, double((i*31)%1000)/999); MC_LOG(n, " redshifts, pattern ", pat, " function ", fn); vec1d r = fn == 0 ? va::lumdist(z, c) : fn == 1 ? va::lookback_time(z, c) : fn == 2 ? va::vuniverse(z, c) : va::propsize(z, c); mc::op(); MC_CHECK(r.size() == n, "size"); std::map<double,double> cache; for (sz i = 0; i < n; ++i) { if (n > 100 && i%37 && i > 5 && i + 3 < n) continue; if (std::isnan(z[i])) { MC_CHECK(std::isnan(r[i]), "undefined redshift gives ", r[i]); continue; } double e = fn == 0 ? va::lumdist(z[i], c) : fn == 1 ? va::lookback_time(z[i], c) : fn == 2 ? va::vuniverse(z[i], c) : va::propsize(z[i], c); MC_CHECK(rel(r[i], e, n < 1600 ? 1e-12 : 1e-3), "element ", i, " at z=", z[i], " is ", r[i], " instead of ", e); } mc::outcome(mc::mix(n, pat));
    if (n == 1600 && pat == 0) { vec2d z2(2, 900); for (sz i = 0; i < z2.size(); ++i) z2[i] = 0.5 + 1e-3*i; auto q = va::lumdist(z2, c); MC_CHECK(q.dims[0] == 2 && q.dims[1] == 900 && rel(q[1000], va::lumdist(z2[1000], c), 1e-3), "image of redshifts"); }
}
MC_SCENARIO_S(area, 3) { // convex fields
    double r0 = mc::pick(vd{0.5, 150, 300}), d0 = mc::pick(vd{0, -30, 60}), s = mc::pick(vd{0.01, 0.2, 1}); unsigned k = mc::choose(4); static const std::vector<std::vector<std::pair<double,double>>> sh = {{{0,0},{1,0},{1,1},{0,1}}, {{0,0},{2,0},{1,1}}, {{0,0},{1,0},{2,1},{1,2},{0,1}}, {{0,0},{1,0},{1,1},{0,1},{0.5,0.5},{0.25,0.75}}}; const R ar[] = {1, 1, 2.5L, 1}; vec1d ra, dec; R dr = 3.14159265358979323846L/180; for (auto& p : sh[k]) { dec.push_back(d0 + s*p.second); ra.push_back(r0 + s*p.first/double(cosl(d0*dr))); } R e = ar[k]*s*s; double g = va::field_area_hull(ra, dec); MC_LOG("shape ", k, " at ", r0, ",", d0, " size ", s); mc::op(2); double tol = 0.002 + s*std::fabs(std::tan(d0*double(dr)))*0.02; MC_CHECK(std::fabs(g - double(e)) <= tol*double(e), "area ", g, " instead of ", double(e)); double f = va::field_area(ra, dec); MC_CHECK(f == g, "area of few sources"); mc::outcome(mc::mix(k, U(g*1e6)));
}
MC_SCENARIO_S(pairs, 4) { // Landy-Szalay estimator
    static const vd pos = {0, 1, 2, 5, 9}; sz n = 2 + mc::choose(2), m = 2 + mc::choose(2); vd a, b; for (sz i = 0; i < n; ++i) a.push_back(mc::pick(pos)); for (sz i = 0; i < m; ++i) b.push_back(mc::pick(pos)); double b0 = mc::pick(vd{0, 0.5}); vec2d bins(2, 2); bins(0, 0) = b0; bins(1, 0) = bins(0, 1) = 3.5; bins(1, 1) = 20; vec1d ra, de, rr, rd; for (double x : a) { ra.push_back(150); de.push_back(2 + x/3600); } for (double x : b) { rr.push_back(150); rd.push_back(2 + x/3600); } auto w = va::angcorrel(ra, de, rr, rd, bins); mc::op(); MC_CHECK(w.size() == 2, "size"); for (sz k = 0; k < 2; ++k) { auto in = [&](double x, double y) { double d = std::fabs(x - y); return d >= bins(0, k) - 1e-6 && d < bins(1, k) ? 1 : 0; }; double dd = 0, dr = 0, r2 = 0; for (sz i = 0; i < n; ++i) for (sz j = 0; j < n; ++j) if (i != j) dd += in(a[i], a[j]); for (sz i = 0; i < n; ++i) for (sz j = 0; j < m; ++j) dr += in(a[i], b[j]); for (sz i = 0; i < m; ++i) for (sz j = 0; j < m; ++j) if (i != j) r2 += in(b[i], b[j]); if (r2 == 0) continue; dd /= n*(n - 1.0); dr /= double(n*m); r2 /= m*(m - 1.0); R e = (dd - 2*dr + r2)/r2; MC_CHECK(same(w[k], e), "correlation in bin ", k, " is ", w[k], " instead of ", double(e)); mc::outcome(U(L(e*1000))); } MC_CHECK(!mc::attempt([&]() { va::angcorrel(ra, mk({1}), rr, rd, bins); }), "other dimensions accepted");
}
struct Chosen { using result_type = U; static constexpr U min() { return 0; } static constexpr U max() { return ~U(0); } unsigned n; U s = 12345; sz drawn = 0; explicit Chosen(unsigned k) : n(k) {} U operator()() { MC_CHECK(++drawn < 2000000, "endless loop drawing random numbers"); if (drawn <= n) { static const std::vector<U> al = {0, U(1) << 62, U(1) << 63, ~U(0), ~U(0)/3}; return mc::pick(al); } s = s*6364136223846793005ull + 1442695040888963407ull; return s ^ (s >> 29); } };
MC_SCENARIO_S(random_positions, 4) { // any output of the engine
    Chosen e(4); unsigned k = mc::choose(4); sz n = mc::choose(4); vec1d x = {5, 6}, y = {7}; double r = 2; MC_LOG("case ", k, ", ", n, " positions"); mc::op(); va::randpos_uniform_options o; o.max_iter = 50; unsigned reg = mc::choose(3); auto in = [&](double a, double b) { return reg == 0 ? true : reg == 1 ? a > 1 && b > 0 : false; }; bool ok = true; if (k == 0) va::randpos_uniform_box(e, n, vec1d{0, 3}, vec1d{-1, 1}, x, y); if (k == 1) { auto s = va::randpos_uniform_box(e, n, vec1d{0, 3}, vec1d{-1, 1}, x, y, in, o); ok = s.success; MC_CHECK(ok == s.failure.empty(), "message"); } if (k == 2) va::randpos_uniform_circle(e, n, 1.0, 0.5, r, x, y); if (k == 3) { auto s = va::randpos_uniform_circle(e, n, 1.0, 0.5, r, x, y, in, o); ok = s.success; } bool cond = k == 1 || k == 3; MC_CHECK(ok == (!cond || n == 0 || reg != 2), ok ? "success" : "failure", " for a region which ", reg == 2 ? "is not" : "is", " reachable"); if (!ok) return; MC_CHECK(x.size() == n && y.size() == n, x.size(), " positions instead of ", n); for (sz i = 0; i < n; ++i) { if (k < 2) MC_CHECK(x[i] >= 0 && x[i] <= 3 && y[i] >= -1 && y[i] <= 1, "position ", x[i], ",", y[i], " out of the box"); else MC_CHECK(std::hypot(x[i] - 1, y[i] - 0.5) <= r*(1 + 1e-9), "position ", x[i], ",", y[i], " out of the circle"); if (cond) MC_CHECK(in(x[i], y[i]), "position ", x[i], ",", y[i], " out of the region"); } mc::outcome(mc::mix(k, n));
}
MC_SCENARIO(named_cosmologies) {
    struct C { const char* n; double h, l, m; }; static const std::vector<C> K = {{"std", 70, 0.7, 0.3}, {"wmap", 70, 0.73, 0.27}, {"plank", 67.8, 0.692, 0.308}, {"", 70, 0.73, 0.27}, {"Std", 70, 0.73, 0.27}}; auto k = mc::pick(K); MC_LOG("cosmology ", k.n); std::ostringstream o; auto old = std::cout.rdbuf(o.rdbuf()); auto c = va::get_cosmo(k.n); std::cout.rdbuf(old);
    MC_CHECK(c.H0 == k.h && c.wL == k.l && c.wm == k.m && c.wk == 0, "H0=", c.H0, " wL=", c.wL, " wm=", c.wm, " wk=", c.wk); bool known = k.n[0] && k.n[0] != 'S'; MC_CHECK(o.str().empty() == known, known ? "a warning for a known cosmology" : "no warning for an unknown cosmology"); auto l = va::cosmo_list(); sz f = 0; for (auto& s : l) f += s == k.n; MC_CHECK(f == sz(known), "the list gives it ", f, " times"); mc::op();
}
MC_SCENARIO_S(clustered_positions, 3) { Chosen e(2); va::randpos_power_options o; o.levels = 1 + mc::choose(3); o.eta = 1 + mc::choose(3); o.lambda = mc::pick(vd{1.5, 3}); if (mc::flip()) o.eta_end = 2; vec1d x, y; bool reg = mc::flip(); MC_LOG("levels ", o.levels, " eta ", o.eta); mc::op(2); auto st = va::randpos_power_circle(e, 0.0, 0.0, 1.0, x, y, [&](double a, double, double th) { return !reg || a > -0.25 - th; }, o); sz n = 1; for (sz l = 0; l < o.levels; ++l) n *= l + 1 == o.levels && o.eta_end != vif::npos ? o.eta_end : o.eta; if (st.success) { MC_CHECK(x.size() == n && y.size() == n, x.size(), " positions instead of ", n); for (sz i = 0; i < n; ++i) MC_CHECK(!reg || x[i] > -0.25, "position ", x[i], " out of the region"); } else MC_CHECK(!st.failure.empty(), "failure without a reason"); mc::outcome(mc::mix(n, st.success)); if (!reg) { vec1d a, b; va::randpos_power_base(e, 3.0, 4.0, 1.0, a, b, o); sz m = 1; for (sz l = 0; l < o.levels; ++l) m *= o.eta; R reach = 0, rr = 1; for (sz l = 0; l < o.levels; ++l) { reach += rr; rr /= o.lambda; } MC_CHECK(a.size() == m && b.size() == m, a.size(), " positions instead of ", m); for (sz i = 0; i < m; ++i) MC_CHECK(std::hypot(a[i] - 3, b[i] - 4) <= double(reach) + 1e-9, "position too far"); } }
// the first outputs of the engine are chosen one by one, the following are all equal: cells are then completely inside or outside of the region, and the fractional numbers of positions may not find a place
struct Prefix { using result_type = unsigned long long; static constexpr result_type min() { return 0; } static constexpr result_type max() { return ~result_type(0); } unsigned n; double rest; double last = 0; sz calls = 0; result_type operator()() { if (calls++ < n) { static const vd V = {0.02, 0.3, 0.98}; last = mc::pick(V); } else last = rest; return result_type((long double)last*(long double)max()); } };
MC_SCENARIO_S(clustered_cells, 3) {
    va::randpos_power_options o; o.levels = mc::choose(4); o.eta = 2 + mc::choose(2); o.max_iter = mc::pick({1, 3, 40}); Prefix e{2*unsigned(o.eta), mc::pick(vd{0.02, 0.49, 0.98})}; double edge = mc::pick(vd{-0.9, -0.25, 0.1, 5}); if (o.levels == 3) mc::assume(mc::thorough() || o.eta == 2); vec1d x, y; sz asked = 0; MC_LOG("levels ", o.levels, " eta ", o.eta, " max_iter ", o.max_iter, " engine ", e.rest, " region x > ", edge);
    va::randpos_status st; if (!mc::attempt([&]() { st = va::randpos_power_circle(e, 0.0, 0.0, 1.0, x, y, [&](double a, double, double th) { ++asked; return a > edge - th; }, o); })) { MC_CHECK(o.levels > 1, "refused"); return; } sz lev = std::max<sz>(1, o.levels), n = 1, most = 0; for (sz l = 0; l < lev; ++l) { if (l > 0) most += 200*n; n *= o.eta; most += n*(o.max_iter + 1); }
    MC_CHECK(asked <= most, asked, " positions tried, no more than ", most, " allowed by max_iter"); if (st.success) { MC_CHECK(x.size() == n && y.size() == n, x.size(), " positions instead of ", n); R reach = 0, rr = 1; for (sz l = 0; l < lev; ++l) { reach += rr; rr /= o.lambda; } for (sz i = 0; i < n; ++i) { MC_CHECK(x[i] > edge, "position ", x[i], " out of the region"); MC_CHECK(std::hypot(x[i], y[i]) <= double(reach) + 1e-9, "position too far: ", x[i], ", ", y[i]); } MC_CHECK(edge < 1 || lev > 1, "found positions in an empty region"); } else { MC_CHECK(!st.failure.empty(), "failure without a reason"); MC_CHECK(edge > -0.9 || o.levels > 1 || e.rest < 0.5, "failed"); } mc::op(asked); mc::outcome(mc::mix(n, mc::hash_str(st.failure)));
}
MC_SCENARIO(listing) { fsu::Dir dir; vec1d ra = {150.25, 0}, dec = {-2.5, 89}; va::print_radec("p.dat", ra, dec); mc::op(); std::istringstream s(fsu::slurp("p.dat")); double a, b; for (sz i = 0; i < 2; ++i) MC_CHECK(bool(s >> a >> b) && a == ra[i] && b == dec[i], "line ", i); MC_CHECK(!(s >> a), "additional lines"); }
#endif
