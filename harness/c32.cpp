// C32: convex hulls (vif/math/convex_hull.hpp) against exact integer geometry.
#include "vifall.hpp"
using namespace vr;
namespace va = vif::astro;
using L = long long; using vif::convex_hull; using Pt = std::pair<L,L>;
L cross(Pt a, Pt b, Pt c) { return (b.first - a.first)*(c.second - a.second) - (b.second - a.second)*(c.first - a.first); }
// vertices of the hull: points that lie in no segment or triangle of other points
std::set<Pt> extreme(const std::set<Pt>& s) { std::set<Pt> r; for (Pt p : s) { bool in = false; for (Pt a : s) for (Pt b : s) { if (a == p || b == p || a == b) continue; if (cross(a, b, p) == 0 && (p.first - a.first)*(p.first - b.first) <= 0 && (p.second - a.second)*(p.second - b.second) <= 0) in = true; for (Pt c : s) { if (c == p || cross(a, b, c) <= 0) continue; if (cross(a, b, p) >= 0 && cross(b, c, p) >= 0 && cross(c, a, p) >= 0) in = true; } } if (!in) r.insert(p); } return r; }
bool flat(const std::set<Pt>& s) { for (Pt a : s) for (Pt b : s) for (Pt c : s) if (cross(a, b, c)) return false; return true; }
double segd(double px, double py, double ax, double ay, double bx, double by) { double l = (bx-ax)*(bx-ax) + (by-ay)*(by-ay), t = l > 0 ? ((px-ax)*(bx-ax) + (py-ay)*(by-ay))/l : 0; t = std::min(1.0, std::max(0.0, t)); return std::hypot(px - ax - t*(bx-ax), py - ay - t*(by-ay)); }
template<typename T> vec<1,T> xs(const std::vector<Pt>& p, bool y, T f = 1) { vec<1,T> v; for (auto& q : p) v.push_back(T(y ? q.second : q.first)*f); return v; }
// membership and signed distance for every probe on a half-step grid around the polygon (given counter-clockwise, in units of f)
template<typename T> void probe(const convex_hull<T>& h, const std::vector<Pt>& ccw, bool dist, const char* w) {
    vif::vec1d px, py; vif::vec2d p2x(9, 9), p2y(9, 9); std::uint64_t hs = 0; for (L i = -2; i <= 6; ++i) for (L j = -2; j <= 6; ++j) { px.push_back(i/2.0); py.push_back(j/2.0); p2x(i + 2, j + 2) = i/2.0; p2y(i + 2, j + 2) = j/2.0; } auto in = vif::in_convex_hull(px, py, h); auto in2 = vif::in_convex_hull(p2x, p2y, h); vif::vec1d d; if (dist) d = vif::convex_hull_distance(px, py, h); sz n = ccw.size(); MC_CHECK(in.size() == px.size() && in2.size() == px.size() && in2.dims[0] == 9, "size of the result");
    for (sz k = 0; k < px.size(); ++k) { bool e = true; double m = 1e9; for (sz i = 0; i < n; ++i) { Pt a = ccw[i], b = ccw[(i+1)%n]; double c = (b.first - a.first)*(py[k] - a.second) - (b.second - a.second)*(px[k] - a.first); if (c < 0) e = false; m = std::min(m, segd(px[k], py[k], a.first, a.second, b.first, b.second)); }
        MC_CHECK(in[k] == e && in2[k] == e && vif::in_convex_hull(px[k], py[k], h) == e, w, ": point ", px[k], ",", py[k], e ? " is inside" : " is outside", " the hull, in_convex_hull says otherwise"); hs = mc::mix(hs, e); mc::op();
        if (dist) { double s = vif::convex_hull_distance(px[k], py[k], h), x = e ? m : -m; MC_CHECK(std::fabs(s - x) <= 1e-6*(1 + m) && std::fabs(d[k] - x) <= 1e-6*(1 + m), w, ": distance of ", px[k], ",", py[k], " is ", s, " (vector: ", d[k], ") instead of ", x); } }
    mc::outcome(hs); vif::vec1d bad(px.size() + 1); MC_CHECK(!mc::attempt([&]() { vif::in_convex_hull(px, bad, h); }), "coordinates of different sizes accepted"); if (dist) MC_CHECK(!mc::attempt([&]() { vif::convex_hull_distance(bad, py, h); }), "coordinates of different sizes accepted");
}
template<typename T> void hull(const std::vector<Pt>& p, bool deep) {
    MC_LOG("hull of ", p.size(), " points"); for (auto& q : p) MC_LOG("  ", q.first, ",", q.second); auto vx = xs<T>(p, false), vy = xs<T>(p, true); vec<1,T> wx = vx, wy = vy; auto h = mc::flip() ? vif::build_convex_hull(vx, vy) : vif::build_convex_hull(vx[vif::_], vy[vif::_]); mc::op(); std::set<Pt> s(p.begin(), p.end()), e = extreme(s), g; sz n = h.x.size(); MC_CHECK(h.y.size() == n && h.size() == n, "numbers of coordinates"); for (sz i = 0; i < p.size(); ++i) MC_CHECK(vx[i] == wx[i] && vy[i] == wy[i], "argument modified");
    std::vector<Pt> c; for (sz i = 0; i < n; ++i) { Pt q(h.x[i], h.y[i]); MC_CHECK(s.count(q), "vertex ", i, " (", h.x[i], ",", h.y[i], ") is not one of the points"); g.insert(q); c.push_back(q); } MC_CHECK(g == e, "the hull has ", g.size(), " distinct vertices instead of ", e.size()); mc::outcome(n);
    if (flat(s)) return; MC_CHECK(n == e.size() + 1 && c.front() == c.back(), "the hull lists ", n, " vertices for a polygon of ", e.size(), ", or is not closed"); c.pop_back(); for (sz i = 0; i < c.size(); ++i) MC_CHECK(cross(c[i], c[(i+1)%c.size()], c[(i+2)%c.size()]) > 0, "vertices are not in counter-clockwise order"); MC_CHECK(h.closed && h.orient == 1, "flags of the hull");
    if (deep) probe(h, c, std::is_floating_point<T>::value, "built hull");
}
std::vector<Pt> points(unsigned n, L w) { std::vector<Pt> p; for (unsigned i = 0; i < n; ++i) { unsigned k = mc::choose(w*w); p.emplace_back(k/w, k%w); } return p; }
MC_SCENARIO_S(sequences, 4) { unsigned n = mc::choose(mc::thorough() ? 6 : 5); auto p = points(n, 3); if (mc::flip()) hull<double>(p, n <= 3); else hull<int>(p, false); }
MC_SCENARIO_S(subsets, 6) { L w = 4; unsigned b = mc::thorough() ? 16 : 12; std::vector<Pt> p; for (unsigned i = 0; i < b; ++i) if (mc::flip()) p.emplace_back((i*7)%b%w, (i*7)%b/w); hull<double>(p, !mc::thorough()); }
MC_SCENARIO(mismatch) { vif::vec1d a(mc::choose(4)), b(mc::choose(4)); if (a.size() == b.size()) return; MC_CHECK(!mc::attempt([&]() { vif::build_convex_hull(a, b); }), "coordinates of different sizes accepted"); MC_CHECK(!mc::attempt([&]() { convex_hull<double> h(a, b); }), "hull with coordinates of different sizes accepted"); mc::op(); }
// polygons given by the user: any rotation and orientation of the vertices, with or without points along the edges, closed or not, modified afterwards
template<typename T> void given() {
    static const std::vector<std::vector<Pt>> polys = {{{0,0},{2,0},{0,2}}, {{0,0},{1,0},{2,0},{2,2},{0,2}}, {{0,0},{2,0},{2,1},{2,2},{1,2},{0,1}}, {{1,0},{2,1},{1,2},{0,1}}, {{0,0},{2,1},{1,2}}, {{0,0},{1,0},{2,0},{2,1},{2,2},{1,2},{0,2},{0,1}}};
    auto p = mc::pick(polys); sz n = p.size(), r = mc::choose(n); std::rotate(p.begin(), p.begin() + r, p.end()); auto ccw = p; bool cw = mc::flip(), open = mc::flip(); if (cw) std::reverse(p.begin(), p.end()); if (!open) p.push_back(p.front()); MC_LOG("polygon of ", n, " vertices starting at ", r, cw ? " clockwise" : "", open ? " open" : ""); convex_hull<T> h(xs<T>(p, false), xs<T>(p, true));
    vif::vec1d q = {0.5}; if (open) { MC_CHECK(!mc::attempt([&]() { vif::in_convex_hull(0.5, 0.5, h); }), "open hull accepted"); MC_CHECK(!mc::attempt([&]() { vif::in_convex_hull(q, q, h); }), "open hull accepted"); if (std::is_floating_point<T>::value) { MC_CHECK(!mc::attempt([&]() { vif::convex_hull_distance(0.5, 0.5, h); }), "open hull accepted"); MC_CHECK(!mc::attempt([&]() { vif::convex_hull_distance(q, q, h); }), "open hull accepted"); } mc::op(); return; }
    probe(h, ccw, std::is_floating_point<T>::value, "given hull"); unsigned k = mc::choose(3); if (k == 1) { for (sz i = 0; i < h.x.size(); ++i) h.x[i] += 1; for (auto& c : ccw) c.first += 1; h.mark_as_dirty(); probe(h, ccw, std::is_floating_point<T>::value, "modified hull"); } if (k == 2) { convex_hull<T> g = h; probe(g, ccw, std::is_floating_point<T>::value, "copied hull"); std::swap(g.x, g.y); g.mark_as_dirty(); for (auto& c : ccw) std::swap(c.first, c.second); std::reverse(ccw.begin(), ccw.end()); probe(g, ccw, std::is_floating_point<T>::value, "transposed hull"); }
}
MC_SCENARIO_S(given_double, 3) { given<double>(); }
MC_SCENARIO_S(given_float, 3) { given<float>(); }
MC_SCENARIO_S(given_int, 3) { given<int>(); }
MC_SCENARIO(too_small) { sz n = mc::choose(3); vif::vec1d a(n), b(n); MC_CHECK(!mc::attempt([&]() { convex_hull<double> h(a, b); }), "hull of ", n, " vertices accepted"); convex_hull<double> e; MC_CHECK(!mc::attempt([&]() { vif::in_convex_hull(0.0, 0.0, e); }), "empty hull accepted"); mc::op(); }
// area of a small field on the sky
MC_SCENARIO_S(area, 5) {
    std::vector<Pt> p; for (unsigned i = 0; i < 9; ++i) if (mc::flip()) p.emplace_back(i/3, i%3); std::set<Pt> s(p.begin(), p.end()); if (flat(s)) return; double ra0 = mc::pick(std::vector<double>{10, 0, 359}), d0 = mc::pick(std::vector<double>{0, 60, -45}), u = mc::pick(std::vector<double>{0.001, 0.01, 0.1}); vif::vec1d ra, dec; for (auto& q : p) { ra.push_back(ra0 + u*q.first); dec.push_back(d0 + u*q.second); } MC_LOG("area of ", p.size(), " points at ", ra0, ",", d0, " step ", u);
    auto e = extreme(s); double A = 0; std::vector<Pt> c(e.begin(), e.end()); Pt o = c[0]; std::sort(c.begin() + 1, c.end(), [&](Pt a, Pt b) { return cross(o, a, b) > 0; }); for (sz i = 1; i + 1 < c.size(); ++i) A += 0.5*cross(o, c[i], c[i+1]); A *= u*u*std::cos((d0 + u)*std::acos(-1.0)/180); double a = va::field_area_hull(ra, dec), b = va::field_area_hull(vif::build_convex_hull(ra, dec)); mc::op(); mc::outcome(L(A*1e9)); MC_CHECK(std::fabs(a - A) <= 0.01*A && a == b, "area is ", a, " instead of ", A);
}
