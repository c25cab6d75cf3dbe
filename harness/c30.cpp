// C30: nearest neighbour matching (vif/astro/qxmatch.hpp) against exhaustive search, for every small configuration of sources.
#ifndef PART
#define PART 0
#endif
#include "vifall.hpp"
#include <vif/astro/qxmatch.hpp>
using namespace vr;
using vif::_;
#include "qxref.hpp"
void run(const Cat& a, const Cat& b, Opt o) {
    MC_LOG(o.lin ? "linear " : "sky ", o.brute ? "brute force " : "buckets ", "nth=", o.nth, " mirror=", o.mirror, " self=", o.self, " cat1=", a, " cat2=", b);
    auto x1 = a.vx(), y1 = a.vy(), x2 = b.vx(), y2 = b.vy();
    if (o.self) check_match(a, a, va::qxmatch(x1, y1, params(o)), o); else check_match(a, b, va::qxmatch(x1, y1, x2, y2, params(o)), o);
    expect1(x1, a.x, "coordinates"); expect1(y1, a.y, "coordinates"); expect1(x2, b.x, "coordinates"); expect1(y2, b.y, "coordinates");
    if (!o.self && o.mirror) { // pairs that are the nearest of each other
        auto r = va::qxmatch(x1, y1, x2, y2, params(o)); auto c = va::xmatch_clean_best(r); MC_CHECK(c.id1.size() == c.id2.size() && c.id1.size() + c.lost.size() == a.n(), "xmatch_clean_best: ", c.id1.size(), " pairs and ", c.lost.size(), " lost for ", a.n(), " sources"); std::vector<int> st(a.n()); for (sz k = 0; k < c.id1.size(); ++k) { sz i = c.id1[k], j = c.id2[k]; MC_CHECK(i < a.n() && r.id(0,i) == j && r.rid[j] == i, "xmatch_clean_best kept ", i, ",", j); st[i]++; } for (sz k = 0; k < c.lost.size(); ++k) { sz i = c.lost[k]; MC_CHECK(i < a.n() && (r.id(0,i) == npos || r.rid[r.id(0,i)] != i), "xmatch_clean_best lost ", i); st[i]++; } for (auto x : st) MC_CHECK(x == 1, "xmatch_clean_best does not partition the sources"); }
}

Opt pick_opt(bool lin, bool full = true) { Opt o; o.lin = lin; o.brute = mc::flip(); o.mirror = full ? !mc::flip() : true; o.nth = full ? mc::pick<unsigned>({1, 2, 4}) : mc::pick<unsigned>({1, 3}); return o; }
struct Field { double ra, de; };
Cat pick_cat(sz nmin, sz nmax, const std::vector<double>& off, bool lin, Field f, sz nox = 9) { Cat c; sz n = nmin + mc::choose(nmax - nmin + 1); for (sz i = 0; i < n; ++i) { double dx = off[off.size() - 1 - mc::choose(std::min(nox, off.size()))], dy = off[mc::choose(off.size())]; if (lin) { c.x.push_back(dx); c.y.push_back(dy); } else { c.x.push_back(f.ra + dx/3600/std::cos(f.de*std::acos(-1.0)/180)); c.y.push_back(f.de + dy/3600); } } return c; }
const Field COSMOS = {150.1, 2.2}, SOUTH = {53.1, -27.8}, NORTH = {10.0, 62.0};
#if PART == 0 || PART == 1
// every pair of catalogues of up to 2 sources (PART 0: sky, PART 1: linear)
const bool LIN = PART == 1;
MC_SCENARIO_S(small, 4) { Opt o = pick_opt(LIN); sz nox = mc::thorough() ? 3 : 2; Cat a = pick_cat(0, 2, {0, 1, 30}, LIN, COSMOS, nox), b = pick_cat(0, 2, {0, 1, 30}, LIN, COSMOS, nox); run(a, b, o); }
MC_SCENARIO_S(self, 4) { Opt o = pick_opt(LIN); o.self = true; Cat a = pick_cat(0, 3, {0, 1, 30}, LIN, SOUTH, mc::thorough() ? 3 : 2); run(a, a, o); }
#endif
#if PART == 2
// a regular field of sources with deterministic irregularities, and one source anywhere in or around it
double jit(sz i) { i = (i*2654435761u) >> 7; return (i % 1000)/1000.0 - 0.5; }
Cat field(sz nx, sz ny, double step, bool lin, Field f) { Cat c; for (sz i = 0; i < nx; ++i) for (sz j = 0; j < ny; ++j) { double dx = (i + 0.6*jit(2*(i*ny+j)+1))*step, dy = (j + 0.6*jit(2*(i*ny+j)+2))*step; if (lin) { c.x.push_back(dx); c.y.push_back(dy); } else { c.x.push_back(f.ra + dx/3600/std::cos(f.de*std::acos(-1.0)/180)); c.y.push_back(f.de + dy/3600); } } return c; }
MC_SCENARIO_S(in_field, 4) {
    bool lin = mc::flip(); Field f = mc::pick<Field>({COSMOS, NORTH}); Opt o = pick_opt(lin, false); sz nx = mc::pick<sz>({1, 4, 9}), ny = mc::pick<sz>({1, 7}); double step = mc::pick<double>({3, 20}); Cat b = field(nx, ny, step, lin, f);
    unsigned ng = mc::thorough() ? 8 : 4; double x = (int(mc::choose(ng)) - int(ng/4))*step*nx*2/ng, y = (int(mc::choose(ng)) - int(ng/4))*step*ny*2/ng; Cat a; if (lin) { a.x = {x}; a.y = {y}; } else { a.x = {f.ra + x/3600/std::cos(f.de*std::acos(-1.0)/180)}; a.y = {f.de + y/3600}; } if (mc::flip()) { a.x.push_back(b.x[b.n()/2]); a.y.push_back(b.y[b.n()/2]); } run(a, b, o);
}
MC_SCENARIO_S(field_self, 3) { bool lin = mc::flip(); Field f = mc::pick<Field>({COSMOS, NORTH}); Opt o = pick_opt(lin, false); o.self = true; sz nx = 1 + mc::choose(9), ny = 1 + mc::choose(6); Cat b = field(nx, ny, mc::pick<double>({3, 20}), lin, f); run(b, b, o); }
MC_SCENARIO_S(line, 3) { // sources on a line cover no area
    bool lin = mc::flip(); Field f = mc::pick<Field>({COSMOS, SOUTH, NORTH}); Opt o = pick_opt(lin, false); sz n = 1 + mc::choose(6); unsigned dir = mc::choose(3); double step = mc::thorough() ? mc::pick<double>({0.3, 7, 41}) : mc::pick<double>({0.3, 7}); Cat b; for (sz i = 0; i < n; ++i) { double dx = dir != 1 ? step*(i + 0.3*jit(i)) : 0, dy = dir != 0 ? step*(i + 0.3*jit(i)) : 0; if (lin) { b.x.push_back(dx); b.y.push_back(dy); } else { b.x.push_back(f.ra + dx/3600/std::cos(f.de*std::acos(-1.0)/180)); b.y.push_back(f.de + dy/3600); } } Cat a = pick_cat(1, 1, {13, 0, 30, -20}, lin, f, mc::thorough() ? 4 : 2); run(a, b, o);
}
MC_SCENARIO(rejections) {
    va::qxmatch_params p; p.brute_force = mc::flip(); p.linear = mc::flip(); double bad = mc::pick<double>({NAN, INFINITY, -INFINITY}); sz n = 1 + mc::choose(3), w = mc::choose(n); vec<1,double> x(n), y(n), z(n), s(n + 1); for (sz i = 0; i < n; ++i) { x[i] = 10 + i*1e-3; y[i] = 5; z[i] = 5.001; } for (sz i = 0; i <= n; ++i) s[i] = i; auto q = x; q[w] = bad;
    MC_CHECK(mc::attempt([&]() { va::qxmatch(x, y, x, z, p); }), "valid coordinates were rejected"); MC_CHECK(!mc::attempt([&]() { va::qxmatch(q, y, x, z, p); }), "invalid RA accepted"); MC_CHECK(!mc::attempt([&]() { va::qxmatch(x, q, x, z, p); }), "invalid Dec accepted"); MC_CHECK(!mc::attempt([&]() { va::qxmatch(x, y, q, z, p); }), "invalid RA accepted"); MC_CHECK(!mc::attempt([&]() { va::qxmatch(x, y, x, q, p); }), "invalid Dec accepted"); MC_CHECK(!mc::attempt([&]() { va::qxmatch(s, y, x, z, p); }), "RA and Dec of different sizes accepted"); MC_CHECK(!mc::attempt([&]() { va::qxmatch(x, y, x, s, p); }), "RA and Dec of different sizes accepted");
}
#endif
#if PART == 3
// anywhere on the sky: exhaustive search at the poles and across RA = 0
MC_SCENARIO_S(anywhere, 3) { Opt o = pick_opt(false, false); o.brute = true; Cat a, b; sz n = mc::choose(2), m = mc::choose(3); for (sz i = 0; i < n; ++i) { a.x.push_back(mc::pick<double>({0, 0.01, 359.999, 180})); a.y.push_back(mc::pick<double>({0, 89.99, -89.999, 30})); } for (sz i = 0; i < m; ++i) { b.x.push_back(mc::pick<double>({0, 0.003, 359.99, 100})); b.y.push_back(mc::pick<double>({0, 90, -89.99, 30.01})); } run(a, b, o); }
MC_SCENARIO_S(wrap, 3) { Opt o = pick_opt(false, false); sz nox = mc::thorough() ? 4 : 2; Cat a = pick_cat(1, 1, {20, 0, 1.5, -30}, false, {0, 2.2}), b = pick_cat(1, 2, {-30, 0, 1, 20}, false, {0, 2.2}); for (auto& x : a.x) if (x < 0) x += 360; for (auto& x : b.x) if (x < 0) x += 360; run(a, b, o); }
MC_SCENARIO(save_restore) { // results saved in a FITS table are restored identically, undefined matches and empty catalogues included
    char d[] = "/tmp/c30XXXXXX"; MC_CHECK(mkdtemp(d), "scratch directory"); std::string f = std::string(d) + "/m.fits"; va::qxmatch_res r; vif::uint_t nth = 1 + mc::choose(2), n = mc::choose(4), m = mc::choose(4); bool mirror = mc::flip(); r.id = vif::vec2u(nth, n); r.d = vif::vec2d(nth, n); const vif::uint_t ids[] = {0, 7, vif::npos}; const double ds[] = {0, 1.0/3, vif::dinf}; sz k = mc::choose(3); for (sz i = 0; i < nth*n; ++i) { r.id[i] = ids[(i + k) % 3]; r.d[i] = ds[(i + k) % 3]; } if (mirror) { r.rid = vif::vec1u(m); r.rd = vif::vec1d(m); for (sz i = 0; i < m; ++i) { r.rid[i] = ids[(i + k + 1) % 3]; r.rd[i] = ds[(i + k + 1) % 3]; } } MC_LOG("nth ", nth, " n ", n, " m ", m, " mirror ", mirror); mc::op(2); mc::outcome(nth*100 + n*10 + m);
    bool ok = mc::attempt([&] { va::qxmatch_save(f, r); auto s = va::qxmatch_restore(f); auto same = [](const auto& x, const auto& y) { if (x.dims != y.dims) return false; for (sz i = 0; i < x.size(); ++i) if (x[i] != y[i]) return false; return true; }; if (!same(s.id, r.id) || !same(s.rid, r.rid)) MC_FAIL("indices are not restored"); if (!same(s.d, r.d) || !same(s.rd, r.rd)) MC_FAIL("distances are not restored"); }); unlink(f.c_str()); rmdir(d); MC_CHECK(ok, "cannot be saved and restored");
}
MC_SCENARIO_S(distances, 3) { // distances between all pairs of a catalogue, in the lower triangle
    sz n = mc::choose(mc::thorough() ? 5 : 4), m = mc::flip() ? n : mc::choose(4); std::vector<double> x, y; for (sz i = 0; i < std::max(n, m); ++i) { x.push_back(mc::pick<double>({0, 359.99, 100, 180.5})); y.push_back(mc::pick<double>({0, 89.99, -45, 30.01})); } auto vx = make1(std::vector<double>(x.begin(), x.begin() + n)), vy = make1(std::vector<double>(y.begin(), y.begin() + m)); MC_LOG("distances between ", x, " ", y); if (n != m) { MC_CHECK(!mc::attempt([&]() { va::qdist(vx, vy); }), n, " RA and ", m, " Dec accepted"); return; }
    auto d = va::qdist(vx, vy); mc::op(); MC_CHECK(d.dims[0] == n && d.dims[1] == n, "dimensions"); for (sz i = 0; i < n; ++i) for (sz j = i + 1; j < n; ++j) { double r = std::acos(-1.0)/180, X[2], Y[2], Z[2]; for (int k = 0; k < 2; ++k) { double a = x[k ? j : i]*r, b = y[k ? j : i]*r; X[k] = std::cos(a)*std::cos(b); Y[k] = std::sin(a)*std::cos(b); Z[k] = std::sin(b); } double cx = Y[0]*Z[1] - Z[0]*Y[1], cy = Z[0]*X[1] - X[0]*Z[1], cz = X[0]*Y[1] - Y[0]*X[1], e = std::atan2(std::sqrt(cx*cx + cy*cy + cz*cz), X[0]*X[1] + Y[0]*Y[1] + Z[0]*Z[1])/r*3600; MC_CHECK(std::fabs(d(j,i) - e) <= 1e-3, "distance between ", i, " and ", j, " is ", d(j,i), " instead of ", e); mc::outcome((long)e); }
}
#endif
