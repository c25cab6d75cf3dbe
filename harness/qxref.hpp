// Reference for nearest neighbour matching, shared by C30 and C34.
#ifndef QXREF_HPP
#define QXREF_HPP
#include <cmath>
#include <set>
#include <vector>
#include <algorithm>
using sz_t = std::size_t;
using vif::npos;
namespace va = vif::astro;
inline vif::vec1d tov1(const std::vector<double>& a) { vif::vec1d v(a.size()); for (sz_t i = 0; i < a.size(); ++i) v[i] = a[i]; return v; }
struct Cat { std::vector<double> x, y; vif::vec1d vx() const { return tov1(x); } vif::vec1d vy() const { return tov1(y); } sz_t n() const { return x.size(); } };
inline std::ostream& operator<<(std::ostream& o, const Cat& c) { for (sz_t i = 0; i < c.n(); ++i) o << "(" << c.x[i] << "," << c.y[i] << ")"; return o; }
// separation in arcsec, from the chord between unit vectors (independent of the haversine formula)
inline double sep(bool lin, double x1, double y1, double x2, double y2) {
    if (lin) return std::sqrt((x1-x2)*(x1-x2) + (y1-y2)*(y1-y2));
    long double r = std::acos(-1.0L)/180; auto v = [&](long double a, long double d, int k) { return k == 0 ? cosl(d*r)*cosl(a*r) : k == 1 ? cosl(d*r)*sinl(a*r) : sinl(d*r); }; long double s = 0; for (int k = 0; k < 3; ++k) { long double t = v(x1,y1,k) - v(x2,y2,k); s += t*t; } return 2*asinl(std::min(1.0L, sqrtl(s)/2))/r*3600;
}
struct Opt { bool lin = false, brute = false, mirror = true, self = false; unsigned nth = 1; };
inline bool close_(double a, double b) { return std::fabs(a - b) <= (b > 170*3600.0 ? 0.01 : 1e-6 + 1e-9*std::fabs(b)); } // the haversine loses digits near the antipode
inline void check_match(const Cat& a, const Cat& b, const va::qxmatch_res& r, const Opt& o) {
    sz_t nth = std::max(1u, o.nth); mc::op();
    MC_CHECK(r.id.dims[0] == nth && r.id.dims[1] == a.n() && r.d.dims[0] == nth && r.d.dims[1] == a.n() && r.id.size() == nth*a.n() && r.d.size() == nth*a.n(), "dimensions of the result: ", r.id.dims[0], "x", r.id.dims[1]);
    std::uint64_t h = 0;
    for (sz_t i = 0; i < a.n(); ++i) {
        std::vector<double> ds; for (sz_t j = 0; j < b.n(); ++j) if (!(o.self && i == j)) ds.push_back(sep(o.lin, a.x[i], a.y[i], b.x[j], b.y[j])); std::sort(ds.begin(), ds.end()); std::set<sz_t> seen;
        for (sz_t k = 0; k < nth; ++k) { sz_t j = r.id(k,i); double d = r.d(k,i); h = mc::mix(h, j);
            if (k >= ds.size()) { MC_CHECK(j == npos && !std::isfinite(d), "source ", i, " has only ", ds.size(), " neighbours, but neighbour ", k, " is ", j, " at ", d); continue; }
            MC_CHECK(j < b.n(), "neighbour ", k, " of source ", i, " was not found (", j, "), it lies at ", ds[k]); MC_CHECK(!(o.self && j == i), "source ", i, " was matched with itself"); MC_CHECK(seen.insert(j).second, "source ", j, " appears twice among the neighbours of ", i);
            double e = sep(o.lin, a.x[i], a.y[i], b.x[j], b.y[j]); MC_CHECK(close_(d, e), "distance between ", i, " and ", j, " is ", d, " instead of ", e); MC_CHECK(close_(e, ds[k]), "neighbour ", k, " of source ", i, " is ", j, " at ", e, ", but there is one at ", ds[k]); }
    }
    if (o.mirror && !o.self) { MC_CHECK(r.rid.size() == b.n() && r.rd.size() == b.n(), "dimensions of the reverse match");
        for (sz_t j = 0; j < b.n(); ++j) { double m = 1e301; for (sz_t i = 0; i < a.n(); ++i) m = std::min(m, sep(o.lin, a.x[i], a.y[i], b.x[j], b.y[j])); sz_t i = r.rid[j]; h = mc::mix(h, i); if (a.n() == 0) { MC_CHECK(i == npos && !std::isfinite(r.rd[j]), "reverse match in an empty catalogue"); continue; } MC_CHECK(i < a.n(), "reverse match of ", j, " was not found (", i, ")"); double e = sep(o.lin, a.x[i], a.y[i], b.x[j], b.y[j]); MC_CHECK(close_(r.rd[j], e) && close_(e, m), "reverse match of ", j, " is ", i, " at ", r.rd[j], ", true distance ", e, ", nearest at ", m); } }
    if (!o.mirror) MC_CHECK(r.rid.empty() && r.rd.empty(), "a reverse match was made although it was disabled");
    mc::outcome(h);
}
inline va::qxmatch_params params(const Opt& o, sz_t threads = 1) { va::qxmatch_params p; p.nth = o.nth; p.brute_force = o.brute; p.no_mirror = !o.mirror; p.linear = o.lin; p.self = o.self; p.thread = threads; return p; }
#endif
