// C14: bins and histograms.
#include "vifref.hpp"
#include <vif/math/histogram.hpp>
#include <algorithm>
#include <cmath>
using namespace vr;
using vif::_;
static const double NaN = std::nan("");
struct Bins { std::vector<double> lo, hi; };
static const std::vector<Bins>& layouts() {
    static const std::vector<Bins> l = { {{}, {}}, {{0}, {1}}, {{0,1}, {1,2}}, {{1,0}, {2,1}}, {{-1,0,1}, {0,1,2}}, {{-1,1}, {0,3}}, {{1,-1,0}, {2,0,0.5}}, {{0,2,1}, {0,3,2}}, {{-INFINITY,0}, {0,INFINITY}} };
    return l;
}
static bool in(double x, const Bins& b, sz i) { return x >= b.lo[i] && x < b.hi[i]; }
static Arr<double> arr(const Bins& b) { Arr<double> a({2, b.lo.size()}, b.lo); a.v.insert(a.v.end(), b.hi.begin(), b.hi.end()); return a; }
static std::vector<double> word(unsigned n) { static const std::vector<double> al = {-1, -0.5, 0, 0.75, 1, 2, NaN}; unsigned m = mc::choose(n + 1); std::vector<double> r; for (unsigned i = 0; i < m; ++i) r.push_back(mc::pick(al)); return r; }
template<std::size_t D> Arr<double> shaped(unsigned n) { auto w = word(n); if (D == 1) return Arr<double>({w.size()}, w); return Arr<double>({1, w.size()}, w); }

template<std::size_t D> void hist(unsigned n) {
    auto a = shaped<D>(n); Bins b = mc::pick(layouts()); sz nb = b.lo.size(); const auto bv = make<2,double>(arr(b)); MC_LOG("histogram of ", a, " bins ", arr(b));
    std::vector<sz> e(nb); std::vector<std::vector<sz>> ids(nb); std::vector<double> ew(nb); Arr<double> w(a.d); for (sz i = 0; i < w.size(); ++i) w.v[i] = 1 << i;
    for (sz i = 0; i < a.size(); ++i) for (sz j = 0; j < nb; ++j) if (in(a.v[i], b, j)) { ++e[j]; ids[j].push_back(i); ew[j] += w.v[i]; }
    const auto vw = make<D,double>(w);
    as_vec_or_view<D>(a, [&](auto& v) {
        expect1(vif::histogram(v, bv), e, "histogram"); if constexpr (D == 1) expect1(vif::histogram(v, vw, bv), ew, "weighted histogram");
        std::vector<int> called(nb);
        vif::histogram(v, bv, [&](uint_t i, vec<1,uint_t> id) { MC_CHECK(i < nb, "histogram callback for bin ", i); ++called[i]; auto g = read(id).v; std::sort(g.begin(), g.end()); MC_CHECK(g == ids[i], "bin ", i, ": indices ", g, " instead of ", ids[i]); });
        for (sz j = 0; j < nb; ++j) MC_CHECK(called[j] == 1 || (called[j] == 0 && ids[j].empty()), "callback called ", called[j], " times for bin ", j, " with ", ids[j].size(), " values");
        for (sz j = 0; j < nb; ++j) { Arr<bool> eb(a.d), eo(a.d); for (sz i = 0; i < a.size(); ++i) { double x = a.v[i]; eb.v[i] = in(x, b, j); eo.v[i] = nb == 1 ? x < b.hi[0] : j == 0 ? x < b.hi[j] : j + 1 == nb ? x >= b.lo[j] : in(x, b, j); }
            expect(vif::in_bin(v, bv, j), eb, "in_bin"); expect(vif::in_bin_open(v, bv, j), eo, "in_bin_open"); vec<1,double> one = {b.lo[j], b.hi[j]}; expect(vif::in_bin(v, one), eb, "in_bin of a single bin");
            if (a.size()) { MC_CHECK(vif::in_bin(a.v[0], bv, j) == bool(eb.v[0]) && vif::in_bin_open(a.v[0], bv, j) == bool(eo.v[0]) && vif::in_bin(a.v[0], one) == bool(eb.v[0]), "scalar in_bin"); } }
        MC_CHECK(!mc::attempt([&]() { vif::in_bin(v, bv, nb); }), "in_bin accepted bin ", nb);
    });
    expect(bv, arr(b), "bins");
}
MC_SCENARIO_S(hist_1, 2) { hist<1>(mc::thorough() ? 5 : 4); }
MC_SCENARIO_S(hist_2, 2) { hist<2>(3); }
MC_SCENARIO_S(hist2d, 3) {
    unsigned n = mc::choose(mc::thorough() ? 5 : 4); static const std::vector<double> al = {-1, 0, 0.75, 1, NaN}; Arr<double> x({n}), y({n}); for (unsigned i = 0; i < n; ++i) { x.v[i] = mc::pick(al); y.v[i] = mc::pick(al); }
    static const std::vector<unsigned> L = {1, 2, 5, 6}; Bins bx = layouts()[mc::pick(L)], by = layouts()[mc::pick(L)]; sz nx = bx.lo.size(), ny = by.lo.size(); MC_LOG("histogram2d ", x, " ", y, " bins ", arr(bx), " ", arr(by));
    auto vx = make<1,double>(x), vy = make<1,double>(y); auto b1 = make<2,double>(arr(bx)), b2 = make<2,double>(arr(by));
    Arr<sz> e({nx, ny}); std::vector<std::vector<sz>> ids(nx*ny); for (sz i = 0; i < n; ++i) for (sz j = 0; j < nx; ++j) for (sz k = 0; k < ny; ++k) if (in(x.v[i], bx, j) && in(y.v[i], by, k)) { ++e.v[j*ny+k]; ids[j*ny+k].push_back(i); }
    expect(vif::histogram2d(vx, vy, b1, b2), e, "histogram2d"); std::vector<int> called(nx*ny);
    vif::histogram2d(vx, vy, b1, b2, [&](uint_t i, uint_t j, vec<1,uint_t> id) { MC_CHECK(i < nx && j < ny, "callback for bin ", i, ",", j); ++called[i*ny+j]; auto g = read(id).v; std::sort(g.begin(), g.end()); MC_CHECK(g == ids[i*ny+j], "bin ", i, ",", j, ": ", g, " instead of ", ids[i*ny+j]); });
    for (sz j = 0; j < nx*ny; ++j) MC_CHECK(called[j] == 1 || (called[j] == 0 && ids[j].empty()), "callback called ", called[j], " times");
}
MC_SCENARIO(rejections) {
    sz n = mc::choose(4), m = mc::choose(4), r = mc::choose(4), c = mc::choose(3); vec<1,double> v(n), w(m); vec<2,double> b(r, c); unsigned k = mc::choose(6); MC_LOG("rejection ", k, " sizes ", n, " ", m, " bins ", r, "x", c);
    bool ok = mc::attempt([&]() { if (k == 0) vif::histogram(v, b); if (k == 1) vif::histogram(v, w, b); if (k == 2) vif::histogram2d(v, w, b, b); if (k == 3) vif::bin_center(b); if (k == 4) vif::bin_width(b); if (k == 5) { vec<1,double> one(r); vif::in_bin(v, one); } });
    bool good = r == 2 && (k == 0 || k >= 3 || n == m); MC_CHECK(ok == good, "accepted: ", ok);
}
MC_SCENARIO(bins) {
    double lo = mc::pick({-2.0, 0.0, 0.3}), w = mc::pick({1.0, 3.0, 0.7}); sz n = 1 + mc::choose(5);
    Arr<double> e({2, n}); auto g = read(vif::make_bins(lo, lo + w, n)); MC_CHECK(g.d == e.d, "make_bins dimensions ", g.d);
    for (sz i = 0; i < n; ++i) { MC_CHECK(mc::near(g.v[i], lo + w*i/n) && mc::near(g.v[n+i], lo + w*(i+1)/n), "make_bins: bin ", i, " is ", g.v[i], " ", g.v[n+i]); if (i) MC_CHECK(g.v[n+i-1] == g.v[i], "make_bins: gap between bins ", i-1, " and ", i); }
    expect(vif::make_bins(lo, lo + w), Arr<double>({2,1}, {lo, lo + w}), "make_bins of one bin");
    auto gi = read(vif::make_bins(0, 10, n)); for (sz i = 0; i < n; ++i) MC_CHECK(mc::near(gi.v[i], 10.0*i/n), "make_bins of integers");
    sz m = mc::choose(5); vec<1,double> v; for (sz i = 0; i < m; ++i) v.push_back(lo + i*w + 0.1*i*i); std::vector<double> x = read(v).v; MC_LOG("bins from ", x);
    vec<2,double> b; bool ok = mc::attempt([&]() { b = vif::make_bins_from_edges(v); }); MC_CHECK(ok == (m > 1), "make_bins_from_edges of ", m, " values: ", ok);
    if (ok) { Arr<double> q({2, m-1}); for (sz i = 0; i + 1 < m; ++i) { q.v[i] = x[i]; q.v[m-1+i] = x[i+1]; } expect(b, q, "make_bins_from_edges"); auto cc = read(vif::bin_center(b)), ww = read(vif::bin_width(b)); for (sz i = 0; i + 1 < m; ++i) { MC_CHECK(mc::near(cc.v[i], (x[i]+x[i+1])/2) && mc::near(ww.v[i], x[i+1]-x[i]), "bin_center or bin_width"); vec<1,double> one = b(_,i); MC_CHECK(mc::near(vif::bin_center(one), (x[i]+x[i+1])/2) && mc::near(vif::bin_width(one), x[i+1]-x[i]), "bin_center or bin_width of a bin"); } }
    ok = mc::attempt([&]() { b = vif::make_bins_from_centers(v); }); MC_CHECK(ok == (m > 1), "make_bins_from_centers of ", m, " values: ", ok);
    if (ok) { auto q = read(b); MC_CHECK((q.d == Dims{2, m}), "make_bins_from_centers dimensions"); for (sz i = 0; i < m; ++i) { double l = i ? (x[i-1]+x[i])/2 : x[0] - (x[1]-x[0])/2, h = i + 1 < m ? (x[i]+x[i+1])/2 : x[i] + (x[i]-x[i-1])/2; MC_CHECK(mc::near(q.v[i], l) && mc::near(q.v[m+i], h), "make_bins_from_centers: bin ", i, " is ", q.v[i], " ", q.v[m+i]); } }
}
template<typename T> void cumul_() {
    unsigned n = mc::choose(5); std::vector<T> x, e, r; for (unsigned i = 0; i < n; ++i) x.push_back(mc::pick<T>({T(-1), T(0), T(2), T(5)}));
    T s = 0; for (auto y : x) { s += y; e.push_back(s); } s = 0; for (unsigned i = n; i-- > 0;) { s += x[i]; r.insert(r.begin(), s); } MC_LOG("cumul of ", x);
    auto v = make1(x); expect1(vif::cumul(v), e, "cumul"); expect1(vif::cumul_reverse(v), r, "cumul_reverse"); expect1(vif::cumul(v[_]), e, "cumul of a view"); expect1(vif::cumul_reverse(v[_]), r, "cumul_reverse of a view"); expect1(v, x, "argument");
}
MC_SCENARIO(cumul_int) { cumul_<int>(); }
MC_SCENARIO(cumul_double) { cumul_<double>(); }
