// C13: reductions over a whole vector, and along one dimension.
#include "vifref.hpp"
#include <vif/math/reduce.hpp>
#include <algorithm>
#include <cmath>
using namespace vr;
using vif::_;
using vif::npos;
static const double NaN = std::nan("");

template<typename T> std::vector<T> alpha();
template<> std::vector<int> alpha() { return {-3, 0, 7}; }
template<> std::vector<uint_t> alpha() { return {0, 1, 5}; }
template<> std::vector<double> alpha() { return {-1.5, 0.25, 4.0, NaN}; }
template<> std::vector<float> alpha() { return {-INFINITY, 0.0f, 2.0f, NAN}; }
template<> std::vector<bool> alpha() { return {false, true}; }
template<typename T> bool nan_(T x) { return x != x; }

template<typename T> std::vector<T> word(unsigned maxn) {
    auto al = alpha<T>(); unsigned n = mc::choose(maxn + 1); std::vector<T> r;
    for (unsigned i = 0; i < n; ++i) r.push_back(al[mc::choose(al.size())]);
    return r;
}
template<std::size_t D, typename T> Arr<T> shaped(unsigned maxn) {
    auto w = word<T>(maxn); Dims d;
    if (D == 1) d = {w.size()};
    else { std::vector<Dims> c; if (w.empty()) c = {{0,0},{0,2},{2,0}}; else for (sz k = 1; k <= w.size(); ++k) if (w.size() % k == 0) c.push_back({k, w.size()/k}); d = mc::pick(c); }
    return Arr<T>(d, w);
}
bool nr(double a, double b) { return (a != a && b != b) || a == b || std::fabs(a - b) <= 1e-9*(1 + std::fabs(a) + std::fabs(b)); }
template<typename T> std::vector<T> valid(const std::vector<T>& v) { std::vector<T> r; for (auto x : v) if (!nan_(x)) r.push_back(x); std::sort(r.begin(), r.end()); return r; }
template<typename T> double mean_(const std::vector<T>& v) { double t = 0; for (auto x : v) t += x; return t/v.size(); }
template<typename T> double rms_(const std::vector<T>& v) { double t = 0; for (auto x : v) t += double(x)*double(x); return std::sqrt(t/v.size()); }
template<typename T> double std_(const std::vector<T>& v) { double m = mean_(v); std::vector<double> w; for (auto x : v) w.push_back(x - m); return rms_(w); }
template<typename T> T rank_(const std::vector<T>& v, double p) { auto s = valid(v); if (s.empty()) return v[0]; long k = std::floor(s.size()*p); k = std::max(0l, std::min<long>(k, s.size()-1)); return s[k]; }
template<typename T> T med_(const std::vector<T>& v) { auto s = valid(v); return s.empty() ? v[0] : s[s.size()/2]; }
template<typename T> T mad_(const std::vector<T>& v) { T m = med_(v); std::vector<T> w; for (auto x : v) w.push_back(T(std::fabs(double(x) - double(m)))); if (nan_(m)) return m; return med_(w); }
static const std::vector<double> PS = {-0.5, 0, 0.1, 0.25, 0.5, 0.75, 0.99, 1, 2};

#define EQ(expr, val) do { auto g_ = (expr); decltype(g_) e_ = (val); MC_CHECK(mc::same(g_, e_), #expr, " gave ", g_, " instead of ", e_); mc::op(); } while (0)
#define NEAR(expr, val) do { double g_ = (expr), e_ = (val); MC_CHECK(nr(g_, e_), #expr, " gave ", g_, " instead of ", e_); mc::op(); } while (0)

template<typename T, std::size_t D> void whole(unsigned n) {
    auto a = shaped<D,T>(n); auto s = valid(a.v); MC_LOG("values ", a);
    double tot = 0; for (auto x : a.v) tot += x;
    as_vec_or_view<D>(a, [&](auto& v) {
        NEAR(vif::total(v), tot); NEAR(vif::mean(v), mean_(a.v));
        if constexpr (!std::is_same<T,bool>::value) { NEAR(vif::rms(v), rms_(a.v)); NEAR(vif::stddev(v), std_(a.v)); }
        if constexpr (!std::is_same<T,bool>::value) {
        uint_t i, j; std::pair<uint_t,uint_t> ij;
        auto rej = [&](auto f) { return !mc::attempt([&]() { f(); }); };
        if (a.v.empty()) {
            unsigned k = mc::choose(8); MC_LOG("empty, operation ", k);
            if (k == 0) MC_CHECK(rej([&]() { vif::min(v); }), "min of an empty vector"); if (k == 1) MC_CHECK(rej([&]() { vif::max(v); }), "max of an empty vector"); if (k == 2) MC_CHECK(rej([&]() { vif::minmax(v); }), "minmax of an empty vector");
            if (k == 3) MC_CHECK(rej([&]() { vif::median(v); }), "median of an empty vector"); if (k == 4) MC_CHECK(rej([&]() { vif::percentile(v, 0.5); }), "percentile of an empty vector"); if (k == 5) MC_CHECK(rej([&]() { vif::min_id(v); }), "min_id of an empty vector"); if (k == 6) MC_CHECK(rej([&]() { vif::percentiles(v, 0.5); }), "percentiles of an empty vector"); if (k == 7) MC_CHECK(rej([&]() { vif::max_id(v); }), "max_id of an empty vector");
            return;
        }
        T mn = s.empty() ? a.v[0] : s.front(), mx = s.empty() ? a.v[0] : s.back();
        EQ(vif::min(v), mn); EQ(vif::max(v), mx); EQ(vif::minmax(v).first, mn); EQ(vif::minmax(v).second, mx); EQ(vif::min(v, i), mn); EQ(vif::max(v, j), mx);
        auto at = [&](uint_t k) { MC_CHECK(k < a.size(), "index ", k, " out of bounds"); return a.v[k]; };
        EQ(at(i), mn); EQ(at(j), mx); EQ(at(vif::min_id(v)), mn); EQ(at(vif::max_id(v)), mx); EQ(at(vif::minmax_ids(v).first), mn); EQ(at(vif::minmax_ids(v).second), mx);
        EQ(vif::minmax(v, ij).first, mn); EQ(at(ij.first), mn); EQ(at(ij.second), mx);
        EQ(vif::median(v), med_(a.v)); if constexpr (std::is_signed<T>::value) EQ(vif::mad(v), mad_(a.v));
        for (double p : PS) EQ(vif::percentile(v, p), rank_(a.v, p));
        expect1(vif::percentiles(v, 0.1, 0.5, 1.0), {rank_(a.v, 0.1), rank_(a.v, 0.5), rank_(a.v, 1.0)}, "percentiles");
        }
    });
    if constexpr (!std::is_same<T,bool>::value) if (!a.v.empty()) { // in place versions may only reorder
        auto v = make<D,T>(a); EQ(vif::inplace_median(v), med_(a.v)); auto g = read(v); MC_CHECK(g.d == a.d, "inplace_median changed dimensions"); auto s2 = valid(g.v); MC_CHECK(s2 == s, "inplace_median changed values"); EQ(vif::inplace_percentile(v, 0.25), rank_(a.v, 0.25)); MC_CHECK(valid(read(v).v) == s, "inplace_percentile changed values");
    }
}
#if PART == 0
MC_SCENARIO_S(whole_int, 2) { whole<int,1>(mc::thorough() ? 8 : 6); }
MC_SCENARIO_S(whole_double, 2) { whole<double,1>(mc::thorough() ? 7 : 5); }
MC_SCENARIO_S(whole_float, 2) { whole<float,1>(4); }
MC_SCENARIO_S(whole_uint, 2) { whole<uint_t,1>(5); }
#endif
#if PART == 1
MC_SCENARIO_S(whole_double2, 2) { whole<double,2>(4); }
MC_SCENARIO_S(whole_int2, 2) { whole<int,2>(6); }
MC_SCENARIO(booleans) {
    auto a = shaped<1,bool>(7); auto b = Arr<bool>(a.d); for (sz i = 0; i < b.size(); ++i) b.v[i] = mc::flip(); mc::assume(a.size() <= 5);
    sz n = std::count(a.v.begin(), a.v.end(), true), nb = 0, nab = 0; for (sz i = 0; i < b.size(); ++i) { nb += b.v[i]; nab += a.v[i] && b.v[i]; }
    as_vec_or_view<1>(a, [&](auto& v) { auto vb = make<1,bool>(b); EQ(vif::count(v), n); EQ(vif::total(v), n); NEAR(vif::fraction_of(v), double(n)/a.size()); NEAR(vif::fraction_of(v, vb), double(nab)/nb); if (a.size()) MC_CHECK(vif::percent_of(v) == std::to_string((int)std::round(100.0*n/a.size())) + "%", "percent_of gave ", vif::percent_of(v)); });
    whole<bool,1>(0);
}
MC_SCENARIO_S(weights, 2) {
    static const std::vector<double> W = {0, 1, 2.5, NaN}; unsigned n = mc::choose(mc::thorough() ? 5 : 4), m = mc::flip() ? n : mc::choose(4); auto al = alpha<double>(); std::vector<double> v, w;
    for (unsigned i = 0; i < n; ++i) v.push_back(mc::pick(al)); for (unsigned i = 0; i < m; ++i) w.push_back(mc::pick(W));
    auto vv = make1(v), vw = make1(w); MC_LOG("values ", v, " weights ", w);
    unsigned k = mc::choose(4);
    if (n != m) { bool ok = mc::attempt([&]() { if (k == 0) vif::weighted_mean(vv, vw); if (k == 1) vif::weighted_median(vv, vw); if (k == 2) vif::optimal_mean(vv, vw); if (k == 3) vif::weighted_percentile(vv, vw, 0.2); }); MC_CHECK(!ok, "different dimensions accepted"); return; }
    double t = 0, tw = 0, o = 0, ow = 0; for (sz i = 0; i < n; ++i) { t += v[i]*w[i]; tw += w[i]; o += v[i]/(w[i]*w[i]); ow += 1/(w[i]*w[i]); }
    if (k == 0) NEAR(vif::weighted_mean(vv, vw), t/tw);
    if (k == 2) { auto r = vif::optimal_mean(vv, vw); MC_CHECK(nr(r.first, o/ow) && nr(r.second, 1/std::sqrt(ow)), "optimal_mean gave ", r); }
    if (k == 1 || k == 3) {
        if (n == 0) { MC_CHECK(!mc::attempt([&]() { vif::weighted_median(vv, vw); }), "weighted_median of an empty vector"); return; }
        double p = k == 1 ? 0.5 : mc::pick({0.0, 0.3, 1.0}); std::vector<std::pair<double,double>> s; double sw = 0; for (sz i = 0; i < n; ++i) if (!nan_(v[i]) && !nan_(w[i])) { s.push_back({v[i], w[i]}); sw += w[i]; }
        std::stable_sort(s.begin(), s.end(), [](auto& a, auto& b) { return a.first < b.first; }); double e = NaN, c = 0; if (sw > 0) for (auto& x : s) { c += x.second; if (c >= sw*p) { e = x.first; break; } }
        NEAR(k == 1 ? vif::weighted_median(vv, vw) : vif::weighted_percentile(vv, vw, p), e);
    }
}
// integers whose squares and products do not fit in their type, and weights whose sums depend on their order
template<typename T, typename U> static void big_integers_(std::vector<T> A, std::vector<U> B) {
    unsigned n = 1 + mc::choose(mc::thorough() ? 4 : 3); std::vector<T> v; std::vector<U> w; for (unsigned i = 0; i < n; ++i) { v.push_back(mc::pick(A)); w.push_back(mc::pick(B)); } MC_LOG("integers ", v, " weights ", w);
    auto vv = make1(v); auto vw = make1(w); double t = 0, tw = 0, o = 0, ow = 0, s = 0; for (unsigned i = 0; i < n; ++i) { double x = v[i], y = w[i]; s += x; t += x*y; tw += y; o += x/(y*y); ow += 1/(y*y); }
    NEAR(vif::total(vv), s); NEAR(vif::mean(vv), s/n); NEAR(vif::rms(vv), rms_(v)); NEAR(vif::stddev(vv), std_(v)); NEAR(vif::weighted_mean(vv, vw), t/tw); auto r = vif::optimal_mean(vv, vw); MC_CHECK(nr(r.first, o/ow) && nr(r.second, 1/std::sqrt(ow)), "optimal_mean gave ", r); mc::op(6); mc::outcome(long(t/tw));
}
MC_SCENARIO_S(big_integers, 2) { switch (mc::choose(4)) { case 0: big_integers_<int,int>({-70000, 0, 65536, 2147483647}, {1, 65536, 70000}); break; case 1: big_integers_<short,short>({-32768, 3, 32767}, {1, 256, 32767}); break; case 2: big_integers_<unsigned,uint_t>({0u, 65536u, 4294967295u}, {1ul, 4294967296ul, 5000000000ul}); break; case 3: big_integers_<vif::int_t,int>({-5000000000l, 1, 4294967296l}, {1, 65536, 2147483647}); break; } }
MC_SCENARIO_S(weight_order, 2) {
    static const std::vector<double> W = {0.1, 0.2, 0.3, 0.7, 0}; unsigned n = 2 + mc::choose(mc::thorough() ? 4 : 3); std::vector<double> v, w, o; for (unsigned i = 0; i < n; ++i) o.push_back(i); while (!o.empty()) { unsigned k = mc::choose(o.size()); v.push_back(o[k]); o.erase(o.begin() + k); w.push_back(mc::pick(W)); }
    MC_LOG("values ", v, " weights ", w); auto vv = make1(v), vw = make1(w); double last = -1, tw = 0; for (unsigned i = 0; i < n; ++i) { tw += w[i]; if (w[i] != 0 && v[i] > last) last = v[i]; } mc::assume(tw > 0);
    double x = vif::weighted_percentile(vv, vw, 1.0); MC_CHECK(x == last, "the last percentile is ", x, " instead of ", last); mc::op(); mc::outcome(long(x));
}
template<typename T> void elementwise() {
    auto a = shaped<1,T>(3); auto b = Arr<T>({mc::flip() ? a.size() : sz(2)}); for (auto& x : b.v) x = mc::pick(alpha<T>()); for (auto x : a.v) mc::assume(!nan_(x)); for (auto x : b.v) mc::assume(!nan_(x));
    auto va = make<1,T>(a), vb = make<1,T>(b); vec<1,T> lo, hi; MC_LOG("min/max of ", a, " ", b);
    bool ok = mc::attempt([&]() { lo = vif::min(va, vb); hi = vif::max(va, vb); }); MC_CHECK(ok == (a.d == b.d), "elementwise min accepted: ", ok); if (!ok) return;
    Arr<T> el(a.d), eh(a.d); for (sz i = 0; i < a.size(); ++i) { el.v[i] = std::min(a.v[i], b.v[i]); eh.v[i] = std::max(a.v[i], b.v[i]); }
    expect(lo, el, "min of two vectors"); expect(hi, eh, "max of two vectors"); expect(vif::min(va[_], vb), el, "min of view and vector"); expect(vif::max(va, vb[_]), eh, "max of vector and view");
    T s = mc::pick(alpha<T>()); mc::assume(!nan_(s)); for (sz i = 0; i < a.size(); ++i) { el.v[i] = std::min(a.v[i], s); eh.v[i] = std::max(a.v[i], s); }
    expect(vif::min(va, s), el, "min with scalar"); expect(vif::max(va, s), eh, "max with scalar"); expect(vif::min(s, va), el, "min of scalar and vector"); expect(vif::max(s, va), eh, "max of scalar and vector");
}
MC_SCENARIO(elementwise_int) { elementwise<int>(); }
MC_SCENARIO(elementwise_double) { elementwise<double>(); }
MC_SCENARIO(sigma_clip) {
    auto a = shaped<1,double>(5); double sg = mc::pick({0.5, 1.0, 3.0}); mc::assume(!a.v.empty()); double m = med_(a.v), d = mad_(a.v); mc::assume(!nan_(m));
    Arr<bool> e(a.d); for (sz i = 0; i < a.size(); ++i) e.v[i] = std::fabs(a.v[i] - m) <= sg*1.48*d; MC_LOG("sigma_clip ", a);
    as_vec_or_view<1>(a, [&](auto& v) { expect(vif::sigma_clip(v, sg), e, "sigma_clip"); });
}
#endif

// Along one dimension
template<std::size_t D> struct Slices { Dims rd; std::vector<std::vector<double>> s; };
template<std::size_t D> Slices<D> slices(const Arr<double>& a, sz dim) {
    Slices<D> r; for (sz i = 0; i < D; ++i) if (i != dim) r.rd.push_back(a.d[i]);
    for (sz u = 0; u < prod(r.rd); ++u) { auto m = multi(r.rd, u); std::vector<double> t; for (sz j = 0; j < a.d[dim]; ++j) { auto f = m; f.insert(f.begin() + dim, j); t.push_back(a.v[flat(a.d, f)]); } r.s.push_back(t); }
    return r;
}
template<std::size_t D, typename F> void chk(const vec<D,double>& g, const Dims& rd, const std::vector<std::vector<double>>& s, F f, const char* what) {
    auto r = read(g); MC_CHECK(r.d == rd, what, ": dimensions ", r.d, " instead of ", rd); mc::op();
    for (sz u = 0; u < s.size(); ++u) { double e = f(s[u]); MC_CHECK(nr(r.v[u], e), what, ": element ", u, " is ", r.v[u], " instead of ", e); mc::outcome(mc::mix(u, (long)(e*64))); }
}
template<std::size_t D> void partial() {
    Dims d; for (sz i = 0; i < D; ++i) d.push_back(mc::choose(4)); Arr<double> a(d); unsigned seed = mc::choose(4); for (sz i = 0; i < a.size(); ++i) a.v[i] = ((i*7 + i*i*(seed+1) + seed) % 11) - 3.5; if (seed == 3) for (sz i = 0; i < a.size(); i += 3) a.v[i] = NaN;
    sz dim = mc::choose(D + 1); auto v = make<D,double>(a); MC_LOG("reduce dimension ", dim, " of ", a);
    if (dim == D) { unsigned k = mc::choose(4); bool ok = mc::attempt([&]() { if (k == 0) vif::partial_total(dim, v); if (k == 1) vif::partial_min(dim, v); if (k == 2) vif::reduce(dim, v, [](const vec<1,double>& t) { return vif::total(t); }); if (k == 3) vif::run_dim(dim, v, [](uint_t, vec<1,double>) {}); }); MC_CHECK(!ok, "reduction along dimension ", dim, " of ", D, " accepted"); return; }
    auto s = slices<D>(a, dim);
    bool view = mc::flip(); auto w = v(vif::repeat<D>(_));
    auto both = [&](auto f, auto o, const char* what) { if (view) chk<D-1>(f(w), s.rd, s.s, o, what); else chk<D-1>(f(v), s.rd, s.s, o, what); };
    using V = std::vector<double>;
    both([&](auto& x) { return vif::partial_total(dim, x); }, [](const V& t) { double r = 0; for (auto x : t) r += x; return r; }, "partial_total");
    both([&](auto& x) { return vif::partial_mean(dim, x); }, mean_<double>, "partial_mean");
    both([&](auto& x) { return vif::partial_rms(dim, x); }, rms_<double>, "partial_rms");
    both([&](auto& x) { return vif::partial_stddev(dim, x); }, std_<double>, "partial_stddev");
    both([&](auto& x) { return vif::reduce(dim, x, [](vec<1,double> t) { double r = t.size()*1000.0; for (sz i = 0; i < t.size(); ++i) r += i*t[i]; return r; }); }, [](const V& t) { double r = t.size()*1000.0; for (sz i = 0; i < t.size(); ++i) r += i*t[i]; return r; }, "reduce");
    if (d[dim] != 0) {
        both([&](auto& x) { return vif::partial_min(dim, x); }, [](const V& t) { auto s = valid(t); return s.empty() ? NaN : s.front(); }, "partial_min");
        both([&](auto& x) { return vif::partial_max(dim, x); }, [](const V& t) { auto s = valid(t); return s.empty() ? NaN : s.back(); }, "partial_max");
        both([&](auto& x) { return vif::partial_median(dim, x); }, med_<double>, "partial_median");
        both([&](auto& x) { return vif::partial_mad(dim, x); }, mad_<double>, "partial_mad");
        both([&](auto& x) { return vif::partial_percentile(dim, x, 0.3); }, [](const V& t) { return rank_(t, 0.3); }, "partial_percentile");
    }
    vec<D,bool> b = v > 0; auto fb = vif::partial_fraction_of(dim, b); chk<D-1>(fb, s.rd, s.s, [](const V& t) { double r = 0; for (auto x : t) r += x > 0; return r/t.size(); }, "partial_fraction_of");
    vec<D-1,double> cb(vif::partial_count(dim, b)); chk<D-1>(cb, s.rd, s.s, [](const V& t) { double r = 0; for (auto x : t) r += x > 0; return r; }, "partial_count");
    // run_dim: one call per slice, in order, with matching slices of all vectors
    sz n = 0; auto v2 = make<D,double>(a); for (sz i = 0; i < v2.size(); ++i) v2[i] = -a.v[i];
    auto one = [&](uint_t i, vec<1,double> t1, vec<1,double> t2) { MC_CHECK(i == n, "run_dim called with ", i, " instead of ", n); MC_CHECK(i < s.s.size(), "too many slices"); V m; for (auto x : s.s[i]) m.push_back(-x); expect1(t1, s.s[i], "slice"); expect1(t2, m, "slice of the second vector"); ++n; };
    vif::run_dim(dim, v, v2, one); MC_CHECK(n == s.s.size(), "run_dim called for ", n, " slices instead of ", s.s.size());
    expect(v, a, "argument");
}
#if PART == 2
MC_SCENARIO_S(partial_2, 2) { partial<2>(); }
MC_SCENARIO_S(partial_3, 3) { partial<3>(); }
MC_SCENARIO(run_dim_mismatch) { sz a = 1 + mc::choose(3), b = 1 + mc::choose(3), c = 1 + mc::choose(3), d = 1 + mc::choose(3); vec<2,double> v(a, b), w(c, d); bool ok = mc::attempt([&]() { vif::run_dim(0, v, w, [](uint_t, vec<1,double>, vec<1,double>) {}); }); MC_CHECK(ok == (a == c && b == d), "run_dim with different dimensions: ", ok); }
#endif
#if PART == 3
MC_SCENARIO_S(partial_4, 3) { if (!mc::thorough()) { } partial<4>(); }
#endif
