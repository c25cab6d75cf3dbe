// C10: sort and binary searches.
#include "vifref.hpp"
#include <algorithm>
#include <cmath>
using namespace vr;
using vif::_;
using vif::npos;
static const double NaN = std::nan(""), Inf = INFINITY;

template<typename T> std::vector<T> alpha();
template<> std::vector<int> alpha() { return {-3, 0, 7}; }
template<> std::vector<uint_t> alpha() { return {0, 1, (uint_t)-1}; }
template<> std::vector<double> alpha() { return {-1.5, -0.0, Inf, NaN}; }
template<> std::vector<float> alpha() { return {-INFINITY, 0.0f, 2.0f, NAN}; }
template<> std::vector<std::string> alpha() { return {"", "a", "ab"}; }
template<> std::vector<bool> alpha() { return {false, true}; }
template<> std::vector<char> alpha() { return {'\x80', 'a', 'b'}; }

template<typename T> std::vector<T> word(unsigned maxn) {
    auto al = alpha<T>(); unsigned n = mc::choose(maxn + 1); std::vector<T> r;
    for (unsigned i = 0; i < n; ++i) r.push_back(al[mc::choose(al.size())]);
    return r;
}
template<std::size_t D, typename T> Arr<T> shaped(unsigned maxn) {
    auto w = word<T>(maxn); Dims d;
    if (D == 1) d = {w.size()};
    else { std::vector<Dims> c; if (w.empty()) c = {{0,0},{0,2},{2,0}}; else for (sz k = 1; k <= w.size(); ++k) if (w.size() % k == 0) c.push_back({k, w.size()/k}); d = mc::pick(c); }
    return Arr<T>(d, w);
}
template<typename T> bool less_(const T& a, const T& b) { if (a != a) return false; if (b != b) return true; return a < b; }

// selection sort: independent of the standard algorithms used by the library
template<typename T, typename L> std::vector<sz> order(const std::vector<T>& w, L less) {
    std::vector<sz> r; std::vector<bool> used(w.size());
    for (sz k = 0; k < w.size(); ++k) { sz b = npos; for (sz i = 0; i < w.size(); ++i) if (!used[i] && (b == npos || less(w[i], w[b]))) b = i; used[b] = true; r.push_back(b); }
    return r;
}
template<typename T, std::size_t D> void sort_(unsigned n) {
    auto a = shaped<D,T>(n); auto o = order(a.v, less_<T>);
    Arr<T> s(a.d, {}); for (auto k : o) s.v.push_back(a.v[k]);
    bool is = true; for (sz i = 0; i < o.size(); ++i) if (o[i] != i) is = false;
    MC_LOG("sort ", a);
    as_vec_or_view<D>(a, [&](auto& v) { expect1(vif::sort(v), o, "sort"); if constexpr (!std::is_same<T,bool>::value) MC_CHECK(vif::is_sorted(v) == is, "is_sorted gave ", !is); });
    auto v = make<D,T>(a); vif::inplace_sort(v); expect(v, s, "inplace_sort"); if constexpr (!std::is_same<T,bool>::value) MC_CHECK(vif::is_sorted(v), "not sorted after inplace_sort");
    // custom comparison: decreasing order, stable
    auto gt = [](const T& x, const T& y) { return less_<T>(y, x); };
    auto og = order(a.v, gt); Arr<T> sg(a.d, {}); for (auto k : og) sg.v.push_back(a.v[k]);
    auto w = make<D,T>(a); expect1(vif::sort(w, gt), og, "sort with comparison"); vif::inplace_sort(w, gt); expect(w, sg, "inplace_sort with comparison");
    // stability seen through an index vector and a partial key
    vec<1,uint_t> id = vif::indgen<uint_t>(a.size()); vif::inplace_sort(id, [&](uint_t i, uint_t j) { return less_<T>(a.v[i], a.v[j]); }); expect1(id, o, "inplace_sort of indices");
}
MC_SCENARIO_S(sort_int, 2) { sort_<int,1>(mc::thorough() ? 9 : 6); }
MC_SCENARIO_S(sort_double, 2) { sort_<double,1>(mc::thorough() ? 7 : 5); }
MC_SCENARIO_S(sort_float, 2) { sort_<float,1>(mc::thorough() ? 7 : 5); }
MC_SCENARIO_S(sort_string, 2) { sort_<std::string,1>(mc::thorough() ? 8 : 5); }
MC_SCENARIO_S(sort_bool, 2) { sort_<bool,1>(mc::thorough() ? 14 : 8); }
MC_SCENARIO_S(sort_char, 2) { sort_<char,1>(5); }
MC_SCENARIO_S(sort_double2, 2) { sort_<double,2>(4); }
MC_SCENARIO_S(sort_int2, 2) { sort_<int,2>(6); }
MC_SCENARIO(sort_long) { // longer than the insertion sort threshold of std::stable_sort
    unsigned n = 17 + 7*mc::choose(6), m = 1 + mc::choose(5), k = 1 + 2*mc::choose(8), nanp = mc::choose(4);
    std::vector<double> w; for (unsigned i = 0; i < n; ++i) w.push_back(nanp && i % (nanp+1) == 0 ? NaN : double((i*k + i*i*m) % (3*m)));
    auto v = make1(w); auto o = order(w, less_<double>); expect1(vif::sort(v), o, "sort of a long vector");
    std::vector<double> s; for (auto i : o) s.push_back(w[i]); vif::inplace_sort(v); expect1(v, s, "inplace_sort of a long vector");
}
// sorting a view reorders the values it selects
MC_SCENARIO(sort_view) {
    auto a = word<int>(4); unsigned n = a.size(); std::vector<sz> ids; std::vector<bool> used(n); unsigned m = mc::choose(n + 1);
    for (unsigned i = 0; i < m; ++i) { unsigned k = mc::choose(n); mc::assume(!used[k]); used[k] = true; ids.push_back(k); }
    auto v = make1(a); auto w = v[makeu(ids)]; std::vector<int> sel; for (auto i : ids) sel.push_back(a[i]);
    MC_LOG("sort of view ", a, " ", ids);
    auto o = order(sel, less_<int>); std::vector<int> e; for (auto i : o) e.push_back(sel[i]);
    vif::inplace_sort(w); expect1(w, e, "inplace_sort of a view");
    auto bag = read(v).v; auto b0 = a; std::sort(bag.begin(), bag.end()); std::sort(b0.begin(), b0.end()); MC_CHECK(bag == b0, "sorting a view lost values of the vector");
}

template<typename T, typename X, std::size_t D> void search_(const std::vector<X>& xs, unsigned n) {
    auto a = shaped<D,T>(n); for (auto x : a.v) mc::assume(x == x);
    for (sz i = 1; i < a.size(); ++i) mc::assume(!(a.v[i] < a.v[i-1]));
    X x = mc::pick(xs), x2 = mc::pick(xs);
    // exact comparison between any two of the types used here
    auto le = [](const T& e, const X& y) { if constexpr (std::is_arithmetic<T>::value) return (long double)e <= (long double)y; else return e <= y; };
    auto eq = [](const T& e, const X& y) { if constexpr (std::is_arithmetic<T>::value) return (long double)e == (long double)y; else return e == y; };
    auto lb = [&](const X& y) { sz r = npos; for (sz i = 0; i < a.size(); ++i) if (le(a.v[i], y)) r = i; return r; };
    auto ub = [&](const X& y) { for (sz i = 0; i < a.size(); ++i) if (!le(a.v[i], y)) return sz(i); return sz(npos); };
    sz f = npos, l = npos; for (sz i = 0; i < a.size(); ++i) if (eq(a.v[i], x)) { if (f == npos) f = i; l = i; }
    MC_LOG("search ", x, " and ", x2, " in ", a);
    as_vec_or_view<D>(a, [&](auto& v) {
        uint_t r1 = vif::lower_bound(v, x), r2 = vif::upper_bound(v, x); auto b = vif::bounds(v, x); auto e = vif::equal_range(v, x);
        MC_CHECK(r1 == lb(x), "lower_bound gave ", r1, " instead of ", lb(x)); MC_CHECK(r2 == ub(x), "upper_bound gave ", r2, " instead of ", ub(x));
        MC_CHECK(b[0] == lb(x) && b[1] == ub(x), "bounds gave ", b);
        MC_CHECK(e[0] == f && e[1] == l, "equal_range gave ", e, " instead of ", f, " ", l);
        if (!(x2 < x)) { auto c = vif::bounds(v, x, x2); MC_CHECK(c[0] == lb(x) && c[1] == ub(x2), "bounds of two values gave ", c); }
        mc::op(); mc::outcome(mc::mix(r1, r2)); mc::outcome(mc::mix(e[0], e[1]) + 7);
    });
}
MC_SCENARIO_S(search_int, 2) { search_<int,int,1>({-4,-3,-1,0,3,7,8}, 5); }
MC_SCENARIO_S(search_int_double, 2) { search_<int,double,1>({-3.5,-3,-2.5,-0.5,0,0.5,7.5,Inf,-Inf}, 5); }
MC_SCENARIO_S(search_double, 2) { search_<double,double,1>({-2.,-1.5,0.,1.,Inf,-Inf}, 5); }
MC_SCENARIO_S(search_double_int, 2) { search_<double,int,1>({-2,-1,0,1}, 4); }
MC_SCENARIO_S(search_uint, 2) { search_<uint_t,uint_t,1>({0,1,2,(uint_t)-2,(uint_t)-1}, 5); }
MC_SCENARIO_S(search_int_uint, 2) { search_<int,uint_t,1>({0,3,7,8,(uint_t)-1}, 4); }
MC_SCENARIO_S(search_uint_int, 2) { search_<uint_t,int,1>({-1,0,1,2}, 4); }
MC_SCENARIO_S(search_string, 2) { search_<std::string,std::string,1>({"","a","aa","ab","b"}, 4); }
MC_SCENARIO_S(search_int2, 2) { search_<int,int,2>({-4,-3,-1,0,7,8}, 4); }
MC_SCENARIO_S(search_float, 2) { search_<float,double,1>({-1e300,0.,1.,2.,2.0000000001,1e300}, 4); }
