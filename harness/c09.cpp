// C09: element searches (where, complement, match, set operations, unique, is_any_of, astar_find).
#include "vifref.hpp"
#include <algorithm>
#include <cmath>
#include <map>
using namespace vr;
using vif::_;
using vif::npos;
static const double NaN = std::nan("");

template<typename T> std::vector<T> alpha();
template<> std::vector<int> alpha() { return {-1, 0, 2}; }
template<> std::vector<uint_t> alpha() { return {0, 1, (uint_t)-1}; }
template<> std::vector<double> alpha() { return {-1.5, 2.0, NaN}; }
template<> std::vector<std::string> alpha() { return {"", "a", "b"}; }
template<> std::vector<bool> alpha() { return {false, true}; }

template<typename T> std::vector<T> word(unsigned maxn) {
    auto al = alpha<T>(); unsigned n = mc::choose(maxn + 1); std::vector<T> r;
    for (unsigned i = 0; i < n; ++i) r.push_back(al[mc::choose(al.size())]);
    return r;
}
// all shapes of rank D whose size is the length of the word
template<std::size_t D, typename T> Arr<T> shaped(unsigned maxn) {
    auto w = word<T>(maxn); Dims d;
    if (D == 1) d = {w.size()};
    else { std::vector<Dims> c; if (w.empty()) c = {{0,0},{0,2},{2,0}}; else for (sz k = 1; k <= w.size(); ++k) if (w.size() % k == 0) c.push_back({k, w.size()/k}); d = mc::pick(c); }
    return Arr<T>(d, w);
}

template<std::size_t D> void where_() {
    auto a = shaped<D,bool>(D == 1 ? 8 : 6);
    std::vector<sz> e, ce; for (sz i = 0; i < a.size(); ++i) (a.v[i] ? e : ce).push_back(i);
    MC_LOG("where of ", a);
    as_vec_or_view<D>(a, [&](auto& v) {
        auto id = vif::where(v); expect1(id, e, "where");
        uint_t f = vif::where_first(v), l = vif::where_last(v);
        MC_CHECK(f == (e.empty() ? npos : e.front()), "where_first gave ", f); MC_CHECK(l == (e.empty() ? npos : e.back()), "where_last gave ", l);
        expect1(vif::complement(v, id), ce, "complement of where");
        expect1(vif::complement(v, vif::where(!v)), e, "complement of where(!v)");
    });
}
MC_SCENARIO(where_1d) { where_<1>(); }
MC_SCENARIO(where_2d) { where_<2>(); }
MC_SCENARIO(complement_order) {
    // the set may be given in any order
    unsigned n = 1 + mc::choose(4); std::vector<sz> ids; std::vector<bool> used(n); unsigned m = mc::choose(n + 1);
    for (unsigned i = 0; i < m; ++i) { unsigned k = mc::choose(n); mc::assume(!used[k]); used[k] = true; ids.push_back(k); }
    std::vector<sz> e; for (sz i = 0; i < n; ++i) if (!used[i]) e.push_back(i);
    vec<1,double> v(n); vec<2,char> v2(uint_t(1), n);
    expect1(vif::complement(v, makeu(ids)), e, "complement"); expect1(vif::complement(v2, makeu(ids)), e, "complement 2D");
}

template<typename T> bool eq(const T& a, const T& b) { return a == b; }
template<typename T, std::size_t D> void match_() {
    auto a = shaped<D,T>(D == 1 ? 4 : 2), b = shaped<1,T>(4);
    std::vector<sz> e1, e2;
    for (sz i = 0; i < a.size(); ++i) for (sz j = 0; j < b.size(); ++j) if (eq<T>(a.v[i], b.v[j])) { e1.push_back(i); e2.push_back(j); break; }
    MC_LOG("match ", a, " and ", b);
    auto vb = make<1,T>(b);
    as_vec_or_view<D>(a, [&](auto& va) {
        vec<1,uint_t> i1 = {7,7,7}, i2 = {9}; vif::match(va, vb, i1, i2); expect1(i1, e1, "match id1"); expect1(i2, e2, "match id2");
        auto r = vif::is_any_of(va, vb); Arr<bool> er(a.d); for (sz i = 0; i < a.size(); ++i) er.v[i] = std::count(e1.begin(), e1.end(), i);
        expect(r, er, "is_any_of");
        if (!a.v.empty()) MC_CHECK(vif::is_any_of(T(a.v[0]), vb) == bool(er.v[0]), "is_any_of(scalar) disagrees");
    });
}
MC_SCENARIO_S(match_int, 2) { match_<int,1>(); }
MC_SCENARIO_S(match_double, 2) { match_<double,1>(); }
MC_SCENARIO_S(match_string, 2) { match_<std::string,1>(); }
MC_SCENARIO(match_int2) { match_<int,2>(); }
MC_SCENARIO(match_bool) { match_<bool,1>(); }
// above 64 elements another algorithm is used: place the enumerated values among 62..66 others
template<typename T> void match_long_() {
    auto a = shaped<1,T>(3), b = shaped<1,T>(3); unsigned pos = mc::choose(3), common = mc::choose(2), n = 61 + mc::choose(4);
    auto num = [](int k) -> T { if constexpr (std::is_same<T,std::string>::value) return "z" + std::to_string(k); else return T(100 + k); };
    auto build = [&](const std::vector<T>& w, bool other) {
        std::vector<T> r; for (unsigned k = 0; k < n; ++k) r.push_back(num(int((k*37) % n) + (other ? (common ? 0 : 1000) : 0)));
        sz p = pos == 0 ? 0 : pos == 1 ? n/2 : n; r.insert(r.begin() + p, w.begin(), w.end()); return r;
    };
    auto x = build(a.v, false), y = build(b.v, true);
    std::vector<sz> e1, e2; for (sz i = 0; i < x.size(); ++i) for (sz j = 0; j < y.size(); ++j) if (eq<T>(x[i], y[j])) { e1.push_back(i); e2.push_back(j); break; }
    MC_LOG("match of ", x.size(), " and ", y.size(), " values, special ", a, " ", b, " at ", pos);
    vec<1,uint_t> i1, i2; auto vx = make1(x), vy = make1(y); vif::match(vx, vy, i1, i2); expect1(i1, e1, "match id1"); expect1(i2, e2, "match id2");
}
MC_SCENARIO_S(match_long_int, 3) { match_long_<int>(); }
MC_SCENARIO_S(match_long_double, 3) { match_long_<double>(); }
MC_SCENARIO_S(match_long_string, 3) { match_long_<std::string>(); }

template<typename T> bool less_(const T& a, const T& b) { if (a != a) return false; if (b != b) return true; return a < b; }
template<typename T> std::vector<T> sorted_(std::vector<T> w) { std::stable_sort(w.begin(), w.end(), less_<T>); return w; }
template<typename T, typename U> void sets_() {
    auto a = word<T>(4); auto bu = word<U>(4); std::vector<T> b(bu.begin(), bu.end());
    using R = decltype(T()*U());
    auto sa = sorted_(a), sb = sorted_(b);
    std::vector<R> ei, eu; 
    auto cnt = [&](const std::vector<T>& w, T x) { sz n = 0; for (auto y : w) if (mc::same<T>(x, y)) ++n; return n; };
    auto all = sa; all.insert(all.end(), sb.begin(), sb.end()); all = sorted_(all);
    for (sz i = 0; i < all.size(); ++i) { if (i && mc::same<T>(all[i], all[i-1])) continue; sz n1 = cnt(a, all[i]), n2 = cnt(b, all[i]); for (sz k = 0; k < std::min(n1,n2); ++k) ei.push_back(all[i]); for (sz k = 0; k < std::max(n1,n2); ++k) eu.push_back(all[i]); }
    MC_LOG("sets ", a, " and ", b);
    auto va = make1(a); auto vb = make1(bu); std::vector<U> sbu(sb.begin(), sb.end()); auto vsa = make1(sa); auto vsb = make1(sbu);
    expect1(vif::set_intersection(va, vb), ei, "set_intersection"); expect1(vif::set_union(va, vb), eu, "set_union");
    expect1(vif::set_intersection(vb, va), ei, "set_intersection swapped"); expect1(vif::set_union(vb, va), eu, "set_union swapped");
    expect1(vif::set_intersection_sorted(vsa, vsb), ei, "set_intersection_sorted"); expect1(vif::set_union_sorted(vsa, vsb), eu, "set_union_sorted");
    expect1(va, a, "argument"); expect1(vb, bu, "argument");
}
MC_SCENARIO_S(sets_int, 2) { sets_<int,int>(); }
MC_SCENARIO_S(sets_double, 2) { sets_<double,double>(); }
MC_SCENARIO_S(sets_mixed, 2) { sets_<double,int>(); }
MC_SCENARIO_S(sets_uint, 2) { sets_<uint_t,uint_t>(); }

template<typename T, std::size_t D> void unique_() {
    auto a = shaped<D,T>(D == 1 ? 6 : 4);
    bool nan = false; if constexpr (std::is_floating_point<T>::value) for (auto x : a.v) if (x != x) nan = true;
    mc::assume(!nan); // NaN is not equal to itself: uniqueness of NaN is not specified
    std::vector<sz> o(a.size()); for (sz i = 0; i < o.size(); ++i) o[i] = i;
    std::stable_sort(o.begin(), o.end(), [&](sz i, sz j) { return a.v[i] < a.v[j]; });
    std::vector<sz> e; std::vector<T> ev; for (sz k = 0; k < o.size(); ++k) if (k == 0 || a.v[o[k]] != a.v[o[k-1]]) { e.push_back(o[k]); ev.push_back(a.v[o[k]]); }
    MC_LOG("unique ", a);
    as_vec_or_view<D>(a, [&](auto& v) {
        expect1(vif::unique_ids(v), e, "unique_ids"); expect1(vif::unique_ids(v, vif::sort(v)), e, "unique_ids with sort ids");
        expect1(vif::unique_values(v), ev, "unique_values"); expect1(vif::unique_values(v, vif::sort(v)), ev, "unique_values with sort ids");
    });
    Arr<T> s(a.d, std::vector<T>()); for (auto k : o) s.v.push_back(a.v[k]);
    std::vector<sz> es; for (sz k = 0; k < s.size(); ++k) if (k == 0 || s.v[k] != s.v[k-1]) es.push_back(k);
    as_vec_or_view<D>(s, [&](auto& v) { expect1(vif::unique_ids_sorted(v), es, "unique_ids_sorted"); expect1(vif::unique_values_sorted(v), ev, "unique_values_sorted"); });
}
MC_SCENARIO_S(unique_int, 2) { unique_<int,1>(); }
MC_SCENARIO_S(unique_double, 2) { unique_<double,1>(); }
MC_SCENARIO_S(unique_string, 2) { unique_<std::string,1>(); }
MC_SCENARIO(unique_int2) { unique_<int,2>(); }
MC_SCENARIO(unique_bool) { unique_<bool,1>(); }

MC_SCENARIO_S(astar, 3) {
    static const std::vector<Dims> sh = {{1,1},{1,5},{5,1},{2,3},{3,3},{3,4}};
    Dims d = mc::pick(sh); if (!mc::thorough()) mc::assume(prod(d) <= 9);
    Arr<bool> a(d); for (sz i = 0; i < a.size(); ++i) a.v[i] = mc::flip();
    sz x0 = mc::choose(d[0] + 1), y0 = mc::choose(d[1] + 1);
    sz sx = std::min(x0, d[0]-1), sy = std::min(y0, d[1]-1); long best = -1;
    auto dist = [&](sz i, sz j) { return std::labs((long)i - (long)sx) + std::labs((long)j - (long)sy); };
    for (sz i = 0; i < d[0]; ++i) for (sz j = 0; j < d[1]; ++j) if (a.v[i*d[1]+j] && (best < 0 || dist(i,j) < best)) best = dist(i,j);
    auto m = make<2,bool>(a); uint_t x = x0, y = y0;
    MC_LOG("astar ", a, " from ", x0, ",", y0);
    bool r = vif::astar_find(m, x, y);
    MC_CHECK(r == (best >= 0), "astar_find returned ", r);
    if (r) { MC_CHECK(x < d[0] && y < d[1] && a.v[x*d[1]+y], "astar_find found (", x, ",", y, ") which is not true"); MC_CHECK(dist(x,y) == best, "astar_find: (", x, ",", y, ") is not the closest"); }
    mc::op(); mc::outcome(mc::mix(x, y) + r);
}
