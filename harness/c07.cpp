// C07: range(), iterators and strides visit exactly the right positions, in order.
#include "vifref.hpp"
using namespace vr;
using vif::_;
using vif::range;
#ifndef PART
#define PART 99
#endif

#if PART == 0 || PART == 99
template<typename T> void range_n() {
    unsigned n = mc::choose(7);
    std::vector<long> got, exp; for (unsigned i = 0; i < n; ++i) exp.push_back(i);
    for (T i : range(T(n))) { got.push_back((long)i); MC_CHECK(got.size() <= 20, "range does not stop"); }
    MC_CHECK(got == exp, "range(", n, ") gave ", got);
    unsigned b = mc::choose(7); mc::assume(b <= n);
    got.clear(); exp.clear(); for (unsigned i = b; i < n; ++i) exp.push_back(i);
    for (T i : range(T(b), T(n))) { got.push_back((long)i); MC_CHECK(got.size() <= 20, "range does not stop"); }
    MC_CHECK(got == exp, "range(", b, ",", n, ") gave ", got);
    mc::op(2); mc::outcome(mc::mix(n, b));
}
MC_SCENARIO(range_uint) { range_n<uint_t>(); }
MC_SCENARIO(range_int) { range_n<int>(); }
MC_SCENARIO(range_unsigned) { range_n<unsigned>(); }
MC_SCENARIO(range_long) { range_n<long>(); }
MC_SCENARIO(range_negative) {
    int a = int(mc::choose(6)) - 5, b = int(mc::choose(8)) - 4; mc::assume(a <= b);
    std::vector<int> got, exp; for (int i = a; i < b; ++i) exp.push_back(i);
    for (int i : range(a, b)) { got.push_back(i); MC_CHECK(got.size() <= 20, "range does not stop"); }
    MC_CHECK(got == exp, "range(", a, ",", b, ") gave ", got); mc::op(); mc::outcome(mc::mix(a+10, b+10));
}
MC_SCENARIO(range_steps) {
    // n equal steps from i to e (excluded)
    int i = int(mc::choose(5)) - 2, d = int(mc::choose(7)) - 3; unsigned n = mc::choose(5);
    int e = i + d*(int)n;
    std::vector<int> got, exp; for (unsigned k = 0; k < n; ++k) exp.push_back(i + d*(int)k);
    for (int x : range(i, e, n)) { got.push_back(x); MC_CHECK(got.size() <= 20, "range does not stop"); }
    MC_CHECK(got == exp, "range(", i, ",", e, ",", n, ") gave ", got); mc::op();
    std::vector<double> gd, ed; for (unsigned k = 0; k < n; ++k) ed.push_back(0.25*i + 0.25*d*k);
    for (double x : range(0.25*i, 0.25*e, n)) { gd.push_back(x); MC_CHECK(gd.size() <= 20, "range does not stop"); }
    MC_CHECK(gd == ed, "floating point range gave ", gd); mc::op(); mc::outcome(mc::mix(i+10, d*10+n));
}
MC_SCENARIO(range_vec) {
    sz a = mc::choose(4), b = mc::choose(4), c = mc::choose(3);
    auto v = make<3,int>(filled<int>({a,b,c}, 1));
    sz k = 0; for (uint_t i : range(v)) { MC_CHECK(i == k, "range(v)"); ++k; }
    MC_CHECK(k == a*b*c, "range(v) visits ", k, " indices of ", a*b*c);
    auto w = v(_,_,_); k = 0; for (uint_t i : range(w)) { MC_CHECK(i == k, "range(view)"); ++k; }
    MC_CHECK(k == a*b*c, "range(view)");
    std::vector<int> sv(a + b); k = 0; for (auto i : range(sv)) { MC_CHECK(i == k, "range(std::vector)"); ++k; }
    MC_CHECK(k == a + b, "range(std::vector)");
    mc::op(3); mc::outcome(a*100+b*10+c);
}
#endif

// Walk an iterator: model position p in [0,n]
template<typename It, typename T> void walk(It b, It e, const std::vector<T>& el, unsigned depth, bool writable, std::function<void(sz, T)> wrote) {
    sz n = el.size(); std::vector<T> cur = el;
    MC_CHECK((long)(e - b) == (long)n, "end - begin is ", (long)(e - b), " instead of ", n);
    MC_CHECK((b == e) == (n == 0) && (b != e) == (n != 0), "begin/end comparison");
    It it = b; sz p = 0;
    for (unsigned s = 0; s < depth; ++s) {
        unsigned op = mc::choose(10);
        It old = it; sz oldp = p;
        switch (op) {
        case 0: mc::assume(p < n); { It& r = ++it; ++p; MC_CHECK(&r == &it, "++it"); } break;
        case 1: mc::assume(p < n); { It r = it++; MC_CHECK(r == old, "it++ returns the previous position"); ++p; } break;
        case 2: mc::assume(p > 0); { --it; --p; } break;
        case 3: mc::assume(p > 0); { It r = it--; MC_CHECK(r == old, "it-- returns the previous position"); --p; } break;
        case 4: mc::assume(p + 2 <= n); it += 2; p += 2; break;
        case 5: mc::assume(p >= 2); it -= 2; p -= 2; break;
        case 6: { it = b + (long)n; p = n; break; }
        case 7: mc::assume(p >= 1); { it = it - 1; p -= 1; break; }
        case 8: mc::assume(p < n); if (writable) { T t = Val<T>::make(500 + s); wrote(p, t); cur[p] = t; } break;
        case 9: mc::assume(p >= 3); it += -3; p -= 3; break;
        }
        MC_LOG("op ", op, " -> position ", p);
        mc::op();
        MC_CHECK((long)(it - b) == (long)p, "it - begin is ", (long)(it - b), " instead of ", p);
        MC_CHECK((long)(e - it) == (long)(n - p), "end - it");
        MC_CHECK((long)(b - it) == -(long)p && (long)(it - e) == (long)p - (long)n && (long)(it - old) == (long)p - (long)oldp && (long)(old - it) == (long)oldp - (long)p, "negative differences at ", p);
        MC_CHECK((it == e) == (p == n) && (it != e) == (p != n) && (it < e) == (p < n) && (it >= e) == (p >= n) && (it > b) == (p > 0) && (it <= b) == (p <= 0), "comparisons at ", p);
        MC_CHECK((it < old) == (p < oldp) && (it == old) == (p == oldp), "comparison with previous position");
        if (p < n) { T got = *it; MC_CHECK(got == cur[p], "element ", p, ": ", got, " instead of ", cur[p]); }
        mc::outcome(mc::mix(p, n));
    }
    { It q = e; for (sz k = n; k-- > 0;) { --q; T got = *q; MC_CHECK(got == cur[k] && (long)(q - b) == (long)k, "element ", k, " reached from the end: ", got, " instead of ", cur[k]); } MC_CHECK(q == b, "begin reached from the end"); }
}

#if PART == 1 || PART == 99
template<typename T> void iter1() {
    unsigned cat = mc::choose(4); sz n = mc::choose(5);
    auto a = filled<T>({n}, 10); auto v = make<1,T>(a); const auto& cv = v;
    unsigned depth = mc::thorough() ? 6 : 5;
    MC_LOG("category ", cat, " n ", n);
    if (cat == 0) { walk<decltype(v.begin()),T>(v.begin(), v.end(), a.v, depth, true, [&](sz p, T t) { *(v.begin() + p) = t; a.v[p] = t; }); expect(v, a, "written through iterator"); }
    if (cat == 1) walk<decltype(cv.begin()),T>(cv.begin(), cv.end(), a.v, depth, false, [](sz, T) {});
    if (cat >= 2) {
        // view in reverse order
        vec<1,uint_t> ids; std::vector<T> rv; for (sz i = n; i-- > 0;) { ids.push_back(i); rv.push_back(a.v[i]); }
        auto w = v[ids]; const auto& cw = w;
        if (cat == 2) { walk<decltype(w.begin()),T>(w.begin(), w.end(), rv, depth, true, [&](sz p, T t) { auto it = w.begin(); it += p; *it = t; a.v[n-1-p] = t; }); expect(v, a, "written through view iterator"); }
        else walk<decltype(cw.begin()),T>(cw.begin(), cw.end(), rv, depth, false, [](sz, T) {});
    }
}
MC_SCENARIO(iter_int) { iter1<int>(); }
MC_SCENARIO(iter_bool) { iter1<bool>(); }
MC_SCENARIO(iter_string) { iter1<std::string>(); }
#endif

#if PART == 2 || PART == 99
template<typename V, typename T, typename MK> void stride_walk(V& v, const std::vector<T>& el, MK mk, bool writable, unsigned depth) {
    auto st = mk(v);
    std::vector<T> got; for (auto& x : st) { got.push_back(x); MC_CHECK(got.size() <= el.size(), "stride visits too many elements"); }
    MC_CHECK(got == el, "stride: expected ", el, " got ", got);
    mc::op();
    auto st2 = mk(v);
    walk<decltype(st2.begin()),T>(st2.begin(), st2.end(), el, depth, writable, [&](sz p, T t) { auto it = st2.begin(); it += p; if constexpr (!std::is_const<typename std::remove_reference<V>::type>::value) *it = t; });
}
template<typename T> void stride2() {
    unsigned cat = mc::choose(4); Dims d = mc::pick(std::vector<Dims>{{2,3},{3,2},{1,3},{4,1},{1,1}});
    auto a = filled<T>(d, 10); auto v = make<2,T>(a); const auto& cv = v;
    bool row = mc::flip();                       // stride(i,_) or stride(_,i)
    sz m = row ? d[0] : d[1]; long i = long(mc::choose(2*m + 1)) - (long)m;
    bool bad = i >= (long)m; sz r = i < 0 ? i + m : i;
    std::vector<T> el; if (!bad) for (sz k = 0; k < (row ? d[1] : d[0]); ++k) el.push_back(row ? a.v[r*d[1] + k] : a.v[k*d[1] + r]);
    MC_LOG("dims ", d, " category ", cat, row ? " stride(i,_)" : " stride(_,i)", " i=", i);
    auto mkr = [&](auto& o) { return o.stride(i, _); }; auto mkc = [&](auto& o) { return o.stride(_, i); };
    if (bad) {
        bool ok = mc::attempt([&]() { if (row) (void)mkr(v); else (void)mkc(v); });
        MC_CHECK(!ok, "out of bounds stride accepted"); return;
    }
    unsigned depth = 3;
    if (cat == 0) { if (row) stride_walk<decltype(v),T>(v, el, mkr, true, depth); else stride_walk<decltype(v),T>(v, el, mkc, true, depth); }
    if (cat == 1) { if (row) stride_walk<decltype(cv),T>(cv, el, mkr, false, depth); else stride_walk<decltype(cv),T>(cv, el, mkc, false, depth); }
    if (cat == 2) { auto w = v(_,_); if (row) stride_walk<decltype(w),T>(w, el, mkr, true, depth); else stride_walk<decltype(w),T>(w, el, mkc, true, depth); }
    if constexpr (!std::is_same<T,bool>::value) if (cat == 3) {
        auto rr = [&](auto& o) { return o.raw_stride(i, _); }; auto rc = [&](auto& o) { return o.raw_stride(_, i); };
        if (row) stride_walk<decltype(v),T>(v, el, rr, true, depth); else stride_walk<decltype(v),T>(v, el, rc, true, depth);
    }
}
MC_SCENARIO_S(stride_int, 4) { stride2<int>(); }
MC_SCENARIO_S(stride_string, 4) { stride2<std::string>(); }
MC_SCENARIO_S(stride_bool, 4) { stride2<bool>(); }
#endif
#if PART == 3 || PART == 99
MC_SCENARIO(stride_3d) {
    Dims d = mc::pick(std::vector<Dims>{{2,3,2},{3,1,2},{2,2,3},{0,2,2},{2,0,2},{2,2,0}});
    auto a = filled<int>(d, 10); auto v = make<3,int>(a);
    unsigned ax = mc::choose(3); sz u = mc::choose(3), w = mc::choose(3);
    sz o1 = ax == 0 ? 1 : 0, o2 = ax == 2 ? 1 : 2;
    bool bad = u >= d[o1] || w >= d[o2];
    std::vector<int> el, got;
    if (!bad) for (sz k = 0; k < d[ax]; ++k) { std::vector<sz> id(3); id[ax] = k; id[o1] = u; id[o2] = w; el.push_back(a.v[flat(d, id)]); }
    MC_LOG("dims ", d, " axis ", ax, " ", u, " ", w);
    bool ok = mc::attempt([&]() {
        auto go = [&](auto st) { for (auto& x : st) { got.push_back(x); MC_CHECK(got.size() <= 10, "stride does not stop"); } };
        if (ax == 0) go(v.stride(_, u, w)); if (ax == 1) go(v.stride(u, _, w)); if (ax == 2) go(v.stride(u, w, _));
    });
    if (bad) { MC_CHECK(!ok || got.empty(), "out of bounds stride accepted"); return; }
    MC_CHECK(ok && got == el, "stride: expected ", el, " got ", got);
    // write
    auto st = [&](auto s) { int k = 0; for (auto& x : s) x = 900 + k++; };
    if (ax == 0) st(v.stride(_, u, w)); if (ax == 1) st(v.stride(u, _, w)); if (ax == 2) st(v.stride(u, w, _));
    for (sz k = 0; k < d[ax]; ++k) { std::vector<sz> id(3); id[ax] = k; id[o1] = u; id[o2] = w; a.v[flat(d, id)] = 900 + k; }
    expect(v, a, "written through stride");
}
MC_SCENARIO(algorithms) {
    // the iterators work with standard algorithms, including on views, strides and booleans
    sz n = mc::choose(5); std::vector<int> a(n); for (auto& x : a) x = mc::choose(3);
    vec<1,int> v = make1(a); auto rev = a; 
    unsigned k = mc::choose(6);
    MC_LOG("algorithm ", k, " on ", a);
    auto s = a; std::sort(s.begin(), s.end());
    if (k == 0) { std::sort(v.begin(), v.end()); expect1(v, s, "std::sort"); }
    if (k == 1) { auto w = v(_); std::sort(w.begin(), w.end()); expect1(v, s, "std::sort on a view"); }
    if (k == 2) { std::reverse(rev.begin(), rev.end()); auto w = v(_); std::reverse(w.begin(), w.end()); expect1(v, rev, "std::reverse on a view"); }
    if (k == 3) { vec<2,int> m(uint_t(n), uint_t(2)); for (sz i = 0; i < n; ++i) { m(i, 0) = a[i]; m(i, 1) = 100; }
        auto st = m.stride(_, 0);
        if (n > 0) { std::sort(st.begin(), st.end()); for (sz i = 0; i < n; ++i) MC_CHECK(m(i, 0) == s[i] && m(i, 1) == 100, "std::sort on a stride"); } }
    if (k == 4) { vec<1,bool> b(n); std::vector<bool> bb(n); for (sz i = 0; i < n; ++i) { b[i] = a[i] == 1; bb[i] = a[i] == 1; }
        std::stable_partition(b.begin(), b.end(), [](bool x) { return x; }); sz c = 0; for (auto x : a) c += x == 1;
        for (sz i = 0; i < n; ++i) MC_CHECK(b[i] == (i < c), "std::stable_partition on booleans"); }
    if (k == 5) { const auto& cv = v; auto w = cv(_); MC_CHECK(std::accumulate(w.begin(), w.end(), 0) == std::accumulate(a.begin(), a.end(), 0), "std::accumulate");
        MC_CHECK(std::count(v.begin(), v.end(), 1) == std::count(a.begin(), a.end(), 1), "std::count");
        MC_CHECK(std::distance(w.begin(), w.end()) == (long)n, "std::distance"); }
    mc::op(); mc::outcome(mc::mix(k, n));
}
#endif
