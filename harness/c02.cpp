// C02: scalar indexing (brackets and parentheses), every index type, reading and writing, vectors and views.
#include "vifref.hpp"
using namespace vr;
using vif::_;
using vif::repeat;
#define CHK(...) MC_CHECK(__VA_ARGS__)

enum { REJ = -1, ANY = -2 };
// What an index of mathematical value x (big = beyond any size) must do with n elements
static long resolve(__int128 x, sz n) {
    if (x >= (__int128)n) return REJ;
    if (x >= 0) return (long)x;
    if (n == 0) return REJ;
    if (-x <= (__int128)n) return (long)(x + (__int128)n);
    return ANY;
}

template<typename F> void with_index(unsigned type, __int128 x, F&& f) {
    switch (type) {
    case 0: f(static_cast<int>(x)); break;
    case 1: f(static_cast<std::size_t>(x)); break;
    case 2: f(static_cast<signed char>(x)); break;
    case 3: f(static_cast<unsigned char>(x)); break;
    case 4: f(static_cast<short>(x)); break;
    case 5: f(static_cast<unsigned int>(x)); break;
    case 6: f(static_cast<long>(x)); break;
    case 7: f(static_cast<unsigned short>(x)); break;
    case 8: f(static_cast<bool>(x)); break;
    }
}
static const __int128 one = 1;
static __int128 tmin(unsigned t) { __int128 m[] = {-(one<<31),0,-128,0,-32768,0,-(one<<63),0,0}; return m[t]; }
static __int128 tmax(unsigned t) { __int128 m[] = {(one<<31)-1,(one<<64)-1,127,255,32767,(one<<32)-1,(one<<63)-1,65535,1}; return m[t]; }

// candidate index values
static __int128 choose_value(unsigned type, sz n, long lo, long hi) {
    // lo..hi, then the largest value of the type, then largest-1
    unsigned k = mc::choose(unsigned(hi - lo + 1) + 2);
    __int128 x;
    if (k == unsigned(hi-lo+1)) x = tmax(type);
    else if (k == unsigned(hi-lo+2)) x = tmax(type) - 1;
    else x = lo + (long)k;
    mc::assume(x >= tmin(type) && x <= tmax(type));
    return x;
}

template<std::size_t D, typename T> struct world {
    Arr<T> a;            // content of the parent
    vec<D,T> v;
    std::vector<sz> map; // flat index of the accessed object -> flat index in parent
    Dims d;              // dims of the accessed object
};

template<typename T> T newval() { return Val<T>::make(777); }
template<> bool newval<bool>() { return true; }

// access one scalar through obj: f(obj) gives a reference
template<std::size_t D, typename T, typename V, typename Acc>
void access(world<D,T>& w, V& obj, Acc&& acc, long expect_flat, bool write, const char* what) {
    T got = T(); bool wrote = false;
    Arr<T> before = read(w.v);
    T nv = newval<T>();
    bool ok = mc::attempt([&]() {
        auto&& r = acc(obj);
        got = r;
        using R = typename std::remove_reference<decltype(r)>::type;
        if constexpr (!std::is_const<R>::value) { if (write) { r = nv; wrote = true; } }
    });
    if (expect_flat == REJ) { CHK(!ok, what, ": out of bounds index accepted"); return; }
    Arr<T> after = read(w.v);
    if (!ok) { CHK(expect_flat == ANY, what, ": valid index rejected"); return; }
    if (expect_flat == ANY) {
        sz changed = 0; bool isin = false;
        for (sz i = 0; i < before.v.size(); ++i) { if (!(before.v[i] == after.v[i])) ++changed; if (before.v[i] == got) isin = true; }
        CHK(isin && changed <= 1, what, ": index designates no element");
        return;
    }
    sz p = w.map[expect_flat];
    CHK(got == before.v[p], what, ": element ", (long)expect_flat, " expected ", before.v[p], " got ", got);
    if (wrote) before.v[p] = nv;
    CHK(before == after, what, ": after writing expected ", before, " got ", after);
    mc::outcome(mc::mix(expect_flat, D*100 + w.d[0]));
}

// run f(obj) with obj of the chosen category
template<std::size_t D, typename T, typename F> void with_object(world<D,T>& w, unsigned cat, F&& f) {
    w.d = w.a.d; w.map.resize(w.a.v.size()); for (sz i = 0; i < w.map.size(); ++i) w.map[i] = i;
    if (cat == 0) f(w.v);
    else if (cat == 1) f(const_cast<const vec<D,T>&>(w.v));
    else {
        // views through reversed positions of the first dimension, last one repeated
        std::vector<sz> ids; for (sz i = w.a.d[0]; i-- > 0;) ids.push_back(i);
        if (!ids.empty()) ids.push_back(w.a.d[0]-1);
        w.d[0] = ids.size();
        sz row = 1; for (sz k = 1; k < D; ++k) row *= w.a.d[k];
        w.map.clear();
        for (auto i : ids) for (sz j = 0; j < row; ++j) w.map.push_back(i*row + j);
        vec<1,uint_t> vi = makeu(ids);
        if constexpr (D == 1) {
            if (cat == 2) { auto x = w.v(vi); f(x); }
            else if (cat == 3) { const auto x = w.v(vi); f(x); }
            else { auto x = const_cast<const vec<D,T>&>(w.v)(vi); f(x); }
        } else {
            if (cat == 2) { auto x = w.v(vi, repeat<D-1>(_)); f(x); }
            else if (cat == 3) { const auto x = w.v(vi, repeat<D-1>(_)); f(x); }
            else { auto x = const_cast<const vec<D,T>&>(w.v)(vi, repeat<D-1>(_)); f(x); }
        }
    }
}
static const char* catname[] = {"vector", "const vector", "view", "const view object", "view of const vector"};

template<std::size_t D> std::vector<Dims> shapes();
template<> std::vector<Dims> shapes<1>() { return {{0},{1},{2},{3},{5}}; }
template<> std::vector<Dims> shapes<2>() { return {{0,0},{0,2},{2,0},{1,1},{1,3},{3,1},{2,3},{3,2}}; }
template<> std::vector<Dims> shapes<3>() { return {{0,2,2},{2,0,1},{1,1,1},{2,1,3},{1,3,2},{3,2,2}}; }
template<> std::vector<Dims> shapes<4>() { return {{2,0,1,2},{1,2,2,3},{2,1,3,2},{3,2,1,2}}; }

template<std::size_t D, typename T> void brackets() {
    unsigned cat = mc::choose(5);
    auto dims = mc::pick(shapes<D>());
    world<D,T> w; w.a = filled<T>(dims, 10); w.v = make<D,T>(w.a);
    unsigned type = mc::choose(9);
    sz n = prod(dims); if (cat >= 2) n = dims[0] == 0 ? 0 : n + n/dims[0];
    long lim = std::min<long>(2*n + 1, 14);
    __int128 x = choose_value(type, n, -lim, lim);
    bool write = mc::flip();
    MC_LOG(D, "-D ", catname[cat], " of dims ", dims, " [", (long)x, "] index type ", type, write ? " write" : " read");
    with_object(w, cat, [&](auto& obj) {
        CHK(obj.size() == n, "wrong size");
        with_index(type, x, [&](auto ix) {
            access(w, obj, [&](auto& o) -> decltype(auto) { return o[ix]; }, resolve(x, n), write, "brackets");
            if (resolve(x, n) >= 0 && x >= 0)
                access(w, obj, [&](auto& o) -> decltype(auto) { return o.safe[ix]; }, resolve(x, n), write, "safe brackets");
        });
    });
}

template<std::size_t D, typename T, std::size_t K> struct paren_ {
    template<typename V, typename ... A>
    static void run(world<D,T>& w, V& obj, bool write, const std::vector<unsigned>& types, const std::vector<__int128>& x, A... a) {
        if constexpr (K == D) {
            long e = 0; bool rej = false, any = false; std::vector<sz> id(D); bool neg = false;
            for (sz k = 0; k < D; ++k) {
                long r = resolve(x[k], w.d[k]);
                if (r == REJ) rej = true; else if (r == ANY) any = true; else id[k] = r;
                if (x[k] < 0) neg = true;
            }
            e = rej ? REJ : any ? ANY : (long)flat(w.d, id);
            access(w, obj, [&](auto& o) -> decltype(auto) { return o(a...); }, e, write, "parentheses");
            if (e >= 0 && !neg)
                access(w, obj, [&](auto& o) -> decltype(auto) { return o.safe(a...); }, e, write, "safe parentheses");
        } else {
            // 1-D and 2-D: each index is an int, size_t or signed char; 3-D: int or size_t; 4-D: all of the same type
            if (types[K] == 0) paren_<D,T,K+1>::run(w, obj, write, types, x, a..., static_cast<int>(x[K]));
            else if (types[K] == 1) {
                if constexpr (D < 4) paren_<D,T,K+1>::run(w, obj, write, types, x, a..., static_cast<std::size_t>(x[K]));
            } else if constexpr (D <= 2) paren_<D,T,K+1>::run(w, obj, write, types, x, a..., static_cast<signed char>(x[K]));
        }
    }
};

template<std::size_t D, typename T> void parentheses() {
    unsigned cat = mc::choose(5);
    auto dims = mc::pick(shapes<D>());
    world<D,T> w; w.a = filled<T>(dims, 10); w.v = make<D,T>(w.a);
    bool write = mc::flip();
    std::vector<unsigned> types(D); std::vector<__int128> x(D);
    Dims od = dims; if (cat >= 2 && od[0] > 0) ++od[0];
    for (sz k = 0; k < D; ++k) {
        types[k] = D == 4 ? 0 : D == 3 ? mc::choose(2) : mc::choose(3);
        long n = od[k];
        if (D == 1) x[k] = choose_value(types[k], n, -2*n-1, 2*n+1);
        else if (D == 2) x[k] = choose_value(types[k], n, -n-1, n+1);
        else {
            // boundary values and one past them
            std::vector<__int128> c = {0, n-1, n, -1, -n, tmax(types[k])};
            if (n > 2) c.push_back(1);
            x[k] = c[mc::choose(c.size())];
            mc::assume(x[k] >= tmin(types[k]));
        }
    }
    if (mc::verbose()) { std::vector<long> lx(x.begin(), x.end()); MC_LOG(D, "-D ", catname[cat], " dims ", dims, " index ", lx, " types ", types, write ? " write" : " read"); }
    with_object(w, cat, [&](auto& obj) { paren_<D,T,0>::run(w, obj, write, types, x); });
}

#ifndef PART
#define PART 99
#endif
#if PART == 0 || PART == 99
MC_SCENARIO(brackets_1d_int) { brackets<1,int>(); }
MC_SCENARIO(brackets_2d_int) { brackets<2,int>(); }
#endif
#if PART == 1 || PART == 99
MC_SCENARIO(brackets_1d_string) { brackets<1,std::string>(); }
MC_SCENARIO(brackets_1d_bool) { brackets<1,bool>(); }
#endif
#if PART == 2 || PART == 99
MC_SCENARIO(brackets_3d_double) { brackets<3,double>(); }
MC_SCENARIO(paren_1d_int) { parentheses<1,int>(); }
MC_SCENARIO(paren_1d_bool) { parentheses<1,bool>(); }
#endif
#if PART == 3 || PART == 99
MC_SCENARIO_S(paren_2d_int, 3) { parentheses<2,int>(); }
#endif
#if PART == 4 || PART == 99
MC_SCENARIO_S(paren_2d_string, 3) { parentheses<2,std::string>(); }
#endif
#if PART == 5 || PART == 99
MC_SCENARIO_S(paren_3d_int, 4) { parentheses<3,int>(); }
#endif
#if PART == 6 || PART == 99
MC_SCENARIO_S(paren_3d_bool, 4) { parentheses<3,bool>(); }
#endif
#if PART == 7 || PART == 99
MC_SCENARIO_S(paren_4d_int, 5) { parentheses<4,int>(); }
// Long vectors: every index type, in particular those that cannot represent the size
template<std::size_t D> static void large() {
    unsigned cat = mc::choose(2);
    sz n = mc::pick<sz>({127, 128, 129, 200, 255, 256, 257, 300, 40000, 70000});
    unsigned type = mc::choose(9);
    __int128 cand[] = {0, 1, -1, -2, 126, 127, 128, 129, 199, 254, 255, 256, 299, -100, -127, -128, -129, -200, -255, -256, -300, -(long)n, (long)n-1, (long)n, (long)n+1, 32767, -32768, tmax(type), tmax(type)-1};
    __int128 x = cand[mc::choose(29)];
    mc::assume(x >= tmin(type) && x <= tmax(type));
    mc::assume(resolve(x, n) != ANY);
    vec<D,int> v; if (D == 1) v = vec<D,int>(std::array<uint_t,D>{}); 
    std::array<uint_t,D> d; for (sz k = 0; k < D; ++k) d[k] = 1; d[D-1] = n; v.dims = d; v.resize();
    for (uint_t i = 0; i < n; ++i) v[i] = (int)i*3 + 1;
    const vec<D,int>& c = v;
    MC_LOG(D, "-D with ", n, " elements, index ", (long)x, " of type ", type);
    with_index(type, x, [&](auto ix) {
        long e = resolve(x, n);
        int got = -7;
        bool ok = mc::attempt([&]() { got = cat ? c[ix] : v[ix]; });
        CHK(ok == (e >= 0), "long vector: brackets ", ok ? "accepted" : "rejected");
        if (ok) CHK(got == e*3 + 1, "long vector: brackets gave element ", (got-1)/3, " instead of ", e);
        got = -7;
        ok = mc::attempt([&]() {
            if constexpr (D == 1) got = cat ? c(ix) : v(ix);
            else if constexpr (D == 2) got = cat ? c(0, ix) : v(0, ix);
        });
        CHK(ok == (e >= 0), "long vector: parentheses ", ok ? "accepted" : "rejected");
        if (ok) CHK(got == e*3 + 1, "long vector: parentheses gave element ", (got-1)/3, " instead of ", e);
    });
}
MC_SCENARIO(long_1d) { large<1>(); }
MC_SCENARIO(long_2d) { large<2>(); }

MC_SCENARIO(front_back) {
    sz n = 1 + mc::choose(4);
    auto a = filled<int>({n}, 5); auto v = make<1,int>(a);
    const auto& c = v;
    CHK(v.front() == a.v.front() && v.back() == a.v.back() && c.front() == a.v.front() && c.back() == a.v.back(), "front/back");
    v.front() = 100; v.back() = 200;
    a.v.front() = 100; a.v.back() = 200;
    expect(v, a, "writing front/back");
    auto w = v(_);
    CHK(w.front() == a.v.front() && w.back() == a.v.back(), "front/back of view");
    w.back() = 300; a.v.back() = 300;
    expect(v, a, "writing back of view");
}
#endif
