// C11: rearranging elements and dimensions; C01 checks append/prepend/remove in histories, here along every dimension.
#include "vifref.hpp"
#include <algorithm>
using namespace vr;
using vif::_;

static Dims shape(unsigned D, unsigned m) { Dims d; for (unsigned i = 0; i < D; ++i) d.push_back(mc::choose(m + 1)); return d; }

#if PART == 0
template<typename T> void shift_() {
    sz n = mc::choose(7); auto a = filled<T>({n}, 3); int_t k = (int_t)mc::choose(27) - 13;
    MC_LOG("shift of ", n, " by ", k);
    std::vector<T> e(n); for (sz i = 0; i < n; ++i) e[((((int_t)i + k) % (int_t)n) + (int_t)n) % (int_t)n] = a.v[i];
    auto v = make<1,T>(a);
    expect1(vif::shift(v, k), e, "shift"); expect1(vif::shift(make<1,T>(a), k), e, "shift of a temporary"); expect(v, a, "argument of shift");
    auto w = v; vif::inplace_shift(w, k); expect1(w, e, "inplace_shift"); vif::inplace_shift(w, -k); expect(w, a, "shift back");
    auto r = a.v; std::reverse(r.begin(), r.end()); expect1(vif::reverse(v), r, "reverse"); expect1(vif::reverse(vif::reverse(v)), a.v, "reverse twice"); expect(v, a, "argument of reverse");
    auto x = v[_]; expect1(vif::reverse(x), r, "reverse of a view"); expect(v, a, "vector after reverse of a view"); expect1(x, a.v, "view after reverse");
}
MC_SCENARIO(shift_int) { shift_<int>(); }
MC_SCENARIO(shift_string) { shift_<std::string>(); }

template<typename T> void transpose_() {
    Dims d = shape(2, 4); auto a = filled<T>(d, 1); auto v = make<2,T>(a); Arr<T> e({d[1], d[0]}); for (sz i = 0; i < d[0]; ++i) for (sz j = 0; j < d[1]; ++j) e.v[j*d[0]+i] = a.v[i*d[1]+j];
    MC_LOG("transpose ", d); auto t = vif::transpose(v); expect(t, e, "transpose"); expect(vif::transpose(t), a, "transpose twice"); expect(v, a, "argument of transpose");
}
MC_SCENARIO(transpose_int) { transpose_<int>(); }
MC_SCENARIO(transpose_bool) { transpose_<bool>(); }
MC_SCENARIO(transpose_string) { transpose_<std::string>(); }

template<std::size_t D> void flatten_() {
    Dims d = shape(D, 3); auto a = filled<int>(d, 1); auto v = make<D,int>(a); MC_LOG("flatten ", d);
    expect1(vif::flatten(v), a.v, "flatten"); expect(v, a, "argument of flatten"); expect1(vif::flatten(make<D,int>(a)), a.v, "flatten of a temporary");
    auto f = vif::flatten(std::move(v)); expect1(f, a.v, "flatten of a moved vector");
    expect(v, Arr<int>(Dims(D, 0)), "vector moved into flatten");
    v = make<D,int>(a); const auto& cv = v;
    if constexpr (D == 1) { auto w = v[_]; auto g = vif::flatten(w); expect1(g, a.v, "flatten of a view"); expect1(vif::flatten(cv[_]), a.v, "flatten of a const view"); if (g.size()) { g[0] = 99; MC_CHECK(v[0] == 99, "flattened view does not refer to the vector"); } }
    else { auto w = v(_,vif::repeat<D-1>(_)); auto g = vif::flatten(w); expect1(g, a.v, "flatten of a view"); if (g.size()) { g[g.size()-1] = 99; MC_CHECK(v[v.size()-1] == 99, "flattened view does not refer to the vector"); v[v.size()-1] = a.v.back(); } 
        auto g2 = vif::flatten(v(_,vif::repeat<D-1>(_))); expect1(g2, a.v, "flatten of a temporary view");
        // aliasing knowledge must survive
        auto ra = a.v; std::reverse(ra.begin(), ra.end()); if (v.size()) { g2 = vif::flatten(v)[vif::reverse(vif::indgen<uint_t>(v.size()))]; expect(v, Arr<int>(d, ra), "assignment through a flattened view");
            auto g3 = vif::flatten(v(_,vif::repeat<D-1>(_))); auto g4 = vif::reverse(vif::flatten(v(_,vif::repeat<D-1>(_)))); g3 = g4; expect(v, a, "assignment between flattened views of the same vector"); } }
}
MC_SCENARIO(flatten_1) { flatten_<1>(); }
MC_SCENARIO(flatten_2) { flatten_<2>(); }
MC_SCENARIO(flatten_3) { flatten_<3>(); }
MC_SCENARIO(flatten_scalar) { MC_CHECK(vif::flatten(5) == 5 && vif::flatten(std::string("a")) == "a", "flatten of a scalar"); }
#endif
#if PART == 1
template<std::size_t D> void reform_() {
    Dims d = shape(D, D == 1 ? 6 : 3); auto a = filled<int>(d, 1); unsigned how = mc::choose(5);
    auto v = make<D,int>(a);
    auto go = [&](const Dims& nd, auto... args) {
        MC_LOG("reform ", d, " to ", nd, " how ", how);
        bool good = prod(nd) == a.size(); Arr<int> e(nd, a.v); constexpr std::size_t N = vif::meta::dim_total<decltype(args)...>::value; vec<N,int> r;
        if (how == 0) { bool ok = mc::attempt([&]() { r = vif::reform(v, args...); }); MC_CHECK(ok == good, "reform: accepted ", ok); if (ok) { expect(r, e, "reform"); expect(v, a, "argument of reform"); } }
        if (how == 1) { bool ok = mc::attempt([&]() { r = vif::reform(make<D,int>(a), args...); }); MC_CHECK(ok == good, "reform: accepted ", ok); if (ok) expect(r, e, "reform of a temporary"); }
        if (how == 2) { bool ok = mc::attempt([&]() { r = vif::reform(std::move(v), args...); }); MC_CHECK(ok == good, "reform: accepted ", ok); if (ok) { expect(r, e, "reform of a moved vector"); expect(v, Arr<int>(Dims(D, 0)), "vector moved into reform"); } }
        if (how >= 3) {
            auto w = [&]() { if constexpr (D == 1) return v[_]; else return v(_,vif::repeat<D-1>(_)); }();
            bool ok = mc::attempt([&]() { if (how == 3) { auto g = vif::reform(w, args...); expect(g, e, "reform of a view"); expect(w, a, "view"); if (g.size()) { g[g.size()-1] = 77; MC_CHECK(v[v.size()-1] == 77, "reformed view does not refer to the vector"); } }
                else { auto g = vif::reform(std::move(w), args...); expect(g, e, "reform of a temporary view"); if (g.size()) { g[0] = 77; MC_CHECK(v[0] == 77, "reformed view does not refer to the vector"); } } });
            MC_CHECK(ok == good, "reform of a view: accepted ", ok);
        }
    };
    unsigned k = mc::choose(4); sz p = mc::choose(7), q = mc::choose(4), r = mc::choose(3);
    if (k == 0) go({p}, p); if (k == 1) go({p,q}, p, (int)q); if (k == 2) go({p,q,r}, p, q, r); if (k == 3) go({q,r,p}, std::array<uint_t,2>{{q,r}}, p);
}
MC_SCENARIO_S(reform_1, 2) { reform_<1>(); }
MC_SCENARIO_S(reform_2, 3) { reform_<2>(); }
MC_SCENARIO_S(reform_3, 4) { reform_<3>(); }
MC_SCENARIO(reform_overflow) { // dimensions whose product wraps around
    sz n = mc::choose(3); vec<1,int> v(n); sz big = mc::pick({sz(1) << 32, sz(1) << 63, ~sz(0)}), o = mc::pick({sz(0), sz(1) << 32, sz(2)});
    mc::assume((unsigned __int128)big*o < ((unsigned __int128)1 << 64)); vec<2,int> r; bool ok = mc::attempt([&]() { r = vif::reform(v, big, o); }); MC_CHECK(ok == (big*o == n), "reform to ", big, "x", o, " of ", n, " elements: ", ok);
}
template<std::size_t D, typename T> void replicate_() {
    Dims d = shape(D, 2); auto a = filled<T>(d, 1); auto v = make<D,T>(a); sz p = mc::choose(4), q = mc::choose(3);
    auto rep = [&](Dims pre) { Dims nd = pre; nd.insert(nd.end(), d.begin(), d.end()); Arr<T> e(nd); for (sz i = 0; i < e.size(); ++i) e.v[i] = a.v[i % a.size()]; return e; };
    MC_LOG("replicate ", d, " by ", p, ",", q);
    expect(vif::replicate(v, p), rep({p}), "replicate"); expect(vif::replicate(v, (int)p, q), rep({p,q}), "replicate"); expect(vif::replicate(v, std::array<uint_t,2>{{p,q}}), rep({p,q}), "replicate");
    if constexpr (D == 1) expect(vif::replicate(v[_], q, p), rep({q,p}), "replicate of a view"); else expect(vif::replicate(v(_,_), q, p), rep({q,p}), "replicate of a view");
    expect(v, a, "argument");
    T s = Val<T>::make(5); expect(vif::replicate(s, p), Arr<T>({p}, std::vector<T>(p, s)), "replicate scalar"); expect(vif::replicate(s, p, q), Arr<T>({p,q}, std::vector<T>(p*q, s)), "replicate scalar"); expect(vif::replicate(s, std::array<uint_t,2>{{q,p}}, 2), Arr<T>({q,p,2}, std::vector<T>(p*q*2, s)), "replicate scalar");
}
MC_SCENARIO(replicate_1) { replicate_<1,int>(); }
MC_SCENARIO(replicate_2) { replicate_<2,int>(); }
MC_SCENARIO(replicate_bool) { replicate_<1,bool>(); }
MC_SCENARIO(replicate_string) { replicate_<2,std::string>(); }
#endif
#if PART == 2
// append and prepend along dimension N
template<std::size_t N, std::size_t D, typename T> void append_() {
    Dims d1 = shape(D, 2), d2 = shape(D, 2); auto a = filled<T>(d1, 1), b = filled<T>(d2, 50); bool pre = mc::flip(); unsigned how = mc::choose(3);
    bool good = true; for (sz i = 0; i < D; ++i) if (i != N && d1[i] != d2[i]) good = false;
    MC_LOG(pre ? "prepend" : "append", " dimension ", N, " of ", d1, " with ", d2, " how ", how);
    Arr<T> e;
    // vectors without elements: the other one is taken over or kept
    if (a.v.empty()) { e = b; good = true; } else if (b.v.empty()) { e = a; good = true; }
    else if (good) {
        Dims d = d1; d[N] += d2[N]; e = Arr<T>(d);
        for (sz f = 0; f < e.size(); ++f) { auto m = multi(d, f); const Arr<T>& first = pre ? b : a; const Arr<T>& second = pre ? a : b; if (m[N] < first.d[N]) e.v[f] = first.v[flat(first.d, m)]; else { m[N] -= first.d[N]; e.v[f] = second.v[flat(second.d, m)]; } }
    }
    auto v = make<D,T>(a), w = make<D,T>(b); const auto& cw = w;
    bool ok = mc::attempt([&]() {
        auto f = [&](auto& x) { if (pre) vif::prepend<N>(v, x); else vif::append<N>(v, x); };
        if (how == 0) f(cw); if (how == 1) { auto x = w(vif::repeat<D>(_)); f(x); } if (how == 2) { const auto x = cw(vif::repeat<D>(_)); f(x); }
    });
    MC_CHECK(ok == good, "append/prepend accepted: ", ok);
    if (ok) { expect(v, e, "append/prepend"); expect(w, b, "argument"); }
}
#define AP(N,D,T) MC_SCENARIO(append_##N##_##D##_##T) { append_<N,D,T>(); }
using string = std::string;
AP(0,2,int) AP(1,2,int) AP(0,3,int) AP(1,3,int) AP(2,3,int) AP(1,2,bool) AP(1,2,string)
template<std::size_t N, std::size_t D> void append_self_() {
    Dims d = shape(D, 2); auto a = filled<int>(d, 1); bool pre = mc::flip(), view = mc::flip(); auto v = make<D,int>(a); const auto& cv = v;
    Arr<int> e = a; if (!a.v.empty()) { Dims nd = d; nd[N] *= 2; e = Arr<int>(nd); for (sz f = 0; f < e.size(); ++f) { auto m = multi(nd, f); m[N] %= d[N]; e.v[f] = a.v[flat(d, m)]; } }
    MC_LOG("self append ", d, " dimension ", N);
    if (view) { auto x = v(vif::repeat<D>(_)); if (pre) vif::prepend<N>(v, x); else vif::append<N>(v, x); } else { if (pre) vif::prepend<N>(v, cv); else vif::append<N>(v, cv); }
    expect(v, e, "self append");
}
MC_SCENARIO(append_self_0_2) { append_self_<0,2>(); }
MC_SCENARIO(append_self_1_2) { append_self_<1,2>(); }
MC_SCENARIO(append_self_2_3) { append_self_<2,3>(); }
template<std::size_t D> void remove_() {
    Dims d = shape(D, D == 1 ? 6 : 3); auto a = filled<int>(d, 1); std::vector<sz> ids; sz n = d[0], m = mc::choose(n + 2); bool bad = false; std::vector<int> cnt(n + 1);
    for (sz i = 0; i < m; ++i) { sz k = mc::choose(n + 1); if (k >= n || cnt[k]) bad = true; ++cnt[k]; ids.push_back(k); }
    sz p = 1; for (sz i = 1; i < D; ++i) p *= d[i];
    Dims nd = d; Arr<int> e; if (!bad) { nd[0] -= m; e.d = nd; for (sz i = 0; i < n; ++i) if (!cnt[i]) for (sz j = 0; j < p; ++j) e.v.push_back(a.v[i*p + j]); }
    MC_LOG("remove ", ids, " from ", d);
    auto v = make<D,int>(a); vec<D,int> r; bool ok = mc::attempt([&]() { r = vif::remove(v, makeu(ids)); });
    MC_CHECK(ok == !bad, "remove accepted: ", ok); if (!ok) return;
    expect(r, e, "remove"); expect(v, a, "argument of remove"); vif::inplace_remove(v, makeu(ids)); expect(v, e, "inplace_remove");
}
MC_SCENARIO_S(remove_1, 3) { if (!mc::thorough()) {} remove_<1>(); }
MC_SCENARIO_S(remove_2, 3) { remove_<2>(); }
MC_SCENARIO_S(remove_3, 3) { remove_<3>(); }
#endif
