// C04: assigning through views changes exactly the selected elements to the values the right-hand side had before.
#include "vifref.hpp"
using namespace vr;
using vif::_;
#ifndef PART
#define PART 99
#endif
enum Op { SET, ADD, SUB, MUL, DIV, MOD };
static const char* opname[] = {"=", "+=", "-=", "*=", "/=", "%="};
template<typename T> T apply_op(Op o, T a, T b) {
    switch (o) { case SET: return b; case ADD: return a + b;
    default: if constexpr (!std::is_same<T,std::string>::value) {
        switch (o) { case SUB: return a - b; case MUL: return a * b; case DIV: return a / b; default: if constexpr (std::is_integral<T>::value) return a % b; } }
    return a; }
}
template<Op O, typename L, typename R> void do_op(L&& l, R&& r) {
    if constexpr (O == SET) l = r; else if constexpr (O == ADD) l += r; else if constexpr (O == SUB) l -= r;
    else if constexpr (O == MUL) l *= r; else if constexpr (O == DIV) l /= r; else l %= r;
}

static std::vector<sz> choose_distinct(sz n, sz maxlen) {
    std::vector<sz> r; sz len = mc::choose(std::min(n, maxlen) + 1);
    std::vector<sz> left; for (sz i = 0; i < n; ++i) left.push_back(i);
    for (sz j = 0; j < len; ++j) { sz k = mc::choose(left.size()); r.push_back(left[k]); left.erase(left.begin() + k); }
    return r;
}
static std::vector<sz> choose_seq(sz n, sz len) { std::vector<sz> r; for (sz j = 0; j < len; ++j) r.push_back(mc::choose(n)); return r; }

template<typename T> T val(sz i) { static const int p[] = {2,3,5,7,11,13,17,19,23}; return T(p[i]); }
template<> std::string val<std::string>(sz i) { return std::string(1 + i % 3, char('a' + i)); }
template<> bool val<bool>(sz i) { return i % 2 == 0; }

// Destination kinds: 0 v[ids]; 1 v(ids); 2 named view of v[ids]; 3 v[_][ids] ; 4 v[a-_-b]; 5 v.safe[ids]
// Right-hand sides
enum Rhs { R_SCALAR, R_ELEM, R_VEC, R_VIEW_SELF, R_CVIEW_SELF, R_VIEWVIEW_SELF, R_PAREN_SELF, R_VIEW_OTHER, R_WHOLE, R_SHORT, R_LONG, R_EXPR, R_SAMEVIEW, R_VIEW_SHORT, R_NRHS };
static const char* rname[] = {"scalar", "element of v", "vector", "v[ids]", "cv[ids]", "v[_][ids]", "v(ids)", "other[ids]", "v", "shorter vector", "longer vector", "v[ids]+v[ids]", "view to itself", "shorter view of v"};

template<typename T, Op O> void assign1(sz nmax, sz lenmax) {
    sz n = 1 + mc::choose(nmax);
    unsigned dk = mc::choose(6);
    Rhs rk = (Rhs)mc::choose(R_NRHS);
    std::vector<sz> di;
    if (dk == 4) { sz a = mc::choose(n), b = a + mc::choose(n - a); for (sz i = a; i <= b; ++i) di.push_back(i); }
    else di = choose_distinct(n, lenmax);
    sz len = di.size();
    std::vector<T> v0(n), o0(n); for (sz i = 0; i < n; ++i) { v0[i] = val<T>(i); o0[i] = val<T>(i + 4); }
    vec<1,T> v = make1(v0), other = make1(o0);
    const vec<1,T>& cv = v;
    std::vector<sz> si; std::vector<T> rv; bool reject = false; sz e = 0;
    switch (rk) {
    case R_SCALAR: rv.assign(len, val<T>(8)); break;
    case R_ELEM: e = mc::choose(n); rv.assign(len, v0[e]); break;
    case R_VEC: for (sz i = 0; i < len; ++i) rv.push_back(val<T>(8 - i % 5)); break;
    case R_VIEW_SELF: case R_CVIEW_SELF: case R_VIEWVIEW_SELF: case R_PAREN_SELF: si = choose_seq(n, len); for (auto i : si) rv.push_back(v0[i]); break;
    case R_VIEW_OTHER: si = choose_seq(n, len); for (auto i : si) rv.push_back(o0[i]); break;
    case R_WHOLE: if (len != n) reject = true; else rv = v0; break;
    case R_SHORT: mc::assume(len > 0); for (sz i = 0; i + 1 < len; ++i) rv.push_back(val<T>(8)); reject = true; break;
    case R_LONG: for (sz i = 0; i < len + 1; ++i) rv.push_back(val<T>(8)); reject = true; break;
    case R_EXPR: si = choose_seq(n, len); for (auto i : si) { if constexpr (std::is_same<T,bool>::value) rv.push_back(!v0[i]); else rv.push_back(v0[i] + v0[i]); } break;
    case R_SAMEVIEW: for (auto i : di) rv.push_back(v0[i]); break;
    case R_VIEW_SHORT: mc::assume(len > 0); si = choose_seq(n, len - 1); reject = true; break;
    default: break;
    }
    MC_LOG("v = ", v0, "; destination kind ", dk, " ids ", di, " ", opname[O], " ", rname[rk], " ", si, " element ", e);
    std::vector<T> exp = v0;
    if (!reject) for (sz i = 0; i < len; ++i) exp[di[i]] = apply_op<T>(O, v0[di[i]], rv[i]);
    vec<1,uint_t> ids = makeu(di), sids = makeu(si);
    auto with_rhs = [&](auto&& dst) {
        T s = val<T>(8);
        switch (rk) {
        case R_SCALAR: do_op<O>(dst, s); break;
        case R_ELEM: do_op<O>(dst, v[e]); break;
        case R_VEC: case R_SHORT: case R_LONG: { vec<1,T> r = make1(rv); do_op<O>(dst, r); expect1(r, rv, "right-hand side"); break; }
        case R_VIEW_SELF: case R_VIEW_SHORT: do_op<O>(dst, v[sids]); break;
        case R_CVIEW_SELF: do_op<O>(dst, cv[sids]); break;
        case R_VIEWVIEW_SELF: do_op<O>(dst, v[_][sids]); break;
        case R_PAREN_SELF: do_op<O>(dst, v(sids)); break;
        case R_VIEW_OTHER: do_op<O>(dst, other[sids]); break;
        case R_WHOLE: do_op<O>(dst, v); break;
        case R_EXPR: if constexpr (std::is_same<T,bool>::value) do_op<O>(dst, !v[sids]); else do_op<O>(dst, v[sids] + v[sids]); break;
        case R_SAMEVIEW: do_op<O>(dst, v[ids]); break;
        default: break;
        }
    };
    bool ok = mc::attempt([&]() {
        switch (dk) {
        case 0: with_rhs(v[ids]); break;
        case 1: with_rhs(v(ids)); break;
        case 2: { auto w = v[ids]; with_rhs(w); break; }
        case 3: with_rhs(v[_][ids]); break;
        case 4: with_rhs(v[di.front()-_-di.back()]); break;
        case 5: with_rhs(v.safe[ids]); break;
        }
    });
    if (reject) { MC_CHECK(!ok, "right-hand side with the wrong number of elements accepted"); return; }
    MC_CHECK(ok, "valid assignment rejected");
    expect1(v, exp, "viewed vector");
    expect1(other, o0, "unrelated vector");
}

// whole vector op= view of itself
template<typename T, Op O> void whole(sz nmax) {
    sz n = 1 + mc::choose(nmax);
    std::vector<T> v0(n); for (sz i = 0; i < n; ++i) v0[i] = val<T>(i);
    vec<1,T> v = make1(v0); const auto& cv = v;
    unsigned k = mc::choose(5);
    std::vector<sz> si = k == 4 ? std::vector<sz>() : choose_seq(n, n);
    if (k == 4) for (sz i = 0; i < n; ++i) si.push_back(i);
    std::vector<T> exp = v0; for (sz i = 0; i < n; ++i) exp[i] = apply_op<T>(O, v0[i], v0[si[i]]);
    auto ids = makeu(si);
    MC_LOG(v0, opname[O], " kind ", k, " ids ", si);
    bool ok = mc::attempt([&]() {
        switch (k) {
        case 0: do_op<O>(v, v[ids]); break;
        case 1: do_op<O>(v, cv[ids]); break;
        case 2: do_op<O>(v, v(ids)); break;
        case 3: do_op<O>(v, v[_][ids]); break;
        case 4: do_op<O>(v, v); break;
        }
    });
    MC_CHECK(ok, "valid operation rejected");
    expect1(v, exp, "vector op= view of itself");
}

// 2-D: rows, columns, blocks
struct Sel { unsigned k; sz i = 0; std::vector<sz> ids; std::vector<sz> flat; Dims d; };
// kinds 0: v(i,_)  1: v(_,j)  -> 1-D ; 2: v(ids,_)  3: v(_,ids)  4: v(_,_) -> 2-D
static Sel choose_sel(const Dims& d, unsigned k, bool distinct) {
    Sel s; s.k = k;
    auto list = [&](sz n) { return distinct ? choose_distinct(n, 2) : choose_seq(n, mc::choose(3)); };
    if (k == 0) { s.i = mc::choose(d[0]); s.d = {d[1]}; for (sz j = 0; j < d[1]; ++j) s.flat.push_back(s.i*d[1] + j); }
    if (k == 1) { s.i = mc::choose(d[1]); s.d = {d[0]}; for (sz j = 0; j < d[0]; ++j) s.flat.push_back(j*d[1] + s.i); }
    if (k == 2) { s.ids = list(d[0]); s.d = {s.ids.size(), d[1]}; for (auto i : s.ids) for (sz j = 0; j < d[1]; ++j) s.flat.push_back(i*d[1] + j); }
    if (k == 3) { s.ids = list(d[1]); s.d = {d[0], s.ids.size()}; for (sz i = 0; i < d[0]; ++i) for (auto j : s.ids) s.flat.push_back(i*d[1] + j); }
    if (k == 4) { s.d = d; for (sz i = 0; i < d[0]*d[1]; ++i) s.flat.push_back(i); }
    return s;
}
template<typename V, typename F> void with_sel(V& v, Sel& s, F&& f) {
    auto ids = makeu(s.ids);
    switch (s.k) {
    case 0: f(v(s.i, _)); break;
    case 1: f(v(_, s.i)); break;
    case 2: f(v(ids, _)); break;
    case 3: f(v(_, ids)); break;
    case 4: f(v(_, _)); break;
    }
}
template<typename A, typename B> constexpr bool same_dim() { return vif::meta::vec_dim<typename std::decay<A>::type>::value == vif::meta::vec_dim<typename std::decay<B>::type>::value; }

template<typename T, Op O> void assign2() {
    Dims d = mc::pick(std::vector<Dims>{{2,2},{2,3},{3,2},{3,3}});
    unsigned two = mc::choose(2);
    unsigned dk = two ? 2 + mc::choose(3) : mc::choose(2), rk = two ? 2 + mc::choose(3) : mc::choose(2);
    unsigned src = mc::choose(3); // v, const v, other
    Sel a = choose_sel(d, dk, true), b = choose_sel(d, rk, false);
    sz n = d[0]*d[1];
    std::vector<T> v0(n), o0(n); for (sz i = 0; i < n; ++i) { v0[i] = val<T>(i % 9); o0[i] = val<T>((i*7 + 3) % 9); }
    auto v = make<2,T>(Arr<T>(d, v0)), o = make<2,T>(Arr<T>(d, o0)); const auto& cv = v;
    auto exp = v0; auto& sv = src == 2 ? o0 : v0;
    bool reject = a.flat.size() != b.flat.size() || (O != SET && a.d != b.d);
    // same number of elements but different shape: only compound operators define it (rejected)
    bool unspecified = O == SET && !reject && a.d != b.d;
    mc::assume(!unspecified);
    if (!reject) for (sz i = 0; i < a.flat.size(); ++i) exp[a.flat[i]] = apply_op<T>(O, v0[a.flat[i]], sv[b.flat[i]]);
    MC_LOG("dims ", d, " destination kind ", dk, " ", a.i, a.ids, " ", opname[O], " source ", src, " kind ", rk, " ", b.i, b.ids);
    bool ok = mc::attempt([&]() {
        with_sel(v, a, [&](auto&& l) {
            auto f = [&](auto&& r) { if constexpr (same_dim<decltype(l), decltype(r)>()) do_op<O>(l, r); };
            if (src == 0) with_sel(v, b, f); else if (src == 1) with_sel(cv, b, f); else with_sel(o, b, f);
        });
    });
    if (reject) { MC_CHECK(!ok, "mismatching assignment accepted"); return; }
    MC_CHECK(ok, "valid assignment rejected");
    expect(v, Arr<T>(d, exp), "2-D viewed vector");
    expect(o, Arr<T>(d, o0), "unrelated vector");
}

#if PART == 0 || PART == 99
MC_SCENARIO_S(int_set, 3) { assign1<int,SET>(4, mc::thorough() ? 4 : 3); }
MC_SCENARIO_S(int_add, 3) { assign1<int,ADD>(4, mc::thorough() ? 4 : 3); }
#endif
#if PART == 1 || PART == 99
MC_SCENARIO_S(int_sub, 3) { assign1<int,SUB>(mc::thorough() ? 4 : 3, 3); }
MC_SCENARIO_S(int_mul, 3) { assign1<int,MUL>(mc::thorough() ? 4 : 3, 3); }
#endif
#if PART == 2 || PART == 99
MC_SCENARIO_S(int_div, 3) { assign1<int,DIV>(mc::thorough() ? 4 : 3, 3); }
MC_SCENARIO_S(int_mod, 3) { assign1<int,MOD>(mc::thorough() ? 4 : 3, 3); }
#endif
#if PART == 3 || PART == 99
MC_SCENARIO_S(string_set, 3) { assign1<std::string,SET>(3, 3); }
MC_SCENARIO_S(string_add, 3) { assign1<std::string,ADD>(3, 3); }
MC_SCENARIO_S(bool_set, 3) { assign1<bool,SET>(3, 3); }
#endif
#if PART == 4 || PART == 99
MC_SCENARIO_S(double_set, 3) { assign1<double,SET>(3, 3); }
MC_SCENARIO_S(whole_set, 2) { whole<int,SET>(4); }
MC_SCENARIO_S(whole_add, 2) { whole<int,ADD>(4); }
MC_SCENARIO_S(whole_sub, 2) { whole<int,SUB>(4); }
MC_SCENARIO_S(whole_mul, 2) { whole<int,MUL>(3); }
MC_SCENARIO_S(whole_div, 2) { whole<int,DIV>(3); }
MC_SCENARIO_S(whole_str, 2) { whole<std::string,ADD>(3); }
#endif
#if PART == 5 || PART == 99
MC_SCENARIO_S(mat_set, 4) { assign2<int,SET>(); }
MC_SCENARIO_S(mat_add, 4) { assign2<int,ADD>(); }
#endif
#if PART == 6 || PART == 99
MC_SCENARIO_S(mat_str, 4) { assign2<std::string,SET>(); }
#endif
#if PART == 7 || PART == 99
MC_SCENARIO(lists) {
    // v[ids] = {a,b}: elements of the list may come from v itself; wrong lengths are rejected
    sz n = 2 + mc::choose(3); auto di = choose_distinct(n, 3);
    std::vector<int> v0; for (sz i = 0; i < n; ++i) v0.push_back(val<int>(i));
    vec<1,int> v = make1(v0); auto ids = makeu(di);
    unsigned len = mc::choose(4); sz a = mc::choose(n), b = mc::choose(n), c = 0;
    MC_LOG(v0, " ids ", di, " list of ", len, " elements ", a, b);
    auto exp = v0; std::vector<int> l = {v0[a], v0[b], v0[c]};
    bool ok = mc::attempt([&]() {
        if (len == 0) { mc::skip s; throw s; }
        if (len == 1) v[ids] = {v[a]};
        if (len == 2) v[ids] = {v[a], v[b]};
        if (len == 3) v[ids] = {v[a], v[b], v[c]};
    });
    if (len != di.size()) { MC_CHECK(!ok, "list with the wrong number of elements accepted"); return; }
    MC_CHECK(ok, "valid list assignment rejected");
    for (sz i = 0; i < len; ++i) exp[di[i]] = l[i];
    expect1(v, exp, "list assignment");
}
MC_SCENARIO(nested_views) {
    // a view of a view of a view writes to the right elements; types convert on the way
    sz n = 3 + mc::choose(2);
    std::vector<double> v0; for (sz i = 0; i < n; ++i) v0.push_back(i + 0.5);
    vec<1,double> v = make1(v0);
    auto i1 = choose_distinct(n, 3); auto i2 = choose_distinct(i1.size(), 3);
    auto w1 = v[makeu(i1)]; auto w2 = w1[makeu(i2)];
    std::vector<int> r; for (sz i = 0; i < i2.size(); ++i) r.push_back(100 + i);
    unsigned k = mc::choose(4);
    MC_LOG(n, i1, i2, k);
    auto exp = v0;
    for (sz i = 0; i < i2.size(); ++i) { auto& x = exp[i1[i2[i]]]; if (k == 0) x = r[i]; if (k == 1) x += r[i]; if (k == 2) x = 7; if (k == 3) x *= 2; }
    bool ok = mc::attempt([&]() { if (k == 0) w2 = make1(r); if (k == 1) w2 += make1(r); if (k == 2) w2 = 7; if (k == 3) w2 *= 2; });
    MC_CHECK(ok, "rejected");
    expect1(v, exp, "nested views");
}
#endif
