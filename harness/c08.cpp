// C08: construction from dimensions, lists, other vectors and views keeps or converts every element.
#include "vifref.hpp"
using namespace vr;
using vif::_;

template<typename T, typename U, std::size_t D> void convert_to() {
    // T -> U from vectors and views, by construction or assignment
    std::vector<Dims> sh; if (D == 1) sh = {{0},{1},{3}}; else sh = {{0,2},{1,2},{3,2},{2,3}};
    Dims d = mc::pick(sh);
    std::vector<T> al;
    if constexpr (std::is_floating_point<T>::value) al = {T(0), T(1.75), T(-2.25), T(100.5)}; else if constexpr (std::is_same<T,bool>::value) al = {false, true};
    else if constexpr (std::is_signed<T>::value) al = {T(0), T(1), T(-1), T(100), T(-77)}; else al = {T(0), T(1), T(200)};
    sz i0 = mc::choose(al.size());
    Arr<T> a(d); for (sz i = 0; i < a.size(); ++i) a.v[i] = al[(i0 + i) % al.size()];
    Arr<U> e(d); for (sz i = 0; i < a.size(); ++i) e.v[i] = static_cast<U>(a.v[i]);
    auto v = make<D,T>(a); const auto& cv = v;
    unsigned k = mc::choose(6);
    MC_LOG("conversion ", k, " of ", a);
    vec<1,uint_t> all; for (sz i = 0; i < d[0]; ++i) all.push_back(i);
    constexpr bool impl = !vif::meta::vec_only_explicit_convertible<T,U>::value;
    if (k == 0) { vec<D,U> w(v); expect(w, e, "conversion"); }
    if constexpr (D == 1) { if (k == 1) { vec<D,U> w(v(all)); expect(w, e, "conversion from view"); } if (k == 2) { vec<D,U> w(cv(all)); expect(w, e, "conversion from const view"); } }
    else { if (k == 1) { vec<D,U> w(v(all,_)); expect(w, e, "conversion from view"); } if (k == 2) { vec<D,U> w(cv(all,_)); expect(w, e, "conversion from const view"); } }
    if constexpr (impl) {
        if (k == 3) { vec<D,U> w; w = v; expect(w, e, "assignment"); }
        if (k == 4) { vec<D,U> w = make<D,U>(filled<U>(Dims(D, 2), 50)); if constexpr (D == 1) w = v(all); else w = v(all,_); expect(w, e, "assignment from view"); }
        if (k == 5) { vec<D,U> w = make<D,U>(filled<U>(Dims(D, 2), 50)); w = v; expect(w, e, "assignment over other dims"); }
    }
    expect(v, a, "source");
}
#define CV(T,U) MC_SCENARIO(T##_to_##U##_1) { convert_to<T,U,1>(); } MC_SCENARIO(T##_to_##U##_2) { convert_to<T,U,2>(); }
using uint = unsigned; using uchar = unsigned char; using schar = signed char;
CV(int,double) CV(int,int) CV(double,int) CV(float,double) CV(double,float) CV(bool,int) CV(uchar,int) CV(int,schar) CV(schar,long) CV(int,bool) CV(bool,bool) CV(bool,double) CV(uint,uchar)

static std::initializer_list<int> rows_[4] = {{}, {1}, {2,3}, {4,5,6}};
static std::vector<int> rowv(unsigned i) { return std::vector<int>(rows_[i].begin(), rows_[i].end()); }
MC_SCENARIO(list_1d) {
    unsigned k = mc::choose(4), how = mc::choose(3);
    vec<1,int> v; if (how == 0) v = vec<1,int>(rows_[k]); else if (how == 1) v = rows_[k]; else { v = vec<1,int>(uint_t(2)); v = rows_[k]; }
    expect1(v, rowv(k), "1-D list");
}
MC_SCENARIO(list_2d) {
    unsigned n = mc::choose(4), r[3] = {0,0,0}; for (unsigned i = 0; i < n; ++i) r[i] = mc::choose(4);
    bool assign = mc::flip();
    bool homog = true; for (unsigned i = 1; i < n; ++i) if (rows_[r[i]].size() != rows_[r[0]].size()) homog = false;
    MC_LOG("list of ", n, " rows of ", rows_[r[0]].size(), ",", rows_[r[1]].size(), ",", rows_[r[2]].size());
    vec<2,int> v = make<2,int>(filled<int>({2,2}, 50));
    auto build = [&](std::initializer_list<std::initializer_list<int>> il) { if (assign) v = il; else v = vec<2,int>(il); };
    bool ok = mc::attempt([&]() {
        if (n == 0) build({}); if (n == 1) build({rows_[r[0]]}); if (n == 2) build({rows_[r[0]], rows_[r[1]]}); if (n == 3) build({rows_[r[0]], rows_[r[1]], rows_[r[2]]});
    });
    if (!homog) { MC_CHECK(!ok, "heterogeneous list accepted"); return; }
    MC_CHECK(ok, "valid list rejected");
    std::vector<int> e; for (unsigned i = 0; i < n; ++i) for (int x : rowv(r[i])) e.push_back(x);
    auto g = read(v);
    MC_CHECK(g.v == e, "2-D list: expected ", e, " got ", g);
    if (!e.empty()) MC_CHECK((g.d == Dims{n, rows_[r[0]].size()}), "2-D list: dims ", g.d);
    mc::outcome(mc::mix(n, r[0]*100 + r[1]*10 + r[2]));
}
MC_SCENARIO(list_3d) {
    using L1 = std::initializer_list<int>; using L2 = std::initializer_list<L1>; using L3 = std::initializer_list<L2>;
    static L2 l2[8] = {{}, {{}}, {{1}}, {{2,3}}, {{4},{5}}, {{},{}}, {{6,7},{8,9}}, {{1},{2,3}}};
    unsigned a = mc::choose(8), b = mc::choose(9);
    vec<3,int> v;
    bool ok = mc::attempt([&]() { if (b == 8) v = vec<3,int>(L3{l2[a]}); else v = vec<3,int>(L3{l2[a], l2[b]}); });
    std::vector<int> e; bool homog = true; sz n1 = l2[a].size(), n2 = n1 ? l2[a].begin()->size() : 0;
    auto add = [&](const L2& l) { if (l.size() != n1) homog = false; for (auto& r : l) { if (r.size() != n2) homog = false; for (int x : r) e.push_back(x); } };
    add(l2[a]); if (b < 8) add(l2[b]);
    MC_LOG("lists ", a, " ", b);
    // lists without any element: shape not specified
    if (e.empty()) { if (ok) MC_CHECK(read(v).v.empty(), "empty list gave elements"); return; }
    if (!homog) { MC_CHECK(!ok, "heterogeneous list accepted"); return; }
    MC_CHECK(ok, "valid list rejected");
    expect(v, Arr<int>({b < 8 ? 2ul : 1ul, n1, n2}, e), "3-D list");
}
MC_SCENARIO(list_types) {
    vec<1,std::string> s = {"a", "b", ""}; expect1(s, {"a", "b", ""}, "list of strings");
    vec<1,bool> b = {true, false, true}; expect1(b, {true, false, true}, "list of booleans");
    vec<2,double> m = {{1, 2.5}, {3, 4}}; expect(m, Arr<double>({2,2}, {1, 2.5, 3, 4}), "list of doubles");
    vec<2,bool> bm = {{true}, {false}}; expect(bm, Arr<bool>({2,1}, {true, false}), "2-D booleans");
}
template<typename T> void dims_ctor() {
    sz a = mc::choose(4), b = mc::choose(4), c = mc::choose(3), d = mc::choose(3);
    T z = T();
    auto chk = [&](const auto& v, const Dims& dd) { expect(v, Arr<T>(dd, std::vector<T>(prod(dd), z)), "dimension constructor"); };
    chk(vec<1,T>(a), {a}); chk(vec<1,T>((int)a), {a}); chk(vec<2,T>(a, b), {a,b}); chk(vec<2,T>((unsigned char)a, b), {a,b}); chk(vec<3,T>(a, b, c), {a,b,c}); chk(vec<4,T>(a, b, c, d), {a,b,c,d});
    std::array<uint_t,2> ab = {{a, b}};
    chk(vec<2,T>(ab), {a,b}); chk(vec<3,T>(ab, c), {a,b,c}); chk(vec<3,T>(c, ab), {c,a,b}); chk(vec<4,T>(ab, ab), {a,b,a,b});
}
MC_SCENARIO(dims_int) { dims_ctor<int>(); }
MC_SCENARIO(dims_bool) { dims_ctor<bool>(); }
MC_SCENARIO(dims_string) { dims_ctor<std::string>(); }
MC_SCENARIO(concretise) {
    // a copy made from a view is independent from the viewed vector; a view is not
    sz n = 1 + mc::choose(4); auto a = filled<int>({n}, 10); auto v = make<1,int>(a);
    std::vector<sz> ids; sz len = mc::choose(4); for (sz i = 0; i < len; ++i) ids.push_back(mc::choose(n));
    auto w = v[makeu(ids)]; auto c = w.concretise(); vec<1,int> c2 = w; auto w2 = w;
    std::vector<int> e; for (auto i : ids) e.push_back(a.v[i]);
    sz m = mc::choose(n); v[m] = 999; 
    expect1(c, e, "concretised view"); expect1(c2, e, "copy of a view");
    for (sz i = 0; i < len; ++i) if (ids[i] == m) e[i] = 999;
    expect1(w, e, "view after a change of the vector"); expect1(w2, e, "copied view after a change of the vector");
    c = v; for (sz i = 0; i < n; ++i) c[i] = -1; a.v[m] = 999; expect(v, a, "vector after a change of its copy");
}
