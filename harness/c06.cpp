// C06: vectorised functions give the scalar function's value at each position, for every argument category.
#include "mc.hpp"
#include <gsl/gsl_sf_bessel.h>
#include "vifref.hpp"
#include <vif/math/base.hpp>
#include <vif/math/reduce.hpp>
using namespace vr;
using vif::_;
#ifndef PART
#define PART 99
#endif
enum Cat { LV, CLV, RV, VIEW, CVIEW, NCAT };
static const char* cname[] = {"vector", "const vector", "temporary", "view", "view of const vector"};
static const double INF = std::numeric_limits<double>::infinity(), NaN = std::numeric_limits<double>::quiet_NaN();

template<typename T> std::vector<T> alphabet() {
    if constexpr (std::is_floating_point<T>::value) return {T(0.5), T(0), T(-1), T(2.75), T(-7.5), T(INF), T(NaN), T(1e-3), T(-INF), T(1)};
    else return {T(0), T(1), T(-1), T(7), T(-20), T(4)};
}
static std::vector<Dims> shapes1() { return {{0},{1},{2},{5}}; }
static std::vector<Dims> shapes2() { return {{0,2},{1,2},{2,1},{3,2}}; }
template<std::size_t D> std::vector<Dims> shapes() { if (D == 1) return shapes1(); return shapes2(); }

template<std::size_t D, typename T> struct operand {
    Arr<T> a; Cat c; vec<D,T> v, parent; Arr<T> pa;
    void build() {
        v = make<D,T>(a);
        Dims pd = a.d; pd[0] += 1; sz row = 1; for (sz k = 1; k < D; ++k) row *= a.d[k];
        pa = Arr<T>(pd); for (sz i = 0; i < a.d[0]; ++i) for (sz j = 0; j < row; ++j) pa.v[i*row + j] = a.v[(a.d[0]-1-i)*row + j];
        for (sz j = 0; j < row; ++j) pa.v[a.d[0]*row + j] = T();
        parent = make<D,T>(pa);
    }
    vec<1,uint_t> rev() const { vec<1,uint_t> r; for (sz i = a.d[0]; i-- > 0;) r.push_back(i); return r; }
    template<typename F> void with(F&& f) {
        const vec<D,T>& cp = parent;
        switch (c) {
        case LV: f(v); break;
        case CLV: f(static_cast<const vec<D,T>&>(v)); break;
        case RV: f(vec<D,T>(v)); break;
        case VIEW: if constexpr (D == 1) f(parent(rev())); else f(parent(rev(), _)); break;
        case CVIEW: if constexpr (D == 1) { const auto w = cp(rev()); f(w); } else { const auto w = cp(rev(), _); f(w); } break;
        default: break;
        }
    }
    void unchanged() { expect(v, a, "argument changed"); expect(parent, pa, "argument changed"); }
};

template<typename E> bool close(E a, E b) {
    if (a == b || (a != a && b != b)) return true;
    if constexpr (std::is_floating_point<E>::value) return std::fabs(double(a) - double(b)) <= 1e-6*std::fabs(double(b)) && !std::isinf(double(b)) && (std::is_same<E,float>::value || std::fabs(double(a)-double(b)) <= 1e-13*std::fabs(double(b)));
    return false;
}

// F: struct with static f(x) (library, any argument) and static r(x) (reference, scalar)
template<std::size_t D, typename T, typename F> void unary() {
    operand<D,T> x; x.c = (Cat)mc::choose(NCAT);
    Dims d = mc::pick(shapes<D>());
    std::vector<T> al; for (auto t : alphabet<T>()) if (F::ok(t)) al.push_back(t);
    sz i0 = mc::choose(al.size());
    x.a = Arr<T>(d); for (sz i = 0; i < x.a.size(); ++i) x.a.v[i] = al[(i0 + i) % al.size()];
    x.build();
    MC_LOG(F::name(), " of ", cname[x.c], " ", x.a);
    x.with([&](auto&& l) {
        auto res = F::f(std::forward<decltype(l)>(l));
        auto g = read(res);
        MC_CHECK(g.d == d, F::name(), ": dimensions ", g.d, " instead of ", d);
        for (sz i = 0; i < g.size(); ++i) {
            auto e = F::r(x.a.v[i]);
            using E = decltype(e);
            mc::op();
            MC_CHECK(close<E>(g.v[i], e), F::name(), "(", x.a.v[i], ") = ", e, " but element ", i, " is ", (E)g.v[i]);
        }
        mc::outcome(mc::mix(mc::hash_str(F::name()), i0*10 + d[0]));
    });
    x.unchanged();
}
#define FN(N, EXPR, REFEXPR, OKEXPR) struct N##_ { static const char* name() { return #N; } \
    template<typename X> static auto f(X&& x) { using namespace vif; return EXPR; } \
    template<typename T> static auto r(T x) { return REFEXPR; } \
    template<typename T> static bool ok(T x) { return OKEXPR; } };
#define X_ std::forward<X>(x)
FN(sqrt, sqrt(X_), std::sqrt(x), true)
FN(sqr, sqr(X_), x*x, true)
FN(invsqr, invsqr(X_), 1.0/(x*x), x != 0)
FN(pow2, pow(X_, 2), std::pow(x, 2), true)
FN(powf, pow(X_, 1.5), std::pow(x, 1.5), true)
FN(powr, pow(2.0, X_), std::pow(2.0, x), true)
FN(fmod, fmod(X_, 2.0), std::fmod(x, 2.0), true)
FN(cos, cos(X_), std::cos(x), true)
FN(sin, sin(X_), std::sin(x), true)
FN(tan, tan(X_), std::tan(x), true)
FN(acos, acos(X_), std::acos(x), true)
FN(asin, asin(X_), std::asin(x), true)
FN(atan, atan(X_), std::atan(x), true)
FN(cosh, cosh(X_), std::cosh(x), true)
FN(sinh, sinh(X_), std::sinh(x), true)
FN(tanh, tanh(X_), std::tanh(x), true)
FN(acosh, acosh(X_), std::acosh(x), true)
FN(asinh, asinh(X_), std::asinh(x), true)
FN(atanh, atanh(X_), std::atanh(x), true)
FN(exp, exp(X_), std::exp(x), true)
FN(log, log(X_), std::log(x), true)
FN(log2, log2(X_), std::log2(x), true)
FN(log10, log10(X_), std::log10(x), true)
FN(erf, erf(X_), std::erf(x), true)
FN(erfc, erfc(X_), std::erfc(x), true)
FN(tgamma, tgamma(X_), std::tgamma(x), true)
FN(ceil, ceil(X_), std::ceil(x), true)
FN(floor, floor(X_), std::floor(x), true)
FN(round, round(X_), std::round(x), true)
FN(abs, abs(X_), std::abs(x), true)
FN(isfinite, is_finite(X_), std::isfinite(x), true)
FN(isnan, is_nan(X_), std::isnan(x), true)
FN(sign, sign(X_), (x >= 0 ? 1 : -1), true)
FN(e10, e10(X_), std::exp(2.30258509299404568*x), true)
FN(bj0, bessel_j0(X_), ::j0(x), true)
FN(bj1, bessel_j1(X_), ::j1(x), true)
FN(by0, bessel_y0(X_), ::y0(x), x > 0)
FN(by1, bessel_y1(X_), ::y1(x), x > 0)
FN(bi0, bessel_i0(X_), gsl_sf_bessel_I0(x), x > 0 && x < 100)
FN(bi1, bessel_i1(X_), gsl_sf_bessel_I1(x), x > 0 && x < 100)
FN(bk0, bessel_k0(X_), gsl_sf_bessel_K0(x), x > 0 && x < 100)
FN(bk1, bessel_k1(X_), gsl_sf_bessel_K1(x), x > 0 && x < 100)
struct clamp2_ { static const char* name() { return "clamp"; }
    template<typename X> static auto f(X&& x) { return vif::clamp(std::forward<X>(x), -1, 3); }
    template<typename T> static auto r(T x) { return x < -1 ? T(-1) : x > 3 ? T(3) : x; }
    template<typename T> static bool ok(T) { return true; } };
#define SC(N) MC_SCENARIO(N##_d1) { unary<1,double,N##_>(); } MC_SCENARIO(N##_d2) { unary<2,double,N##_>(); }
#define SCX(N) SC(N) MC_SCENARIO(N##_f1) { unary<1,float,N##_>(); } MC_SCENARIO(N##_i1) { unary<1,int,N##_>(); }
#if PART == 0 || PART == 99
SCX(sqrt) SCX(sqr) SC(invsqr) SCX(pow2) SC(powf)
#endif
#if PART == 1 || PART == 99
SC(fmod) SC(cos) SC(sin) SC(tan) SC(acos) SC(asin) SC(atan)
MC_SCENARIO(powr_d1) { unary<1,double,powr_>(); } MC_SCENARIO(powr_f1) { unary<1,float,powr_>(); } MC_SCENARIO(powr_i1) { unary<1,int,powr_>(); }
#endif
#if PART == 2 || PART == 99
SC(cosh) SC(sinh) SC(tanh) SC(acosh) SC(asinh) SC(atanh) SC(exp)
#endif
#if PART == 3 || PART == 99
SC(log) SC(log2) SC(log10) SC(erf) SC(erfc) SC(tgamma) SC(ceil)
#endif
#if PART == 4 || PART == 99
SC(floor) SC(round) SCX(abs) SCX(clamp2)
#endif
#if PART == 5 || PART == 99
SC(isfinite) SC(isnan) SC(sign) SC(e10) SC(bj0) SC(bj1) SC(by0) SC(by1)
MC_SCENARIO(isfinite_f) { unary<1,float,isfinite_>(); }
MC_SCENARIO(sign_i) { unary<1,int,sign_>(); }
#endif
#if PART == 6 || PART == 99
SC(bi0) SC(bi1) SC(bk0) SC(bk1)
MC_SCENARIO(fast_exp) {
    // advertised as an approximation of exp: vector version equals the scalar one, which is within 0.2% of exp
    float x = -87.0f + 0.5f*mc::choose(351);
    float s = vif::fast_exp(x);
    MC_CHECK(std::fabs(s/std::exp((double)x) - 1.0) < 4e-3, "fast_exp(", x, ") = ", s);
    vec<1,float> v(3); v[0] = x; v[1] = 0; v[2] = -x;
    auto w = vif::fast_exp(v);
    MC_CHECK(w.size() == 3 && w[0] == s && w[1] == vif::fast_exp(0.0f) && w[2] == vif::fast_exp(-x), "fast_exp of a vector");
}
MC_SCENARIO(lambda_first) {
    unsigned cat = mc::choose(4); sz n = mc::choose(4); double k = mc::pick<double>({2, -1});
    auto a = filled<double>({n}, 1); auto v = make<1,double>(a); const auto& cv = v;
    auto f = vif::vectorize_lambda_first([](double x, double y) { return (int)std::floor(x*y); });
    std::vector<int> e; for (auto x : a.v) e.push_back((int)std::floor(x*k));
    if (cat == 0) expect1(f(v, k), e, "vectorize_lambda_first");
    if (cat == 1) expect1(f(cv, k), e, "vectorize_lambda_first");
    if (cat == 2) expect1(f(vec<1,double>(v), k), e, "vectorize_lambda_first");
    if (cat == 3) expect1(f(v(_), k), e, "vectorize_lambda_first");
    MC_CHECK(f(2.5, k) == (int)std::floor(2.5*k), "scalar call");
    expect(v, a, "argument changed");
}
MC_SCENARIO(lambda_strings) {
    // moved-from temporaries may be consumed, named vectors may not
    sz n = mc::choose(4); unsigned cat = mc::choose(3);
    auto a = filled<std::string>({n}, 1); auto v = make<1,std::string>(a);
    auto f = vif::vectorize_lambda_first([](std::string s, const std::string& t) { return s + t; });
    std::vector<std::string> e; for (auto x : a.v) e.push_back(x + "!");
    if (cat == 0) expect1(f(v, std::string("!")), e, "vectorize_lambda_first");
    if (cat == 1) expect1(f(vec<1,std::string>(v), std::string("!")), e, "vectorize_lambda_first");
    if (cat == 2) { auto w = v(_); expect1(f(w, std::string("!")), e, "vectorize_lambda_first"); }
    expect(v, a, "argument changed");
    auto g = vif::vectorize_lambda([](const std::string& s, const std::string& t) { return s + t; });
    if (cat == 0) expect1(g(v, std::string("!")), e, "vectorize_lambda");
    if (cat == 1) expect1(g(vec<1,std::string>(v), std::string("!")), e, "vectorize_lambda");
    if (cat == 2) expect1(g(v(_), std::string("!")), e, "vectorize_lambda");
    expect(v, a, "argument changed");
}
#endif
#if PART == 7 || PART == 99
// two vectors or a vector and a scalar
template<std::size_t D, typename T, typename U> void atan2_() {
    operand<D,T> x; operand<D,U> y;
    unsigned cx = mc::choose(NCAT + 1), cy = mc::choose(NCAT + 1);
    mc::assume(cx < NCAT || cy < NCAT);
    bool sx = cx == NCAT, sy = cy == NCAT; x.c = (Cat)(sx ? 0 : cx); y.c = (Cat)(sy ? 0 : cy);
    Dims dx = mc::pick(shapes<D>()), dy = mc::pick(shapes<D>());
    if (sx) dx = dy; if (sy) mc::assume(dy == shapes<D>()[0]), dy = dx;
    x.a = Arr<T>(dx); y.a = Arr<U>(dy);
    std::vector<T> ax = {T(0), T(1), T(-2.5), T(NaN)}; std::vector<U> ay = {U(1), U(0), U(-3), U(0.5)};
    sz i0 = mc::choose(4), j0 = mc::choose(4);
    for (sz i = 0; i < x.a.size(); ++i) x.a.v[i] = ax[(i0 + i)%4];
    for (sz i = 0; i < y.a.size(); ++i) y.a.v[i] = ay[(j0 + 2*i)%4];
    x.build(); y.build();
    T xs = ax[i0]; U ys = ay[j0];
    MC_LOG("atan2 ", sx ? "scalar" : cname[cx], " ", x.a, " ", sy ? "scalar" : cname[cy], " ", y.a);
    bool mismatch = !sx && !sy && dx != dy;
    bool ok = true; Arr<double> got;
    auto store = [&](const auto& r) { auto g = read(r); got.d = g.d; got.v.assign(g.v.begin(), g.v.end()); };
    using vif::atan2;
    if (sx) y.with([&](auto&& r) { ok = mc::attempt([&]() { store(atan2(xs, std::forward<decltype(r)>(r))); }); });
    else if (sy) x.with([&](auto&& l) { ok = mc::attempt([&]() { store(atan2(std::forward<decltype(l)>(l), ys)); }); });
    else x.with([&](auto&& l) { y.with([&](auto&& r) { ok = mc::attempt([&]() { store(atan2(std::forward<decltype(l)>(l), std::forward<decltype(r)>(r))); }); }); });
    if (mismatch) { MC_CHECK(!ok, "different dimensions accepted"); return; }
    MC_CHECK(ok, "valid call rejected");
    MC_CHECK(got.d == dx, "dimensions ", got.d);
    for (sz i = 0; i < got.size(); ++i) {
        auto e = std::atan2(sx ? xs : x.a.v[i], sy ? ys : y.a.v[i]);
        MC_CHECK(close<double>(got.v[i], e), "atan2 element ", i, ": ", got.v[i], " instead of ", e);
    }
    x.unchanged(); y.unchanged();
}
MC_SCENARIO(atan2_dd) { atan2_<1,double,double>(); }
MC_SCENARIO(atan2_dd2) { atan2_<2,double,double>(); }
MC_SCENARIO(atan2_fd) { atan2_<1,float,double>(); }
MC_SCENARIO(lambda_multi) {
    unsigned cx = mc::choose(5), cy = mc::choose(5); // vector, const vector, temporary, view, scalar
    sz nx = mc::choose(4), ny = mc::choose(4);
    mc::assume(cx < 4 || cy < 4);
    if (cx == 4) mc::assume(nx == 0); if (cy == 4) mc::assume(ny == 0);
    auto ax = filled<int>({nx}, 3), ay = filled<int>({ny}, 20); auto x = make<1,int>(ax), y = make<1,int>(ay);
    const auto& kx = x; const auto& ky = y; int s = 7; const int t = 9;
    unsigned calls = 0;
    auto f = vif::vectorize_lambda([&calls](int a, double b) { ++calls; return a*100 + b; });
    bool mismatch = cx < 4 && cy < 4 && nx != ny;
    sz n = cx < 4 ? nx : ny;
    std::vector<double> e; for (sz i = 0; i < n && !mismatch; ++i) e.push_back((cx < 4 ? ax.v[i] : s)*100 + double(cy < 4 ? ay.v[i] : t));
    Arr<double> got;
    auto gy = [&](auto&& l) {
        using L = decltype(l);
        auto st = [&](const auto& r) { got = read(r); };
        if (cy == 0) st(f(std::forward<L>(l), y)); else if (cy == 1) st(f(std::forward<L>(l), ky)); else if (cy == 2) st(f(std::forward<L>(l), vec<1,int>(y)));
        else if (cy == 3) st(f(std::forward<L>(l), y(_))); else if constexpr (vif::meta::is_vec<typename std::decay<L>::type>::value) st(f(std::forward<L>(l), t));
    };
    MC_LOG(cx, ax, cy, ay);
    bool ok = mc::attempt([&]() { if (cx == 0) gy(x); else if (cx == 1) gy(kx); else if (cx == 2) gy(vec<1,int>(x)); else if (cx == 3) gy(x(_)); else gy(s); });
    if (mismatch) { MC_CHECK(!ok, "different dimensions accepted"); return; }
    MC_CHECK(ok, "valid call rejected");
    MC_CHECK(got.d == Dims{n} && got.v == e, "vectorize_lambda: expected ", e, " got ", got);
    MC_CHECK(calls == n, "function called ", calls, " times for ", n, " elements");
    expect(x, ax, "argument changed"); expect(y, ay, "argument changed");
}
MC_SCENARIO(lambda_void) {
    sz r = mc::choose(3), c = mc::choose(3);
    auto a = filled<int>({r,c}, 3); auto v = make<2,int>(a); std::vector<int> seen;
    auto f = vif::vectorize_lambda([&](int x) { seen.push_back(x); });
    f(v); MC_CHECK(seen == a.v, "void lambda saw ", seen);
    // arguments taken by reference can be modified
    auto g = vif::vectorize_lambda([](int& x, int y) { x += y; });
    g(v, 5); for (auto& x : a.v) x += 5; expect(v, a, "modifying lambda");
    g(v, v); for (auto& x : a.v) x += x; expect(v, a, "modifying lambda");
    seen.clear(); f(4); MC_CHECK(seen == std::vector<int>{4}, "scalar call");
}
#endif
