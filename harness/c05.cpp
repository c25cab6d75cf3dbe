// C05: every operator, on every combination of operand categories and several element types, acts element by element.
#include "vifref.hpp"
using namespace vr;
using vif::_;
#ifndef PART
#define PART 99
#endif
enum Op { ADD, SUB, MUL, DIV, MOD, EQ, NE, LT, LE, GT, GE, AND, OR, NOP };
static const char* opname[] = {"+","-","*","/","%","==","!=","<","<=",">",">=","&&","||"};
template<Op O, typename A, typename B> auto bin(A&& a, B&& b) {
    if constexpr (O == ADD) return std::forward<A>(a) + std::forward<B>(b); else if constexpr (O == SUB) return std::forward<A>(a) - std::forward<B>(b);
    else if constexpr (O == MUL) return std::forward<A>(a) * std::forward<B>(b); else if constexpr (O == DIV) return std::forward<A>(a) / std::forward<B>(b);
    else if constexpr (O == MOD) return std::forward<A>(a) % std::forward<B>(b); else if constexpr (O == EQ) return std::forward<A>(a) == std::forward<B>(b);
    else if constexpr (O == NE) return std::forward<A>(a) != std::forward<B>(b); else if constexpr (O == LT) return std::forward<A>(a) < std::forward<B>(b);
    else if constexpr (O == LE) return std::forward<A>(a) <= std::forward<B>(b); else if constexpr (O == GT) return std::forward<A>(a) > std::forward<B>(b);
    else if constexpr (O == GE) return std::forward<A>(a) >= std::forward<B>(b); else if constexpr (O == AND) return std::forward<A>(a) && std::forward<B>(b);
    else return std::forward<A>(a) || std::forward<B>(b);
}
// categories
enum Cat { LV, CLV, RV, VIEW, CVIEW, SCAL, NCAT };
static const char* cname[] = {"vector", "const vector", "temporary", "view", "view of const vector", "scalar"};

template<typename T> std::vector<T> alphabet();
template<> std::vector<int> alphabet<int>() { return {3, 0, 1, -5}; }
template<> std::vector<unsigned> alphabet<unsigned>() { return {3, 0, 4000000000u}; }
template<> std::vector<short> alphabet<short>() { return {3, 0, -7, 30000}; }
template<> std::vector<float> alphabet<float>() { return {0.5f, 0.0f, -3.25f, std::numeric_limits<float>::infinity(), std::numeric_limits<float>::quiet_NaN()}; }
template<> std::vector<double> alphabet<double>() { return {0.1, 0.0, -3.25, std::numeric_limits<double>::quiet_NaN(), -std::numeric_limits<double>::infinity()}; }
template<> std::vector<std::string> alphabet<std::string>() { return {"a", "", "ab", "Z"}; }
template<> std::vector<bool> alphabet<bool>() { return {false, true}; }
template<> std::vector<char> alphabet<char>() { return {char(3), char(0), char(-9), char(100)}; }
template<> std::vector<long> alphabet<long>() { return {3, 0, -5, 1l << 40}; }
template<> std::vector<unsigned long> alphabet<unsigned long>() { return {3, 0, 1ul << 40}; }

template<std::size_t D> std::vector<Dims> shapes();
template<> std::vector<Dims> shapes<1>() { return {{0},{1},{2},{3}}; }
template<> std::vector<Dims> shapes<2>() { return {{0,0},{1,2},{2,1},{2,2}}; }

// An operand: reference content a; every category built from it; content checked afterwards
template<std::size_t D, typename T> struct operand {
    Arr<T> a; Cat c; vec<D,T> v, parent; Arr<T> pa; T s;
    void build() {
        v = make<D,T>(a);
        // parent of the views: rows in reverse order plus one extra row at the end
        Dims pd = a.d; pd[0] += 1; sz row = 1; for (sz k = 1; k < D; ++k) row *= a.d[k];
        pa = Arr<T>(pd); for (sz i = 0; i < a.d[0]; ++i) for (sz j = 0; j < row; ++j) pa.v[i*row + j] = a.v[(a.d[0]-1-i)*row + j];
        for (sz j = 0; j < row; ++j) pa.v[a.d[0]*row + j] = T();
        parent = make<D,T>(pa);
        if (c == SCAL) s = a.v[0];
    }
    vec<1,uint_t> rev() const { vec<1,uint_t> r; for (sz i = a.d[0]; i-- > 0;) r.push_back(i); return r; }
    template<typename F> void with(F&& f) {
        const vec<D,T>& cp = parent;
        switch (c) {
        case LV: f(v); break;
        case CLV: f(static_cast<const vec<D,T>&>(v)); break;
        case RV: f(vec<D,T>(v)); break;
        case VIEW: if constexpr (D == 1) f(parent(rev())); else f(parent(rev(), _)); break;
        case CVIEW: if constexpr (D == 1) { const auto w = cp(rev()); f(w); } else { const auto w = cp(rev(), _); f(w); } break;
        case SCAL: f(static_cast<const T&>(s)); break;
        default: break;
        }
    }
    void unchanged(const char* what) { expect(v, a, what); expect(parent, pa, what); }
    // element i
    T el(sz i) const { return c == SCAL ? a.v[0] : a.v[i]; }
};
template<typename X> constexpr bool isv() { return vif::meta::is_vec<typename std::decay<X>::type>::value; }

template<typename T> bool zero(const T& t) { if constexpr (std::is_integral<T>::value) return t == 0; else return false; }

template<std::size_t D, typename T, typename U, Op O> void binary() {
    operand<D,T> x; operand<D,U> y;
    x.c = (Cat)mc::choose(NCAT); y.c = (Cat)mc::choose(NCAT);
    mc::assume(!(x.c == SCAL && y.c == SCAL));
    Dims dx = mc::pick(shapes<D>()), dy = dx;
    bool mismatch = false;
    if (x.c != SCAL && y.c != SCAL && mc::choose(2)) { dy = mc::pick(shapes<D>()); mismatch = dy != dx; mc::assume(mismatch); }
    if (x.c == SCAL) dx = Dims(D, 1);
    if (y.c == SCAL) dy = Dims(D, 1);
    if (x.c == SCAL) dy = mc::pick(shapes<D>());
    x.a = Arr<T>(dx); y.a = Arr<U>(dy);
    auto ax = alphabet<T>(); auto ay = alphabet<U>();
    sz nx = prod(dx), ny = prod(dy);
    // the first elements take every pair of values; the others cycle through the alphabet
    sz i0 = mc::choose(ax.size()), j0 = mc::choose(ay.size());
    for (sz i = 0; i < nx; ++i) x.a.v[i] = ax[(i0 + i) % ax.size()];
    for (sz i = 0; i < ny; ++i) y.a.v[i] = ay[(j0 + 2*i) % ay.size()];
    if (O == DIV || O == MOD) for (sz i = 0; i < ny; ++i) if (zero<U>(y.a.v[i]) && zero<U>(U(0))) y.a.v[i] = ay[0];
    if ((O == DIV || O == MOD) && std::is_same<U,bool>::value) for (sz i = 0; i < ny; ++i) y.a.v[i] = ay.back();
    x.build(); y.build();
    MC_LOG(cname[x.c], " ", x.a, " ", opname[O], " ", cname[y.c], " ", y.a);
    bool called = false, ok = true;
    x.with([&](auto&& l) { y.with([&](auto&& r) {
        using L = decltype(l); using R = decltype(r);
        if constexpr (isv<L>() || isv<R>()) {
            called = true;
            using E = typename std::decay<decltype(bin<O>(std::declval<T>(), std::declval<U>()))>::type;
            Arr<E> got; bool dimok = true;
            ok = mc::attempt([&]() {
                auto res = bin<O>(std::forward<L>(l), std::forward<R>(r));
                auto g = read(res); got.d = g.d; for (sz i = 0; i < g.v.size(); ++i) got.v.push_back(g.v[i]);
                using RE = typename std::decay<decltype(g.v[0])>::type;
                (void)dimok;
            });
            if (ok && !mismatch) {
                const Dims& ed = x.c == SCAL ? dy : dx;
                Arr<E> exp; exp.d = ed; for (sz i = 0; i < prod(ed); ++i) exp.v.push_back(bin<O>(x.el(i), y.el(i)));
                MC_CHECK(same_arr(got, exp), "operator", opname[O], ": expected ", exp, " got ", got);
                std::uint64_t h = O*1000 + x.c*10 + y.c; for (auto q : ed) h = mc::mix(h, q); mc::outcome(mc::mix(h, i0*7+j0));
            }
        }
    }); });
    MC_CHECK(called, "not called");
    if (mismatch) MC_CHECK(!ok, "operands of different dimensions accepted");
    else MC_CHECK(ok, "valid operation rejected");
    if (ok) { x.unchanged("left operand changed"); y.unchanged("right operand changed"); }
}

enum COp { CADD, CSUB, CMUL, CDIV };
static const char* cpname[] = {"+=","-=","*=","/="};
template<COp O, typename A, typename B> void cbin(A& a, const B& b) {
    if constexpr (O == CADD) a += b; else if constexpr (O == CSUB) a -= b; else if constexpr (O == CMUL) a *= b; else a /= b;
}
template<std::size_t D, typename T, typename U, COp O> void compound() {
    operand<D,U> y; y.c = (Cat)mc::choose(NCAT);
    Dims dx = mc::pick(shapes<D>()), dy = dx; bool mismatch = false;
    if (y.c == SCAL) dy = Dims(D, 1);
    else if (mc::choose(2)) { dy = mc::pick(shapes<D>()); mismatch = dy != dx; mc::assume(mismatch); }
    auto ax = alphabet<T>(); auto ay = alphabet<U>();
    Arr<T> xa(dx); y.a = Arr<U>(dy);
    sz i0 = mc::choose(ax.size()), j0 = mc::choose(ay.size());
    for (sz i = 0; i < xa.size(); ++i) xa.v[i] = ax[(i0 + i) % ax.size()];
    for (sz i = 0; i < y.a.size(); ++i) { y.a.v[i] = ay[(j0 + 2*i) % ay.size()]; if (O == CDIV && zero<U>(y.a.v[i])) y.a.v[i] = ay[0]; }
    y.build();
    auto x = make<D,T>(xa);
    MC_LOG(xa, " ", cpname[O], " ", cname[y.c], " ", y.a);
    bool ok = true;
    y.with([&](auto&& r) { ok = mc::attempt([&]() { cbin<O>(x, r); }); });
    if (mismatch) { MC_CHECK(!ok, "operands of different dimensions accepted"); return; }
    MC_CHECK(ok, "valid operation rejected");
    Arr<T> e = xa; for (sz i = 0; i < e.size(); ++i) { T t = e.v[i]; cbin<O>(t, y.el(i)); e.v[i] = t; }
    expect(x, e, "compound operator"); y.unchanged("right operand changed");
}

template<std::size_t D, typename T> void unary_minus() {
    operand<D,T> x; x.c = (Cat)mc::choose(SCAL);
    Dims d = mc::pick(shapes<D>()); auto ax = alphabet<T>(); sz i0 = mc::choose(ax.size()); bool plus = mc::flip();
    x.a = Arr<T>(d); for (sz i = 0; i < x.a.size(); ++i) x.a.v[i] = ax[(i0 + i) % ax.size()];
    x.build();
    MC_LOG(plus ? "+" : "-", cname[x.c], x.a);
    x.with([&](auto&& l) { if constexpr (isv<decltype(l)>()) {
        Arr<T> e = x.a; if (!plus) for (auto& t : e.v) t = -t;
        if (plus) { auto r = +std::forward<decltype(l)>(l); expect(r, e, "unary plus"); }
        else { auto r = -std::forward<decltype(l)>(l); expect(r, e, "unary minus"); }
    } });
    x.unchanged("operand changed");
}
template<std::size_t D> void unary_not() {
    operand<D,bool> x; x.c = (Cat)mc::choose(SCAL);
    Dims d = mc::pick(shapes<D>());
    x.a = Arr<bool>(d); for (sz i = 0; i < x.a.size(); ++i) x.a.v[i] = mc::flip();
    x.build();
    x.with([&](auto&& l) { if constexpr (isv<decltype(l)>()) {
        Arr<bool> e = x.a; for (sz i = 0; i < e.size(); ++i) e.v[i] = !e.v[i];
        auto r = !std::forward<decltype(l)>(l); expect(r, e, "operator!");
    } });
    x.unchanged("operand changed");
}
#define ARITH4(T,U,D) \
    MC_SCENARIO(T##_##U##_##D##_add) { binary<D,T,U,ADD>(); } MC_SCENARIO(T##_##U##_##D##_sub) { binary<D,T,U,SUB>(); } \
    MC_SCENARIO(T##_##U##_##D##_mul) { binary<D,T,U,MUL>(); } MC_SCENARIO(T##_##U##_##D##_div) { binary<D,T,U,DIV>(); }
#define CMP(T,U,D) \
    MC_SCENARIO(T##_##U##_##D##_eq) { binary<D,T,U,EQ>(); } MC_SCENARIO(T##_##U##_##D##_ne) { binary<D,T,U,NE>(); } \
    MC_SCENARIO(T##_##U##_##D##_lt) { binary<D,T,U,LT>(); } MC_SCENARIO(T##_##U##_##D##_le) { binary<D,T,U,LE>(); } \
    MC_SCENARIO(T##_##U##_##D##_gt) { binary<D,T,U,GT>(); } MC_SCENARIO(T##_##U##_##D##_ge) { binary<D,T,U,GE>(); }
#define COMP(T,U,D) \
    MC_SCENARIO(T##_##U##_##D##_cadd) { compound<D,T,U,CADD>(); } MC_SCENARIO(T##_##U##_##D##_csub) { compound<D,T,U,CSUB>(); } \
    MC_SCENARIO(T##_##U##_##D##_cmul) { compound<D,T,U,CMUL>(); } MC_SCENARIO(T##_##U##_##D##_cdiv) { compound<D,T,U,CDIV>(); }
using std::string;
#if PART == 0 || PART == 99
ARITH4(int,int,1)
MC_SCENARIO(int_int_1_mod) { binary<1,int,int,MOD>(); }
#endif
#if PART == 1 || PART == 99
CMP(int,int,1)
#endif
#if PART == 2 || PART == 99
ARITH4(float,double,1)
MC_SCENARIO(string_add) { binary<1,string,string,ADD>(); }
#endif
#if PART == 3 || PART == 99
ARITH4(double,double,2)
MC_SCENARIO(minus_int) { unary_minus<1,int>(); }
MC_SCENARIO(minus_double) { unary_minus<2,double>(); }
#endif
#if PART == 4 || PART == 99
ARITH4(double,int,1)
MC_SCENARIO(string_eq) { binary<1,string,string,EQ>(); }
MC_SCENARIO(string_lt) { binary<1,string,string,LT>(); }
#endif
#if PART == 5 || PART == 99
CMP(double,float,2)
#endif
#if PART == 6 || PART == 99
MC_SCENARIO(bool_and) { binary<1,bool,bool,AND>(); }
MC_SCENARIO(bool_or) { binary<1,bool,bool,OR>(); }
MC_SCENARIO(bool_and2) { binary<2,bool,bool,AND>(); }
MC_SCENARIO(bool_or2) { binary<2,bool,bool,OR>(); }
MC_SCENARIO(not1) { unary_not<1>(); }
MC_SCENARIO(not2) { unary_not<2>(); }
MC_SCENARIO(bool_eq) { binary<1,bool,bool,EQ>(); }
#endif
#if PART == 7 || PART == 99
COMP(int,int,1)
COMP(double,int,2)
COMP(int,double,1)
COMP(float,double,1)
MC_SCENARIO(string_cadd) { compound<1,string,string,CADD>(); }
#endif
#if PART == 8 || PART == 99
ARITH4(int,unsigned,1)
MC_SCENARIO(short_char_mod) { binary<1,short,char,MOD>(); }
MC_SCENARIO(long_int_mod) { binary<2,long,int,MOD>(); }
#endif
#if PART == 9 || PART == 99
ARITH4(short,char,1)
MC_SCENARIO(int_long_mul) { binary<1,int,long,MUL>(); }
MC_SCENARIO(bool_int_add) { binary<1,bool,int,ADD>(); }
#endif
#if PART == 10 || PART == 99
CMP(string,string,2)
MC_SCENARIO(uint_int_lt) { binary<1,unsigned,int,LT>(); }
MC_SCENARIO(double_int_ge) { binary<1,double,int,GE>(); }
#endif
