// C16: linear algebra (vif/math/matrix.hpp) against exact integer arithmetic. PART 0: products and element-wise operations,
// 1: general square systems, 2: symmetric systems, 3: as 1 and 2 compiled without LAPACK.
#ifndef PART
#define PART 0
#endif
#if PART == 3
#define NO_LAPACK
#endif
#include "vifref.hpp"
#include <vif/math/matrix.hpp>
using namespace vr;
using vif::matrix::mat; using vif::matrix::mat2d; using vif::_;
namespace mx = vif::matrix;
using L = long long;
struct IM { sz r, c; std::vector<L> v; IM(sz r, sz c) : r(r), c(c), v(r*c) {} L& operator()(sz i, sz j) { return v[i*c+j]; } L operator()(sz i, sz j) const { return v[i*c+j]; } };
std::ostream& operator<<(std::ostream& o, const IM& m) { for (sz i = 0; i < m.r; ++i) { o << "["; for (sz j = 0; j < m.c; ++j) o << m(i,j) << " "; o << "]"; } return o; }
IM minor_(const IM& m, sz r, sz c) { IM k(m.r-1, m.c-1); for (sz i = 0, a = 0; i < m.r; ++i) if (i != r) { for (sz j = 0, b = 0; j < m.c; ++j) if (j != c) k(a,b++) = m(i,j); ++a; } return k; }
L det(const IM& m) { if (m.r == 0) return 1; L d = 0; for (sz j = 0; j < m.c; ++j) if (m(0,j)) d += (j%2 ? -1 : 1)*m(0,j)*det(minor_(m, 0, j)); return d; }
IM adj(const IM& m) { IM k(m.r, m.c); for (sz i = 0; i < m.r; ++i) for (sz j = 0; j < m.c; ++j) k(j,i) = ((i+j)%2 ? -1 : 1)*det(minor_(m, i, j)); return k; }
IM lead(const IM& m, sz n) { IM k(n, n); for (sz i = 0; i < n; ++i) for (sz j = 0; j < n; ++j) k(i,j) = m(i,j); return k; }
template<typename T> mat<T> tomat(const IM& m) { mat<T> k(m.r, m.c); for (sz i = 0; i < m.r; ++i) for (sz j = 0; j < m.c; ++j) k(i,j) = m(i,j); return k; }
template<typename M> void dims_(const M& a, sz r, sz c, const char* w) { MC_CHECK(a.dims[0] == r && a.dims[1] == c && a.base.size() == r*c && a.size() == r*c, w, ": dimensions ", a.dims[0], "x", a.dims[1], " instead of ", r, "x", c); }
template<typename M> void eq(const M& a, const IM& m, const char* w) { // exact
    mc::op(); dims_(a, m.r, m.c, w); for (sz i = 0; i < m.r; ++i) for (sz j = 0; j < m.c; ++j) MC_CHECK(double(a.base(i,j)) == double(m(i,j)), w, ": element (", i, ",", j, ") is ", a.base(i,j), " instead of ", m(i,j), " in ", m);
    std::uint64_t h = m.r; for (auto x : m.v) h = mc::mix(h, x); mc::outcome(h);
}
void approx(const mat2d& a, const IM& m, double s, const char* w) { // a == m*s
    mc::op(); dims_(a, m.r, m.c, w); for (sz i = 0; i < m.r; ++i) for (sz j = 0; j < m.c; ++j) MC_CHECK(std::fabs(a.base(i,j) - m(i,j)*s) <= 1e-9*(1 + std::fabs(m(i,j)*s)), w, ": element (", i, ",", j, ") is ", a.base(i,j), " instead of ", m(i,j)*s);
    std::uint64_t h = m.r; for (auto x : m.v) h = mc::mix(h, x); mc::outcome(h);
}
IM gen(sz n, std::vector<L> vals) { IM m(n, n); for (auto& x : m.v) x = vals[mc::choose(vals.size())]; return m; }
IM gensym(sz n, std::vector<L> vals) { IM m(n, n); for (sz i = 0; i < n; ++i) for (sz j = i; j < n; ++j) m(i,j) = m(j,i) = vals[mc::choose(vals.size())]; return m; }
std::vector<std::vector<L>> rhs(sz n) { std::vector<std::vector<L>> r; for (sz i = 0; i < n; ++i) { r.emplace_back(n); r.back()[i] = 1; } r.emplace_back(n); for (sz i = 0; i < n; ++i) r.back()[i] = 2*i + 1; return r; }
vec<1,double> tov(const std::vector<L>& b) { vec<1,double> v(b.size()); for (sz i = 0; i < b.size(); ++i) v[i] = b[i]; return v; }
void sol(const vec<1,double>& x, const IM& a, L d, const std::vector<L>& b, const char* w) { // x == adj(a)*b/d
    mc::op(); IM k = adj(a); MC_CHECK(x.size() == b.size(), w, ": solution with ", x.size(), " elements");
    for (sz i = 0; i < b.size(); ++i) { double e = 0; for (sz j = 0; j < b.size(); ++j) e += double(k(i,j)*b[j])/d; MC_CHECK(std::fabs(x[i] - e) <= 1e-9*(1 + std::fabs(e)), w, ": x[", i, "] is ", x[i], " instead of ", e, " for A=", a); }
}

#if PART == 0
// ---------------------------------------------------------------- products
IM mul(const IM& a, const IM& b) { IM r(a.r, b.c); for (sz i = 0; i < a.r; ++i) for (sz j = 0; j < b.c; ++j) for (sz k = 0; k < a.c; ++k) r(i,j) += a(i,k)*b(k,j); return r; }
IM fill(sz r, sz c, L s) { IM m(r, c); for (sz i = 0; i < m.v.size(); ++i) m.v[i] = s + L(i*i) - L(3*i); return m; }
template<typename T, typename U> void products(const IM& a, const IM& b) {
    MC_LOG("A=", a, " B=", b); mat<T> ma = tomat<T>(a); mat<U> mb = tomat<U>(b); const mat<T>& ca = ma;
    vec<2,T> va = ma.base; vec<2,U> vb = mb.base; const vec<2,T>& cva = va; const vec<2,U>& cvb = vb;
    auto wa = mx::as_matrix(va); auto wb = mx::as_matrix(vb); auto cwa = mx::as_matrix(cva); auto cwb = mx::as_matrix(cvb);
    vec<1,U> bv(a.c); for (sz i = 0; i < a.c; ++i) bv[i] = 2*i + 1; vec<1,U> lv(a.r); for (sz i = 0; i < a.r; ++i) lv[i] = 3*i - 1;
    if (a.c == b.r) { IM e = mul(a, b); eq(ca*mb, e, "matrix product"); eq(wa*wb, e, "product of wrapped matrices"); eq(cwa*mb, e, "product of a wrapped matrix"); eq(ma*cwb, e, "product by a wrapped matrix");
        if (std::is_same<T,U>::value) { mat<T> x = ma; x *= mb; eq(x, e, "matrix *="); if (a.r == a.c) { mat<T> y = ma; y *= y; eq(y, mul(a, a), "matrix *= itself"); } } }
    else { MC_CHECK(!mc::attempt([&]() { auto x = ca*mb; }), "product of ", a.r, "x", a.c, " by ", b.r, "x", b.c, " was accepted"); MC_CHECK(!mc::attempt([&]() { auto x = wa*cwb; }), "product of incompatible wrapped matrices was accepted"); }
    { auto r = ma*bv; std::vector<double> e(a.r); for (sz i = 0; i < a.r; ++i) for (sz k = 0; k < a.c; ++k) e[i] += a(i,k)*double(bv[k]); MC_CHECK(r.size() == a.r, "matrix-vector product has ", r.size(), " elements"); for (sz i = 0; i < a.r; ++i) MC_CHECK(double(r[i]) == e[i], "matrix-vector product: element ", i, " is ", r[i], " instead of ", e[i]);
      auto r2 = cwa*bv; for (sz i = 0; i < a.r; ++i) MC_CHECK(double(r2[i]) == e[i], "wrapped matrix-vector product"); vec<1,U> bad(a.c + 1); MC_CHECK(!mc::attempt([&]() { auto x = ma*bad; }), "matrix-vector product with a vector too long was accepted"); mc::op(); }
    { auto r = lv*ma; std::vector<double> e(a.c); for (sz i = 0; i < a.r; ++i) for (sz k = 0; k < a.c; ++k) e[k] += double(lv[i])*a(i,k); MC_CHECK(r.size() == a.c, "vector-matrix product has ", r.size(), " elements"); for (sz k = 0; k < a.c; ++k) MC_CHECK(double(r[k]) == e[k], "vector-matrix product: element ", k, " is ", r[k], " instead of ", e[k]);
      vec<1,U> bad(a.r + 1); MC_CHECK(!mc::attempt([&]() { auto x = bad*ma; }), "vector-matrix product with a vector too long was accepted"); mc::op(); }
    eq(ma, a, "left operand"); eq(mb, b, "right operand"); eq(wa, a, "left operand"); eq(wb, b, "right operand");
    IM t(a.c, a.r); for (sz i = 0; i < a.r; ++i) for (sz j = 0; j < a.c; ++j) t(j,i) = a(i,j); eq(mx::transpose(ma), t, "transpose"); eq(mx::transpose(wa), t, "transpose of a wrapped matrix"); eq(mx::transpose(cwa), t, "transpose of a wrapped matrix");
}
MC_SCENARIO_S(products_shapes, 3) { sz a = mc::choose(5), b = mc::choose(5), c = mc::choose(5), d = mc::choose(5); IM x = fill(a, b, 2), y = fill(c, d, -1); if (mc::flip()) products<double,double>(x, y); else if (mc::flip()) products<int,double>(x, y); else products<int,int>(x, y); }
MC_SCENARIO_S(products_2x2, 4) { IM a = gen(2, {-1,0,2}), b = gen(2, {-1,0,2}); products<double,double>(a, b); }
MC_SCENARIO_S(elementwise, 3) {
    sz r = mc::choose(4), c = mc::choose(4); IM a = fill(r, c, mc::pick<L>({-2, 0, 3})), b = fill(r, c, mc::pick<L>({1, 5})); L s = mc::pick<L>({-2, 1, 4}); MC_LOG(a, b, " s=", s);
    mat2d ma = tomat<double>(a), mb = tomat<double>(b); vec<2,double> va = ma.base; const vec<2,double>& cva = va; auto wa = mx::as_matrix(va); auto cwa = mx::as_matrix(cva);
    auto app = [&](auto f) { IM e(r, c); for (sz i = 0; i < e.v.size(); ++i) e.v[i] = f(a.v[i], b.v[i]); return e; };
    eq(ma + mb, app([&](L x, L y) { return x + y; }), "A+B"); eq(ma - mb, app([&](L x, L y) { return x - y; }), "A-B"); eq(wa + mb, app([&](L x, L y) { return x + y; }), "wrapped A+B"); eq(mb - cwa, app([&](L x, L y) { return y - x; }), "B-wrapped A");
    eq(mat2d(ma) + mat2d(mb), app([&](L x, L y) { return x + y; }), "temporaries A+B"); eq(mat2d(ma) - mat2d(mb), app([&](L x, L y) { return x - y; }), "temporaries A-B");
    double q = s; eq(ma*q, app([&](L x, L) { return x*s; }), "A*s"); eq(q*ma, app([&](L x, L) { return x*s; }), "s*A"); eq(ma + q, app([&](L x, L) { return x + s; }), "A+s"); eq(q + ma, app([&](L x, L) { return x + s; }), "s+A"); eq(ma - q, app([&](L x, L) { return x - s; }), "A-s"); eq(q - ma, app([&](L x, L) { return s - x; }), "s-A"); eq((ma*q)/q, a, "(A*s)/s"); eq(wa*q, app([&](L x, L) { return x*s; }), "wrapped A*s"); eq(cwa*q, app([&](L x, L) { return x*s; }), "wrapped A*s"); eq(q - cwa, app([&](L x, L) { return s - x; }), "s-wrapped A");
    eq(mat2d(ma)*q, app([&](L x, L) { return x*s; }), "temporary A*s"); eq(q - mat2d(ma), app([&](L x, L) { return s - x; }), "s-temporary A"); eq(-ma, app([&](L x, L) { return -x; }), "-A"); eq(-wa, app([&](L x, L) { return -x; }), "-wrapped A"); eq(-cwa, app([&](L x, L) { return -x; }), "-wrapped A"); eq(+ma, a, "+A"); eq(ma, a, "operand"); eq(mb, b, "operand"); eq(wa, a, "operand");
    { mat2d x = ma; x += mb; eq(x, app([&](L x, L y) { return x + y; }), "A+=B"); x -= mb; eq(x, a, "A-=B"); x += q; eq(x, app([&](L x, L) { return x + s; }), "A+=s"); x -= q; x *= q; eq(x, app([&](L x, L) { return x*s; }), "A*=s"); x /= q; eq(x, a, "A/=s"); x += x; eq(x, app([&](L x, L) { return 2*x; }), "A+=A"); x -= wa; eq(x, a, "A-=wrapped A"); eq(ma, a, "copy is independent"); }
    { mat2d x; x = ma; x += 1.0; eq(ma, a, "assignment makes a copy"); x = std::move(ma); eq(x, a, "move assignment"); mat2d y(std::move(x)); eq(y, a, "move construction"); mat2d z(cwa); eq(z, a, "copy of a wrapped matrix"); z += 1.0; eq(wa, a, "copy of a wrapped matrix is independent"); wa = mb; eq(wa, b, "assignment to a wrapped matrix"); expect(va, Arr<double>({r, c}, std::vector<double>(b.v.begin(), b.v.end())), "vector behind the wrapper"); }
    mat2d big = tomat<double>(fill(r + 1, c, 0)); if (r*c) { MC_CHECK(!mc::attempt([&]() { auto x = mb + big; }), "sum of matrices of different sizes was accepted"); MC_CHECK(!mc::attempt([&]() { auto x = big - mb; }), "difference of matrices of different sizes was accepted"); }
}
MC_SCENARIO(printed) { sz r = mc::choose(5), c = mc::choose(5); IM a = fill(r, c, 3); mat2d m = tomat<double>(a); std::ostringstream o; o << m; std::ostringstream e; for (sz i = 0; i < r; ++i) { if (i) e << "\n"; e << "["; for (sz j = 0; j < c; ++j) { if (j) e << ", "; e << a(i,j); } e << "]"; } mc::op(); MC_CHECK(o.str() == e.str(), "matrix printed as ", o.str(), " instead of ", e.str()); mc::outcome(mc::hash_str(e.str())); }
MC_SCENARIO(diagonals) {
    sz n = mc::choose(5), k = mc::choose(2); IM a = fill(n, n, 7); mat2d m = tomat<double>(a); vec<2,double> v = m.base; auto w = mx::as_matrix(v); MC_LOG("n=", n);
    std::vector<double> d; for (sz i = 0; i < n; ++i) d.push_back(a(i,i)); expect1(mx::diagonal(m), d, "diagonal"); expect1(mx::diagonal(w), d, "diagonal of a wrapped matrix"); expect1(mx::diagonal(mat2d(m)), d, "diagonal of a temporary");
    if (k) { mx::diagonal(m) *= 3; mx::diagonal(w) *= 3; for (sz i = 0; i < n; ++i) a(i,i) *= 3; } else { mx::diagonal(m) = 4; mx::diagonal(w) = 4; for (sz i = 0; i < n; ++i) a(i,i) = 4; } eq(m, a, "assignment to the diagonal"); eq(w, a, "assignment to the diagonal of a wrapped matrix"); expect(v, Arr<double>({n, n}, std::vector<double>(a.v.begin(), a.v.end())), "vector behind the wrapper");
    IM id(n, n); for (sz i = 0; i < n; ++i) id(i,i) = 1; eq(mx::make_identity(n), id, "make_identity"); eq(mx::make_identity<int>(n), id, "make_identity<int>"); IM ad(n, n); vec<1,double> dv; for (sz i = 0; i < n; ++i) { ad(i,i) = 5 - 2*L(i); dv.push_back(5 - 2*double(i)); } eq(mx::as_diagonal(dv), ad, "as_diagonal");
    mat2d ns(n, n + 1); if (n) { MC_CHECK(!mc::attempt([&]() { auto x = mx::diagonal(ns); }), "diagonal of a non-square matrix was accepted"); MC_CHECK(!mc::attempt([&]() { auto x = mx::diagonal(mat2d(ns)); }), "diagonal of a non-square temporary was accepted"); MC_CHECK(!mc::attempt([&]() { mx::inplace_symmetrize(ns); }), "inplace_symmetrize of a non-square matrix was accepted"); }
    IM q = fill(n, n, 2), qs = q; for (sz i = 0; i < n; ++i) for (sz j = i + 1; j < n; ++j) qs(i,j) = q(j,i); mat2d mq = tomat<double>(q); mx::inplace_symmetrize(mq); eq(mq, qs, "inplace_symmetrize");
}
MC_SCENARIO(transforms) { // 3x3 matrices acting on points (x,y,1); composition by products
    double x = mc::pick<double>({0, 1, -2.5}), y = mc::pick<double>({0, 3, -0.5}), p = mc::pick<double>({0, 1, -2, 0.5}), q = mc::pick<double>({0, 1, 4}); vec<1,double> v = {x, y, 1.0};
    auto is = [&](const vec<1,double>& r, double a, double b, const char* w) { mc::op(); MC_CHECK(r.size() == 3 && mc::near(r[0], a, 1e-12) && mc::near(r[1], b, 1e-12) && r[2] == 1, w, ": (", x, ",", y, ") becomes (", r[0], ",", r[1], ") instead of (", a, ",", b, ")"); mc::outcome(mc::mix(std::hash<double>()(a), std::hash<double>()(b))); };
    is(mx::make_translation(p, q)*v, x + p, y + q, "translation"); is(mx::make_scale(p, q)*v, x*p, y*q, "scale"); is(mx::make_scale(p)*v, x*p, y*p, "scale"); for (int k = -4; k <= 4; ++k) { double a = k*std::acos(-1.0)/4; is(mx::make_rotation(a)*v, x*std::cos(a) - y*std::sin(a), x*std::sin(a) + y*std::cos(a), "rotation");
        is((mx::make_translation(p, q)*mx::make_rotation(a))*v, x*std::cos(a) - y*std::sin(a) + p, x*std::sin(a) + y*std::cos(a) + q, "rotation then translation"); is((mx::make_rotation(a)*mx::make_translation(p, q))*v, (x+p)*std::cos(a) - (y+q)*std::sin(a), (x+p)*std::sin(a) + (y+q)*std::cos(a), "translation then rotation"); }
}
#endif

#if PART == 1 || PART == 3
// ---------------------------------------------------------------- general square systems
void general(const IM& a, bool singular_too) {
    sz n = a.r; L d = det(a); if (d == 0 && !singular_too) return; MC_LOG("A=", a, " det=", d); mat2d m = tomat<double>(a); IM inv = adj(a);
    { double x = mx::determinant(m); mc::op(); MC_CHECK(std::fabs(x - d) <= 1e-9*(1 + std::fabs(d)), "determinant is ", x, " instead of ", d); eq(m, a, "argument of determinant"); }
    { mx::decompose_lu lu; if (mc::flip()) { mat2d o = tomat<double>(IM(n, n)); for (sz i = 0; i < n; ++i) o(i, n-1-i) = 1 + i; lu.decompose(mc::flip() ? o : mat2d(n, n)); } // the object may have been used before
      bool ok = lu.decompose(m); MC_CHECK(ok == (d != 0) && lu.bad == !ok, "LU decomposition returned ", ok, " (bad=", lu.bad, ")"); MC_CHECK(lu.size() == n, "LU size ", lu.size());
      if (ok) { MC_CHECK(std::fabs(lu.determinant() - d) <= 1e-9*(1 + std::fabs(d)), "LU determinant is ", lu.determinant(), " instead of ", d); approx(lu.invert(), inv, 1.0/d, "LU inverse"); for (auto& b : rhs(n)) { auto v = tov(b); sol(lu.solve(v), a, d, b, "LU solve"); } vec<1,double> bad(n + 1); MC_CHECK(!mc::attempt([&]() { lu.solve(bad); }), "LU solve accepted a vector of the wrong size"); }
      eq(m, a, "argument of LU decompose"); }
    { mx::decompose_lu lu; lu.no_pivot = true; bool e = true; for (sz k = 1; k <= n; ++k) if (det(lead(a, k)) == 0) e = false; bool ok = lu.decompose(m); if (singular_too || e) MC_CHECK(ok == e, "LU decomposition without pivoting returned ", ok);
      if (ok && e) { MC_CHECK(std::fabs(lu.determinant() - d) <= 1e-9*(1 + std::fabs(d)), "LU determinant without pivoting is ", lu.determinant(), " instead of ", d); approx(lu.invert(), inv, 1.0/d, "LU inverse without pivoting"); for (auto& b : rhs(n)) sol(lu.solve(tov(b)), a, d, b, "LU solve without pivoting"); } }
    { mat2d i = m, j; bool ok = mx::inplace_invert(i), ok2 = mx::invert(m, j); MC_CHECK(ok == (d != 0) && ok2 == ok, "invert returned ", ok, " and ", ok2); if (ok) { approx(i, inv, 1.0/d, "inplace_invert"); approx(j, inv, 1.0/d, "invert"); } eq(m, a, "argument of invert"); }
    for (auto& b : rhs(n)) { vec<1,double> x, v = tov(b), y = v; mat2d c = m; bool ok = mx::solve(m, v, x), ok2 = mx::inplace_solve(c, y); MC_CHECK(ok == (d != 0) && ok2 == ok, "solve returned ", ok, " and ", ok2); if (ok) { sol(x, a, d, b, "solve"); sol(y, a, d, b, "inplace_solve"); } eq(m, a, "matrix argument of solve"); for (sz i = 0; i < n; ++i) MC_CHECK(v[i] == b[i], "solve changed its argument"); }
    mat2d ns(n, n + 1), o; vec<1,double> bb(n), x, bw(n + 1);
    MC_CHECK(!mc::attempt([&]() { mx::determinant(ns); }), "determinant of a non-square matrix was accepted"); MC_CHECK(!mc::attempt([&]() { mx::decompose_lu l; l.decompose(ns); }), "LU of a non-square matrix was accepted"); MC_CHECK(!mc::attempt([&]() { mx::invert(ns, o); }), "inverse of a non-square matrix was accepted"); MC_CHECK(!mc::attempt([&]() { mx::solve(ns, bb, x); }), "solve with a non-square matrix was accepted"); if (d != 0) MC_CHECK(!mc::attempt([&]() { mx::solve(m, bw, x); }), "solve with a vector of the wrong size was accepted");
}
MC_SCENARIO(general_1) { general(gen(1, {-3,-2,-1,0,1,2,5}), true); }
MC_SCENARIO_S(general_2, 2) { general(gen(2, {-2,-1,0,1,2}), true); }
MC_SCENARIO_S(general_2b, 2) { general(gen(2, {-3,0,1,5,100}), false); }
MC_SCENARIO_S(general_3, 4) { general(gen(3, {-1,0,1}), true); }
MC_SCENARIO_S(general_4, 5) { std::vector<L> p = {mc::flip() ? L(1) : L(-2), mc::flip() ? L(2) : L(3), 1, 4}; IM a(4, 4); if (mc::thorough()) a = gen(4, {0,1}); else { // permutations with weights plus one arbitrary row
        std::vector<sz> q = {0,1,2,3}; for (sz i = 0; i < 3; ++i) std::swap(q[i], q[i + mc::choose(4 - i)]); for (sz i = 0; i < 4; ++i) a(i, q[i]) = p[i]; sz r = mc::choose(4); for (sz j = 0; j < 4; ++j) a(r, j) += mc::choose(2); } general(a, false); }
MC_SCENARIO_S(general_3t, 6) { if (!mc::thorough()) return; general(gen(3, {-2,-1,0,1,3}), false); }
#endif
#if PART == 1
MC_SCENARIO_S(svd, 4) {
    sz n = 1 + mc::choose(3); IM a = n == 1 ? gen(1, {-3,0,2}) : n == 2 ? gen(2, {-2,-1,0,1,3}) : gen(3, {-1,0,2}); MC_LOG("A=", a); mat2d m = tomat<double>(a); mx::decompose_svd s; if (mc::flip()) s.decompose(mx::make_identity(4)); bool ok = s.decompose(m); MC_CHECK(ok && !s.bad, "SVD failed"); eq(m, a, "argument of SVD"); mc::op();
    dims_(s.u, n, n, "U"); dims_(s.vt, n, n, "Vt"); MC_CHECK(s.s.size() == n, "number of singular values ", s.s.size()); for (sz i = 0; i < n; ++i) MC_CHECK(s.s[i] >= 0 && (i == 0 || s.s[i] <= s.s[i-1] + 1e-12), "singular values are not sorted");
    double p = 1; for (sz i = 0; i < n; ++i) p *= s.s[i]; MC_CHECK(std::fabs(p - std::fabs(det(a))) < 1e-8, "product of singular values is ", p); mc::outcome(std::llround(p));
    for (sz i = 0; i < n; ++i) for (sz j = 0; j < n; ++j) { double x = 0, u = 0, v = 0; for (sz k = 0; k < n; ++k) { x += s.u(i,k)*s.s[k]*s.vt(k,j); u += s.u(k,i)*s.u(k,j); v += s.vt(i,k)*s.vt(j,k); } MC_CHECK(std::fabs(x - a(i,j)) < 1e-9, "U*S*Vt differs from A at (", i, ",", j, "): ", x, " instead of ", a(i,j)); MC_CHECK(std::fabs(u - (i == j)) < 1e-9 && std::fabs(v - (i == j)) < 1e-9, "U or Vt is not orthogonal"); }
    mat2d ns(n, n + 1); MC_CHECK(!mc::attempt([&]() { s.decompose(ns); }), "SVD of a non-square matrix was accepted");
}
#endif

#if PART == 2 || PART == 3
// ---------------------------------------------------------------- symmetric systems
void symmetric(const IM& a, bool singular_too) {
    sz n = a.r; L d = det(a); MC_LOG("A=", a, " det=", d); mat2d m = tomat<double>(a); IM inv = adj(a);
    if (d != 0 || singular_too) {
        mat2d i = m, j; bool ok = mx::inplace_invert_symmetric(i), ok2 = mx::invert_symmetric(m, j); MC_CHECK(ok == (d != 0) && ok2 == ok, "invert_symmetric returned ", ok, " and ", ok2); if (ok) { mx::inplace_symmetrize(i); mx::inplace_symmetrize(j); approx(i, inv, 1.0/d, "inplace_invert_symmetric"); approx(j, inv, 1.0/d, "invert_symmetric"); } eq(m, a, "argument of invert_symmetric");
        for (auto& b : rhs(n)) { vec<1,double> x, v = tov(b), y = v; mat2d c = m; bool ok = mx::solve_symmetric(m, v, x), ok2 = mx::inplace_solve_symmetric(c, y); MC_CHECK(ok == (d != 0) && ok2 == ok, "solve_symmetric returned ", ok, " and ", ok2); if (ok) { sol(x, a, d, b, "solve_symmetric"); sol(y, a, d, b, "inplace_solve_symmetric"); } eq(m, a, "argument of solve_symmetric"); for (sz i = 0; i < n; ++i) MC_CHECK(v[i] == b[i], "solve_symmetric changed its argument"); }
    }
    { // Cholesky: positive definite if and only if all the leading minors are positive; the semi-definite boundary is left open
        bool pd = true, edge = false; for (sz k = 1; k <= n && pd; ++k) { L x = det(lead(a, k)); if (x == 0) edge = true; if (x <= 0) pd = false; } mx::decompose_cholesky c; if (mc::flip()) c.decompose(mc::flip() ? mx::make_identity(n + 1) : -mx::make_identity(n)); bool ok = c.decompose(m); if (!edge) MC_CHECK(ok == pd && c.bad == !ok, "Cholesky decomposition returned ", ok, " (bad=", c.bad, ")"); eq(m, a, "argument of Cholesky");
        if (pd) { dims_(c.l, n, n, "L"); MC_CHECK(c.size() == n, "size of Cholesky"); mc::op(); for (sz i = 0; i < n; ++i) for (sz j = 0; j < n; ++j) { double x = 0; for (sz k = 0; k < n; ++k) x += c.l(i,k)*c.l(j,k); MC_CHECK(std::fabs(x - a(i,j)) < 1e-9, "L*Lt differs from A at (", i, ",", j, "): ", x, " instead of ", a(i,j)); if (j > i) MC_CHECK(c.l(i,j) == 0, "L is not lower triangular"); if (i == j) MC_CHECK(c.l(i,i) > 0, "diagonal of L is not positive"); }
            mat2d li = c.lower_inverse(); dims_(li, n, n, "lower_inverse"); for (sz i = 0; i < n; ++i) for (sz j = 0; j < n; ++j) { double x = 0; for (sz k = 0; k < n; ++k) x += c.l(i,k)*li(k,j); MC_CHECK(std::fabs(x - (i == j)) < 1e-9, "L*lower_inverse differs from the identity"); }
            double ld = c.lower_determinant(); MC_CHECK(std::fabs(ld*ld - d) < 1e-9*(1 + d), "lower_determinant is ", ld, " for a determinant of ", d); MC_CHECK(std::fabs(c.log_lower_determinant() - 0.5*std::log(double(d))) < 1e-9, "log_lower_determinant is ", c.log_lower_determinant()); approx(c.invert(), inv, 1.0/d, "Cholesky inverse");
            for (auto& b : rhs(n)) { vec<1,double> v = tov(b), y = v; sol(c.solve(v), a, d, b, "Cholesky solve"); c.solve_inplace(y); sol(y, a, d, b, "Cholesky solve_inplace"); auto f = c.substitute_forward(v); auto g = c.substitute_backward(v); for (sz i = 0; i < n; ++i) { double p = 0, q = 0; for (sz k = 0; k < n; ++k) { p += c.l(i,k)*f[k]; q += c.l(k,i)*g[k]; } MC_CHECK(std::fabs(p - b[i]) < 1e-9 && std::fabs(q - b[i]) < 1e-9, "forward/backward substitution"); } for (sz i = 0; i < n; ++i) MC_CHECK(v[i] == b[i], "Cholesky solve changed its argument"); }
            vec<1,double> bad(n + 1); MC_CHECK(!mc::attempt([&]() { c.solve(bad); }), "Cholesky solve accepted a vector of the wrong size"); }
        mat2d ns(n, n + 1); MC_CHECK(!mc::attempt([&]() { c.decompose(ns); }), "Cholesky of a non-square matrix was accepted"); MC_CHECK(!mc::attempt([&]() { mat2d o; mx::invert_symmetric(ns, o); }), "invert_symmetric of a non-square matrix was accepted"); vec<1,double> x, bb(n), bw(n + 1); MC_CHECK(!mc::attempt([&]() { mx::solve_symmetric(ns, bb, x); }), "solve_symmetric with a non-square matrix was accepted"); if (d != 0) MC_CHECK(!mc::attempt([&]() { mx::solve_symmetric(m, bw, x); }), "solve_symmetric with a vector of the wrong size was accepted");
    }
#ifndef NO_LAPACK
    { vec<1,double> va, vb; mat2d ve, in = m; bool ok = mx::eigen_symmetric(m, va, ve), ok2 = mx::inplace_eigen_symmetric(in, vb); MC_CHECK(ok && ok2, "eigen_symmetric failed"); eq(m, a, "argument of eigen_symmetric"); dims_(ve, n, n, "eigenvectors"); MC_CHECK(va.size() == n, "number of eigenvalues"); mc::op();
      for (sz i = 0; i < n; ++i) { MC_CHECK(va[i] == vb[i], "eigen_symmetric and inplace_eigen_symmetric disagree"); if (i) MC_CHECK(va[i] >= va[i-1] - 1e-12, "eigenvalues are not sorted"); for (sz j = 0; j < n; ++j) { double x = 0, o = 0; for (sz k = 0; k < n; ++k) { x += a(j,k)*ve(i,k); o += ve(i,k)*ve(j,k); } MC_CHECK(ve(i,j) == in(i,j), "eigen_symmetric and inplace_eigen_symmetric disagree"); MC_CHECK(std::fabs(x - va[i]*ve(i,j)) < 1e-9, "A*v differs from lambda*v for eigenvalue ", i); MC_CHECK(std::fabs(o - (i == j)) < 1e-9, "eigenvectors are not orthonormal"); } } double p = 1; for (sz i = 0; i < n; ++i) p *= va[i]; MC_CHECK(std::fabs(p - d) < 1e-8*(1 + std::fabs(d)), "product of eigenvalues is ", p, " instead of ", d); mat2d ns(n, n + 1); MC_CHECK(!mc::attempt([&]() { mx::eigen_symmetric(ns, va, ve); }), "eigen_symmetric of a non-square matrix was accepted"); }
#endif
}
MC_SCENARIO(symmetric_1) { symmetric(gensym(1, {-3,-1,0,1,2,5}), true); }
MC_SCENARIO(symmetric_2) { symmetric(gensym(2, {-2,-1,0,1,2,3}), true); }
MC_SCENARIO_S(symmetric_3, 3) { symmetric(gensym(3, {-1,0,1,2}), false); }
MC_SCENARIO_S(symmetric_3s, 3) { symmetric(gensym(3, {-1,0,1}), true); }
MC_SCENARIO_S(symmetric_3b, 3) { symmetric(gensym(3, {-1,0,4,5}), false); }
MC_SCENARIO_S(symmetric_4, 5) { IM a(4, 4); if (mc::thorough()) a = gensym(4, {-1,0,1}); else a = gensym(4, {0,1}); for (sz i = 0; i < 4; ++i) a(i,i) *= 3; symmetric(a, false); }
#endif
