// C15: ranges, interpolation and integration of sampled data, against exact piecewise formulas.
#include "vifref.hpp"
#include <vif/math/reduce.hpp>
#include <cmath>
using namespace vr;
using vif::_;
using vif::npos;
using vd = std::vector<double>;
static bool nr(double a, double b) { return std::fabs(a - b) <= 1e-9*(1 + std::fabs(a) + std::fabs(b)); }
#define NEAR(expr, val) do { double g_ = (expr), e_ = (val); MC_CHECK(nr(g_, e_), #expr, " gave ", g_, " instead of ", e_); mc::op(); mc::outcome((long)(e_*1000)); } while (0)

// strictly increasing positions with irregular gaps
static vd xs(unsigned n) { static const vd gap = {1, 0.5, 3}; vd x; double c = -1; for (unsigned i = 0; i < n; ++i) { x.push_back(c); if (i + 1 < n) c += mc::pick(gap); } return x; }
static vd ys(unsigned n) { static const vd al = {0, 2, -3.5}; vd y; for (unsigned i = 0; i < n; ++i) y.push_back(mc::pick(al)); return y; }
static double lin(const vd& y, const vd& x, double p) { sz k = 0; while (k + 2 < x.size() && p >= x[k+1]) ++k; return y[k] + (y[k+1]-y[k])*(p-x[k])/(x[k+1]-x[k]); }
static vd probes(const vd& x) { vd p; p.push_back(x.front() - 1.25); for (sz i = 0; i < x.size(); ++i) { p.push_back(x[i]); if (i + 1 < x.size()) { p.push_back(0.75*x[i] + 0.25*x[i+1]); p.push_back(0.5*(x[i] + x[i+1])); } } p.push_back(x.back() + 2); return p; }

MC_SCENARIO_S(interpolate, 2) {
    unsigned n = mc::choose(mc::thorough() ? 6 : 5), m = mc::flip() ? n : mc::choose(4); vd x = xs(n), y = ys(m); auto vx = make1(x), vy = make1(y); MC_LOG("interpolate ", y, " at ", x);
    vec<1,double> p = {0.0}; if (n != m || n < 2) { unsigned k = mc::choose(3); bool ok = mc::attempt([&]() { if (k == 0) vif::interpolate(vy, vx, p); if (k == 1) vif::interpolate(vy, vx, 0.5); if (k == 2) vif::interpolate(vy, vy, vx, p); }); MC_CHECK(!ok, "interpolation of ", m, " values at ", n, " positions accepted"); return; }
    vd q = probes(x), e; for (double t : q) e.push_back(lin(y, x, t)); auto r = read(vif::interpolate(vy, vx, make1(q))), rv = read(vif::interpolate(vy[_], vx[_], make1(q)[_]));
    MC_CHECK(r.v.size() == q.size() && rv.v.size() == q.size(), "wrong number of interpolated values"); vec<1,double> ve; for (sz i = 0; i < n; ++i) ve.push_back(1 + i*0.5);
    auto er = vif::interpolate(vy, ve, vx, make1(q)); MC_CHECK(er.first.size() == q.size() && er.second.size() == q.size(), "interpolation with uncertainties");
    for (sz i = 0; i < q.size(); ++i) {
        MC_CHECK(nr(r.v[i], e[i]) && nr(rv.v[i], e[i]), "interpolation at ", q[i], " gave ", r.v[i], " instead of ", e[i]); NEAR(vif::interpolate(vy, vx, q[i]), e[i]); NEAR(er.first[i], e[i]);
        sz k = 0; while (k + 2 < n && q[i] >= x[k+1]) ++k; double a = (q[i]-x[k])/(x[k+1]-x[k]); NEAR(er.second[i], std::sqrt(std::pow((1+0.5*k)*(1-a), 2) + std::pow((1.5+0.5*k)*a, 2)));
        NEAR(vif::interpolate(y[k], y[k+1], x[k], x[k+1], q[i]), e[i]); auto pe = vif::interpolate_err(y[k], y[k+1], 1 + 0.5*k, 1.5 + 0.5*k, x[k], x[k+1], q[i]); NEAR(pe.first, e[i]); NEAR(pe.second, er.second[i]);
    }
    vec<1,double> e1(n + 1 - 2*mc::choose(2)); if (e1.size() != n) MC_CHECK(!mc::attempt([&]() { vif::interpolate(vy, e1, vx, p); }), "wrong number of uncertainties accepted");
}
// natural cubic spline by solving the tridiagonal system densely
static vd spline_m(const vd& y, const vd& x) {
    sz n = x.size(); std::vector<vd> A(n, vd(n + 1)); A[0][0] = A[n-1][n-1] = 1;
    for (sz i = 1; i + 1 < n; ++i) { double h0 = x[i]-x[i-1], h1 = x[i+1]-x[i]; A[i][i-1] = h0; A[i][i] = 2*(h0+h1); A[i][i+1] = h1; A[i][n] = 6*((y[i+1]-y[i])/h1 - (y[i]-y[i-1])/h0); }
    for (sz c = 0; c < n; ++c) { for (sz r = 0; r < n; ++r) if (r != c && A[r][c] != 0) { double f = A[r][c]/A[c][c]; for (sz k = c; k <= n; ++k) A[r][k] -= f*A[c][k]; } }
    vd m(n); for (sz i = 0; i < n; ++i) m[i] = A[i][n]/A[i][i]; return m;
}
static double spline(const vd& y, const vd& x, double p) {
    auto m = spline_m(y, x); sz n = x.size(); auto der = [&](sz k, bool end) { double h = x[k+1]-x[k]; return (y[k+1]-y[k])/h + (end ? h*(m[k]+2*m[k+1])/6 : -h*(2*m[k]+m[k+1])/6); };
    if (p < x[0]) return y[0] + der(0, false)*(p - x[0]); if (p > x[n-1]) return y[n-1] + der(n-2, true)*(p - x[n-1]);
    sz k = 0; while (k + 2 < n && p >= x[k+1]) ++k; double h = x[k+1]-x[k], a = x[k+1]-p, b = p-x[k]; return m[k]*a*a*a/(6*h) + m[k+1]*b*b*b/(6*h) + (y[k]/h - m[k]*h/6)*a + (y[k+1]/h - m[k+1]*h/6)*b;
}
MC_SCENARIO_S(spline, 2) {
    unsigned n = 2 + mc::choose(mc::thorough() ? 5 : 4); bool reg = mc::flip(); vd x; if (reg) for (unsigned i = 0; i < n; ++i) x.push_back(i); else x = xs(n); vd y = ys(n); auto vx = make1(x), vy = make1(y); vd q = probes(x); MC_LOG("spline of ", y, " at ", x);
    auto r = read(vif::interpolate_3spline(vy, vx, make1(q))); MC_CHECK(r.d == Dims{q.size()}, "dimensions"); for (sz i = 0; i < q.size(); ++i) { double e = spline(y, x, q[i]); NEAR(r.v[i], e); NEAR(vif::interpolate_3spline(vy, vx, q[i]), e); }
    if (reg) { auto g = read(vif::interpolate_3spline(vy, make1(q))); for (sz i = 0; i < q.size(); ++i) { double e = spline(y, x, q[i]); NEAR(g.v[i], e); NEAR(vif::interpolate_3spline(vy, q[i]), e); } }
}
MC_SCENARIO(spline_reject) { unsigned n = mc::choose(4), m = mc::choose(4); vec<1,double> x = make1(xs(n)), y(m); mc::assume(n != m || n < 2); bool one = mc::flip(); MC_CHECK(!mc::attempt([&]() { if (one) vif::interpolate_3spline(y, x, 0.5); else vif::interpolate_3spline(y, x, vec<1,double>{0.5}); }), "spline of ", m, " values at ", n, " positions accepted"); if (m < 2) MC_CHECK(!mc::attempt([&]() { vif::interpolate_3spline(y, 0.5); }), "spline of ", m, " values accepted"); }

MC_SCENARIO_S(bilinear, 3) {
    sz a = mc::choose(4), b = mc::choose(4); static const vd al = {0, 1, -2}; vec<2,double> m(a, b); for (sz i = 0; i < m.size(); ++i) m[i] = i < 6 ? mc::pick(al) : double(i); static const vd pr = {-1.5, -0.25, 0, 0.5, 1, 1.75, 2, 2.5, 3.5, 7}; MC_LOG("bilinear map ", a, "x", b);
    auto at = [&](sz i, sz j) { return m[i*b+j]; };
    if (a < 2 || b < 2) { MC_CHECK(!mc::attempt([&]() { vif::bilinear(m, 0.5, 0.5); }), "bilinear in a map of ", a, "x", b, " accepted"); for (double x : pr) for (double y : pr) { bool ins = a > 0 && b > 0 && x >= 0 && y >= 0 && x <= double(a) - 1 && y <= double(b) - 1; double e = -9; if (ins) { sz i = std::floor(x), j = std::floor(y), k = std::min<sz>(i + 1, a - 1), l = std::min<sz>(j + 1, b - 1); double p = x - i, q = y - j; e = (1-p)*(1-q)*m(i,j) + p*(1-q)*m(k,j) + (1-p)*q*m(i,l) + p*q*m(k,l); } double g = vif::bilinear_strict(m, x, y, -9.0); MC_CHECK(nr(g, e), "bilinear_strict in a map of ", a, "x", b, " at ", x, ",", y, " gave ", g); MC_CHECK(vif::bicubic_strict(m, x, y, -9.0) == -9.0, "bicubic_strict in a map of ", a, "x", b); } return; }
    auto ref = [&](double x, double y) { long i = std::floor(x), j = std::floor(y); i = std::max(0l, std::min<long>(i, a-2)); j = std::max(0l, std::min<long>(j, b-2)); double dx = x-i, dy = y-j; return at(i,j)*(1-dx)*(1-dy) + at(i,j+1)*(1-dx)*dy + at(i+1,j)*dx*(1-dy) + at(i+1,j+1)*dx*dy; };
    vd mx, my; for (sz i = 0; i < a; ++i) mx.push_back(10 + i*i); for (sz i = 0; i < b; ++i) my.push_back(-2.0 + 3*i); auto vmx = make1(mx), vmy = make1(my); vd ix(a), iy(b); for (sz i = 0; i < a; ++i) ix[i] = i; for (sz i = 0; i < b; ++i) iy[i] = i;
    for (double x : pr) for (double y : pr) { NEAR(vif::bilinear(m, x, y), ref(x, y)); bool ins = x >= 0 && y >= 0 && x <= a-1 && y <= b-1; NEAR(vif::bilinear_strict(m, x, y, -9.0), ins ? ref(x, y) : -9.0); NEAR(vif::bilinear(m, vmx, vmy, 10 + x, y), ref(lin(ix, mx, 10 + x), lin(iy, my, y))); }
    vec<2,double> rb = vif::rebin(m, vmx, vmy, make1(vd{10, 10.5, 12}), make1(vd{-2, 0})); MC_CHECK(rb.dims[0] == 3 && rb.dims[1] == 2, "rebin dimensions"); vd q = {10, 10.5, 12}, s = {-2, 0}; for (sz i = 0; i < 3; ++i) for (sz j = 0; j < 2; ++j) NEAR(rb(i,j), ref(lin(ix, mx, q[i]), lin(iy, my, s[j])));
    vec<1,double> vv = vif::bilinear(m, vmx, vmy, make1(vd{10, 11}), make1(vd{0, 1})); NEAR(vv[1], ref(lin(ix, mx, 11), lin(iy, my, 1)));
}
MC_SCENARIO(bicubic) {
    sz a = 1 + mc::choose(5), b = 1 + mc::choose(5); unsigned s = mc::choose(3); vec<2,double> m(a, b); for (sz i = 0; i < m.size(); ++i) m[i] = ((i*i*(s+1) + 3*i) % 7) - 2.0; vd u = {0,1,2,3}; MC_LOG("bicubic map ", a, "x", b);
    for (double x = -1; x <= 5; x += 0.5) for (double y = -1; y <= 5; y += 0.25) { long i = std::floor(x), j = std::floor(y); double e = -9; if (i > 0 && j > 0 && i + 2 < (long)a && j + 2 < (long)b) { vd t; for (sz k = 0; k < 4; ++k) { vd r; for (sz l = 0; l < 4; ++l) r.push_back(m(i+k-1, j+l-1)); t.push_back(spline(r, u, y - j + 1)); } e = spline(t, u, x - i + 1); } NEAR(vif::bicubic_strict(m, x, y, -9.0), e); }
}
static double integ(const vd& y, const vd& x, double a, double b) { double r = 0; for (sz i = 0; i + 1 < x.size(); ++i) { double l = std::max(a, x[i]), h = std::min(b, x[i+1]); if (h > l) r += 0.5*(h-l)*(lin(y, x, l) + lin(y, x, h)); } return r; }
// value at l and h must come from the segment itself (data are continuous, so lin() is right at both ends)
MC_SCENARIO_S(integrate, 2) {
    unsigned n = mc::choose(mc::thorough() ? 6 : 5), m = mc::flip() ? n : mc::choose(4); vd x = xs(n), y = ys(m); auto vx = make1(x), vy = make1(y); MC_LOG("integrate ", y, " over ", x);
    if (n != m) { unsigned k = mc::choose(4); uint_t h = npos; MC_CHECK(!mc::attempt([&]() { if (k == 0) vif::integrate(vx, vy); if (k == 1) vif::integrate(vx, vy, 0.0, 0.5); if (k == 2) vif::integrate_hinted(vx, vy, h, 0.0, 0.5); if (k == 3) vif::cumul(vx, vy); }), "different numbers of positions and values accepted"); return; }
    if (n == 0) { NEAR(vif::integrate(vx, vy), 0); MC_CHECK(vif::cumul(vx, vy).empty(), "cumul of no data"); MC_CHECK(!mc::attempt([&]() { vif::integrate(vx, vy, 0.0, 0.5); }), "integral of no data accepted"); return; }
    NEAR(vif::integrate(vx, vy), n < 2 ? 0 : integ(y, x, x[0], x.back())); NEAR(vif::integrate(vx[_], vy[_]), n < 2 ? 0 : integ(y, x, x[0], x.back()));
    auto c = read(vif::cumul(vx, vy)); MC_CHECK(c.v.size() == n, "cumul size"); for (sz i = 0; i < n; ++i) NEAR(c.v[i], n < 2 ? 0 : integ(y, x, x[0], x[i]));
    vd q = probes(x);
    for (double a : q) for (double b : q) if (a <= b && a >= x.front() && b <= x.back()) {
        double e = n < 2 ? 0 : integ(y, x, a, b); NEAR(vif::integrate(vx, vy, a, b), e); uint_t h = npos; NEAR(vif::integrate_hinted(vx, vy, h, a, b), e);
        if (n >= 2) { // the returned hint is valid for a following range
            for (double a2 : q) for (double b2 : q) if (a2 >= b && a2 <= b2 && b2 <= x.back()) { uint_t h2 = h; NEAR(vif::integrate_hinted(vx, vy, h2, a2, b2), integ(y, x, a2, b2)); } }
    }
    unsigned k = mc::choose(4); uint_t h = npos; double below = x.front() - 1, above = x.back() + 1; MC_CHECK(!mc::attempt([&]() { if (k == 0) vif::integrate(vx, vy, below, x.back()); if (k == 1) vif::integrate(vx, vy, x.front(), above); if (k == 2) vif::integrate_hinted(vx, vy, h, below, x.back()); if (k == 3) vif::integrate_hinted(vx, vy, h, x.front(), above); }), "range outside of the data accepted");
}
MC_SCENARIO_S(integrate_bins, 2) {
    unsigned n = 1 + mc::choose(mc::thorough() ? 5 : 4); vd x = xs(n + 1), y = ys(n); Arr<double> b({2, n}); for (sz i = 0; i < n; ++i) { b.v[i] = x[i]; b.v[n+i] = x[i+1]; } auto vb = make<2,double>(b); auto vy = make1(y); MC_LOG("integrate bins ", y, " edges ", x);
    auto ref = [&](double a, double c) { double r = 0; for (sz i = 0; i < n; ++i) { double l = std::max(a, x[i]), h = std::min(c, x[i+1]); if (h > l) r += (h-l)*y[i]; } return r; };
    NEAR(vif::integrate(vb, vy), ref(x[0], x.back())); vd q = probes(x); for (double a : q) for (double c : q) if (a <= c && a >= x.front() && c <= x.back()) NEAR(vif::integrate(vb, vy, a, c), ref(a, c));
    unsigned k = mc::choose(4); vec<1,double> w(n + 1); vec<2,double> b3(3, n); MC_CHECK(!mc::attempt([&]() { if (k == 0) vif::integrate(vb, w); if (k == 1) vif::integrate(b3, vy); if (k == 2) vif::integrate(vb, vy, x.front() - 1, x.back()); if (k == 3) vif::integrate(vb, vy, x.front(), x.back() + 1); }), "invalid arguments accepted");
}
MC_SCENARIO(integrate_func) { // polynomials are integrated exactly
    static const vd al = {0, 1, -2}; double c[4]; for (auto& q : c) q = mc::pick(al); double a = mc::pick({-1.0, 0.0, 2.5}), b = a + mc::pick({0.5, 1.0, 4.0}); auto P = [&](double x) { return c[0]*x + c[1]*x*x/2 + c[2]*x*x*x/3 + c[3]*x*x*x*x/4; }; MC_LOG("polynomial ", c[0], " ", c[1], " ", c[2], " ", c[3], " from ", a, " to ", b);
    double e = P(b) - P(a); double g = vif::integrate_func([&](double x) { return c[0] + c[1]*x + c[2]*x*x + c[3]*x*x*x; }, a, b, 1e-8); MC_CHECK(std::fabs(g - e) <= 1e-7*(1 + std::fabs(e)), "integrate_func gave ", g, " instead of ", e); mc::op();
}
// content of a Gaussian profile in a pixel of unit size, against quadrature
MC_SCENARIO_S(gauss, 3) {
    double x0 = mc::pick(vd{-2, -0.5, 0, 3}), xc = mc::pick(vd{0, 0.25, -1.5}), w = mc::pick(vd{0.5, 1, 2.5}), amp = mc::pick(vd{1, -3}); MC_LOG("Gaussian at ", xc, " width ", w, " in pixel ", x0); auto G = [&](double a, double c) { double r = 0; const int N = 400; for (int i = 0; i <= N; ++i) { double t = a + double(i)/N; r += (i == 0 || i == N ? 1 : i%2 ? 4 : 2)*std::exp(-(t-c)*(t-c)/(2*w*w)); } return r/(3.0*N)/(std::sqrt(2*std::acos(-1.0))*w); };
    auto nr8 = [](double a, double b) { return std::fabs(a - b) <= 1e-7; }; mc::op(6); MC_CHECK(nr8(vif::integrate_gauss(x0, x0 + 1, xc, w, amp), amp*G(x0, xc)), "integrate_gauss"); MC_CHECK(nr8(vif::integrate_gauss(x0, x0 + 1, xc, w), G(x0, xc)), "integrate_gauss without amplitude"); vec<1,double> p = {x0, 0.5}; auto v = vif::integrate_gauss(p, p + 1, xc, w, amp); MC_CHECK(v.size() == 2 && nr8(v[0], amp*G(x0, xc)) && nr8(v[1], amp*G(0.5, xc)), "integrate_gauss of vectors");
    double y0 = mc::pick(vd{-1, 0, 0.5}), yc = mc::pick(vd{0.5, -1}); MC_CHECK(nr8(vif::integrate_gauss_2d(x0, x0 + 1, y0, y0 + 1, xc, yc, w, amp), amp*G(x0, xc)*G(y0, yc)), "integrate_gauss_2d"); MC_CHECK(nr8(vif::integrate_gauss_2d(x0, x0 + 1, y0, y0 + 1, xc, yc, w), G(x0, xc)*G(y0, yc)), "integrate_gauss_2d without amplitude"); mc::outcome((long)(1e6*G(x0, xc)));
}
template<typename T> void rgen_() {
    T a = T(mc::choose(8)), b = T(mc::choose(8)); if (std::is_floating_point<T>::value) { a = a*T(0.7) - 2; b = b*T(1.3) - 2; } unsigned n = mc::choose(6); MC_LOG("rgen from ", a, " to ", b, " in ", n);
    auto g = read(vif::rgen(a, b, n)); MC_CHECK(g.d == Dims{n}, "rgen size ", g.d); for (unsigned i = 0; i < n; ++i) NEAR(g.v[i], n == 1 ? double(a) : double(a) + (double(b) - double(a))*i/(n-1));
    bool pos = a > T(0) && b > T(0); bool ok = mc::attempt([&]() { g = read(vif::rgen_log(a, b, n)); }); MC_CHECK(ok == pos, "rgen_log accepted: ", ok); if (ok) { MC_CHECK(g.d == Dims{n}, "rgen_log size ", g.d); for (unsigned i = 0; i < n; ++i) NEAR(g.v[i], n == 1 ? double(a) : double(a)*std::pow(double(b)/double(a), double(i)/(n-1))); }
    T s = T(mc::choose(5)); if (std::is_floating_point<T>::value) s = s*T(0.45) - T(0.45); ok = mc::attempt([&]() { g = read(vif::rgen_step(a, b, s)); }); MC_CHECK(ok == (s > T(0)), "rgen_step with step ", s, " accepted: ", ok);
    if (ok) { double A = a, B = b, S = s; sz m = g.size(); MC_CHECK(m >= 1 && g.v[0] == A && g.v[m-1] == B, "rgen_step from ", A, " to ", B, " step ", S, " gave ", g); for (sz i = 0; i + 1 < m; ++i) { NEAR(g.v[i], A < B ? A + i*S : A - i*S); double gap = A < B ? g.v[i+1] - g.v[i] : g.v[i] - g.v[i+1]; MC_CHECK(gap > 0 && gap < 2*S, "rgen_step: step of ", gap, " instead of ", S); } }
}
MC_SCENARIO(rgen_double) { rgen_<double>(); }
MC_SCENARIO(rgen_int) { rgen_<int>(); }
MC_SCENARIO(rgen_uint) { rgen_<uint_t>(); }
MC_SCENARIO(rgen_float) { rgen_<float>(); }
// tables of integers, which have to be treated as numbers: only the result is rounded, if it is returned as an integer
template<typename TY, typename TX, typename TN> static void integer_table() {
    unsigned n = 2 + mc::choose(mc::thorough() ? 3 : 2); vd x, y; double c = 2; vec<1,TX> vx; vec<1,TY> vy; vec<1,double> ve; for (unsigned i = 0; i < n; ++i) { x.push_back(c); vx.push_back(TX(c)); c += mc::pick(vd{1, 3}); y.push_back(mc::pick(vd{0, 5, 2})); vy.push_back(TY(y.back())); ve.push_back(1 + 0.5*i); }
    vd q; vec<1,TN> vq; for (double t = 0; t <= c + 1; t += std::is_integral<TN>::value ? 1 : 0.5) { q.push_back(t); vq.push_back(TN(t)); } MC_LOG("integer table ", y, " at ", x);
    auto close = [](auto g, double e, const char* what, double t) { bool i = std::is_integral<decltype(g)>::value; if (i && std::is_unsigned<decltype(g)>::value && e < 0) return; MC_CHECK(i ? std::fabs(double(g) - e) < 1 + 1e-6 : nr(g, e), what, " at ", t, " gave ", g, " instead of ", e); mc::op(); };
    auto r = vif::interpolate(vy, vx, vq); auto s = vif::interpolate_3spline(vy, vx, vq); auto er = vif::interpolate(vy, ve, vx, vq); MC_CHECK(r.size() == q.size() && s.size() == q.size() && er.first.size() == q.size() && er.second.size() == q.size(), "number of values");
    for (sz i = 0; i < q.size(); ++i) { double e = lin(y, x, q[i]), f = spline(y, x, q[i]); close(r[i], e, "interpolation", q[i]); close(vif::interpolate(vy, vx, vq[i]), e, "interpolation of a scalar", q[i]); close(s[i], f, "spline", q[i]); close(vif::interpolate_3spline(vy, vx, vq[i]), f, "spline of a scalar", q[i]); close(er.first[i], e, "interpolation with uncertainties", q[i]);
        sz k = 0; while (k + 2 < n && q[i] >= x[k+1]) ++k; double a = (q[i]-x[k])/(x[k+1]-x[k]); close(er.second[i], std::sqrt(std::pow((1+0.5*k)*(1-a), 2) + std::pow((1.5+0.5*k)*a, 2)), "uncertainty", q[i]); mc::outcome(long(e*100)); }
    close(vif::integrate(vx, vy), integ(y, x, x[0], x.back()), "integral", 0); auto cu = vif::cumul(vx, vy); for (sz i = 0; i < n; ++i) close(cu[i], integ(y, x, x[0], x[i]), "cumul", x[i]); for (double a : q) for (double b : q) if (a <= b && a >= x[0] && b <= x.back()) close(vif::integrate(vx, vy, a, b), integ(y, x, a, b), "integral", a);
}
template<typename TY, typename TX> static void integer_table_() { switch (mc::choose(3)) { case 0: integer_table<TY,TX,int>(); break; case 1: integer_table<TY,TX,uint_t>(); break; default: integer_table<TY,TX,double>(); } }
MC_SCENARIO_S(integers, 2) { switch (mc::choose(8)) { case 0: integer_table_<int,int>(); break; case 1: integer_table_<int,uint_t>(); break; case 2: integer_table_<int,double>(); break; case 3: integer_table_<uint_t,int>(); break; case 4: integer_table_<uint_t,uint_t>(); break; case 5: integer_table_<uint_t,double>(); break; case 6: integer_table_<double,int>(); break; case 7: integer_table_<double,uint_t>(); break; } }
