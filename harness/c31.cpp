// C31: geometric operations on images (vif/astro/image.hpp), pixel by pixel against their definition.
// PART 0: cropping, padding, shifting, recentring; 1: resampling, apertures, profiles; 2: filters and masks.
#ifndef PART
#define PART 0
#endif
#include "vifall.hpp"
using namespace vr;
namespace va = vif::astro;
using L = long long;
template<typename T> Arr<T> img(sz a, sz b) { Arr<T> r({a, b}); for (sz i = 0; i < r.v.size(); ++i) r.v[i] = T(i*i + 3*i + 1); return r; }
template<typename T> T at(const Arr<T>& a, L x, L y, T def) { return x < 0 || y < 0 || x >= L(a.d[0]) || y >= L(a.d[1]) ? def : a.v[x*a.d[1] + y]; }
// image of size n0 x n1 whose pixel (x,y) is a(x+ox, y+oy), or def outside
template<typename T> Arr<T> window(const Arr<T>& a, L ox, L oy, sz n0, sz n1, T def) { Arr<T> r({n0, n1}); for (sz x = 0; x < n0; ++x) for (sz y = 0; y < n1; ++y) r.v[x*n1 + y] = at(a, L(x) + ox, L(y) + oy, def); return r; }

#if PART == 0
template<typename T> void geom() {
    sz m = mc::thorough() ? 5 : 4, n0 = mc::choose(m + 1), n1 = mc::choose(m + 1); auto a = img<T>(n0, n1); T def = mc::flip() ? T(0) : T(-7); unsigned k = mc::choose(7);
    MC_LOG("image ", n0, "x", n1, " operation ", k);
    if (k == 0) { std::array<uint_t,4> p{{mc::choose(3), mc::choose(3), mc::choose(3), mc::choose(3)}}; MC_LOG("pad ", p[0], p[1], p[2], p[3]);
        as_vec_or_view<2,T>(a, [&](const auto& v) { expect(va::enlarge(v, p, def), window(a, -L(p[0]), -L(p[1]), n0 + p[0] + p[2], n1 + p[1] + p[3], def), "enlarge"); if (p[0] == p[1] && p[1] == p[2] && p[2] == p[3]) expect(va::enlarge(v, uint_t(p[0]), def), window(a, -L(p[0]), -L(p[1]), n0 + 2*p[0], n1 + 2*p[0], def), "enlarge"); });
    } else if (k == 1) { std::array<uint_t,4> p{{mc::choose(4), mc::choose(4), mc::choose(3), mc::choose(3)}}; MC_LOG("crop ", p[0], p[1], p[2], p[3]);
        as_vec_or_view<2,T>(a, [&](const auto& v) { auto s = va::shrink(v, p); if (p[0] + p[2] >= n0 || p[1] + p[3] >= n1) MC_CHECK(s.empty(), "cropping more than the image left ", s.size(), " pixels"); else expect(s, window(a, p[0], p[1], n0 - p[0] - p[2], n1 - p[1] - p[3], T(0)), "shrink");
            if (p[0] == p[1] && p[1] == p[2] && p[2] == p[3]) { auto s2 = va::shrink(v, uint_t(p[0])); MC_CHECK(s2.size() == s.size(), "shrink with one number"); for (sz i = 0; i < s.size(); ++i) MC_CHECK(s2[i] == s[i], "shrink with one number"); } });
    } else if (k == 2) { L x0 = L(mc::choose(m + 4)) - 3, y0 = L(mc::choose(m + 4)) - 3, w = L(mc::choose(m + 3)) - 1, h = L(mc::choose(m + 3)) - 1; vif::vec1i reg = {int_t(x0), int_t(y0), int_t(x0 + w - 1), int_t(y0 + h - 1)}; MC_LOG("region ", x0, ",", y0, " size ", w, "x", h);
        as_vec_or_view<2,T>(a, [&](const auto& v) { vif::vec1u rv, rr; rv.push_back(9); rr.push_back(9); va::subregion(v, reg, rv, rr); std::map<sz,sz> e, g; for (L x = 0; x < w; ++x) for (L y = 0; y < h; ++y) if (x + x0 >= 0 && y + y0 >= 0 && x + x0 < L(n0) && y + y0 < L(n1)) e[x*h + y] = (x + x0)*n1 + y + y0;
            MC_CHECK(rv.size() == rr.size() && rr.size() == e.size(), "subregion found ", rr.size(), " pixels instead of ", e.size()); for (sz i = 0; i < rr.size(); ++i) g[rr[i]] = rv[i]; MC_CHECK(g == e, "subregion paired the wrong pixels"); mc::op();
            if (w >= 0 && h >= 0) expect(va::subregion(v, reg, def), window(a, x0, y0, w, h, def), "subregion"); else { vec<2,T> s; if (mc::attempt([&]() { s = va::subregion(v, reg, def); })) MC_CHECK(s.empty(), "an inverted region gave ", s.size(), " pixels"); } });
        vif::vec1i bad = {0, 0, 1}; vif::vec1u u1, u2; MC_CHECK(!mc::attempt([&]() { va::subregion(make<2,T>(a), bad, u1, u2); }), "region of three numbers accepted");
    } else if (k == 3) { L sx = L(mc::choose(2*m + 5)) - L(m + 2), sy = L(mc::choose(2*m + 5)) - L(m + 2); MC_LOG("shift ", sx, ",", sy); if (n0 == 0 || n1 == 0) { auto v = make<2,T>(a); expect(va::shift(v, sx, sy), a, "shift of an empty image"); return; }
        Arr<T> e({n0, n1}); for (sz x = 0; x < n0; ++x) for (sz y = 0; y < n1; ++y) e.v[((x + 10*n0*n0 + sx)%n0)*n1 + (y + 10*n1*n1 + sy)%n1] = a.v[x*n1 + y]; auto v = make<2,T>(a); expect(va::shift(v, sx, sy), e, "shift"); expect(v, a, "shifted image"); va::inplace_shift(v, sx, sy); expect(v, e, "inplace_shift");
    } else if (k == 4) { L sx = L(mc::choose(2*m + 5)) - L(m + 2), sy = L(mc::choose(2*m + 5)) - L(m + 2); MC_LOG("translate ", sx, ",", sy); auto e = window(a, -sx, -sy, n0, n1, def); auto v = make<2,T>(a); expect(va::translate_integer(v, sx, sy, def), e, "translate_integer"); expect(v, a, "translated image"); va::inplace_translate_integer(v, sx, sy, def); expect(v, e, "inplace_translate_integer");
    } else if (k == 5) { L cx = L(mc::choose(m + 5)) - 2, cy = L(mc::choose(m + 5)) - 2; sz d0 = mc::choose(6), d1 = mc::choose(6); MC_LOG("centre ", cx, ",", cy, " size ", d0, "x", d1); auto v = make<2,T>(a); const auto& cv = v; 
        expect(va::recenter(cv, cx, cy, {{d0, d1}}, def), window(a, cx - L(d0)/2, cy - L(d1)/2, d0, d1, def), "recenter"); if (d0 == n0 && d1 == n1) expect(va::recenter(cv, cx, cy, def), window(a, cx - L(n0)/2, cy - L(n1)/2, n0, n1, def), "recenter");
    } else as_vec_or_view<2,T>(a, [&](const auto& v) { Arr<T> fx({n0, n1}), fy({n0, n1}); for (sz x = 0; x < n0; ++x) for (sz y = 0; y < n1; ++y) { fx.v[x*n1 + y] = a.v[x*n1 + n1 - 1 - y]; fy.v[x*n1 + y] = a.v[(n0 - 1 - x)*n1 + y]; } expect(va::flip_x(v), fx, "flip_x"); expect(va::flip_y(v), fy, "flip_y"); });
}
MC_SCENARIO_S(geometry_double, 5) { geom<double>(); }
MC_SCENARIO_S(geometry_int, 5) { geom<int>(); }
#endif

#if PART == 1
// bilinear interpolation; positions outside give def; with tol, those within rounding of an edge may go either way
bool resampled(const Arr<double>& a, double x, double y, double def, double got, double tol) {
    L n0 = a.d[0], n1 = a.d[1]; auto in = [&](double p, L n, double s) { return p >= -s && p <= n - 1 + s; }; bool may = in(x, n0, tol) && in(y, n1, tol), must = x >= tol && y >= tol && x < n0 - 1 - tol && y < n1 - 1 - tol; if (tol == 0) must = x >= 0 && y >= 0 && x <= n0 - 1 && y <= n1 - 1;
    if (!must && got == def) return true; if (!may) return false; double e = 0; L ix = floor(x), iy = floor(y); for (L i = ix; i <= ix + 1; ++i) for (L j = iy; j <= iy + 1; ++j) { double w = std::max(0.0, 1 - fabs(x - i))*std::max(0.0, 1 - fabs(y - j)); L ci = std::min(std::max<L>(i, 0), n0 - 1), cj = std::min(std::max<L>(j, 0), n1 - 1); e += w*a.v[ci*n1 + cj]; } return std::fabs(got - e) <= 1e-6*(1 + std::fabs(e)); }
MC_SCENARIO_S(resample, 4) {
    unsigned k = mc::choose(4); sz mx = (mc::thorough() ? 6 : 5) + (k == 3), n0 = mc::choose(mx), n1 = mc::choose(mx); auto a = img<double>(n0, n1); double def = mc::flip() ? 0 : -7.5;
    auto chk = [&](const auto& r, auto&& pos, double tol, const char* w) { MC_CHECK(r.dims[0] == n0 && r.dims[1] == n1 && r.size() == n0*n1, w, " changed the size of the image"); mc::op(); std::uint64_t h = 0; for (sz x = 0; x < n0; ++x) for (sz y = 0; y < n1; ++y) { auto p = pos(double(x), double(y)); MC_CHECK(resampled(a, p.first, p.second, def, r(x,y), tol), w, ": pixel ", x, ",", y, " is ", r(x,y), ", taken at ", p.first, ",", p.second, " in ", a); h = mc::mix(h, L(r(x,y)*1000)); } mc::outcome(h); };
    double c0 = double(n0/2), c1 = double(n1/2);
    if (k == 0) { static const std::vector<double> al = {0, 0.5, 1, -1, -0.25, 2.75, -3.5, 9}; double dx = mc::pick(al), dy = mc::pick(al); MC_LOG("translate ", n0, "x", n1, " by ", dx, ",", dy); as_vec_or_view<2,double>(a, [&](const auto& v) { chk(va::translate(v, dx, dy, def), [&](double x, double y) { return std::make_pair(x - dx, y - dy); }, 0, "translate"); }); }
    else if (k == 1) { double f = mc::pick(std::vector<double>{1, 2, 0.5, 4, 0.25, 1.5}); MC_LOG("scale ", n0, "x", n1, " by ", f); chk(va::scale(make<2,double>(a), f, def), [&](double x, double y) { return std::make_pair((x - c0)/f + c0, (y - c1)/f + c1); }, f == 1.5 ? 1e-9 : 0, "scale"); }
    else if (k == 3) { double f = mc::pick(std::vector<double>{1, 2, 0.5, 1.5}); MC_LOG("scale_bicubic ", n0, "x", n1, " by ", f); auto v = make<2,double>(a); auto r = va::scale_bicubic(v, f, def); MC_CHECK(r.dims == v.dims && r.size() == v.size(), "scale_bicubic changed the size of the image"); mc::op(); for (sz x = 0; x < n0; ++x) for (sz y = 0; y < n1; ++y) { double px = (double(x) - c0)/f + c0, py = (double(y) - c1)/f + c1; MC_CHECK(r(x,y) == vif::bicubic_strict(v, px, py, def), "scale_bicubic: pixel ", x, ",", y, " is ", r(x,y), ", taken at ", px, ",", py, " in ", a); if (px == std::floor(px) && py == std::floor(py) && px >= 1 && py >= 1 && px + 2 < n0 && py + 2 < n1) MC_CHECK(std::fabs(r(x,y) - a.v[sz(px)*n1 + sz(py)]) < 1e-9, "scale_bicubic: pixel ", x, ",", y, " is not that of the image"); } }
    else { double t = mc::pick(std::vector<double>{0, 90, 180, 270, -90, 45, 30, 360}); MC_LOG("rotate ", n0, "x", n1, " by ", t); double ca = std::cos(t*std::acos(-1.0)/180), sa = std::sin(t*std::acos(-1.0)/180); chk(va::rotate(make<2,double>(a), t, def), [&](double x, double y) { double u = x - c0, w = y - c1; return std::make_pair(u*ca - w*sa + c0, w*ca + u*sa + c1); }, t == 0 ? 0 : 1e-9, "rotate"); }
}
bool near_eq(double a, double b) { return std::fabs(a - b) <= 1e-6*(1 + std::fabs(b)); }
// natural cubic spline through y[0..n-1] at 0..n-1
double nspline(const std::vector<double>& y, double p) {
    sz n = y.size(); std::vector<double> m(n, 0), c(n, 0), d(n, 0); for (sz i = 1; i + 1 < n; ++i) { double b = 4 - (i > 1 ? c[i-1] : 0), r = 6*(y[i+1] - 2*y[i] + y[i-1]); c[i] = 1/b; d[i] = (r - (i > 1 ? d[i-1] : 0))/b; } for (sz i = n - 2; i >= 1 && i < n; --i) m[i] = d[i] - c[i]*m[i+1];
    sz k = std::min<sz>(n - 2, sz(std::max(0.0, std::floor(p)))); double t = p - k, s = 1 - t; return m[k]*(s*s*s - s)/6 + m[k+1]*(t*t*t - t)/6 + y[k]*s + y[k+1]*t;
}
template<typename T> void bicubic_map() {
    sz n0 = 2 + mc::choose(mc::thorough() ? 4 : 3), n1 = 2 + mc::choose(mc::thorough() ? 4 : 3); auto a = img<T>(n0, n1); T def = mc::flip() ? T(0) : T(-7); vec<2,T> v = make<2,T>(a); mc::op();
    if (mc::flip()) { static const std::vector<double> al = {0, 0.5, 1, -1, -0.25, 2.75, -9}; double dx = mc::pick(al), dy = mc::pick(al); MC_LOG("translate_bicubic ", n0, "x", n1, " by ", dx, ",", dy, " default ", def); auto r = va::translate_bicubic(v, dx, dy, def); MC_CHECK(r.dims == v.dims && r.size() == v.size(), "size of the image"); std::uint64_t h = 0;
        for (sz x = 0; x < n0; ++x) for (sz y = 0; y < n1; ++y) { double px = double(x) - dx, py = double(y) - dy; if (px < 0 || py < 0 || px > n0 - 1.0 || py > n1 - 1.0) { MC_CHECK(r(x,y) == def, "pixel ", x, ",", y, " outside of the map is ", r(x,y)); continue; } std::vector<double> c; for (sz i = 0; i < n0; ++i) { std::vector<double> l; for (sz j = 0; j < n1; ++j) l.push_back(double(a.v[i*n1 + j])); c.push_back(nspline(l, py)); } double e = nspline(c, px), tol = 1e-9*(1 + std::fabs(e)); h = mc::mix(h, L(e*100)); if (std::is_integral<T>::value) { tol = 1 - 1e-9; if (std::fabs(e - std::round(e)) < 1e-9 && px == std::floor(px) && py == std::floor(py)) tol = 0.5; } MC_CHECK(std::fabs(double(r(x,y)) - e) <= tol, "pixel ", x, ",", y, " is ", r(x,y), " instead of ", e); } mc::outcome(h);
    } else { double t = mc::pick(std::vector<double>{0, 90, 180, -90, 45, 30}); MC_LOG("rotate_bicubic ", n0, "x", n1, " by ", t); auto r = va::rotate_bicubic(v, t, def); MC_CHECK(r.dims == v.dims && r.size() == v.size(), "size of the image"); double ca = std::cos(t*std::acos(-1.0)/180), sa = std::sin(t*std::acos(-1.0)/180), c0 = double(n0/2), c1 = double(n1/2); for (sz x = 0; x < n0; ++x) for (sz y = 0; y < n1; ++y) { double u = x - c0, w = y - c1, px = u*ca - w*sa + c0, py = w*ca + u*sa + c1; auto near = [](double p, double n) { return std::fabs(p) < 1e-9 || std::fabs(p - n + 1) < 1e-9 || std::fabs(p - std::round(p)) < 1e-9; }; if (t != 0 && (near(px, n0) || near(py, n1))) { L ix = L(std::round(px)), iy = L(std::round(py)); if (std::fabs(px - ix) < 1e-9 && std::fabs(py - iy) < 1e-9 && ix >= 1 && iy >= 1 && ix + 2 < L(n0) && iy + 2 < L(n1)) MC_CHECK(r(x,y) == def || std::fabs(double(r(x,y)) - double(a.v[ix*n1 + iy])) < (std::is_integral<T>::value ? 1.01 : 1e-6), "rotate_bicubic: pixel ", x, ",", y); continue; } MC_CHECK(near_eq(r(x,y), vif::bicubic_strict(v, px, py, def)), "rotate_bicubic: pixel ", x, ",", y, " is ", r(x,y)); } }
}
MC_SCENARIO_S(bicubic_double, 3) { bicubic_map<double>(); }
MC_SCENARIO_S(bicubic_int, 3) { bicubic_map<int>(); }
Arr<double> cmask(sz n0, sz n1, double r, double x, double y) { Arr<double> m({n0, n1}); for (sz i = 0; i < n0; ++i) for (sz j = 0; j < n1; ++j) { int c = 0; for (double s : {-0.5, 0.5}) for (double t : {-0.5, 0.5}) c += (i + s - x)*(i + s - x) + (j + t - y)*(j + t - y) <= r*r; m.v[i*n1 + j] = 0.25*c; } return m; }
MC_SCENARIO_S(circular_mask, 3) {
    sz n0 = mc::choose(6), n1 = mc::choose(6); double r = mc::pick(std::vector<double>{0, 0.25, 0.5, 1, 1.5, 2, 3.25, 20}); MC_LOG("mask ", n0, "x", n1, " radius ", r); expect(va::circular_mask({{n0, n1}}, r), cmask(n0, n1, r, n0/2.0, n1/2.0), "centred mask");
    static const std::vector<double> al = {-30, -4, -2, -1.25, -0.75, -0.5, 0, 0.5, 1, 2.25, 3, 4.5, 5, 6.5, 30}; double x = mc::pick(al), y = mc::pick(al); MC_LOG("centre ", x, ",", y); expect(va::circular_mask({{n0, n1}}, r, x, y), cmask(n0, n1, r, x, y), "mask"); MC_CHECK(!mc::attempt([&]() { va::circular_mask({{n0, n1}}, -0.5, x, y); }), "negative radius accepted");
}
MC_SCENARIO_S(radial_profile, 3) {
    sz n0 = 1 + mc::choose(7), n1 = 1 + mc::choose(7), np = 1 + mc::choose(5); auto a = img<double>(n0, n1); unsigned k = mc::choose(3); for (sz i = 0; i < a.v.size(); ++i) a.v[i] = k == 0 ? 2.5 : k == 1 ? std::fabs(double(i/n1) - double(n0/2)) + 2*std::fabs(double(i%n1) - double(n1/2)) : a.v[i]; MC_LOG("profile of ", a, " up to ", np);
    as_vec_or_view<2,double>(a, [&](const auto& v) { auto p = va::radial_profile(v, np); MC_CHECK(p.size() == np, "profile of ", p.size(), " points"); for (sz i = 0; i < np; ++i) { double s = 0, w = 0; auto o = cmask(n0, n1, i, n0/2, n1/2), in = cmask(n0, n1, i ? i - 1.0 : 0, n0/2, n1/2); for (sz j = 0; j < a.v.size(); ++j) { double m = i ? o.v[j]*(1 - in.v[j]) : j == (n0/2)*n1 + n1/2; s += m*a.v[j]; w += m; } double e = s/w; mc::op(); MC_CHECK((std::isnan(e) && std::isnan(p[i])) || std::fabs(p[i] - e) <= 1e-9*(1 + std::fabs(e)), "profile at radius ", i, " is ", p[i], " instead of ", e); mc::outcome(std::isnan(e) ? -1 : L(e*100)); } });
}
MC_SCENARIO(generated) {
    sz n0 = mc::choose(6), n1 = mc::choose(6); auto r = va::generate_img({{n0, n1}}, [](int x, int y) { return 10*x - 3*y; }); Arr<int> e({n0, n1}); for (sz x = 0; x < n0; ++x) for (sz y = 0; y < n1; ++y) e.v[x*n1 + y] = 10*int(x) - 3*int(y); expect(r, e, "generate_img");
    double s = mc::pick(std::vector<double>{0.3, 1, 2.5}); bool cen = mc::flip(); double x0 = cen ? n0/2 : mc::pick(std::vector<double>{-1, 0, 1.25, 3}), y0 = cen ? n1/2 : mc::pick(std::vector<double>{-2, 0.5, 2}); auto g = cen ? va::gaussian_profile({{n0, n1}}, s) : va::gaussian_profile({{n0, n1}}, s, x0, y0); MC_CHECK(g.dims[0] == n0 && g.dims[1] == n1, "size of the profile"); MC_LOG("gaussian ", n0, "x", n1, " sigma ", s, " at ", x0, ",", y0);
    auto I = [&](double c, double u) { return 0.5*(std::erf((c + 0.5 - u)/s/std::sqrt(2.0)) - std::erf((c - 0.5 - u)/s/std::sqrt(2.0))); }; for (sz x = 0; x < n0; ++x) for (sz y = 0; y < n1; ++y) { double t = I(x, x0)*I(y, y0); mc::op(); MC_CHECK(std::fabs(g(x,y) - t) <= 1e-9, "gaussian pixel ", x, ",", y, " is ", g(x,y), " instead of ", t); }
}
#endif

#if PART == 2
MC_SCENARIO_S(boxcar, 3) {
    sz n0 = mc::choose(6), n1 = mc::choose(6), h = mc::choose(8); auto a = img<double>(n0, n1); MC_LOG("boxcar ", n0, "x", n1, " half size ", h); 
    Arr<double> s({n0, n1}), f({n0, n1}); for (sz x = 0; x < n0; ++x) for (sz y = 0; y < n1; ++y) { bool first = true; for (sz i = 0; i < n0; ++i) for (sz j = 0; j < n1; ++j) if (std::llabs(L(i) - L(x)) <= L(h) && std::llabs(L(j) - L(y)) <= L(h)) { s.v[x*n1+y] += a.v[i*n1+j]; f.v[x*n1+y] += 1; } }
    as_vec_or_view<2,double>(a, [&](const auto& v) { auto r = va::boxcar(v, h, [](const vif::vec1d& w) { double t = 0; for (double u : w) t += u; return t; }); expect(r, s, "sum in a box"); auto c = va::boxcar(v, h, [](const vif::vec1d& w) { return double(w.size()); }); expect(c, f, "number of pixels in a box"); });
}
MC_SCENARIO_S(mask_inflate, 6) {
    sz n0, n1; if (mc::flip()) { n0 = mc::choose(4); n1 = mc::choose(mc::thorough() ? 6 : 5); } else { n0 = 1; n1 = 7; if (mc::flip()) std::swap(n0, n1); } sz d = mc::choose(mc::thorough() ? 7 : 5); Arr<bool> a({n0, n1}), e({n0, n1}); for (sz i = 0; i < n0*n1; ++i) a.v[i] = mc::flip();
    for (sz x = 0; x < n0; ++x) for (sz y = 0; y < n1; ++y) { bool o = false; for (sz i = 0; i < n0; ++i) for (sz j = 0; j < n1; ++j) o = o || (a.v[i*n1+j] && std::llabs(L(i) - L(x)) + std::llabs(L(j) - L(y)) <= L(d)); e.v[x*n1+y] = o; }
    MC_LOG("inflate ", a, " by ", d); auto v = make<2,bool>(a); expect(va::mask_inflate(v, d), e, "mask_inflate"); expect(v, a, "argument");
}
#endif
