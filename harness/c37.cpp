// C37: Fourier transforms (vif/math/fourier.hpp) and convolutions (vif/astro/image.hpp) against the direct sums.
// PART 0: Fourier transforms; 1: convolutions.
#ifndef PART
#define PART 0
#endif
#include "vifall.hpp"
using namespace vr;
namespace va = vif::astro;
using L = long long; using cd = std::complex<double>; using vif::vec2d; using vif::vec2cd;
const double Pi_ = std::acos(-1.0);
static bool nr(double a, double b, double s) { return std::fabs(a - b) <= 1e-9*(1 + s); }
// all impulses (the transforms are linear) and a few full images
Arr<double> pattern(sz n0, sz n1) { Arr<double> a({n0, n1}); sz k = mc::choose(n0*n1 + 3); if (k < n0*n1) a.v[k] = mc::flip() ? 1 : -2.5; else for (sz i = 0; i < a.v.size(); ++i) a.v[i] = k == n0*n1 ? 1 : k == n0*n1 + 1 ? double(i*i%7) - 2 : (i%2 ? -1.5 : 0.25*i); return a; }

#if PART == 0
Arr<cd> dft(const Arr<cd>& a, int s) { sz n = a.d[0], m = a.d[1]; Arr<cd> r({n, m}); for (sz u = 0; u < n; ++u) for (sz v = 0; v < m; ++v) { cd t = 0; for (sz x = 0; x < n; ++x) for (sz y = 0; y < m; ++y) t += a.v[x*m+y]*std::polar(1.0, s*2*Pi_*(double(u*x%n)/n + double(v*y%m)/m)); r.v[u*m+v] = t; } return r; }
void cmp(const vec2cd& g, const Arr<cd>& e, const char* w) { mc::op(); MC_CHECK(g.dims[0] == e.d[0] && g.dims[1] == e.d[1], w, ": dimensions"); double s = 0; for (auto x : e.v) s = std::max(s, std::abs(x)); std::uint64_t h = 0; for (sz i = 0; i < e.v.size(); ++i) { MC_CHECK(std::abs(g[i] - e.v[i]) <= 1e-9*(1 + s), w, ": element ", i, " is ", g[i].real(), "+", g[i].imag(), "i instead of ", e.v[i].real(), "+", e.v[i].imag(), "i"); h = mc::mix(h, L(std::abs(e.v[i])*1000)); } mc::outcome(h); }
MC_SCENARIO_S(fourier, 3) {
    sz m = mc::thorough() ? 8 : 6, n0 = 1 + mc::choose(m), n1 = 1 + mc::choose(m); auto a = pattern(n0, n1), b = mc::flip() ? pattern(n0, n1) : Arr<double>({n0, n1}); MC_LOG("transform of ", a, " + i ", b); Arr<cd> c({n0, n1}); for (sz i = 0; i < c.v.size(); ++i) c.v[i] = cd(a.v[i], b.v[i]); vec2cd vc(n0, n1); for (sz i = 0; i < c.v.size(); ++i) vc[i] = c.v[i];
    auto f = dft(c, -1); vec2cd g = vif::fft_c2c(vc); cmp(g, f, "fft_c2c"); vec2cd g2(n0, n1); vif::fft_c2c(vc, g2); cmp(g2, f, "fft_c2c into an array"); cmp(vif::ifft_c2c(vc), dft(c, 1), "ifft_c2c"); vec2cd g3(n0, n1); vif::ifft_c2c(vc, g3); cmp(g3, dft(c, 1), "ifft_c2c into an array"); cmp(vc, c, "transformed array"); vec2cd bk = vif::ifft_c2c(g); for (sz i = 0; i < n0*n1; ++i) bk[i] /= double(n0*n1); cmp(bk, c, "inverse of the transform"); cmp(g, f, "inverse-transformed array");
    bool real = true; for (double x : b.v) real = real && x == 0; if (!real) return;
    vec2d v = make<2,double>(a); vec2cd r = vif::fft(v), r2(n0, n1); vif::fft(v, r2); expect(v, a, "transformed array"); sz hw = n1/2 + 1; for (sz i = 0; i < n0*hw; ++i) { cd e = f.v[(i/hw)*n1 + i%hw]; mc::op(); MC_CHECK(std::abs(r[i] - e) <= 1e-9*(1 + std::abs(e)) && r[i] == r2[i], "fft: coefficient (", i/hw, ",", i%hw, ")"); }
    vec2cd keep = r; vec2d w = vif::ifft(r), w2(n0, n1); vif::ifft(r, w2); MC_CHECK(w.dims[0] == n0 && w.dims[1] == n1, "ifft: dimensions"); for (sz i = 0; i < n0*n1; ++i) { MC_CHECK(nr(w[i]/(n0*n1), a.v[i], 10) && w[i] == w2[i], "ifft(fft(v))/n: element ", i, " is ", w[i]/(n0*n1), " instead of ", a.v[i]); } for (sz i = 0; i < n0*hw; ++i) MC_CHECK(keep[i] == r[i], "ifft modified its argument");
}
#endif

#if PART == 1
Arr<double> conv(const Arr<double>& a, const Arr<double>& k, bool cyc) { L n = a.d[0], m = a.d[1], p = k.d[0], q = k.d[1]; Arr<double> r({sz(n), sz(m)}); for (L x = 0; x < n; ++x) for (L y = 0; y < m; ++y) for (L i = 0; i < p; ++i) for (L j = 0; j < q; ++j) { L u = x + i - p/2, v = y + j - q/2; if (cyc) { u = ((u%n) + n)%n; v = ((v%m) + m)%m; } if (u >= 0 && v >= 0 && u < n && v < m) r.v[u*m+v] += a.v[x*m+y]*k.v[i*q+j]; } return r; }
void cmp(const vec2d& g, const Arr<double>& e, const char* w) { mc::op(); MC_CHECK(g.dims[0] == e.d[0] && g.dims[1] == e.d[1] && g.size() == e.v.size(), w, ": dimensions"); std::uint64_t h = 0; for (sz i = 0; i < e.v.size(); ++i) { MC_CHECK(nr(g[i], e.v[i], 20), w, ": pixel ", i, " is ", g[i], " instead of ", e.v[i], ", expected ", e); h = mc::mix(h, L(e.v[i]*1000)); } mc::outcome(h); }
MC_SCENARIO_S(convolve, 4) {
    sz m = mc::thorough() ? 6 : 4, n0 = 1 + mc::choose(m), n1 = 1 + mc::choose(m), k0 = 1 + mc::choose(mc::thorough() ? 7 : 5), k1 = 1 + mc::choose(mc::thorough() ? 7 : 5); auto a = pattern(n0, n1), k = pattern(k0, k1); MC_LOG("map ", a, " kernel ", k); auto e = conv(a, k, false); vec2d va_ = make<2,double>(a), vk = make<2,double>(k); bool odd = k0%2 && k1%2;
    cmp(va::convolve2d(va_, vk), e, "convolve2d");
    if (odd) { cmp(va::convolve2d_naive(va_, vk), e, "convolve2d_naive"); uint_t hx = 77, hy = 77; auto f = va::convolve2d_prepare_kernel(va_, vk, hx, hy); cmp(va::convolve2d(va_, f, hx, hy), e, "convolve2d with a prepared kernel"); }
    else { MC_CHECK(!mc::attempt([&]() { va::convolve2d_naive(va_, vk); }), "naive convolution with an even kernel accepted"); MC_CHECK(!mc::attempt([&]() { uint_t hx, hy; va::convolve2d_prepare_kernel(va_, vk, hx, hy); }), "prepared an even kernel"); MC_CHECK(!mc::attempt([&]() { va::batch_convolve2d(vk); }), "batch convolution with an even kernel accepted"); }
    expect(va_, a, "map"); expect(vk, k, "kernel");
}
// one convolver applied to a history of maps of the same size
MC_SCENARIO_S(batch, 4) {
    sz m = mc::thorough() ? 5 : 4, n0 = 1 + mc::choose(m), n1 = 1 + mc::choose(m); bool cyc = mc::flip(); sz k0 = 1 + 2*mc::choose(3), k1 = 1 + 2*mc::choose(3); if (cyc && (k0 > n0 || k1 > n1)) return; auto k = pattern(k0, k1); vec2d vk = make<2,double>(k); auto c = va::batch_convolve2d(vk); c.cyclic = cyc;
    for (int i = 0; i < (mc::thorough() ? 3 : 2); ++i) { Arr<double> a({n0, n1}); unsigned t = mc::choose(3); for (sz j = 0; j < a.v.size(); ++j) a.v[j] = t == 0 ? 0 : t == 1 ? double(j*j%5) - 1.5 : 100.0 + j; vec2d v = make<2,double>(a); MC_LOG(cyc ? "cyclic " : "", "map ", a, " kernel ", k); auto e = conv(a, k, cyc); double s = 0; for (auto x : e.v) s = std::max(s, std::fabs(x)); vec2d r; if (mc::flip()) { r = c.convolve(v); expect(v, a, "map"); } else { r = v; c.inplace_convolve(r); } mc::op(); MC_CHECK(r.dims[0] == n0 && r.dims[1] == n1, "dimensions"); for (sz j = 0; j < e.v.size(); ++j) MC_CHECK(nr(r[j], e.v[j], s + 100), "convolver: map ", i, ", pixel ", j, " is ", r[j], " instead of ", e.v[j], ", expected ", e); mc::outcome(L(s*100)); }
    if (mc::flip()) { auto d = std::move(c); Arr<double> a({n0, n1}); a.v[0] = 1; vec2d v = make<2,double>(a); auto e = conv(a, k, cyc); vec2d r = d.convolve(v); for (sz j = 0; j < e.v.size(); ++j) MC_CHECK(nr(r[j], e.v[j], 10), "moved convolver"); }
}
// kernel which turns one image into another by cyclic convolution (kernel centred at n/2)
MC_SCENARIO_S(transition, 3) {
    sz m = mc::thorough() ? 7 : 5, n0 = 1 + mc::choose(m), n1 = 1 + mc::choose(m); Arr<double> f({n0, n1}); sz c = mc::choose(n0*n1); for (sz i = 0; i < n0*n1; ++i) f.v[i] = i == c ? 4.0*n0*n1 : double(i*i%5) - 2; auto t = pattern(n0, n1); MC_LOG("transition from ", f, " to ", t); vec2d vf = make<2,double>(f), vt = make<2,double>(t); vec2d k = va::make_transition_kernel(vf, vt); MC_CHECK(k.dims[0] == n0 && k.dims[1] == n1, "dimensions of the kernel"); expect(vf, f, "image"); expect(vt, t, "image"); Arr<double> ak({n0, n1}); for (sz i = 0; i < n0*n1; ++i) ak.v[i] = k[i]; auto e = conv(f, ak, true); cmp(make<2,double>(e), t, "image convolved with the transition kernel");
    vec2d o(n0 + 1, n1); MC_CHECK(!mc::attempt([&]() { va::make_transition_kernel(vf, o); }), "images of different sizes accepted");
}
#endif
