// C47: fits of libraries of templates to photometry (vif/astro/template_fit.hpp).
#include "vifall.hpp"
#include <vif/astro/template_fit.hpp>
using namespace vr;
using R = long double; using L = long long; using U = unsigned long long; using vd = std::vector<double>; using vif::vec1d; using vif::vec2d; using vif::vec1u; namespace va = vif::astro; using RV = std::vector<R>; using RM = std::vector<RV>;
bool nr(R a, R b, R t) { return fabsl(a - b) <= t; }
struct Lib { vec2d lam, sed; };
vec1d tv(const vd& v) { vec1d r(v.size()); for (sz i = 0; i < v.size(); ++i) r[i] = v[i]; return r; }
// an engine whose outputs are all equal: all the normal numbers are then equal
struct Constant { using result_type = U; static constexpr U min() { return 0; } static constexpr U max() { return ~U(0); } U v; U operator()() { return v; } };
const vd GRID = {1, 2, 3, 4.5, 6, 8, 12}; const std::vector<vd> SEDS = {{1, 2, 3, 2, 1, 2, 4}, {3, 3, 2, 2, 1, 1, 0.5}, {0.5, 1, 1, 5, 2, 6, 1}, {1, 1, 1, 1, 1, 1, 1}}; const double BAND[3][2] = {{2, 3.5}, {4.5, 5}, {6.5, 7.25}};
Lib library(const std::vector<sz>& ids) { Lib l; l.lam.resize(ids.size(), GRID.size()); l.sed.resize(ids.size(), GRID.size()); for (sz i = 0; i < ids.size(); ++i) for (sz k = 0; k < GRID.size(); ++k) { l.lam(i, k) = GRID[k]; l.sed(i, k) = SEDS[ids[i]][k]; } return l; }
vif::vec<1,va::filter_t> bands(sz n) { vif::vec<1,va::filter_t> f(n); for (sz i = 0; i < n; ++i) { double a = BAND[i][0], b = BAND[i][1]; f[i].lam = vec1d{a, (a + b)/2, b}; f[i].res = vec1d{1/(b - a), 1/(b - a), 1/(b - a)}; } return f; }
// mean of a piecewise linear function over [a,b]
R mean_of(const RV& x, const RV& y, R a, R b) { R s = 0; for (sz k = 0; k + 1 < x.size(); ++k) { R p = std::max(a, x[k]), q = std::min(b, x[k+1]); if (p >= q) continue; auto at = [&](R t) { return y[k] + (y[k+1] - y[k])*(t - x[k])/(x[k+1] - x[k]); }; s += (at(p) + at(q))/2*(q - p); } return s/(b - a); }
R conv(R z, R d, R lam, R lum) { return 1e32L*3.839e26L/(2.9979e14L*4*3.14159265358979323846L*3.0856e22L*3.0856e22L)*(1 + z)*lam*lum/(d*d); }
R observed(const vd& sed, bool obs, const vd& z, const vd& d, sz f) { RV gx, s(GRID.size()); R mz = 0; for (double t : z) mz += t; mz /= z.size(); for (double x : GRID) gx.push_back(obs ? x : x*(1 + mz)); if (obs) { for (sz k = 0; k < s.size(); ++k) s[k] = sed[k]; } else for (sz j = 0; j < z.size(); ++j) { RV x1, y1; for (sz k = 0; k < GRID.size(); ++k) { x1.push_back(GRID[k]*(1 + R(z[j]))); y1.push_back(conv(z[j], d[j], GRID[k], sed[k])); } for (sz k = 0; k < s.size(); ++k) { sz i = 0; while (i + 2 < x1.size() && x1[i+1] < gx[k]) ++i; s[k] += (y1[i] + (y1[i+1] - y1[i])*(gx[k] - x1[i])/(x1[i+1] - x1[i]))/z.size(); } } return mean_of(gx, s, BAND[f][0], BAND[f][1]); }
R weight(R d) { return -2*logl(0.5L*erfcl(-d/sqrtl(2))); }
struct Data { RV f, e; std::vector<char> lim; };
R chi2(const Data& q, const RV& model) { R s = 0; for (sz k = 0; k < q.f.size(); ++k) { R d = (q.f[k] - model[k])/q.e[k]; s += q.lim[k] ? weight(d) : d*d; } return s; }
RV times(const RV& m, R a) { RV r = m; for (auto& x : r) x *= a; return r; }
R best_amp(const Data& q, const RV& m) { bool any = false; for (char c : q.lim) any = any || c; if (!any) { R a = 0, b = 0; for (sz k = 0; k < m.size(); ++k) { a += q.f[k]*m[k]/(q.e[k]*q.e[k]); b += m[k]*m[k]/(q.e[k]*q.e[k]); } return a/b; } R lo = -50, hi = 50; for (int i = 0; i < 150; ++i) { R a = lo + (hi - lo)/3, b = hi - (hi - lo)/3; if (chi2(q, times(m, a)) < chi2(q, times(m, b))) hi = b; else lo = a; } return (lo + hi)/2; }
// upper limits are known to 0.3% by construction
bool close(R a, R b, bool lim) { return fabsl(a - b) <= (lim ? 1e-2L : 1e-5L)*(1 + fabsl(b)); }
MC_SCENARIO_S(single, 5) {
    sz nf = 1 + mc::choose(3), ns = 1 + mc::choose(3); std::vector<std::vector<sz>> sets = {{0}, {0, 1}, {2, 0, 1}}; auto ids = sets[ns - 1]; if (ns == 2 && mc::flip()) ids = {3, 2}; unsigned pos = mc::choose(4); bool obs = pos == 0; vd z = pos == 3 ? vd{0.1, 0.3} : vd{pos == 2 ? 0.5 : 0.1}, d = pos == 3 ? vd{0.1, 0.07} : vd{0.1}; unsigned scale = mc::choose(mc::thorough() ? 3 : 2); Data q; bool anylim = false; vd F = {2, 5, 1.5}; double mul = scale == 0 ? 1 : scale == 1 ? 2.5 : -0.5; bool ul = mc::flip(); vec1d fl(nf), er(nf); for (sz k = 0; k < nf; ++k) { R e = 0.3L + 0.2L*k; bool lm = k > 0 && ul && mc::flip(); if (lm) anylim = true; double f = F[k]*mul; if (lm && mc::flip()) f = 20; q.f.push_back(f); q.e.push_back(e); q.lim.push_back(lm); fl[k] = f; er[k] = lm ? -double(e) : double(e); } va::template_fit_params o; o.ulim = ul; o.renorm = mc::flip(); o.lib_obs = obs; o.nsim = mc::choose(3); Constant eng{mc::flip() ? ~U(0)/10*3 : ~U(0)/10*7}; Constant e2 = eng; R g = vif::randomn(e2); Lib l = library(ids); auto fi = bands(nf);
    MC_LOG(ns, " templates, ", nf, " bands, z case ", pos, ul ? " with limits" : "", o.renorm ? " renormalised" : "", " fluxes x", mul); auto r = pos == 3 ? va::template_fit(l, eng, tv(z), tv(d), fl, er, fi, o) : va::template_fit(l, eng, z[0], d[0], fl, er, fi, o); mc::op(1 + o.nsim); RM m(ns, RV(nf)); for (sz i = 0; i < ns; ++i) for (sz k = 0; k < nf; ++k) m[i][k] = observed(SEDS[ids[i]], obs, z, d, k);
    MC_CHECK(r.chi2.size() == ns && r.amp.size() == ns && r.flux.dims[0] == ns && r.flux.dims[1] == nf, "dimensions"); auto judge = [&](const Data& t, RV& amp, RV& c) { amp.resize(ns); c.resize(ns); for (sz i = 0; i < ns; ++i) { amp[i] = best_amp(t, m[i]); c[i] = chi2(t, times(m[i], o.renorm ? amp[i] : 1)); } }; RV amp, c; judge(q, amp, c); R cb = *std::min_element(c.begin(), c.end()); auto good_amp = [&](const Data& t, sz i, R a, R want) { return (!anylim && nr(a, want, 1e-5L*(1 + fabsl(want)))) || (anylim && chi2(t, times(m[i], a)) <= chi2(t, times(m[i], want))*1.01L + 0.02L); };
    for (sz i = 0; i < ns; ++i) { MC_CHECK(close(r.chi2[i], c[i], anylim), "chi2 of template ", i, " is ", r.chi2[i], " instead of ", double(c[i])); MC_CHECK(good_amp(q, i, r.amp[i], amp[i]), "amplitude of template ", i, " is ", r.amp[i], " instead of ", double(amp[i])); for (sz k = 0; k < nf; ++k) MC_CHECK(nr(r.flux(i, k), r.amp[i]*m[i][k], 1e-5L*(1 + fabsl(m[i][k]*r.amp[i]))), "flux of template ", i, " in band ", k, " is ", r.flux(i, k), " instead of ", double(r.amp[i]*m[i][k])); } MC_CHECK(r.bfit < ns && close(c[r.bfit], cb, anylim), "best template ", r.bfit);
    MC_CHECK(r.sed_sim.size() == o.nsim && r.amp_sim.size() == o.nsim && r.amp_bfit_sim.size() == o.nsim, "number of simulations"); Data t = q; for (sz k = 0; k < nf; ++k) if (!t.lim[k]) t.f[k] += g*t.e[k]; RV ta, tc; judge(t, ta, tc); R tb = *std::min_element(tc.begin(), tc.end()); for (sz s = 0; s < o.nsim; ++s) { MC_CHECK(r.sed_sim[s] < ns && close(tc[r.sed_sim[s]], tb, anylim), "best template of simulation ", s, " is ", r.sed_sim[s]); MC_CHECK(good_amp(t, r.sed_sim[s], r.amp_sim[s], ta[r.sed_sim[s]]), "amplitude of simulation ", s, " is ", r.amp_sim[s], " instead of ", double(ta[r.sed_sim[s]])); MC_CHECK(good_amp(t, r.bfit, r.amp_bfit_sim[s], ta[r.bfit]), "amplitude of the best template in simulation ", s, " is ", r.amp_bfit_sim[s], " instead of ", double(ta[r.bfit])); } mc::outcome(mc::mix(r.bfit, L(double(cb)*10)));
}
// several libraries combined, with constraints
MC_SCENARIO_S(multiple, 5) {
    sz nl = 1 + mc::choose(2), nf = nl + mc::choose(nl == 1 ? 3 : 2); std::vector<std::vector<sz>> pool = {{0, 1}, {3, 2}, {2}, {3}, {0, 3}}; std::vector<std::vector<sz>> ids; ids.push_back(pool[mc::choose(5)]); if (nl == 2) ids.push_back(pool[mc::choose(5)]); std::vector<Lib> libs; sz tot = 1; for (auto& i : ids) { libs.push_back(library(i)); tot *= i.size(); } unsigned mask = mc::choose(1u << tot); bool ul = mc::flip(), obs = mc::flip(); vd z = {0.1}, d = {0.1}; vec1d fl(nf), er(nf); Data q; bool anylim = false; vd F = {2, 5, 1.5}; for (sz k = 0; k < nf; ++k) { bool lm = ul && k + 1 == nf && k >= nl && mc::flip(); if (lm) anylim = true; q.f.push_back(F[k]); q.e.push_back(0.3L + 0.2L*k); q.lim.push_back(lm); fl[k] = F[k]; er[k] = double(q.e[k])*(lm ? -1 : 1); } va::multi_template_fit_params o; o.ulim = ul; o.lib_obs = obs; o.nsim = ul ? 0 : mc::choose(2); Constant eng{~U(0)/10*3}, e2 = eng; R g = vif::randomn(e2); auto fi = bands(nf); MC_LOG(nl, " libraries, ", nf, " bands, allowed ", mask, ul ? " with limits" : "");
    auto index = [&](const std::vector<sz>& v) { sz r = 0; for (sz i = 0; i < nl; ++i) r = r*ids[i].size() + v[i]; return r; }; auto con = [&](const vec1u& v) { MC_CHECK(v.size() == nl, "constraint called with ", v.size(), " indices"); std::vector<sz> t; for (sz i = 0; i < nl; ++i) { MC_CHECK(v[i] < ids[i].size(), "constraint called with index ", v[i]); t.push_back(v[i]); } return bool(mask >> index(t) & 1); }; bool all = mask + 1 == 1u << tot; auto r = all && mc::flip() ? va::multi_template_fit(libs, eng, z[0], d[0], fl, er, fi, o) : va::multi_template_fit(libs, eng, z[0], d[0], fl, er, fi, o, con); mc::op(tot);
    // all the combinations
    auto each = [&](const Data& t, RV& bc, RM& ba) { bc.assign(tot, INFINITY); ba.assign(tot, RV(nl)); for (sz c = 0; c < tot; ++c) { if (!(mask >> c & 1)) continue; std::vector<sz> v(nl); sz u = c; for (sz i = nl; i-- > 0;) { v[i] = u % ids[i].size(); u /= ids[i].size(); } RM m(nl, RV(nf)); for (sz i = 0; i < nl; ++i) for (sz k = 0; k < nf; ++k) m[i][k] = observed(SEDS[ids[i][v[i]]], obs, z, d, k); auto at = [&](const RV& a) { RV s(nf); for (sz i = 0; i < nl; ++i) for (sz k = 0; k < nf; ++k) s[k] += a[i]*m[i][k]; return chi2(t, s); }; RV a(nl); if (nl == 1) a[0] = best_amp(t, m[0]); else { R p = 0, s = 0, w = 0, b0 = 0, b1 = 0; for (sz k = 0; k < nf; ++k) if (!t.lim[k]) { R i2 = 1/(t.e[k]*t.e[k]); p += m[0][k]*m[0][k]*i2; s += m[0][k]*m[1][k]*i2; w += m[1][k]*m[1][k]*i2; b0 += t.f[k]*m[0][k]*i2; b1 += t.f[k]*m[1][k]*i2; } R det = p*w - s*s; if (fabsl(det) < 1e-6L*p*w) { ba[c].clear(); continue; } if (anylim) { R lo = -50, hi = 50; auto in = [&](R x) { Data w2 = t; for (sz k = 0; k < nf; ++k) w2.f[k] -= x*m[1][k]; return best_amp(w2, m[0]); }; for (int i = 0; i < 70; ++i) { R x1 = lo + (hi - lo)/3, x2 = hi - (hi - lo)/3; if (at({in(x1), x1}) < at({in(x2), x2})) hi = x2; else lo = x1; } a = {in(lo), lo}; } else a = {(w*b0 - s*b1)/det, (p*b1 - s*b0)/det}; } ba[c] = a; bc[c] = at(a); } };
    RV c; RM a; each(q, c, a); bool degen = false; for (auto& x : a) degen = degen || x.empty(); R cb = *std::min_element(c.begin(), c.end()); MC_CHECK(r.flux.dims[0] == nl && r.flux.dims[1] == nf, "dimensions"); mc::outcome(mc::mix(mask, L(std::isinf(cb) ? -1 : double(cb)*10)));
    if (degen && ul) return; if (std::isinf(cb) && !degen) { MC_CHECK(!std::isfinite(r.chi2), "chi2 is ", r.chi2, " with nothing to fit"); for (sz i = 0; i < nl; ++i) { MC_CHECK(r.bfit[i] == vif::npos && std::isnan(r.amp[i]), "best template ", r.bfit[i], " with nothing to fit"); for (sz k = 0; k < nf; ++k) MC_CHECK(std::isnan(r.flux(i, k)), "flux with nothing to fit"); } return; } if (degen && std::isinf(cb)) return; if (degen && !nr(r.chi2, cb, 1e-4L*(1 + cb)) && r.chi2 < cb) return; // rounding may allow the degenerate ones
    R tol = anylim ? 1e-2L : 2e-4L; MC_CHECK(nr(r.chi2, cb, tol*(1 + cb)), "chi2 is ", r.chi2, " instead of ", double(cb)); std::vector<sz> v; for (sz i = 0; i < nl; ++i) { MC_CHECK(r.bfit[i] < ids[i].size(), "best template ", r.bfit[i]); v.push_back(r.bfit[i]); } sz b = index(v); MC_CHECK(mask >> b & 1, "templates rejected by the constraints were selected"); if (!a[b].empty()) { MC_CHECK(nr(c[b], cb, 2*tol*(1 + cb)), "templates of chi2 ", double(c[b]), " instead of ", double(cb)); for (sz i = 0; i < nl; ++i) { if (!anylim) MC_CHECK(nr(r.amp[i], a[b][i], 1e-2L*(1 + fabsl(a[b][i]))), "amplitude ", r.amp[i], " instead of ", double(a[b][i])); for (sz k = 0; k < nf; ++k) { R e = r.amp[i]*observed(SEDS[ids[i][v[i]]], obs, z, d, k); MC_CHECK(nr(r.flux(i, k), e, 1e-4L*(1 + fabsl(e))), "flux of library ", i, " in band ", k, " is ", r.flux(i, k), " instead of ", double(e)); } } }
    if (o.nsim && !degen) { Data t = q; for (sz k = 0; k < nf; ++k) t.f[k] += g*t.e[k]; RV tc; RM ta; each(t, tc, ta); R tb = *std::min_element(tc.begin(), tc.end()); std::vector<sz> w; for (sz i = 0; i < nl; ++i) { MC_CHECK(r.sed_sim(0, i) < ids[i].size(), "template of the simulation"); w.push_back(r.sed_sim(0, i)); } sz s = index(w); MC_CHECK(nr(tc[s], tb, 1e-3L*(1 + tb)), "templates of the simulation"); for (sz i = 0; i < nl; ++i) MC_CHECK(nr(r.amp_sim(0, i), ta[s][i], 1e-2L*(1 + fabsl(ta[s][i]))), "amplitude of the simulation ", r.amp_sim(0, i), " instead of ", double(ta[s][i])); }
}
// weights of limits
MC_SCENARIO(limits) { double x = -12 + 0.25*mc::choose(97); MC_LOG("limit at ", x); R e = weight(x); mc::op(2); MC_CHECK(nr(va::limweight(x), e, 3e-3L*fabsl(e) + 1e-9L), "weight ", va::limweight(x), " instead of ", double(e)); vec1d v = {x, 1.0, x}; auto w = va::limweight(v); MC_CHECK(w.size() == 3 && w[0] == va::limweight(x) && w[2] == w[0] && w[1] == va::limweight(1.0), "weights of a vector"); mc::outcome(mc::mix(1, L(x*4))); }
