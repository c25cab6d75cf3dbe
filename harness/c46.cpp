// C46: non-linear minimisation (vif/math/mpfit.hpp, vif/math/optimize.hpp).
#include "vifall.hpp"
#include <vif/math/mpfit.hpp>
#include <vif/math/optimize.hpp>
#include <map>
using namespace vr;
using R = long double; using L = long long; using vd = std::vector<double>; using vif::vec1d; using opt_t = vif::mpfit_options; using RV = std::vector<R>;
bool nr(R a, R b, R t) { return fabsl(a - b) <= t; }
// dense solve by elimination with pivoting; false when singular
bool solve(std::vector<RV> a, RV b, RV& x) { sz n = b.size(); for (sz i = 0; i < n; ++i) { sz p = i; for (sz k = i; k < n; ++k) if (fabsl(a[k][i]) > fabsl(a[p][i])) p = k; if (fabsl(a[p][i]) < 1e-12L) return false; std::swap(a[i], a[p]); std::swap(b[i], b[p]); for (sz k = 0; k < n; ++k) if (k != i) { R f = a[k][i]/a[i][i]; for (sz j = i; j < n; ++j) a[k][j] -= f*a[i][j]; b[k] -= f*b[i]; } } x.resize(n); for (sz i = 0; i < n; ++i) x[i] = b[i]/a[i][i]; return true; }
struct Lin { std::vector<vd> a; vd y, e; sz n, m; R chi2(const RV& p) const { R s = 0; for (sz k = 0; k < m; ++k) { R r = y[k]; for (sz i = 0; i < n; ++i) r -= a[i][k]*p[i]; s += r*r/(R(e[k])*e[k]); } return s; }
    // minimum with the parameters of 'fixed' at given values
    bool best(const std::vector<int>& fx, RV& p, std::vector<RV>* cov) const { std::vector<sz> fr; for (sz i = 0; i < n; ++i) if (!fx[i]) fr.push_back(i); sz q = fr.size(); std::vector<RV> al(q, RV(q)); RV be(q); for (sz i = 0; i < q; ++i) { for (sz k = 0; k < m; ++k) { R w = 1/(R(e[k])*e[k]), r = y[k]; for (sz j = 0; j < n; ++j) if (fx[j]) r -= a[j][k]*p[j]; be[i] += w*a[fr[i]][k]*r; for (sz j = 0; j < q; ++j) al[i][j] += w*a[fr[i]][k]*a[fr[j]][k]; } } RV s; if (q && !solve(al, be, s)) return false; for (sz i = 0; i < q; ++i) p[fr[i]] = s[i]; if (cov) { cov->assign(n, RV(n)); for (sz i = 0; i < q; ++i) { RV u(q), v; u[i] = 1; solve(al, u, v); for (sz j = 0; j < q; ++j) (*cov)[fr[i]][fr[j]] = v[j]; } } return true; } };
const vd XS[] = {{1, 1, 1, 1, 1}, {-2, 0, 1, 3, 4}, {4, 0, 1, 2, 9}};
Lin problem(sz n, sz m) { Lin q; q.n = n; q.m = m; unsigned s = mc::choose(3); for (sz i = 0; i < n; ++i) q.a.push_back(vd(XS[i].begin(), XS[i].begin() + m)); vd Y[] = {{3.13, -1, 2.07, 0, 5}, {0.55, 1.61, 2.14, 3.2, 3.73}, {-4.21, 10, 2.54, -1.06, 7}}; q.y = vd(Y[s].begin(), Y[s].begin() + m); q.e = mc::flip() ? vd{1, 1, 1, 1, 1} : vd{0.5, 2, 1, 0.25, 3}; q.e.resize(m); return q; }
vec1d tv(const vd& v) { vec1d r(v.size()); for (sz i = 0; i < v.size(); ++i) r[i] = v[i]; return r; }
// linear models, where the answer is known exactly: any start, limits, frozen parameters, steps and derivatives
MC_SCENARIO_S(linear, 5) {
    sz n = 1 + mc::choose(3), m = 2 + mc::choose(mc::thorough() ? 4 : 3); mc::assume(m >= n); Lin q = problem(n, m); opt_t o(n); bool def = true; RV lo(n, -INFINITY), up(n, INFINITY); vd st(n); std::vector<int> fz(n); unsigned limited = 0; bool stepped = false;
    for (sz i = 0; i < n; ++i) { st[i] = mc::pick(i == 2 ? vd{0.5} : vd{0.07, 1, -30}); unsigned k = mc::choose(i == 2 ? 2 : 7); if (k) def = false; switch (k) { case 1: o.frozen[i] = true; fz[i] = 1; break; case 2: o.lower_limit[i] = lo[i] = st[i] - 1.5; ++limited; break; case 3: o.upper_limit[i] = up[i] = st[i] + 2; ++limited; break; case 4: o.lower_limit[i] = lo[i] = st[i]; o.upper_limit[i] = up[i] = st[i] + 4; ++limited; break; case 5: o.lower_limit[i] = lo[i] = st[i] - 0.25; o.upper_limit[i] = up[i] = st[i]; ++limited; break; case 6: o.lower_limit[i] = o.upper_limit[i] = st[i]; fz[i] = 1; break; } }
    unsigned sp = mc::choose(6); if (sp) def = false; switch (sp) { case 1: o.deriv[0] = opt_t::deriv_backward; break; case 2: o.deriv[0] = opt_t::deriv_symmetric; break; case 3: o.max_step[0] = 3.37; stepped = true; break; case 4: o.deriv_rstep[0] = 1e-6; break; case 5: o.deriv_step[0] = 1e-5; break; } bool nocov = mc::flip(); if (nocov) { o.nocovar = true; def = false; }
    RV bp(n); R bc = INFINITY; std::vector<int> bfx; { std::vector<int> st3(n); while (true) { RV p(n); std::vector<int> fx(n); bool ok = true; for (sz i = 0; i < n; ++i) { if (fz[i]) { fx[i] = 1; p[i] = st[i]; if (st3[i]) ok = false; } else if (st3[i]) { fx[i] = 1; p[i] = st3[i] == 1 ? lo[i] : up[i]; if (std::isinf(p[i])) ok = false; } } if (ok && q.best(fx, p, nullptr)) { for (sz i = 0; i < n; ++i) if (p[i] < lo[i] - 1e-12L || p[i] > up[i] + 1e-12L) ok = false; if (ok && q.chi2(p) < bc - 1e-13L) { bc = q.chi2(p); bp = p; bfx = fx; } } sz i = 0; while (i < n && ++st3[i] == 3) st3[i++] = 0; if (i == n) break; } }
    mc::assume(!std::isinf(bc)); // degenerate
    sz calls = 0; auto dev = [&](const vec1d& p) { MC_CHECK(p.size() == n, "model called with ", p.size(), " parameters"); MC_CHECK(++calls < 20000, "never ends"); for (sz i = 0; i < n; ++i) { if (fz[i]) MC_CHECK(p[i] == st[i], "frozen parameter moved"); double slack = sp == 0 || sp == 3 ? 0 : 0.01; MC_CHECK(p[i] >= lo[i] - slack && p[i] <= up[i] + slack, "model evaluated at parameter ", i, " = ", p[i], ", beyond the limits"); } vec1d r(m); for (sz k = 0; k < m; ++k) { double s = q.y[k]; for (sz i = 0; i < n; ++i) s -= q.a[i][k]*p[i]; r[k] = s/q.e[k]; } return r; };
    { std::string d; for (sz i = 0; i < n; ++i) { char b[99]; snprintf(b, 99, " %g%s [%g,%g]", st[i], fz[i] ? " frozen" : "", double(lo[i]), double(up[i])); d += b; } MC_LOG("fit of ", m, " points from", d, " variant ", sp); }
    vif::mpfit_result g = def && mc::flip() ? vif::mpfit(dev, tv(st)) : vif::mpfit(dev, tv(st), o); mc::op(calls); MC_CHECK(g.params.size() == n, "number of parameters"); R c = 0; { RV p(n); for (sz i = 0; i < n; ++i) p[i] = g.params[i]; c = q.chi2(p); } MC_CHECK(nr(g.chi2, c, 1e-6L*(1 + c)), "chi2 ", g.chi2, " is not that of the returned parameters, ", double(c)); MC_CHECK(g.success, "not successful (reason ", int(g.reason), ")"); MC_CHECK(g.iter <= 200 || !g.success, "iterations"); sz nf = 0; for (int f : fz) nf += !f; MC_CHECK(g.dof == m - nf, "degrees of freedom ", g.dof);
    { RV p(st.begin(), st.end()); MC_CHECK(c <= q.chi2(p)*(1 + 1e-12L), "chi2 ", double(c), " larger than at the start, ", double(q.chi2(p))); } bool conv = limited == 0 || n == 1; // with limits, the steps of other parameters are shortened as well and the fit may end early
    if (conv) MC_CHECK(c <= bc + 1e-6L*(1 + bc), "chi2 ", double(c), " instead of ", double(bc)); for (sz i = 0; i < n; ++i) { if (fz[i]) MC_CHECK(g.params[i] == st[i], "frozen parameter modified"); MC_CHECK(g.params[i] >= lo[i] && g.params[i] <= up[i], "parameter ", i, " is ", g.params[i], ", beyond the limits"); if (conv) MC_CHECK(nr(g.params[i], bp[i], 1e-3L*(1 + fabsl(bp[i]))), "parameter ", i, " is ", g.params[i], " instead of ", double(bp[i])); }
    if (!nocov && !limited && nf) { std::vector<RV> cv; RV p = bp; std::vector<int> fx = fz; q.best(fx, p, &cv); for (sz i = 0; i < n; ++i) { MC_CHECK(nr(g.errors[i], sqrtl(cv[i][i]), 1e-4L*(1 + sqrtl(cv[i][i]))), "error of parameter ", i, " is ", g.errors[i], " instead of ", double(sqrtl(cv[i][i]))); for (sz j = 0; j < n; ++j) MC_CHECK(nr(g.covar(i, j), cv[i][j], 1e-4L*(1 + fabsl(cv[i][j]))), "covariance ", i, ",", j, " is ", g.covar(i, j), " instead of ", double(cv[i][j])); } }
    mc::outcome(mc::mix(n, L(double(bc)*100)));
}
// non-linear models: the answer is a stationary point, found in a finite number of steps, and never worse than the start
struct Model { const char* name; sz n; RV (*f)(const RV&); };
const vd TX = {-1, 0, 0.5, 2, 3};
const Model MODELS[] = {
    {"exponential", 2, [](const RV& p) { RV r; for (double x : TX) r.push_back(2*expl(0.5L*x) - p[0]*expl(p[1]*x)); return r; }},
    {"noisy exponential", 2, [](const RV& p) { RV r; int s = 1; for (double x : TX) { r.push_back(2*expl(-0.5L*x) + 0.2L*s - p[0]*expl(p[1]*x)); s = -s; } return r; }},
    {"rosenbrock", 2, [](const RV& p) { return RV{10*(p[1] - p[0]*p[0]), 1 - p[0]}; }},
    {"gaussian", 3, [](const RV& p) { RV r; for (double x : TX) r.push_back(3*expl(-(x - 1)*(x - 1)/2) - p[0]*expl(-(x - p[1])*(x - p[1])/(2*p[2]*p[2]))); return r; }},
    {"square root", 1, [](const RV& p) { return RV{sqrtl(p[0]) - 0.1L, p[0] - 0.3L}; }}, // undefined for negative values
    {"logarithm", 2, [](const RV& p) { RV r; for (double x : TX) r.push_back(x - p[1]*logl(p[0] + x + 1)); return r; }},
    {"constant", 1, [](const RV&) { return RV{1, 2}; }}, // no dependence at all
    {"redundant", 2, [](const RV& p) { return RV{3 - p[0] - p[1], 1 - 2*(p[0] + p[1]), 0.5L}; }}, // one direction is free
    {"powell", 4, [](const RV& p) { return RV{p[0] + 10*p[1], sqrtl(5)*(p[2] - p[3]), (p[1] - 2*p[2])*(p[1] - 2*p[2]), sqrtl(10)*(p[0] - p[3])*(p[0] - p[3])}; }},
};
R norm2(const RV& v) { R s = 0; for (R x : v) s += x*x; return s; }
MC_SCENARIO_S(nonlinear, 4) {
    const Model& M = MODELS[mc::choose(9)]; sz n = M.n; vd st(n); vd S = n == 4 ? vd{3, -1} : n == 3 ? vd{0.7, 1.3, 2.5} : vd{0.3, 1, 2.7, 5, -1.2}; for (auto& x : st) x = mc::pick(S); opt_t o(n); unsigned sp = mc::choose(5); switch (sp) { case 1: for (auto& x : o.deriv) x = opt_t::deriv_symmetric; break; case 2: for (auto& x : o.deriv) x = opt_t::deriv_backward; break; case 3: o.max_iter = mc::pick(std::vector<sz>{2, 5}); break; case 4: o.max_step[0] = 0.35; break; } RV s0(st.begin(), st.end()); R c0 = norm2(M.f(s0)); bool valid = !std::isnan(c0); std::string d; for (double x : st) { char b[30]; snprintf(b, 30, " %g", x); d += b; } MC_LOG(M.name, " from", d, " variant ", sp);
    sz calls = 0; auto dev = [&](const vec1d& p) { MC_CHECK(++calls < 100000, "never ends"); RV q(p.begin(), p.end()); RV r = M.f(q); vec1d v(r.size()); for (sz i = 0; i < r.size(); ++i) v[i] = double(r[i]); return v; }; auto g = vif::mpfit(dev, tv(st), o); mc::op(calls); MC_CHECK(g.params.size() == n, "parameters"); RV p(g.params.begin(), g.params.end()); R c = norm2(M.f(p));
    if (!valid) { MC_CHECK(!g.success, "successful from a start where the model is undefined"); return; } MC_CHECK(nr(g.chi2, c, 1e-6L*c + 1e-12L), "chi2 ", g.chi2, " is not that of the returned parameters, ", double(c)); MC_CHECK(c <= c0*(1 + 1e-12L), "chi2 ", double(c), " is larger than at the start, ", double(c0)); MC_CHECK(g.iter <= o.max_iter, g.iter, " iterations"); mc::outcome(mc::mix(g.reason, n));
    { std::string nm = M.name; R want = nm == "logarithm" ? 1.124484L : nm == "redundant" ? 5.25L : nm == "constant" ? 5 : 0; if (sp <= 2 && (nm == "exponential" || nm == "rosenbrock" || nm == "logarithm" || nm == "constant" || nm == "redundant" || nm == "powell")) { MC_CHECK(g.success, "not successful, reason ", int(g.reason)); MC_CHECK(nr(c, want, 1e-5L), "chi2 ", double(c), " instead of ", double(want)); } if (sp == 3 && !g.success) MC_CHECK(g.reason == vif::mpfit_result::max_iter, "reason ", int(g.reason)); }
    if (g.success) { R worst = 0; for (sz i = 0; i < n; ++i) { R h = 1e-6L*(1 + fabsl(p[i])); RV a = p, b = p; a[i] += h; b[i] -= h; RV fa = M.f(a), fb = M.f(b), f = M.f(p); R dot = 0, nj = 0; for (sz k = 0; k < f.size(); ++k) { R j = (fa[k] - fb[k])/(2*h); dot += j*f[k]; nj += j*j; } if (std::isnan(dot)) continue; if (nj > 0 && c > 0) worst = std::max(worst, fabsl(dot)/sqrtl(nj*c)); } MC_CHECK(worst < 1e-3L || c < 1e-8L, "successful where the gradient is ", double(worst), ", chi2 ", double(c), ", reason ", int(g.reason)); }
}

// the wrapper for measurements with errors, of any dimensions
MC_SCENARIO(measurements) {
    sz m = 2 + mc::choose(3); bool two = mc::flip(), scalar = mc::flip(); double t0 = mc::pick(vd{-1.5, 0.4}), t1 = mc::pick(vd{0.7, 3}); vec1d x(m), y(m), e(m); for (sz i = 0; i < m; ++i) { x[i] = 1.5*i - 1; e[i] = scalar ? 0.5 : 0.5 + i; y[i] = t0 + t1*x[i]; } auto f = [](const auto& u, const vec1d& p) { return p[0] + p[1]*u; }; vif::mpfit_result g; MC_LOG(m, " measurements of ", t0, "+", t1, "x"); mc::op(2);
    if (two) { vif::vec2d x2(1, m), y2(1, m), e2(1, m); for (sz i = 0; i < m; ++i) { x2[i] = x[i]; y2[i] = y[i]; e2[i] = e[i]; } g = scalar ? vif::mpfitfun(y2, 0.5, x2, f, vec1d{1.0, 1.0}) : vif::mpfitfun(y2, e2, x2, f, vec1d{1.0, 1.0}); } else g = scalar ? vif::mpfitfun(y, 0.5, x, f, vec1d{1.0, 1.0}) : vif::mpfitfun(y, e, x, f, vec1d{1.0, 1.0});
    MC_CHECK(g.success && nr(g.params[0], t0, 1e-6) && nr(g.params[1], t1, 1e-6) && g.chi2 < 1e-9, "parameters ", g.params[0], ", ", g.params[1]); R s = 0, sx = 0, sxx = 0; for (sz i = 0; i < m; ++i) { R w = 1/(R(e[i])*e[i]); s += w; sx += w*x[i]; sxx += w*x[i]*x[i]; } R det = s*sxx - sx*sx; MC_CHECK(nr(g.errors[0], sqrtl(sxx/det), 1e-5) && nr(g.errors[1], sqrtl(s/det), 1e-5), "errors ", g.errors[0], ", ", g.errors[1]); vec1d bad(m + 1); MC_CHECK(!mc::attempt([&]() { vif::mpfitfun(bad, e, x, f, vec1d{1.0, 1.0}); }), "different dimensions accepted"); MC_CHECK(!mc::attempt([&]() { vif::mpfitfun(y, bad, x, f, vec1d{1.0, 1.0}); }), "different dimensions accepted"); MC_CHECK(!mc::attempt([&]() { vif::mpfitfun(y, e, x, f, vec1d{1.0, 1.0}, opt_t(3)); }), "options for another number of parameters accepted"); mc::outcome(m);
}
// minimisation of any function with its derivatives
MC_SCENARIO_S(bfgs, 4) {
    using out = vif::minimize_function_output; sz n = 1 + mc::choose(3); unsigned kind = mc::choose(3); if (kind == 2) mc::assume(n == 2); vd c(n), w(n), st(n); for (sz i = 0; i < n; ++i) { c[i] = mc::pick(i == 2 ? vd{0.3} : vd{0.3, -7}); w[i] = mc::pick(i ? vd{1, 40} : vd{0.5, 6}); st[i] = mc::pick(i == 2 ? vd{2} : vd{0, 4, -20}); } if (kind == 2) { mc::assume(c[0] == 0.3 && c[1] == 0.3 && w[0] == 0.5 && w[1] == 1); if (st[0] == -20 || st[1] == -20) mc::assume(false); } vif::minimize_params mp; mp.ftol = mc::pick(vd{1e-3, 1e-6}); mp.initial_step = mc::pick(vd{0.1, 2}); mp.max_iter = mc::pick(std::vector<sz>{1000, 3}); double cr = kind == 1 ? 0.3 : 0; sz calls = 0;
    auto value = [&](const RV& p) { if (kind == 2) return 100*(p[1] - p[0]*p[0])*(p[1] - p[0]*p[0]) + (1 - p[0])*(1 - p[0]); R s = 1.25L; for (sz i = 0; i < n; ++i) s += w[i]*(p[i] - c[i])*(p[i] - c[i]); for (sz i = 1; i < n; ++i) s += cr*(p[i] - c[i])*(p[i-1] - c[i-1]); return s; };
    auto grad = [&](const RV& p) { RV g(n); if (kind == 2) { g[0] = -400*p[0]*(p[1] - p[0]*p[0]) - 2*(1 - p[0]); g[1] = 200*(p[1] - p[0]*p[0]); return g; } for (sz i = 0; i < n; ++i) { g[i] = 2*w[i]*(p[i] - c[i]); if (i) g[i] += cr*(p[i-1] - c[i-1]); if (i + 1 < n) g[i] += cr*(p[i+1] - c[i+1]); } return g; };
    auto f = [&](const vec1d& p, out o) { MC_CHECK(++calls < 100000, "never ends"); MC_CHECK(p.size() == n, "number of parameters"); vec1d r(n + 1); for (auto& x : r) x = vif::dnan; RV q(p.begin(), p.end()); if (o != out::derivatives) r[0] = double(value(q)); if (o != out::value) { RV g = grad(q); for (sz i = 0; i < n; ++i) r[i+1] = double(g[i]); } return r; };
    vec1d s = tv(st); MC_LOG("function ", kind, " of ", n, " parameters, tolerance ", mp.ftol); auto g = vif::minimize_bfgs(mp, s, f); mc::op(calls); MC_CHECK(g.params.size() == n && g.niter <= mp.max_iter && g.niter >= 1, g.niter, " iterations"); RV p(g.params.begin(), g.params.end()), s0(st.begin(), st.end()); MC_CHECK(nr(g.value, value(p), 1e-10L*(1 + fabsl(value(p)))), "value ", g.value, " is not that of the returned parameters, ", double(value(p))); MC_CHECK(g.value <= double(value(s0))*(1 + 1e-12), "value ", g.value, " larger than at the start"); R gn = sqrtl(norm2(grad(p))); if (g.success) MC_CHECK(gn < std::max(1.1L*mp.ftol, 1e-4L) || (kind == 2 && mp.ftol < 1e-4), "successful where the gradient is ", double(gn)); if (mp.max_iter == 1000) MC_CHECK(g.success, "not successful after ", g.niter, " iterations, gradient ", double(gn)); if (gn < 0.9*mp.ftol) MC_CHECK(g.success, "not successful at the minimum"); mc::outcome(mc::mix(g.success, std::min<sz>(g.niter, 20)));
    vec1d e; struct boom {}; bool thrown = false; vif::minimize_result h; try { h = vif::minimize_bfgs(mp, s, [&](const vec1d&, out) -> vec1d { throw boom{}; }); } catch (boom&) { thrown = true; } MC_CHECK(thrown || !h.success, "successful with a function that throws");
}
