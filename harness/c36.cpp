// C36: linear fits (vif/math/linfit.hpp) against the exact solution of the normal equations.
#include "vifall.hpp"
using namespace vr;
using R = long double; using vd = std::vector<double>; using vif::vec1d; using vif::vec2d; using M = std::vector<std::vector<R>>;

bool nr(double a, R b) { return std::fabs(a - b) <= 1e-8*(1 + std::fabs(b)); }
// exact inverse (rational arithmetic on small integers carried in long double; false when the determinant is zero)
R det(const M& a) { sz n = a.size(); if (n == 0) return 1; if (n == 1) return a[0][0]; R r = 0; for (sz k = 0; k < n; ++k) { M b; for (sz i = 1; i < n; ++i) { b.push_back({}); for (sz j = 0; j < n; ++j) if (j != k) b.back().push_back(a[i][j]); } r += (k % 2 ? -1 : 1)*a[0][k]*det(b); } return r; }
bool inverse(const M& a, M& o) { sz n = a.size(); R d = det(a); if (d == 0) return false; o.assign(n, std::vector<R>(n)); for (sz i = 0; i < n; ++i) for (sz j = 0; j < n; ++j) { M b; for (sz k = 0; k < n; ++k) if (k != j) { b.push_back({}); for (sz l = 0; l < n; ++l) if (l != i) b.back().push_back(a[k][l]); } o[i][j] = ((i + j) % 2 ? -1 : 1)*det(b)/d; } return true; }
struct Fit { bool ok = false; M alpha, cov; std::vector<R> beta, p; R chi2 = 0; };
R chi2_of(const vd& y, const vd& e, const std::vector<vd>& x, const std::vector<R>& p) { R c = 0; for (sz m = 0; m < y.size(); ++m) { R q = y[m]; for (sz i = 0; i < x.size(); ++i) q -= p[i]*x[i][m]; c += q*q/(R(e[m])*e[m]); } return c; }
Fit solve(const vd& y, const vd& e, const std::vector<vd>& x) {
    Fit f; sz n = x.size(); f.alpha.assign(n, std::vector<R>(n, 0)); f.beta.assign(n, 0); for (sz m = 0; m < y.size(); ++m) for (sz i = 0; i < n; ++i) { f.beta[i] += R(x[i][m])*y[m]/(R(e[m])*e[m]); for (sz j = 0; j < n; ++j) f.alpha[i][j] += R(x[i][m])*x[j][m]/(R(e[m])*e[m]); }
    if (!inverse(f.alpha, f.cov)) return f; f.ok = true; f.p.assign(n, 0); for (sz i = 0; i < n; ++i) for (sz j = 0; j < n; ++j) f.p[i] += f.cov[i][j]*f.beta[j]; f.chi2 = chi2_of(y, e, x, f.p); return f;
}
// rank deficiency which elimination detects exactly in floating point: a model of zeros, or two identical models alone
bool surely_singular(const std::vector<vd>& x) { for (auto& a : x) { bool z = true; for (double v : a) z &= v == 0; if (z) return true; } return x.size() == 2 && x[0] == x[1]; }
void check(const vif::linfit_result& r, const Fit& f, const std::vector<vd>& x, const char* what, bool chi2 = true) {
    sz n = x.size(); mc::op();
    if (!f.ok) { if (!surely_singular(x)) return; MC_CHECK(!r.success, what, ": singular system solved"); MC_CHECK(r.params.size() == n && r.errors.size() == n, what, ": sizes"); for (sz i = 0; i < n; ++i) MC_CHECK(std::isnan(r.params[i]) && std::isnan(r.errors[i]), what, ": values without solution"); MC_CHECK(std::isnan(r.chi2), what, ": chi2 without solution"); mc::outcome(1); return; }
    MC_CHECK(r.success, what, ": no success"); MC_CHECK(r.params.dims[0] == n && r.errors.dims[0] == n && r.cov.base.dims[0] == n && r.cov.base.dims[1] == n, what, ": sizes");
    for (sz i = 0; i < n; ++i) { MC_CHECK(nr(r.params[i], f.p[i]), what, ": parameter ", i, " is ", r.params[i], " and not ", double(f.p[i])); MC_CHECK(nr(r.errors[i], sqrtl(f.cov[i][i])), what, ": error ", i, " is ", r.errors[i], " and not ", double(sqrtl(f.cov[i][i]))); for (sz j = 0; j < n; ++j) MC_CHECK(nr(r.cov(i, j), f.cov[i][j]), what, ": covariance ", i, " ", j, " is ", r.cov(i, j), " and not ", double(f.cov[i][j])); mc::outcome(mc::mix(3, std::uint64_t(std::llround(r.params[i]*1e6)))); }
    if (chi2) MC_CHECK(nr(r.chi2, f.chi2), what, ": chi2 is ", r.chi2, " and not ", double(f.chi2));
}
vd data(sz n, const vd& al) { vd r; for (sz i = 0; i < n; ++i) r.push_back(mc::pick(al)); return r; }
vec<2,double> rows(const std::vector<vd>& x, sz n) { vec<2,double> r(x.size(), n); for (sz i = 0; i < x.size(); ++i) for (sz j = 0; j < n; ++j) r(i, j) = x[i][j]; return r; }
#ifndef PART
#define PART 0
#endif
#if PART == 0
MC_SCENARIO_S(one_model, 4) {
    sz n = 1 + mc::choose(mc::thorough() ? 4 : 3); vd x = data(n, {-1, 0, 2}), y = data(n, {-1, 0, 3}), e = data(n, {1, 0.5}); MC_LOG("y=", y, " e=", e, " x=", x); std::vector<vd> X = {x}; Fit f = solve(y, e, X); vec1d vy = make1(y), ve = make1(e), vx = make1(x);
    check(vif::linfit(vy, ve, vx), f, X, "linfit"); check(vif::linfit_pack(vy, ve, rows(X, n)), f, X, "linfit_pack"); auto b = vif::linfit_batch(ve, vx); b.fit(vy); check(b.fr, f, X, "batch"); auto c = vif::linfit_pack_batch(ve, rows(X, n)); c.fit(vy); check(c.fr, f, X, "pack_batch");
    if (e == vd(n, e[0])) { check(vif::linfit(vy, e[0], vx), f, X, "linfit with the same error for all"); if (x == vd(n, x[0])) check(vif::linfit(vy, e[0], x[0]), f, X, "linfit with constant model and error"); } if (x == vd(n, x[0])) check(vif::linfit(vy, ve, x[0]), f, X, "linfit with a constant model");
}
MC_SCENARIO_S(two_models, 6) {
    sz n = 1 + mc::choose(3); vd x = data(n, {-1, 0, 2}), z = data(n, {0, 1, 3}), y = data(n, mc::thorough() ? vd{-1, 0, 3} : vd{-1, 3}), e = data(n, {1, 0.5}); MC_LOG("y=", y, " e=", e, " x=", x, z); std::vector<vd> X = {x, z}; Fit f = solve(y, e, X); vec1d vy = make1(y), ve = make1(e), vx = make1(x), vz = make1(z);
    check(vif::linfit(vy, ve, vx, vz), f, X, "linfit"); check(vif::linfit_pack(vy, ve, rows(X, n)), f, X, "linfit_pack"); if (f.ok || surely_singular(X)) { auto b = vif::linfit_batch(ve, vx, vz); b.fit(vy); check(b.fr, f, X, "batch"); }
    if (z == vd(n, z[0])) { check(vif::linfit(vy, ve, vx, z[0]), f, X, "linfit with a constant model last"); std::vector<vd> Y = {z, x}; check(vif::linfit(vy, ve, z[0], vx), solve(y, e, Y), Y, "linfit with a constant model first"); }
}
MC_SCENARIO_S(three_models, 6) {
    sz n = 3 + mc::choose(2); vd x = data(n, {-1, 1}), z = data(n, {0, 2}), w = data(n, {0, 1}), y = n == 3 ? data(n, {0, 1}) : vd{1, 3, mc::pick(vd{0, 2}), mc::pick(vd{-1, 2})}, e(n, 1); e[1] = mc::pick(vd{0.5, 2}); MC_LOG("y=", y, " e=", e, " x=", x, z, w); std::vector<vd> X = {x, z, w}; Fit f = solve(y, e, X); vec1d vy = make1(y), ve = make1(e);
    check(vif::linfit(vy, ve, make1(x), make1(z), make1(w)), f, X, "linfit"); check(vif::linfit_pack(vy, ve, rows(X, n)), f, X, "linfit_pack"); auto b = vif::linfit_pack_batch(ve, rows(X, n)); b.fit(vy); check(b.fr, f, X, "pack_batch");
}
MC_SCENARIO_S(batch_history, 4) { // a batch fitter after any sequence of changes
    sz n = 3; static const std::vector<vd> xs = {{1, 1, 1}, {0, 1, 3}, {-1, 2, 0}, {0, 0, 0}}, ys = {{1, 2, 4}, {0, -3, 1}}; std::vector<vd> X = {xs[mc::choose(4)], xs[mc::thorough() ? 1 : mc::choose(4)]}; vd e = {1, 0.5, 2}, y; vec1d ve = make1(e); auto b = vif::linfit_batch(ve, make1(X[0]), make1(X[1])); MC_LOG("models ", X, " e=", e); bool fitted = false;
    unsigned depth = mc::thorough() ? 4 : 3; for (unsigned s = 0; s < depth; ++s) { unsigned op = mc::choose(5); MC_LOG("step ", op);
        if (op <= 1) { y = ys[mc::choose(2)]; fitted = true; if (op == 0) { b.fit(make1(y)); check(b.fr, solve(y, e, X), X, "fit"); } else { b.fit_nochi2(make1(y)); check(b.fr, solve(y, e, X), X, "fit_nochi2", false); b.update_chi2(make1(y)); check(b.fr, solve(y, e, X), X, "update_chi2"); } }
        if (op == 2) { unsigned i = mc::choose(2), k = mc::choose(4); X[i] = xs[k]; MC_LOG("model ", i, " becomes ", k); b.update_model(i, make1(X[i])); MC_CHECK(b.fr.success == solve(ys[0], e, X).ok, "success is ", b.fr.success); }
        if (op == 3) { X[0] = xs[mc::choose(3)]; X[1] = xs[mc::choose(3)]; MC_LOG("models become ", X); if (mc::flip()) b.update_models(0, make1(X[0]), 1, make1(X[1])); else b.update_models(1, make1(X[1]), 0, make1(X[0])); MC_CHECK(b.fr.success == solve(ys[0], e, X).ok, "success is ", b.fr.success); }
        if (op == 4) { auto bad = [&](auto g) { MC_CHECK(!mc::attempt(g), "accepted"); }; bad([&]() { b.update_model(2, make1(xs[0])); }); bad([&]() { b.update_model(0, make1(vd{1, 2})); }); bad([&]() { b.update_model(1, make1(vd{1, 2, 3, 4})); }); bad([&]() { b.fit(make1(vd{1, 2})); }); bad([&]() { b.fit_nochi2(make1(vd{1, 2, 3, 4})); }); }
    }
}
#else
// the best non-negative solution, from all choices of the models that are not used
R best_nn(const vd& y, const vd& e, const std::vector<vd>& x, std::vector<R>& p) { R best = -1; sz n = x.size(); for (unsigned s = 0; s < (1u << n); ++s) { std::vector<vd> q; for (sz i = 0; i < n; ++i) if (s >> i & 1) q.push_back(x[i]); Fit f; if (q.empty()) { f.ok = true; f.chi2 = chi2_of(y, e, q, {}); } else f = solve(y, e, q); if (!f.ok) continue; bool ok = true; for (R v : f.p) ok &= v >= 0; if (!ok) continue; if (best < 0 || f.chi2 < best) { best = f.chi2; p.assign(n, 0); sz k = 0; for (sz i = 0; i < n; ++i) if (s >> i & 1) p[i] = f.p[k++]; } } return best; }
void check_nn(const vif::linfit_nn_result& r, const vd& y, const vd& e, const std::vector<vd>& x, const char* what) {
    sz n = x.size(); mc::op(); MC_CHECK(r.params.dims[0] == n, what, ": size"); std::vector<R> p, q; R b = best_nn(y, e, x, p), t = chi2_of(y, e, {}, {}); for (sz i = 0; i < n; ++i) { MC_CHECK(std::isfinite(r.params[i]) && r.params[i] >= 0, what, ": parameter ", i, " is ", r.params[i]); q.push_back(r.params[i]); } R c = chi2_of(y, e, x, q); MC_CHECK(nr(r.chi2, c), what, ": chi2 is ", r.chi2, " and not ", double(c)); MC_CHECK(r.success, what, ": no success"); MC_CHECK(c <= b + 0.02*t, what, ": chi2 of ", double(c), " with parameters ", r.params, " but parameters ", vd(p.begin(), p.end()), " give ", double(b)); if (n == 1) MC_CHECK(nr(r.params[0], p[0]), what, ": parameter is ", r.params[0], " and not ", double(p[0])); mc::outcome(mc::mix(n, std::uint64_t(std::llround(r.chi2*1e5))));
}
MC_SCENARIO_S(non_negative, 4) {
    sz n = 1 + mc::choose(3), k = 1 + mc::choose(2); std::vector<vd> X; for (sz i = 0; i < k; ++i) X.push_back(data(n, {0, 1, 3})); for (auto& a : X) if (a == vd(n, 0)) return; vd y = data(n, {-1, 0, 2}), e = data(n, {1, 0.5}); MC_LOG("y=", y, " e=", e, " x=", X); vec1d vy = make1(y), ve = make1(e);
    if (k == 1) check_nn(vif::linfit_nn(vy, ve, make1(X[0])), y, e, X, "linfit_nn"); else check_nn(vif::linfit_nn(vy, ve, make1(X[0]), make1(X[1])), y, e, X, "linfit_nn"); check_nn(vif::linfit_nn_pack(vy, ve, rows(X, n)), y, e, X, "linfit_nn_pack");
    if (k == 1 && X[0] == vd(n, X[0][0]) && e == vd(n, e[0])) check_nn(vif::linfit_nn(vy, e[0], X[0][0]), y, e, X, "linfit_nn with constants");
}
MC_SCENARIO_S(images, 4) { // 2-D data, views, and dimensions that do not match
    sz a = 1 + mc::choose(2), b = 1 + mc::choose(3), n = a*b; vd y = data(n, {-1, 2}), x; for (sz i = 0; i < n; ++i) x.push_back(double((i*i) % 5)); unsigned el = mc::choose(2); vd e(n, 1); if (el) e[n-1] = 0.5; std::vector<vd> X = {vd(n, 1), x}; Fit f = solve(y, e, X); if (!f.ok) return; MC_LOG("dims ", a, " ", b, " y=", y, " e=", e);
    auto im = [&](const vd& v) { vec<2,double> r(a, b); for (sz i = 0; i < n; ++i) r[i] = v[i]; return r; }; vec<2,double> vy = im(y), ve = im(e), vx = im(x); vec<3,double> p(2, a, b); for (sz i = 0; i < n; ++i) { p[i] = 1; p[n + i] = x[i]; }
    check(vif::linfit(vy, ve, 1.0, vx), f, X, "linfit"); check(vif::linfit_pack(vy, ve, p), f, X, "linfit_pack"); auto bt = vif::linfit_batch(ve, 1.0, vx); bt.fit(vy); check(bt.fr, f, X, "batch"); auto bp = vif::linfit_pack_batch(ve, p); bp.fit(vy); check(bp.fr, f, X, "pack_batch"); if (!el) check(vif::linfit(vy, 1.0, 1.0, vx), f, X, "linfit with one error");
    auto id = vif::where(vx >= 0); check(vif::linfit(vy[id], ve[id], 1.0, vx[id]), f, X, "linfit of views");
    auto bad = [&](auto g, const char* w) { MC_CHECK(!mc::attempt(g), w, ": accepted"); mc::op(); }; vec<2,double> o(a + 1, b), q(b + 1, a); vec<3,double> po(2, a, b + 1), pq(2, a + 1, b);
    bad([&]() { vif::linfit(vy, o, vx); }, "linfit with errors of other dimensions"); bad([&]() { vif::linfit(vy, ve, vx, o); }, "linfit with a model of other dimensions"); bad([&]() { vif::linfit(vy, ve, 1.0, q); }, "linfit with a model of other dimensions"); bad([&]() { vif::linfit_pack(vy, ve, po); }, "linfit_pack"); bad([&]() { vif::linfit_pack(vy, o, p); }, "linfit_pack"); bad([&]() { vif::linfit_pack(o, ve, p); }, "linfit_pack");
    bad([&]() { vif::linfit_nn(vy, o, vx); }, "linfit_nn"); bad([&]() { vif::linfit_nn(vy, ve, vx, o); }, "linfit_nn"); bad([&]() { vif::linfit_nn_pack(vy, ve, pq); }, "linfit_nn_pack"); bad([&]() { vif::linfit_batch(ve, vx, o); }, "linfit_batch"); bad([&]() { vif::linfit_pack_batch(ve, po); }, "linfit_pack_batch"); bad([&]() { vif::linfit_pack_batch(ve, pq); }, "linfit_pack_batch"); bad([&]() { bt.update_model(1, o); }, "update_model"); bad([&]() { bt.update_model(2, vx); }, "update_model"); bad([&]() { bt.fit(o); }, "fit");
    // same number of elements, other dimensions
    if (a != b) { vec<2,double> t(b, a); vec<1,double> fl(n); for (sz i = 0; i < n; ++i) fl[i] = t[i] = x[i] + 1; bad([&]() { vif::linfit(vy, t, vx); }, "errors of other dimensions but same size"); bad([&]() { vif::linfit(vy, 1.0, t); }, "model of other dimensions but same size"); bad([&]() { vif::linfit_nn(vy, 1.0, 1.0, t); }, "linfit_nn, model of other dimensions but same size"); bad([&]() { bt.update_model(1, t); }, "update_model, same size"); bad([&]() { bt.update_model(1, fl); }, "update_model, flattened"); bad([&]() { bt.fit(t); }, "fit, same size"); }
    bt.update_model(1, vx); bt.fit(vy); check(bt.fr, f, X, "batch after rejected changes");
}
// the checks of dimensions compare all the vectors, wherever the scalars are
MC_SCENARIO_S(same_dims, 3) {
    using D = std::vector<sz>; static const std::vector<D> all = {{}, {0}, {1}, {2}, {4}, {2, 2}, {1, 4}, {4, 1}, {0, 2}}; D d[3]; for (auto& i : d) i = mc::pick(all); MC_LOG("dims ", d[0], " ", d[1], " ", d[2]); mc::op();
    auto dims2 = [](const D& x) { return x.size() == 2; }; auto go = [&](auto&& k) { auto one = [&](sz i, auto&& next) { if (d[i].empty()) next(1.5); else if (dims2(d[i])) next(vec<2,double>(d[i][0], d[i][1])); else next(vec<1,double>(d[i][0])); }; one(0, [&](const auto& u) { one(1, [&](const auto& v) { one(2, [&](const auto& w) { k(u, v, w); }); }); }); };
    auto size = [](const D& x) { sz n = 1; for (sz i : x) n *= i; return n; }; bool sd = true, ss = size(d[0]) == size(d[1]) && size(d[1]) == size(d[2]); for (auto& x : d) for (auto& y : d) if (!x.empty() && !y.empty() && x != y) sd = false; mc::outcome(sd*2 + ss);
    go([&](const auto& u, const auto& v, const auto& w) { MC_CHECK(vif::meta::same_dims_or_scalar(u, v, w) == sd, "same_dims_or_scalar"); MC_CHECK(vif::meta::same_size(u, v, w) == ss, "same_size"); MC_CHECK(vif::meta::same_size(u, v) == (size(d[0]) == size(d[1])), "same_size of two"); });
}
#endif
