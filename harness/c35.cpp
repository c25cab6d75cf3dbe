// C35: random numbers (vif/math/random.hpp), driven by engines whose outputs are enumerated.
#include "vifall.hpp"
using namespace vr;
using L = long long; using U = std::uint64_t; using vd = std::vector<double>; using vif::vec1d;

// an engine whose outputs are chosen by the explorer among the extremes and some regular values; after `n` of them it goes on with a fixed sequence
struct Chosen {
    using result_type = U; static constexpr U min() { return 0; } static constexpr U max() { return ~U(0); }
    unsigned n = 0; U s = 12345; std::vector<U> past;
    explicit Chosen(unsigned k = 4) : n(k) {}
    U operator()() { U r; if (past.size() < n) { static const std::vector<U> al = {0, U(1) << 62, U(1) << 63, U(3) << 62, ~U(0), ~U(0)/3, 1}; r = mc::pick(al); } else { s = s*6364136223846793005ull + 1442695040888963407ull; r = s ^ (s >> 29); } past.push_back(r); MC_CHECK(past.size() < 100000, "endless loop drawing random numbers"); return r; }
};
// repeats given outputs
struct Replay { using result_type = U; static constexpr U min() { return 0; } static constexpr U max() { return ~U(0); } std::vector<U> o; sz i = 0; U operator()() { MC_CHECK(!o.empty(), "no outputs"); return o[i++ % o.size()]; } };
// the k equally likely outputs (middles of k equal parts)
std::vector<U> regular(unsigned k) { std::vector<U> r; for (unsigned i = 0; i < k; ++i) r.push_back(U((((__uint128_t)(2*i + 1)) << 64)/(2*k))); return r; }
bool nr(double a, double b, double t) { return std::fabs(a - b) <= t; }

MC_SCENARIO_S(ranges, 3) { // any engine output
    unsigned k = mc::choose(6); Chosen e(3); Dims d; MC_LOG("function ", k); mc::op();
    if (k == 0) { double x = vif::randomu(e); MC_CHECK(x >= 0 && x < 1, "randomu is ", x); auto v = vif::randomu(e, 2); MC_CHECK(v.dims[0] == 2 && v.size() == 2, "dims"); for (auto y : v) MC_CHECK(y >= 0 && y < 1, "randomu is ", y); mc::outcome(U(x*1e6)); }
    if (k == 1) { double x = vif::randomn(e); MC_CHECK(std::isfinite(x), "randomn is ", x); auto v = vif::randomn(e, 3); MC_CHECK(v.size() == 3, "dims"); for (auto y : v) MC_CHECK(std::isfinite(y), "randomn is ", y); mc::outcome(U(L(x*1e6))); }
    if (k == 2) { L mi = mc::pick<L>({-3, 0, 1, 1000000, -1000000000}), ma = mi + mc::pick<L>({0, 1, 4, 9, 1000}); L x = vif::randomi(e, mi, ma); MC_CHECK(x >= mi && x <= ma, "randomi between ", mi, " and ", ma, " is ", x); auto v = vif::randomi(e, mi, ma, 2); MC_CHECK(v.size() == 2, "dims"); for (auto y : v) MC_CHECK(y >= mi && y <= ma, "randomi between ", mi, " and ", ma, " is ", y); mc::outcome(U(x)); }
    if (k == 3) { double p = mc::pick(vd{0, 0.25, 0.5, 1}); bool b = vif::random_coin(e, p); auto v = vif::random_coin(e, p, 2); vec1d pv = {p, 1 - p}; auto w = vif::random_coin(e, pv); MC_CHECK(v.size() == 2 && w.size() == 2, "dims"); MC_LOG("p=", p); if (p == 0) MC_CHECK(!b && !v[0] && !v[1] && !w[0] && w[1], "impossible outcome"); if (p == 1) MC_CHECK(b && v[0] && v[1] && w[0] && !w[1], "certain outcome does not happen"); mc::outcome(b); }
    if (k == 4) { vec1d x = {1, 2, 8, 9}, y = {0, 1, 1, 0}; double r = vif::random_pdf(e, x, y); MC_CHECK(r >= 1 && r <= 9, "random_pdf is ", r); auto v = vif::random_pdf(e, x, y, 2); MC_CHECK(v.size() == 2, "dims"); for (auto q : v) MC_CHECK(q >= 1 && q <= 9, "random_pdf is ", q); mc::outcome(U(r*1e6)); }
    if (k == 5) { vec1d w = {2, 0, 1, 3}; uint_t r = vif::random_pdf_discrete(e, w); MC_CHECK(r < 4 && r != 1, "random_pdf_discrete is ", r); auto v = vif::random_pdf_discrete(e, w, 2); MC_CHECK(v.size() == 2 && v[0] < 4 && v[0] != 1 && v[1] < 4 && v[1] != 1, "random_pdf_discrete"); mc::outcome(r); }
}
MC_SCENARIO_S(shapes, 3) { // dimensions, and the same engine outputs give the same numbers
    sz a = mc::choose(4), b = mc::choose(4), c = mc::choose(3); unsigned k = mc::choose(6); Replay e{{regular(7)}}, f = e; MC_LOG("function ", k, " dims ", a, " ", b, " ", c);
    vec1d x = {0, 1, 3}, y = {1, 0.5, 2}; std::array<uint_t,2> ar{{a, b}};
    auto all = [&](auto g) { { Replay e1 = e, e2 = e; auto r1 = read(g(e1, a)), r2 = read(g(e2, a)); MC_CHECK(r1.d == Dims({a}) && same_arr(r1, r2), "1-D: ", r1, " then ", r2); } { Replay e1 = e, e2 = e; auto r1 = read(g(e1, a, b)), r2 = read(g(e2, ar)); MC_CHECK(r1.d == Dims({a, b}) && same_arr(r1, r2), "2-D: ", r1, " then ", r2); } { Replay e1 = e, e2 = e; auto r1 = read(g(e1, a, b, c)), r2 = read(g(e2, ar, c)); MC_CHECK(r1.d == Dims({a, b, c}) && same_arr(r1, r2), "3-D: ", r1, " then ", r2); } mc::op(6); };
    if (k == 0) all([](auto& s, auto ... q) { return vif::randomu(s, q...); }); if (k == 1) all([](auto& s, auto ... q) { return vif::randomn(s, q...); }); if (k == 2) all([](auto& s, auto ... q) { return vif::randomi(s, -2, 5, q...); }); if (k == 3) all([](auto& s, auto ... q) { return vif::random_coin(s, 0.4, q...); });
    if (k == 4) all([&](auto& s, auto ... q) { return vif::random_pdf(s, x, y, q...); }); if (k == 5) all([&](auto& s, auto ... q) { return vif::random_pdf_discrete(s, y, q...); });
}
MC_SCENARIO_S(frequencies, 3) { // over all equally likely outputs, every value comes out as often as its probability says
    unsigned k = mc::choose(5); mc::op();
    if (k == 0) { unsigned n = 1 + mc::choose(mc::thorough() ? 64 : 24); auto o = regular(n); auto v = read(vif::randomu(*std::make_unique<Replay>(Replay{o}), n)); std::sort(v.v.begin(), v.v.end()); for (unsigned i = 0; i < n; ++i) { Replay e{{o[i]}}; double x = vif::randomu(e); MC_CHECK(nr(v.v[i], (i + 0.5)/n, 1e-6), "randomu: quantile ", (i + 0.5)/n, " is ", v.v[i]); MC_CHECK(x >= 0 && x < 1, "randomu ", x); } mc::outcome(n); }
    if (k == 1) { int mi = mc::pick({-7, -2, -1, 0, 1, 5, 100000}), m = 1 + mc::choose(8), f = 1 + mc::choose(4); auto o = regular(m*f); std::map<L,int> h, g; for (auto x : o) { Replay e{{x}}; ++h[vif::randomi(e, mi, mi + m - 1)]; } Replay e{o}; auto v = vif::randomi(e, mi, mi + m - 1, m*f); for (auto x : v) ++g[x]; MC_LOG("randomi from ", mi, " to ", mi + m - 1); for (int i = 0; i < m; ++i) { MC_CHECK(h[mi + i] == f, "value ", mi + i, " comes out ", h[mi + i], " times of ", m*f); MC_CHECK(g[mi + i] == f, "value ", mi + i, " comes out ", g[mi + i], " times of ", m*f, " in a vector"); } MC_CHECK(h.size() == sz(m) && g.size() == sz(m), "values outside the range"); mc::outcome(m*100 + f); }
    if (k == 2) { int n = 1 + mc::choose(10), p = mc::choose(n + 1); auto o = regular(n); int c1 = 0, c2 = 0, c3 = 0; for (auto x : o) { Replay e{{x}}; c1 += vif::random_coin(e, double(p)/n); } Replay e{o}; for (bool b : vif::random_coin(e, double(p)/n, n)) c2 += b; Replay e3{o}; vec1d pv(n); pv[vif::_] = double(p)/n; for (bool b : vif::random_coin(e3, pv)) c3 += b; MC_CHECK(c1 == p && c2 == p && c3 == p, "coin of probability ", p, "/", n, ": ", c1, " ", c2, " ", c3); mc::outcome(n*100 + p); }
    if (k == 3) { unsigned n = 1 + mc::choose(4); std::vector<int> w; int t = 0; for (unsigned i = 0; i < n; ++i) { w.push_back(mc::choose(4)); t += w.back(); } if (t == 0) return; auto o = regular(2*t); vec1d wv; for (int x : w) wv.push_back(x); std::map<uint_t,int> h, g; for (auto x : o) { Replay e{{x}}; ++h[vif::random_pdf_discrete(e, wv)]; } Replay e{o}; for (auto x : vif::random_pdf_discrete(e, wv, 2*t)) ++g[x]; for (unsigned i = 0; i < n; ++i) MC_CHECK(h[i] == 2*w[i] && g[i] == 2*w[i], "weights ", w, ": index ", i, " comes out ", h[i], " and ", g[i], " times of ", 2*t); mc::outcome(t*10 + n); }
    if (k == 4) { unsigned n = 2 + mc::choose(3); vd x, y; double c = -1; for (unsigned i = 0; i < n; ++i) { x.push_back(c); c += mc::pick(vd{0.5, 2}); y.push_back(mc::pick(vd{0, 1, 3})); } double t = 0; for (unsigned i = 0; i + 1 < n; ++i) t += (x[i+1] - x[i])*(y[i] + y[i+1])/2; if (t == 0) return; vec1d vx = make1(x), vy = make1(y); unsigned m = 20; auto o = regular(m); Replay e{o}; auto v = vif::random_pdf(e, vx, vy, m); MC_LOG("pdf ", y, " at ", x);
        for (unsigned q = 0; q < m; ++q) { Replay e1{{o[q]}}; for (double r : {vif::random_pdf(e1, vx, vy), double(v[q])}) { double cdf = 0; for (unsigned i = 0; i + 1 < n; ++i) { double u = std::min(std::max(r, x[i]), x[i+1]) - x[i], dx = x[i+1] - x[i]; cdf += u*y[i] + u*u/dx*(y[i+1] - y[i])/2; } MC_CHECK(r >= x[0] && r <= x[n-1] && nr(cdf/t, (q + 0.5)/m, 1e-6), "quantile ", (q + 0.5)/m, " is ", r, " where the cumulated probability is ", cdf/t); mc::outcome(U(L(r*1000))); } }
        vec1d bad(n + 1 - 2*mc::choose(2)); MC_CHECK(!mc::attempt([&]() { vif::random_pdf(e, vx, bad); }) && !mc::attempt([&]() { vif::random_pdf(e, vx, bad, 2); }), "pdf of another size accepted"); }
}
MC_SCENARIO_S(shuffles, 3) {
    sz n = mc::choose(6); unsigned k = mc::choose(4); Chosen e(3); std::vector<int> a; for (sz i = 0; i < n; ++i) a.push_back(int(i/2)*3 + 1); MC_LOG("shuffle ", a, " ", k); mc::op(); auto chk = [&](const std::vector<int>& b) { auto x = a, y = b; std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end()); MC_CHECK(x == y, "shuffle of ", a, " gives ", b); U h = 7; for (int q : b) h = mc::mix(h, q); mc::outcome(h); };
    if (k == 0) { auto v = make1(a); auto r = vif::shuffle(e, v); chk(read(r).v); expect1(v, a, "argument of shuffle"); }
    if (k == 1) { auto v = make1(a); vif::inplace_shuffle(e, v); chk(read(v).v); }
    if (k == 2) { vec<2,int> v(2, n); for (sz i = 0; i < n; ++i) { v(0, i) = a[i]; v(1, i) = a[i]; } auto r = vif::shuffle(e, v); MC_CHECK(r.dims == v.dims, "dims"); auto b = read(r).v; auto x = a; x.insert(x.end(), a.begin(), a.end()); std::swap(x, a); chk(b); }
    if (k == 3) { vec<1,std::string> v; for (int q : a) v.push_back(std::string(40, char('a' + q))); auto r = vif::shuffle(e, v); std::vector<int> b; for (auto& s : r) { MC_CHECK(s.size() == 40, "string damaged"); b.push_back(s[0] - 'a'); } chk(b); }
}
MC_SCENARIO(all_permutations) { // every arrangement is possible
    sz n = 2 + mc::choose(3); std::set<std::vector<int>> seen; std::vector<int> a; for (sz i = 0; i < n; ++i) a.push_back(i); sz f = 1; for (sz i = 2; i <= n; ++i) f *= i; auto o = regular(24); for (auto x : o) for (auto y : o) { Replay e{{x, y}}; auto v = make1(a); vif::inplace_shuffle(e, v); seen.insert(read(v).v); } MC_CHECK(seen.size() == f, seen.size(), " arrangements of ", n, " elements out of ", f); mc::op(f);
}
MC_SCENARIO(seeds) { // seeding
    int s = mc::pick({0, 1, 42, -7}); auto a = vif::make_seed(s), b = vif::make_seed(s); for (int i = 0; i < 100; ++i) MC_CHECK(vif::randomu(a) == vif::randomu(b), "same seed, other numbers"); auto c = vif::make_seed(s), d = vif::make_seed(s + 1); auto x = vif::randomn(c, 20), y = vif::randomn(d, 20); MC_CHECK(vif::count(x == y) < 5, "other seed, same numbers"); mc::op(3); double m = vif::mean(vif::randomn(c, 4000)), r = vif::stddev(vif::randomn(c, 4000)); MC_CHECK(nr(m, 0, 0.2) && nr(r, 1, 0.2), "normal numbers of mean ", m, " and deviation ", r);
}
