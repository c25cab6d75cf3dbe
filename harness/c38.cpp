// C38: segmentation of images (vif/astro/image.hpp): connected components, peaks, small segments, growth.
// PART 0: segment and foreach_segment, segment_distance; 1: segment_deblend.
#ifndef PART
#define PART 0
#endif
#include "vifall.hpp"
using namespace vr;
namespace va = vif::astro;
using L = long long; using vif::vec2u; using vif::vec2d; using vif::vec1u;
using Img = std::vector<double>;
struct Grid { sz n, m; std::vector<sz> nb(sz p) const { std::vector<sz> r; sz y = p/m, x = p%m; if (y) r.push_back(p - m); if (y + 1 < n) r.push_back(p + m); if (x) r.push_back(p - 1); if (x + 1 < m) r.push_back(p + 1); return r; } };
// pixels connected to p through pixels with the same label
std::set<sz> component(const Grid& g, const std::vector<sz>& lab, sz p) { std::set<sz> s = {p}; std::vector<sz> o = {p}; while (!o.empty()) { sz q = o.back(); o.pop_back(); for (sz t : g.nb(q)) if (lab[t] == lab[p] && s.insert(t).second) o.push_back(t); } return s; }
std::vector<sz> flat(const vec2u& v) { std::vector<sz> r; for (sz i = 0; i < v.size(); ++i) r.push_back(v[i]); return r; }
vec2u tov2(const Grid& g, const std::vector<sz>& a) { vec2u v(g.n, g.m); for (sz i = 0; i < a.size(); ++i) v[i] = a[i]; return v; }
static bool nr(double a, double b) { return std::fabs(a - b) <= 1e-5*(1 + std::fabs(b)); }

#if PART == 0
template<typename T> void seg(const Grid& g, const std::vector<T>& in, bool reuse) {
    vec<2,T> map(g.n, g.m); for (sz i = 0; i < in.size(); ++i) map[i] = in[i]; va::segment_params p; p.min_area = mc::choose(5); p.first_id = mc::pick(std::vector<sz>{1, 5}); va::segment_output o; MC_LOG("segment ", g.n, "x", g.m, " ", ref::Arr<T>({g.n, g.m}, in), " min area ", p.min_area, " first id ", p.first_id);
    if (reuse) { vec<2,T> other(2, 2); other[0] = 1; other[3] = 1; va::segment(other, o); }
    vec2u s = va::segment(map, o, p); auto f = flat(s); MC_CHECK(s.dims[0] == g.n && s.dims[1] == g.m, "size of the segmentation map"); sz k = o.id.size(); MC_CHECK(o.area.size() == k && o.px.size() == k && o.py.size() == k && o.origin.size() == k, "sizes of the outputs");
    std::vector<sz> bin; for (auto x : in) bin.push_back(x != 0); std::set<sz> done; sz j = 0, total = 0; std::uint64_t h = 0;
    for (sz q = 0; q < in.size(); ++q) { if (!bin[q]) { MC_CHECK(f[q] == 0, "pixel ", q, " is 0 but was given to segment ", f[q]); continue; } if (done.count(q)) continue; auto c = component(g, bin, q); done.insert(c.begin(), c.end()); sz id = p.first_id + total++;
        if (c.size() < p.min_area) { for (sz t : c) MC_CHECK(f[t] == 0, "pixel ", t, " lies in a segment of ", c.size(), " pixels, but was kept"); continue; }
        for (sz t : c) MC_CHECK(f[t] == id, "pixel ", t, " was given to segment ", f[t], " instead of ", id); double sx = 0, sy = 0; for (sz t : c) { sx += t%g.m; sy += t/g.m; }
        MC_CHECK(j < k, "segment ", id, " is missing from the output"); MC_CHECK(o.id[j] == id, "id of segment ", j, " is ", o.id[j], " instead of ", id); MC_CHECK(o.area[j] == c.size(), "area of segment ", id, " is ", o.area[j], " instead of ", c.size()); MC_CHECK(nr(o.px[j], sx/c.size()) && nr(o.py[j], sy/c.size()), "centre of segment ", id, " is ", o.px[j], ",", o.py[j], " instead of ", sx/c.size(), ",", sy/c.size()); MC_CHECK(c.count(o.origin[j]), "origin of segment ", id, " is ", o.origin[j]); ++j; h = mc::mix(h, c.size()); }
    MC_CHECK(j == k, "the output lists ", k, " segments instead of ", j); mc::op(); mc::outcome(h); for (sz i = 0; i < in.size(); ++i) MC_CHECK(map[i] == in[i], "argument modified");
    sz calls = 0; va::foreach_segment(s, o.origin, [&](uint_t i, const vec1u& ids) { MC_CHECK(i == calls, "foreach_segment order"); ++calls; auto c = component(g, f, o.origin[i]); std::set<sz> got; for (sz t : ids) MC_CHECK(got.insert(t).second, "foreach_segment listed pixel ", t, " of segment ", i, " twice"); MC_CHECK(got == c, "foreach_segment listed ", got.size(), " pixels of segment ", i, " instead of ", c.size()); }); MC_CHECK(calls == k, "foreach_segment called ", calls, " times"); mc::op();
}
template<typename T> std::vector<T> gen(const Grid& g, std::vector<T> al) { std::vector<T> v; for (sz i = 0; i < g.n*g.m; ++i) v.push_back(al[mc::choose(al.size())]); return v; }
Grid shape() { static const std::vector<std::pair<sz,sz>> q = {{0,3},{1,1},{1,6},{6,1},{2,2},{3,3},{3,4},{2,5}}, t = {{0,3},{3,0},{1,1},{1,9},{9,1},{2,2},{3,3},{4,3},{3,4},{2,6},{7,2},{4,4}}; auto p = mc::pick(mc::thorough() ? t : q); return Grid{p.first, p.second}; }
MC_SCENARIO_S(segment_binary, 6) { Grid g = shape(); auto v = gen<bool>(g, {false, true}); seg<bool>(g, v, mc::flip()); }
MC_SCENARIO_S(segment_values, 6) { Grid g = mc::pick(std::vector<Grid>{{3,3},{2,3},{1,4}}); if (mc::flip()) seg<int>(g, gen<int>(g, {0, 1, -2}), false); else seg<uint_t>(g, gen<uint_t>(g, {0, 3, 4}), false); }
MC_SCENARIO(segment_plain) { Grid g{3,3}; auto v = gen<int>(g, {0, 1}); vif::vec2i m(3, 3); for (sz i = 0; i < 9; ++i) m[i] = v[i]; va::segment_output o; auto a = flat(va::segment(m)), b = flat(va::segment(m, o)); MC_CHECK(a == b, "segment without output"); mc::op(); va::segment_params p; p.first_id = 0; MC_CHECK(!mc::attempt([&]() { va::segment(m, o, p); }), "first id 0 accepted"); }

// any label map: the pixels connected to each of the given pixels, through pixels with the same label (touching segments)
MC_SCENARIO_S(foreach_labels, 6) {
    Grid g = mc::pick(mc::thorough() ? std::vector<Grid>{{1,6},{6,1},{3,3},{2,4},{3,4}} : std::vector<Grid>{{1,5},{5,1},{3,3},{2,4}}); auto v = gen<sz>(g, {0, 1, 2}); vec2u map = tov2(g, v); vec1u mids; std::set<sz> seen; MC_LOG("labels ", ref::Arr<sz>({g.n, g.m}, v)); for (sz p = 0; p < v.size(); ++p) if (v[p] && seen.insert(v[p]).second) mids.push_back(p); if (mc::flip()) mids = vif::reverse(mids); sz calls = 0;
    va::foreach_segment(map, mids, [&](uint_t i, const vec1u& ids) { MC_CHECK(i == calls, "foreach_segment order"); ++calls; auto c = component(g, v, mids[i]); std::set<sz> got; for (sz t : ids) MC_CHECK(got.insert(t).second, "foreach_segment listed pixel ", t, " of segment ", i, " twice"); MC_CHECK(got == c, "foreach_segment listed ", got.size(), " pixels of segment ", i, " instead of ", c.size()); mc::outcome(c.size()); }); MC_CHECK(calls == mids.size(), "foreach_segment called ", calls, " times"); mc::op();
}

// growth of segments: every pixel is given to a pixel of an original segment, at the distance written in the map
MC_SCENARIO_S(distance, 6) {
    Grid g = mc::pick(mc::thorough() ? std::vector<Grid>{{1,7},{7,1},{3,4},{4,3},{2,6},{5,2}} : std::vector<Grid>{{1,6},{6,1},{3,3},{2,5}}); auto v = gen<sz>(g, g.n*g.m > 10 ? std::vector<sz>{0, 2} : std::vector<sz>{0, 1, 2}); vec2u map = tov2(g, v), imap; vec2d d; MC_LOG("grow ", ref::Arr<sz>({g.n, g.m}, v)); va::segment_distance(map, d, imap);
    bool any = false; for (sz x : v) any = any || x; MC_CHECK(d.size() == v.size() && imap.size() == v.size() && map.size() == v.size(), "sizes"); std::uint64_t h = 0;
    for (sz p = 0; p < v.size(); ++p) { if (!any) { MC_CHECK(map[p] == 0 && imap[p] == vif::npos && std::isinf(d[p]), "empty map"); continue; } if (v[p]) { MC_CHECK(map[p] == v[p] && d[p] == 0 && imap[p] == p, "pixel ", p, " already belongs to a segment"); continue; }
        sz q = imap[p]; MC_CHECK(q < v.size() && v[q] != 0, "pixel ", p, " was attached to pixel ", q, ", which is in no segment"); auto dist = [&](sz a, sz b) { double y = double(a/g.m) - double(b/g.m), x = double(a%g.m) - double(b%g.m); return x*x + y*y; };
        MC_CHECK(map[p] == v[q], "pixel ", p, " was attached to pixel ", q, " of segment ", v[q], " but given to segment ", map[p]); MC_CHECK(d[p] == dist(p, q), "squared distance of pixel ", p, " is ", d[p], " instead of ", dist(p, q)); double best = 1e9; for (sz t = 0; t < v.size(); ++t) if (v[t]) best = std::min(best, dist(p, t)); double steps = 1e9; for (sz t = 0; t < v.size(); ++t) if (v[t]) steps = std::min(steps, std::fabs(double(p/g.m) - double(t/g.m)) + std::fabs(double(p%g.m) - double(t%g.m))); MC_CHECK(d[p] >= best && d[p] <= steps*steps, "pixel ", p, " was attached at squared distance ", d[p], ", but there is a segment at ", best, ", ", steps, " steps away"); h = mc::mix(h, q); }
    mc::op(); mc::outcome(h);
}
#endif

#if PART == 1
struct St { std::vector<sz> lab, org; };
// all label maps allowed by the definition: pixels in decreasing order join the nearest (in steps) labelled pixel closer than the threshold, at equal number of steps the one closest to its peak; else they start a segment
void assign(const Grid& g, const Img& v, const std::vector<sz>& order, sz i, double thr, double T, St s, std::vector<St>& out) {
    if (i == order.size() || v[order[i]] < thr) { out.push_back(s); return; } sz p = order[i]; L y = p/g.m, x = p%g.m; auto steps = [&](sz q) { return std::llabs(L(q/g.m) - y) + std::llabs(L(q%g.m) - x); };
    L best = -1; for (sz q = 0; q < v.size(); ++q) if (s.lab[q] && steps(q) < T && (best < 0 || steps(q) < best)) best = steps(q); if (best < 0) { s.org.push_back(p); s.lab[p] = s.org.size(); assign(g, v, order, i + 1, thr, T, s, out); return; }
    auto d2 = [&](sz q) { sz o = s.org[s.lab[q] - 1]; double a = double(q/g.m) - double(o/g.m), b = double(q%g.m) - double(o%g.m); return a*a + b*b; }; double m = 1e9; for (sz q = 0; q < v.size(); ++q) if (s.lab[q] && steps(q) == best) m = std::min(m, d2(q)); std::set<sz> c; for (sz q = 0; q < v.size(); ++q) if (s.lab[q] && steps(q) == best && d2(q) == m) c.insert(s.lab[q]); for (sz l : c) { St t = s; t.lab[p] = l; assign(g, v, order, i + 1, thr, T, t, out); }
}
struct Fin { std::vector<sz> lab; std::vector<double> area, flux, bx, by, w; std::vector<bool> gone; };
void merge(const Grid& g, const Img& v, const St& s, Fin f, sz k, sz minarea, double flim, std::vector<std::pair<St,Fin>>& out) {
    while (k < s.org.size() && !(f.area[k] < minarea)) ++k; if (k == s.org.size()) { out.push_back({s, f}); return; } std::vector<sz> mine; for (sz p = 0; p < v.size(); ++p) if (f.lab[p] == k + 1) mine.push_back(p);
    double m = 1e9; std::set<sz> c; for (int pass = 0; pass < 2; ++pass) for (sz p : mine) for (sz q : g.nb(p)) { sz l = f.lab[q]; if (l == 0 || l == k + 1 || f.area[l-1] < minarea) continue; sz o = s.org[l-1]; double a = double(q/g.m) - double(o/g.m), b = double(q%g.m) - double(o%g.m); if (pass == 0) m = std::min(m, a*a + b*b); else if (a*a + b*b == m) c.insert(l); }
    if (c.empty()) c.insert(0); for (sz l : c) { Fin t = f; t.gone[k] = true; for (sz p : mine) { t.lab[p] = l; if (l && v[p] >= flim*v[s.org[l-1]]) { t.bx[l-1] += v[p]*(p%g.m); t.by[l-1] += v[p]*(p/g.m); t.w[l-1] += v[p]; } } if (l) { t.area[l-1] += t.area[k]; t.flux[l-1] += t.flux[k]; } merge(g, v, s, t, k + 1, minarea, flim, out); }
}
void deblend(const Grid& g, const Img& v, const va::segment_deblend_params& P, va::segment_deblend_output& o) {
    MC_LOG("deblend ", ref::Arr<double>({g.n, g.m}, v), " threshold ", P.detect_threshold, " deblend ", P.deblend_threshold, " min area ", P.min_area, " first id ", P.first_id, " centroid limit ", P.centroid_flim); vec2d im(g.n, g.m); for (sz i = 0; i < v.size(); ++i) im[i] = v[i];
    vec2u r = va::segment_deblend(im, o, P); mc::op(); MC_CHECK(r.dims[0] == g.n && r.dims[1] == g.m, "size of the segmentation map"); sz k = o.id.size(); MC_CHECK(o.area.size() == k && o.px.size() == k && o.py.size() == k && o.bx.size() == k && o.by.size() == k && o.origin.size() == k && o.flux.size() == k, "sizes of the outputs: ", k, " ", o.area.size(), " ", o.px.size(), " ", o.bx.size(), " ", o.flux.size());
    std::vector<sz> order; for (sz i = 0; i < v.size(); ++i) if (std::isfinite(v[i])) order.push_back(i); std::sort(order.begin(), order.end(), [&](sz a, sz b) { return v[a] > v[b]; }); std::vector<St> ss; St s0; s0.lab.resize(v.size()); assign(g, v, order, 0, P.detect_threshold, P.deblend_threshold, s0, ss); std::vector<std::pair<St,Fin>> fs;
    for (auto& s : ss) { Fin f; f.lab.resize(v.size()); sz ns = s.org.size(); f.area.resize(ns); f.flux.resize(ns); f.bx.resize(ns); f.by.resize(ns); f.w.resize(ns); f.gone.resize(ns); for (sz i = 0; i < ns; ++i) for (sz p : component(g, s.lab, s.org[i])) { f.lab[p] = i + 1; f.area[i] += 1; f.flux[i] += v[p]; if (v[p] >= P.centroid_flim*v[s.org[i]]) { f.bx[i] += v[p]*(p%g.m); f.by[i] += v[p]*(p/g.m); f.w[i] += v[p]; } } merge(g, v, s, f, 0, P.min_area, P.centroid_flim, fs); }
    std::string why; bool ok = false; for (auto& sf : fs) { const St& s = sf.first; const Fin& f = sf.second; std::ostringstream w; sz j = 0; for (sz p = 0; p < v.size(); ++p) { sz e = f.lab[p] ? f.lab[p] - 1 + P.first_id : 0; if (r[p] != e) w << "pixel " << p << " belongs to segment " << r[p] << " instead of " << e << "; "; }
        for (sz i = 0; i < s.org.size(); ++i) { if (f.gone[i]) continue; if (j >= k) { w << "segment " << i << " is missing; "; break; } if (o.id[j] != i + P.first_id) w << "id " << o.id[j] << " instead of " << i + P.first_id << "; "; if (o.origin[j] != s.org[i] || o.py[j] != L(s.org[i]/g.m) || o.px[j] != L(s.org[i]%g.m)) w << "peak of " << i << "; "; if (o.area[j] != f.area[i]) w << "area of " << i << " is " << o.area[j] << " instead of " << f.area[i] << "; "; if (!nr(o.flux[j], f.flux[i])) w << "flux of " << i << " is " << o.flux[j] << " instead of " << f.flux[i] << "; "; if (!nr(o.bx[j], f.bx[i]/f.w[i]) || !nr(o.by[j], f.by[i]/f.w[i])) w << "barycentre of " << i << " is " << o.bx[j] << "," << o.by[j] << " instead of " << f.bx[i]/f.w[i] << "," << f.by[i]/f.w[i] << "; "; ++j; }
        if (j < k) w << "too many segments in the output; "; if (w.str().empty()) { ok = true; break; } why = w.str(); }
    MC_CHECK(ok, fs.size(), " allowed results; differs from the last in: ", why); std::uint64_t h = k; for (sz p = 0; p < r.size(); ++p) h = mc::mix(h, r[p]); mc::outcome(h);
}
// every ordering of distinct pixel values
Img perm(sz n) { std::vector<sz> a; for (sz i = 0; i < n; ++i) a.push_back(i); Img v(n); for (sz i = 0; i < n; ++i) { sz k = mc::choose(a.size()); v[i] = 1 + 2.0*a[k]; a.erase(a.begin() + k); } return v; }
va::segment_deblend_params params(sz n) { va::segment_deblend_params P; P.detect_threshold = mc::pick(std::vector<double>{0, 4.5, 9}); P.deblend_threshold = mc::pick(std::vector<double>{0.5, 2, 3, 5}); P.min_area = mc::choose(4); return P; }
MC_SCENARIO_S(deblend_line, 5) { sz n = 1 + mc::choose(mc::thorough() ? 7 : 6); Grid g{1, n}; if (mc::flip()) std::swap(g.n, g.m); auto P = params(n); va::segment_deblend_output o; deblend(g, perm(n), P, o); }
MC_SCENARIO_S(deblend_2x3, 5) { Grid g{2, 3}; if (mc::flip()) std::swap(g.n, g.m); auto P = params(6); va::segment_deblend_output o; deblend(g, perm(6), P, o); }
MC_SCENARIO_S(deblend_3x3, 6) { if (!mc::thorough()) { // peaks on a 3x3 grid
        Grid g{3, 3}; auto P = params(9); Img v(9); for (sz i = 0; i < 9; ++i) v[i] = (mc::flip() ? 10 : 1) + 0.3*double((i*5)%9); va::segment_deblend_output o; deblend(g, v, P, o); }
    else { Grid g{2, 4}; auto P = params(8); va::segment_deblend_output o; deblend(g, perm(8), P, o); } }
MC_SCENARIO_S(deblend_options, 5) { // other ids, centroid limits, missing pixels, reuse of the output
    Grid g{2, 3}; auto P = params(6); P.first_id = mc::flip() ? 1 : 7; P.centroid_flim = mc::pick(std::vector<double>{0, 0.5, 1}); va::segment_deblend_output o; unsigned k = mc::choose(4); Img v = {3, 11, 1, 7, 5, 9}; sz a = mc::choose(6), b = mc::choose(6); std::swap(v[a], v[b]); if (k) v[mc::choose(6)] = k == 1 ? NAN : k == 2 ? INFINITY : -INFINITY; if (mc::flip()) { deblend(g, {9, 1, 8, 2, 7, 3}, P, o); } deblend(g, v, P, o); }
MC_SCENARIO(deblend_degenerate) { unsigned k = mc::choose(3); Grid g = k == 0 ? Grid{0, 3} : k == 1 ? Grid{1, 1} : Grid{1, 2}; auto P = params(2); Img v(g.n*g.m, mc::pick(std::vector<double>{NAN, INFINITY, 3})); if (v.size() == 2) v[1] = 20; va::segment_deblend_output o; deblend(g, v, P, o); P.first_id = 0; vec2d im(g.n, g.m); MC_CHECK(!mc::attempt([&]() { va::segment_deblend(im, o, P); }), "first id 0 accepted"); }
#endif
