// C18: splitting, joining, wrapping, regular expressions.
#include "vifref.hpp"
#include <vif/core/print.hpp>
#include <vif/utility/string.hpp>
using namespace vr;
using vif::_;
using S = std::string;
static S word(const S& al, unsigned n) { unsigned m = mc::choose(n + 1); S r; for (unsigned i = 0; i < m; ++i) r += al[mc::choose(al.size())]; return r; }
static bool at(const S& s, sz p, const S& w) { if (p + w.size() > s.size()) return false; for (sz i = 0; i < w.size(); ++i) if (s[p+i] != w[i]) return false; return true; }

MC_SCENARIO_S(splits, 3) {
    S s = word("a, ", mc::thorough() ? 8 : 6), p = mc::pick(std::vector<S>{",", " ", ", ", "a", ",,", "a,a"}); MC_LOG("split ", s, " by ", p);
    std::vector<S> e(1); for (sz i = 0; i < s.size();) if (at(s, i, p)) { e.emplace_back(); i += p.size(); } else e.back() += s[i++];
    auto g = vif::split(s, p); expect1(g, e, "split"); expect1(vif::split(s, S(p).c_str()), e, "split by a literal"); MC_CHECK(vif::collapse(g, p) == s, "collapse does not undo split: ", vif::collapse(g, p));
    std::vector<S> w; S c; for (sz i = 0; i <= s.size(); ++i) if (i == s.size() || p.find(s[i]) != S::npos) { if (c.size()) w.push_back(c); c.clear(); } else c += s[i];
    expect1(vif::split_any_of(s, p), w, "split_any_of"); expect1(vif::split_any_of(s, p.c_str()), w, "split_any_of");
    g = vif::split(s, p); g.push_back("z"); e.push_back("z"); expect1(g, e, "split then push_back"); auto h = vif::split_any_of(s, p); h.push_back("z"); w.push_back("z"); expect1(h, w, "split_any_of then push_back");
}
MC_SCENARIO_S(cuts, 2) {
    sz n = mc::choose(mc::thorough() ? 90 : 40), k = mc::choose(13); S s; for (sz i = 0; i < n; ++i) s += char('a' + i % 26); MC_LOG("cut ", s, " by ", k); std::vector<S> e; if (k) for (sz i = 0; i < n; i += k) { e.emplace_back(); for (sz j = i; j < n && j < i + k; ++j) e.back() += s[j]; }
    vif::vec1s g; bool ok = mc::attempt([&]() { g = vif::cut(s, k); }); MC_CHECK(ok == (k > 0), "cut: accepted ", ok); if (ok) { expect1(g, e, "cut"); MC_CHECK(vif::collapse(g) == s, "collapse does not undo cut"); }
}
MC_SCENARIO(joins) {
    unsigned n = mc::choose(4); std::vector<S> x; for (unsigned i = 0; i < n; ++i) x.push_back(mc::pick(std::vector<S>{"", "a", "bc"})); S sep = mc::pick(std::vector<S>{"", ",", ", "}), e, f; for (unsigned i = 0; i < n; ++i) { if (i) e += sep; e += x[i]; f += x[i]; }
    MC_LOG("collapse ", x, " with ", sep); const auto v = make1(x); auto w = v; vif::vec2s m = vif::reform(v, 1, n); MC_CHECK(vif::collapse(v, sep) == e && vif::collapse(w[_], sep) == e && vif::collapse(m, sep) == e, "collapse gives ", vif::collapse(v, sep)); MC_CHECK(vif::collapse(v) == f && vif::collapse(w[_]) == f && vif::collapse(m) == f, "collapse gives ", vif::collapse(v));
}
static std::vector<S> words(const S& s) { std::vector<S> w; S c; for (sz i = 0; i <= s.size(); ++i) if (i == s.size() || s[i] == ' ') { if (c.size()) w.push_back(c); c.clear(); } else c += s[i]; return w; }
static void wrapping(const std::vector<sz>& lens, const S& sep) {
    sz width = mc::pick<sz>({3, 4, 5, 7}); S ind = mc::pick(std::vector<S>{"", " ", "> "}); bool ell = mc::flip(); mc::assume(ind.size() + (ell ? 3 : 1) <= width || (!ell && ind.size() < width));
    unsigned n = mc::choose(mc::thorough() ? 6 : 5); std::vector<S> w; S s; char c = 'a'; for (unsigned i = 0; i < n; ++i) { S x(mc::pick(lens), c++); w.push_back(x); if (i) s += sep == "?" ? S(1 + mc::choose(3), ' ') : sep; s += x; }
    MC_LOG("wrap ", s, " width ", width, " indent ", ind, " ellipse ", ell); auto g = read(vif::wrap(s, width, ind, ell)).v; if (!ell) { auto g2 = read(vif::wrap(s, width, ind)).v; MC_CHECK(g2 == g, "wrap without the last argument"); if (ind.empty()) { auto g3 = read(vif::wrap(s, width)).v; MC_CHECK(g3 == g, "wrap with default arguments"); } }
    if (sep != "?") { // words separated by single spaces: lines are filled greedily
        std::vector<S> e; for (sz i = 0; i < n;) { S l = w[i++]; sz room = width - (e.size() ? ind.size() : 0); if (l.size() > room) { if (ell) l = l.substr(0, room - 3) + "..."; } else while (i < n && l.size() + 1 + w[i].size() <= room) l += " " + w[i++]; e.push_back((e.size() ? ind : S()) + l); }
        MC_CHECK(g == e, "wrap gives ", g, " instead of ", e);
    } else {
        std::vector<S> all; for (sz i = 0; i < g.size(); ++i) { S l = g[i]; if (i) { MC_CHECK(at(l, 0, ind), "line ", i, " lacks the indentation: ", l); l = l.substr(ind.size()); } auto lw = words(l); MC_CHECK(g[i].size() <= width || (!ell && lw.size() == 1 && lw[0].size() == l.size()), "line ", i, " is too long: ", g[i]); for (auto& x : lw) all.push_back(x); }
        if (!ell) MC_CHECK(all == w, "wrap lost or changed words: ", g); else { MC_CHECK(all.size() == n, "wrap lost words: ", g); for (sz i = 0; i < n; ++i) MC_CHECK(all[i] == w[i] || (w[i].size() > width - ind.size() && all[i].size() <= width && all[i].size() >= width - ind.size() && at(all[i], all[i].size() - 3, "...") && at(w[i], 0, all[i].substr(0, all[i].size() - 3))), "wrap changed word ", w[i], " into ", all[i]); }
    }
}
MC_SCENARIO_S(wrap_single, 4) { wrapping({1, 2, 3, 4, 6, 9}, " "); }
MC_SCENARIO_S(wrap_spaces, 4) { wrapping({1, 3, 5, 8}, "?"); }

// ---- regular expressions: patterns are built as small syntax trees, matched by brute force ------
struct Item { char kind; int group; std::vector<S> alts; char quant; }; // kind: 's' one of the strings, '.' any character
struct Pat { bool bol = false, eol = false; std::vector<Item> it; S text; int ng = 0; };
struct Res { sz end; std::vector<S> g; bool operator==(const Res& o) const { return end == o.end && g == o.g; } };
static void once(const Item& t, const S& s, sz p, const std::function<void(sz)>& f) { if (t.kind == '.') { if (p < s.size()) f(p + 1); } else for (auto& a : t.alts) if (at(s, p, a)) f(p + a.size()); }
static void parse(const Pat& q, sz i, const S& s, sz p, std::vector<S> g, std::vector<Res>& out) {
    if (i == q.it.size()) { if (!q.eol || p == s.size()) out.push_back({p, g}); return; }
    const Item& t = q.it[i]; auto take = [&](sz e) { auto h = g; if (t.group >= 0) h[t.group] = s.substr(p, e - p); parse(q, i + 1, s, e, h, out); };
    if (t.quant == 0) once(t, s, p, take);
    else if (t.quant == '?') { parse(q, i + 1, s, p, g, out); once(t, s, p, take); }
    else { std::set<sz> ends; std::function<void(sz, sz)> rep = [&](sz e, sz n) { if (n > 0 || t.quant == '*') ends.insert(e); once(t, s, e, [&](sz e2) { if (e2 > e) rep(e2, n + 1); else if (t.quant == '+') ends.insert(e2); }); }; rep(p, 0); for (sz e : ends) parse(q, i + 1, s, e, g, out); }
}
struct Match { sz b, e; std::vector<std::vector<S>> g; };
static bool next(const Pat& q, const S& s, sz from, Match& m) { // leftmost, then longest
    for (sz b = from; b <= s.size(); ++b) { if (q.bol && b != 0) return false; std::vector<Res> r; parse(q, 0, s, b, std::vector<S>(q.ng), r); if (r.empty()) continue; m.b = b; m.e = b; for (auto& x : r) m.e = std::max(m.e, x.end); m.g.clear(); for (auto& x : r) if (x.end == m.e) m.g.push_back(x.g); return true; }
    return false;
}
static Pat pattern(unsigned n) {
    static const std::vector<std::pair<S,std::vector<S>>> atoms = {{"a", {"a"}}, {"b", {"b"}}, {"[ab]", {"a", "b"}}, {".", {}}, {"\\(", {"("}}, {"[(]", {"("}}};
    static const std::vector<std::pair<S,std::vector<S>>> bodies = {{"a", {"a"}}, {"a|b", {"a", "b"}}, {"ab|a", {"ab", "a"}}, {".", {}}, {"b*", {"", "b", "bb", "bbb", "bbbb", "bbbbb", "bbbbbb"}}, {"\\(", {"("}}};
    Pat q; unsigned k = mc::choose(4); q.bol = k & 1; q.eol = k & 2; if (q.bol) q.text += "^"; unsigned m = 1 + mc::choose(n);
    for (unsigned i = 0; i < m; ++i) { Item t; bool gr = mc::flip(); auto& a = mc::pick(gr ? bodies : atoms); t.kind = a.second.empty() ? '.' : 's'; t.alts = a.second; t.group = gr ? q.ng++ : -1; t.quant = gr ? mc::pick({'\0', '?'}) : mc::pick({'\0', '+', '*'}); q.text += gr ? "(" + a.first + ")" : a.first; if (t.quant) q.text += t.quant; q.it.push_back(t); }
    if (q.eol) q.text += "$"; return q;
}
static void regexes(unsigned ni, unsigned ns) {
    Pat q = pattern(ni); S s = word("ab(", ns); MC_LOG("regex ", q.text, " on ", s);
    Match m; bool any = next(q, s, 0, m); MC_CHECK(vif::regex_match(s, q.text) == any, "regex_match gives ", !any);
    std::vector<Match> ms; bool empty = false; for (sz p = 0; next(q, s, p, m);) { if (m.e == m.b) { empty = true; break; } ms.push_back(m); p = m.e; }
    sz calls = 0; std::vector<std::vector<S>> args; S g; MC_CHECK(mc::attempt([&]() { g = vif::regex_replace(s, q.text, [&](vif::vec1s c) { if (++calls > 100) mc::fail("regex_replace does not terminate"); args.push_back(read(c).v); return "<" + std::to_string(calls) + ">"; }); }), "regex_replace rejected a valid expression");
    vif::vec2s x; MC_CHECK(mc::attempt([&]() { x = vif::regex_extract(s, q.text); }), "regex_extract rejected a valid expression"); auto gx = read(x);
    if (empty) return; // what follows an empty match is not specified
    S e; sz p = 0; for (sz i = 0; i < ms.size(); ++i) { e += s.substr(p, ms[i].b - p) + "<" + std::to_string(i + 1) + ">"; p = ms[i].e; } e += s.substr(p); MC_CHECK(g == e, "regex_replace gives ", g, " instead of ", e);
    for (sz i = 0; i < ms.size(); ++i) MC_CHECK(std::find(ms[i].g.begin(), ms[i].g.end(), args[i]) != ms[i].g.end(), "regex_replace: match ", i, " has groups ", args[i], ", not ", ms[i].g[0]);
    if (q.ng == 0) { MC_CHECK(gx.v.empty(), "regex_extract without groups"); return; }
    MC_CHECK(gx.d[0] == ms.size() && (ms.empty() || gx.d[1] == sz(q.ng)), "regex_extract has dimensions ", gx.d, " for ", ms.size(), " matches of ", q.ng, " groups");
    for (sz i = 0; i < ms.size(); ++i) { std::vector<S> row(gx.v.begin() + i*q.ng, gx.v.begin() + (i+1)*q.ng); MC_CHECK(std::find(ms[i].g.begin(), ms[i].g.end(), row) != ms[i].g.end(), "regex_extract: row ", i, " is ", row, " instead of ", ms[i].g[0]); }
}
MC_SCENARIO_S(regex_short, 4) { regexes(2, mc::thorough() ? 5 : 4); }
MC_SCENARIO_S(regex_long, 5) { if (mc::thorough()) regexes(3, 3); else regexes(1, 6); }
MC_SCENARIO(regex_vectors) {
    Pat q = pattern(1), r = pattern(1); S s = word("ab(", 2); MC_LOG("regexes ", q.text, " and ", r.text, " on ", s); Match m; bool a = next(q, s, 0, m), b = next(r, s, 0, m), c = next(q, "ab", 0, m), d = next(q, "((a", 0, m);
    vif::vec1s v = {s, "ab", "((a"}; std::vector<bool> e = {a, c, d}; Arr<bool> ea({3}); for (int i = 0; i < 3; ++i) ea.v[i] = e[i]; expect(vif::regex_match(v, q.text), ea, "regex_match of a vector"); expect(vif::regex_match(v[_], q.text), ea, "regex_match of a view");
    vif::vec1s t = {q.text, r.text}; Arr<bool> eb({2}); eb.v[0] = a; eb.v[1] = b; expect(vif::regex_match(s, t), eb, "regex_match of several expressions");
}
MC_SCENARIO(regex_invalid) {
    S p = mc::pick(std::vector<S>{"(", "a(b", "[a", "a{2,1}", "\\", "[[:foo:]]", "*(a"}); unsigned k = mc::choose(5); mc::assume(p != "*(a" || true); MC_LOG("invalid ", p, " in ", k); vif::vec1s v = {"a"}, ps = {"a", p};
    bool ok = mc::attempt([&]() { if (k == 0) vif::regex_match("a", p); if (k == 1) vif::regex_match(v, p); if (k == 2) vif::regex_extract("a", p); if (k == 3) vif::regex_replace("a", p, [](vif::vec1s) { return S(); }); if (k == 4) vif::regex_match(S("a"), ps); }); MC_CHECK(!ok, "an invalid expression was accepted");
}
