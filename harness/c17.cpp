// C17: string searching, replacing, trimming, padding.
#include "vifref.hpp"
#include <vif/core/print.hpp>
#include <vif/utility/string.hpp>
using namespace vr;
using vif::_;
using S = std::string;
static S word(const S& al, unsigned n) { unsigned m = mc::choose(n + 1); S r; for (unsigned i = 0; i < m; ++i) r += al[mc::choose(al.size())]; return r; }
static bool at(const S& s, sz p, const S& w) { if (p + w.size() > s.size()) return false; for (sz i = 0; i < w.size(); ++i) if (s[p+i] != w[i]) return false; return true; }
static sz ref_find(const S& s, const S& p) { for (sz i = 0; i <= s.size(); ++i) if (at(s, i, p)) return i; return sz(-1); }
static S ref_replace(const S& s, const S& p, const S& r) { S o; for (sz i = 0; i < s.size();) if (at(s, i, p)) { o += r; i += p.size(); } else o += s[i++]; return o; }
static S cat(const S& s, sz a, sz b) { S r; for (sz i = a; i < b && i < s.size(); ++i) r += s[i]; return r; }

template<typename T> using Init = std::vector<T>;
// applies a vectorised function to a vector, a view and a temporary holding s and other strings
template<typename F, typename R> void vectorised(const S& s, F&& f, R&& ref, const char* what) {
    std::vector<S> in = {s, "ab", s}; using T = decltype(ref(s)); std::vector<T> out; for (auto& x : in) out.push_back(ref(x));
    const auto v = make1(in); expect1(f(v), out, what); expect1(v, in, "argument");
    auto w = make1(in); expect1(f(w), out, what); expect1(w, in, "argument"); expect1(f(w[_]), out, what); expect1(f(make1(in)), out, what);
}

MC_SCENARIO_S(find_replace, 3) {
    S s = word("ab", mc::thorough() ? 8 : 6), p = word("ab", 3), r = mc::pick(std::vector<S>{"", "a", "b", "ab", "aab", "X"}); MC_LOG("s=", s, " p=", p, " r=", r);
    sz f = ref_find(s, p); MC_CHECK(vif::find(s, p) == f, "find gives ", vif::find(s, p), " instead of ", f);
    bool b = at(s, 0, p), e = p.size() <= s.size() && at(s, s.size() - p.size(), p); MC_CHECK(vif::begins_with(s, p) == b, "begins_with gives ", !b); MC_CHECK(vif::ends_with(s, p) == e, "ends_with gives ", !e);
    if (p.size()) { S q = ref_replace(s, p, r), g = vif::replace(s, p, r); MC_CHECK(g == q, "replace gives ", g, " instead of ", q); vectorised(s, [&](auto&& v) { return vif::replace(std::forward<decltype(v)>(v), p, r); }, [&](const S& x) { return ref_replace(x, p, r); }, "replace"); }
    vectorised(s, [&](auto&& v) { return vif::find(v, p); }, [&](const S& x) { return ref_find(x, p); }, "find");
    vectorised(s, [&](auto&& v) { return vif::begins_with(v, p); }, [&](const S& x) { return at(x, 0, p); }, "begins_with");
    vectorised(s, [&](auto&& v) { return vif::ends_with(v, p); }, [&](const S& x) { return p.size() <= x.size() && at(x, x.size() - p.size(), p); }, "ends_with");
    S g; bool ok = mc::attempt([&]() { g = vif::erase_begin(s, p); }); MC_CHECK(ok == b, "erase_begin of a pattern: accepted ", ok); if (ok) MC_CHECK(g == cat(s, p.size(), s.size()), "erase_begin gives ", g);
    ok = mc::attempt([&]() { g = vif::erase_end(s, p); }); MC_CHECK(ok == e, "erase_end of a pattern: accepted ", ok); if (ok) MC_CHECK(g == cat(s, 0, s.size() - p.size()), "erase_end gives ", g);
    mc::outcome(mc::hash_str(g));
}
MC_SCENARIO_S(counts, 3) {
    S s = word("ab ", 4); sz n = mc::pick<sz>({0, 1, 2, 3, 4, 5, 7, sz(-1)}); char fill = mc::pick({' ', '0'}); MC_LOG("s=", s, " n=", n); sz m = s.size(), k = std::min(n, m);
    MC_CHECK(vif::length(s) == m && vif::empty(s) == (m == 0), "length or empty");
    auto one = [&](const char* what, auto&& f, auto&& ref) { S g = f(s), e = ref(s); MC_CHECK(g == e, what, " gives ", g, " instead of ", e); vectorised(s, f, ref, what); };
    one("erase_begin", [&](auto&& x) { return vif::erase_begin(x, uint_t(n)); }, [&](const S& x) { return cat(x, std::min(n, x.size()), x.size()); });
    one("erase_end", [&](auto&& x) { return vif::erase_end(x, uint_t(n)); }, [&](const S& x) { return cat(x, 0, x.size() - std::min(n, x.size())); });
    one("keep_first", [&](auto&& x) { return vif::keep_first(x, uint_t(n)); }, [&](const S& x) { return cat(x, 0, std::min(n, x.size())); });
    one("keep_last", [&](auto&& x) { return vif::keep_last(x, uint_t(n)); }, [&](const S& x) { return cat(x, x.size() - std::min(n, x.size()), x.size()); });
    one("keep_first of one", [&](auto&& x) { return vif::keep_first(x); }, [&](const S& x) { return cat(x, 0, 1); });
    one("keep_last of one", [&](auto&& x) { return vif::keep_last(x); }, [&](const S& x) { return cat(x, x.empty() ? 0 : x.size() - 1, x.size()); });
    vectorised(s, [&](auto&& v) { return vif::length(v); }, [&](const S& x) { return x.size(); }, "length"); vectorised(s, [&](auto&& v) { return vif::empty(v); }, [&](const S& x) { return x.size() == 0; }, "empty");
    if (n < 100) {
        auto pad = [&](const S& x, int how) { sz t = x.size() < n ? n - x.size() : 0, l = how == 0 ? 0 : how == 1 ? t : t/2; return S(l, fill) + x + S(t - l, fill); };
        one("align_left", [&](auto&& x) { return vif::align_left(x, n, fill); }, [&](const S& x) { return pad(x, 0); });
        one("align_right", [&](auto&& x) { return vif::align_right(x, n, fill); }, [&](const S& x) { return pad(x, 1); });
        one("align_center", [&](auto&& x) { return vif::align_center(x, n, fill); }, [&](const S& x) { return pad(x, 2); });
        if (fill == ' ') MC_CHECK(vif::align_left(s, n) == pad(s, 0) && vif::align_right(s, n) == pad(s, 1) && vif::align_center(s, n) == pad(s, 2), "default padding");
    }
    (void)k;
}
MC_SCENARIO_S(trims, 3) {
    S s = word("a \t", mc::thorough() ? 7 : 6); S chars = mc::pick(std::vector<S>{" ", "\t", " \t", "a", "", "a "}); MC_LOG("trim ", s, " of ", chars);
    auto ref = [](const S& x, const S& c) { sz a = 0, b = x.size(); while (a < b && c.find(x[a]) != S::npos) ++a; while (b > a && c.find(x[b-1]) != S::npos) --b; return cat(x, a, b); };
    S g = vif::trim(s, chars), e = ref(s, chars); MC_CHECK(g == e, "trim gives ", g, " instead of ", e); g = vif::trim(s); e = ref(s, " \t"); MC_CHECK(g == e, "trim gives ", g, " instead of ", e);
    vectorised(s, [&](auto&& v) { return vif::trim(v, chars); }, [&](const S& x) { return ref(x, chars); }, "trim"); vectorised(s, [&](auto&& v) { return vif::trim(v); }, [&](const S& x) { return ref(x, " \t"); }, "trim");
}
MC_SCENARIO_S(words, 3) {
    S s = word("ab ,", mc::thorough() ? 6 : 5); S chars = mc::pick(std::vector<S>{" ", ",", " ,"}); int n = int(mc::choose(9)) - 4; MC_LOG("word ", n, " of ", s, " separated by ", chars);
    std::vector<S> w; S c; for (sz i = 0; i <= s.size(); ++i) if (i == s.size() || chars.find(s[i]) != S::npos) { if (c.size()) w.push_back(c); c.clear(); } else c += s[i];
    int k = n < 0 ? n + int(w.size()) : n; bool good = k >= 0 && k < int(w.size()); S g; bool ok = mc::attempt([&]() { g = vif::get_word(s, n, chars); });
    MC_CHECK(ok == good, "get_word accepted: ", ok); if (ok) MC_CHECK(g == w[k], "get_word gives ", g, " instead of ", w[k]);
}
MC_SCENARIO_S(dist, 3) {
    S s = word("ab", 4), t = word("ab", 4); sz d = 0; for (sz i = 0; i < std::max(s.size(), t.size()); ++i) if (i >= s.size() || i >= t.size() || s[i] != t[i]) ++d;
    MC_LOG("distance ", s, " ", t); MC_CHECK(vif::distance(s, t) == d, "distance gives ", vif::distance(s, t)); vectorised(s, [&](auto&& v) { return vif::distance(v, t); }, [&](const S& x) { sz q = 0; for (sz i = 0; i < std::max(x.size(), t.size()); ++i) q += i >= x.size() || i >= t.size() || x[i] != t[i]; return q; }, "distance");
}
MC_SCENARIO(cases) {
    unsigned c = mc::choose(256); S s = mc::pick(std::vector<S>{"", "x", "Q"}); s += char(c); s += "aZ"; S u, l; for (unsigned char x : s) { u += x >= 'a' && x <= 'z' ? char(x - 32) : char(x); l += x >= 'A' && x <= 'Z' ? char(x + 32) : char(x); }
    MC_LOG("case of ", s); MC_CHECK(vif::to_upper(s) == u && vif::to_lower(s) == l, "to_upper gives ", vif::to_upper(s), ", to_lower ", vif::to_lower(s));
    vectorised(s, [&](auto&& v) { return vif::to_upper(v); }, [&](const S& x) { return x == "ab" ? S("AB") : u; }, "to_upper"); vectorised(s, [&](auto&& v) { return vif::to_lower(v); }, [&](const S& x) { return x == "ab" ? S("ab") : l; }, "to_lower");
}
static S blocks_(const S& s, const S& b, const S& sep, const S& e, std::vector<std::vector<S>>& seen, bool& good) {
    S o; good = true; for (sz i = 0; i < s.size();) if (at(s, i, b)) {
        i += b.size(); std::vector<S> c(1); for (;;) { if (i >= s.size()) { good = false; return ""; } if (sep.size() && at(s, i, sep)) { c.emplace_back(); i += sep.size(); } else if (at(s, i, e)) { i += e.size(); break; } else c.back() += s[i++]; }
        seen.push_back(c); o += "R" + std::to_string(seen.size()); for (auto& x : c) o += "." + x;
    } else o += s[i++];
    return o;
}
MC_SCENARIO_S(block, 3) {
    S s = word("a<>/", mc::thorough() ? 8 : 6); static const std::vector<std::pair<S,S>> be = {{"<", ">"}, {"<", "<"}, {"<a", "/>"}, {"<<", ">"}, {"/", "//"}}; auto p = mc::pick(be); MC_LOG("blocks ", p.first, " ", p.second, " in ", s);
    std::vector<std::vector<S>> ref, got; bool good, ok; S e = blocks_(s, p.first, "", p.second, ref, good), g;
    ok = mc::attempt([&]() { g = vif::replace_block(s, p.first, p.second, [&](S c) { got.push_back({c}); return "R" + std::to_string(got.size()) + "." + c; }); }); MC_CHECK(ok == good, "accepted: ", ok); if (ok) { MC_CHECK(g == e, "replace_block gives ", g, " instead of ", e); MC_CHECK(got == ref, "contents"); }
}
MC_SCENARIO_S(blocks, 3) {
    S s = word("a{}|", mc::thorough() ? 8 : 7); static const std::vector<std::array<S,3>> be = {{"{", "|", "}"}, {"a{", "}{", "}"}, {"{", "||", "}"}, {"|", "{", "|"}, {"{", "}}", "}"}}; auto p = mc::pick(be); MC_LOG("blocks ", p, " in ", s);
    std::vector<std::vector<S>> ref, got; bool good, ok; S e = blocks_(s, p[0], p[1], p[2], ref, good), g;
    ok = mc::attempt([&]() { g = vif::replace_blocks(s, p[0], p[1], p[2], [&](vif::vec1s c) { got.push_back(read(c).v); S r = "R" + std::to_string(got.size()); for (auto& x : got.back()) r += "." + x; return r; }); });
    MC_CHECK(ok == good, "accepted: ", ok); if (ok) { MC_CHECK(g == e, "replace_blocks gives ", g, " instead of ", e); MC_CHECK(got == ref, "components"); }
}
