// C22: paths and file system.
#include "vifref.hpp"
#include "fsutil.hpp"
#include <vif/core/print.hpp>
#include <vif/io/filesystem.hpp>
#include <libgen.h>
using namespace vr;
using vif::_;
using namespace fsu;
namespace F = vif::file;
static S word(const S& al, unsigned n) { unsigned m = mc::choose(n + 1); S r; for (unsigned i = 0; i < m; ++i) r += al[mc::choose(al.size())]; return r; }
static S squeeze(const S& s) { S r; for (char c : s) if (c != '/' || r.empty() || r.back() != '/') r += c; return r; }
template<typename G, typename R> void vectorised(const S& s, G&& f, R&& e, const char* what) { vif::vec1s v = {s, s}; using T = decltype(e); auto g = read(f(v)); MC_CHECK(g.v.size() == 2 && g.v[0] == e && g.v[1] == e, what, " of a vector"); auto h = read(f(v[_])); MC_CHECK(h.v.size() == 2 && h.v[0] == e && h.v[1] == e, what, " of a view"); }
MC_SCENARIO_S(paths, 3) {
    S p = word("ab/.", mc::thorough() ? 8 : 7); mc::assume(!p.empty()); MC_LOG("path ", p);
    std::vector<char> b1(p.begin(), p.end()), b2; b1.push_back(0); b2 = b1; S bn = basename(b1.data()), dn = dirname(b2.data()); if (dn.back() != '/') dn += "/";
    S g = F::get_basename(p); MC_CHECK(g == bn, "get_basename gives ", g, " instead of ", bn); vectorised(p, [](auto&& v) { return F::get_basename(v); }, bn, "get_basename");
    g = F::get_directory(p); MC_CHECK(!g.empty() && g.back() == '/', "get_directory gives ", g); MC_CHECK(squeeze(g) == squeeze(dn), "get_directory gives ", g, " instead of ", dn); vectorised(p, [](auto&& v) { return F::get_directory(v); }, g, "get_directory");
    sz d = p.size(); for (sz i = 0; i < p.size(); ++i) if (p[i] == '.') d = i; S base, ext; for (sz i = 0; i < p.size(); ++i) (i < d ? base : ext) += p[i];
    MC_CHECK(F::remove_extension(p) == base, "remove_extension gives ", F::remove_extension(p)); MC_CHECK(F::get_extension(p) == ext, "get_extension gives ", F::get_extension(p)); auto sp = F::split_extension(p); MC_CHECK(sp.first == base && sp.second == ext, "split_extension gives ", sp.first, " ", sp.second); vectorised(p, [](auto&& v) { return F::remove_extension(v); }, base, "remove_extension"); vectorised(p, [](auto&& v) { return F::get_extension(v); }, ext, "get_extension"); vif::vec1s v2 = {p}; auto sv = F::split_extension(v2); MC_CHECK(sv.size() == 1 && sv[0].first == base && sv[0].second == ext, "split_extension of a vector");
    S dir = p.back() == '/' ? p : p + "/"; MC_CHECK(F::directorize(p) == dir, "directorize gives ", F::directorize(p)); vectorised(p, [](auto&& v) { return F::directorize(v); }, dir, "directorize"); MC_CHECK(F::is_absolute_path(p) == (p[0] == '/'), "is_absolute_path"); vectorised(p, [](auto&& v) { return F::is_absolute_path(v); }, p[0] == '/', "is_absolute_path");
    mc::op(10); mc::outcome(mc::hash_str(bn + "|" + dn));
}
// ---- histories of operations on a directory tree, against a model of the tree ----------------------
static S parent(const S& p) { auto q = p.rfind('/'); return q == S::npos ? "" : p.substr(0, q); }
static bool under(const S& p, const S& d) { return p.size() > d.size() && p.compare(0, d.size() + 1, d + "/") == 0; }
struct M { Tree t;
    bool is_dir(const S& p) const { if (p.empty()) return true; auto i = t.find(p); return i != t.end() && i->second.dir; } bool is_file(const S& p) const { auto i = t.find(p); return i != t.end() && !i->second.dir; } bool has(const S& p) const { return t.count(p); }
    bool empty_dir(const S& p) const { for (auto& x : t) if (under(x.first, p)) return false; return is_dir(p); }
    bool mkdir(const S& p) { S q; std::stringstream ss(p); S c; while (std::getline(ss, c, '/')) { if (c.empty() || c == ".") continue; q += (q.empty() ? "" : "/") + c; if (is_file(q)) return false; if (!has(q)) t[q] = {true, ""}; } return true; }
    bool copy(const S& a, const S& b) { if (!is_file(a) || is_dir(b) || !is_dir(parent(b))) return false; Node n = t[a]; t[b] = n; return true; }
    bool rename(const S& a, const S& b) { if (!has(a) || !is_dir(parent(b)) || (has(b) && is_dir(b) != is_dir(a))) return false; if (a == b) return true; if (is_dir(a)) { if (under(b, a) || (has(b) && !empty_dir(b))) return false; } else if (is_dir(b)) return false; if (under(a, b)) return false; Tree n; t.erase(b); for (auto& x : t) if (x.first == a) n[b] = x.second; else if (under(x.first, a)) n[b + x.first.substr(a.size())] = x.second; else n[x.first] = x.second; t = n; return true; }
};
static bool glob_(const char* p, const char* s) { if (!*p) return !*s; if (*p == '*') return glob_(p + 1, s) || (*s && glob_(p, s + 1)); return *s == *p && glob_(p + 1, s + 1); }
static std::vector<S> sorted(const vif::vec1s& v) { auto r = read(v).v; std::sort(r.begin(), r.end()); return r; }
static void observe(const M& m, const std::vector<S>& P) {
    for (auto& p : P) { MC_CHECK(F::exists(p) == m.has(p), "exists(", p, ") is ", !m.has(p)); if (!m.is_dir(p)) { S g = F::to_string(p), e = m.is_file(p) ? m.t.at(p).data : S(); MC_CHECK(g == e, "to_string(", p, ") gives ", g.substr(0, 100)); } mc::op(2); }
    vif::vec1s vp; for (auto& p : P) vp.push_back(p); auto ve = read(F::exists(vp)); for (sz i = 0; i < P.size(); ++i) MC_CHECK(bool(ve.v[i]) == m.has(P[i]), "exists of a vector"); MC_CHECK(!F::exists(""), "exists of an empty path");
    for (S d : {S("."), S("a"), S("b/"), S("a/f"), S("zz")}) for (S pat : {S("*"), S(""), S("f*"), S("*d*"), S("f")}) { S k = d == "." ? "" : d == "b/" ? "b" : d; std::vector<S> ef, ed; if (m.is_dir(k) && (k.empty() || m.has(k))) for (auto& x : m.t) if (parent(x.first) == k) { S n = k.empty() ? x.first : x.first.substr(k.size() + 1); if (n[0] != '.' && (pat.empty() || glob_(pat.c_str(), n.c_str()))) (x.second.dir ? ed : ef).push_back(n); }
        auto gf = sorted(F::list_files(d, pat)), gd = sorted(F::list_directories(d, pat)); mc::op(2); MC_CHECK(gf == ef, "list_files(", d, ",", pat, ") gives ", gf, " instead of ", ef); MC_CHECK(gd == ed, "list_directories(", d, ",", pat, ") gives ", gd, " instead of ", ed); if (pat == "*") { MC_CHECK(sorted(F::list_files(d)) == ef && sorted(F::list_directories(d)) == ed, "listing with the default pattern"); } }
}
static void history(const std::vector<S>& P, const std::vector<S>& D, unsigned depth) {
    Dir dir; M m; unsigned init = mc::choose(3); if (init >= 1) { put("f", "zero"); m.t["f"] = {false, "zero"}; } if (init == 2) { for (S d : {"a", "b"}) { ::mkdir(d.c_str(), 0755); m.t[d] = {true, ""}; } put("a/f", "one"); m.t["a/f"] = {false, "one"}; put("a/.h", "hid"); m.t["a/.h"] = {false, "hid"}; }
    unsigned n = mc::choose(depth + 1); MC_LOG("initial tree ", init);
    for (unsigned i = 0; i < n; ++i) { unsigned k = mc::choose(5); bool ok, e;
        if (k == 0) { S p = mc::pick(D); MC_LOG("mkdir ", p); ok = F::mkdir(p); e = m.mkdir(p); MC_CHECK(ok == e, "mkdir(", p, ") returns ", ok); }
        else if (k == 1) { S p = mc::pick(P), q = mc::pick(P); MC_LOG("copy ", p, " ", q); ok = F::copy(p, q); if (p == q && m.is_file(p)) { e = ok; } else { e = m.copy(p, q); } MC_CHECK(ok == e, "copy(", p, ",", q, ") returns ", ok); }
        else if (k == 2) { S p = mc::pick(P), q = mc::pick(P); MC_LOG("move ", p, " ", q); ok = F::move(p, q); e = m.rename(p, q); MC_CHECK(ok == e, "move(", p, ",", q, ") returns ", ok); }
        else if (k == 3) { S p = mc::pick(P); MC_LOG("remove ", p); ok = F::remove(p); if (!m.has(p)) MC_CHECK(ok, "remove of a missing file fails"); else if (m.is_file(p) || m.empty_dir(p)) { MC_CHECK(ok, "remove(", p, ") fails"); m.t.erase(p); } else if (ok) { for (auto it = m.t.begin(); it != m.t.end();) if (it->first == p || under(it->first, p)) it = m.t.erase(it); else ++it; } }
        else { S p = mc::pick(P); mc::assume(m.is_dir(parent(p)) && !m.is_dir(p)); MC_LOG("write ", p); S c = S("w") + char('0' + i); put(p, c); m.t[p] = {false, c}; }
        mc::op();
    }
    Tree t = tree(); if (!(t == m.t)) { S d; for (auto& x : m.t) if (!t.count(x.first)) d += " lacks " + x.first; else if (!(t[x.first] == x.second)) d += " differs in " + x.first; for (auto& x : t) if (!m.t.count(x.first)) d += " has " + x.first; MC_FAIL("the directory tree", mc::raw{d}); }
    observe(m, P); std::uint64_t h = 0; for (auto& x : t) h = mc::mix(h, mc::hash_str(x.first + x.second.data)); mc::outcome(h);
}
MC_SCENARIO_S(histories, 4) { history({"f", "a", "a/f", "b"}, {"a", "a/f", "b/d/", "a//e"}, mc::thorough() ? 3 : 2); }
MC_SCENARIO_S(deep, 4) { history({"a", "b", "b/d", "f"}, {"./b/d", "a"}, mc::thorough() ? 4 : 3); }
MC_SCENARIO(contents) { // sizes around the buffer sizes, binary data, overwriting longer files
    Dir d; sz n = mc::pick<sz>({0, 1, 100, 4095, 4096, 4097, 8191, 8192, 20000, 1000003}); unsigned k = mc::choose(3), o = mc::choose(3); S x; for (sz i = 0; i < n; ++i) x += k == 0 ? char(i*7 + i/256) : k == 1 ? '\n' : char(i % 3 ? 0 : 255); put("x", x); if (o == 1) put("y", S(5, 'q')); if (o == 2) put("y", S(30000, 'q')); MC_LOG("copy of ", n, " bytes");
    MC_CHECK(F::to_string("x") == x, "to_string differs from the content"); MC_CHECK(F::copy("x", "y"), "copy fails"); MC_CHECK(slurp("y") == x && slurp("x") == x, "the copy differs"); MC_CHECK(F::to_string("y") == x, "to_string of the copy"); F::copy("x", "x"); MC_CHECK(slurp("x") == x, "copying a file onto itself changed it"); F::copy("./x", root() + "/x"); MC_CHECK(slurp("x") == x, "copying a file onto itself changed it");
    if (n) MC_CHECK(!F::copy("x", "/dev/full"), "copy to a full device reports success");
}
MC_SCENARIO(permissions) {
    mc::assume(geteuid() != 0); Dir d; put("x", "data"); put("r", "sec"); ::mkdir("ro", 0755); put("ro/f", "f"); ::mkdir("no", 0755); put("no/f", "f"); chmod("r", 0); chmod("ro", 0555); chmod("no", 0); unsigned k = mc::choose(12); MC_LOG("permission case ", k); bool ok = false, e = false;
    switch (k) { case 0: ok = F::exists("r"); e = true; break; case 1: ok = F::copy("r", "y"); break; case 2: ok = F::copy("x", "r"); break; case 3: ok = F::copy("x", "ro/x"); break; case 4: ok = F::mkdir("ro/d"); break; case 5: ok = F::mkdir("ro"); e = true; break; case 6: ok = F::remove("ro/f"); break; case 7: ok = F::move("x", "ro/x"); break; case 8: ok = F::remove("r"); e = true; break; case 10: ok = F::remove("no/f"); break; case 11: ok = F::move("no/f", "z"); break; case 9: ok = F::list_files("no").empty() && F::list_directories("no").empty(); e = true; break; }
    MC_CHECK(ok == e, "case ", k, " returns ", ok); struct stat st; MC_CHECK((stat("r", &st) == 0) == (k != 8), "file r"); MC_CHECK(stat("ro/f", &st) == 0 && stat("ro/x", &st) != 0 && stat("ro/d", &st) != 0, "directory ro changed"); MC_CHECK(slurp("x") == "data", "file x changed"); if (k == 1) MC_CHECK(stat("y", &st) != 0, "a failed copy left a file");
}
MC_SCENARIO(ages) {
    Dir d; put("x", "1"); unsigned k = mc::choose(3); if (k == 0) ::mkdir("y", 0755); else put("y", "2"); static const std::vector<std::pair<long,long>> T = {{0, 0}, {1000, 0}, {1000, 5}, {1000, 999999999}, {1001, 0}, {2000000000, 0}}; auto a = mc::pick(T), b = mc::pick(T);
    auto set = [](const char* p, std::pair<long,long> t) { timespec ts[2] = {{5, 0}, {t.first, t.second}}; if (utimensat(AT_FDCWD, p, ts, 0)) mc::fail("harness: utimensat"); }; if (k == 2) { set("y", b); set("x", a); } else { set("x", a); set("y", b); } MC_LOG("ages ", a, " ", b);
    MC_CHECK(F::is_older("x", "y") == (a < b) && F::is_older("y", "x") == (b < a), "is_older gives ", F::is_older("x", "y"), " ", F::is_older("y", "x")); MC_CHECK(!F::is_older("x", "zz") && !F::is_older("zz", "x") && !F::is_older("x", "x"), "is_older of a missing file"); vif::vec1s v = {"x", "y", "zz"}; auto g = read(F::is_older(v, "y")); MC_CHECK(bool(g.v[0]) == (a < b) && !g.v[1] && !g.v[2], "is_older of a vector");
}
MC_SCENARIO_S(explorers, 3) { // histories of one explorer object
    Dir d; ::mkdir("a", 0755); ::mkdir("a/s", 0755); put("a/f1", "xyz"); put("a/.h", ""); put("a/g.t", "0123456789"); ::mkdir("e", 0755); put("file", "");
    struct E { S name; sz size; bool hid, dir; bool operator<(const E& o) const { return name < o.name; } bool operator==(const E& o) const { return name == o.name && size == o.size && hid == o.hid && dir == o.dir; } };
    std::vector<E> left; bool opened = false; S cur; F::explorer* e = nullptr; std::unique_ptr<F::explorer> own; bool viactor = mc::flip();
    auto load = [&](const S& dir, const S& pat) { left.clear(); cur = dir; if (dir == "a") left = {{".", 0, false, true}, {"..", 0, true, true}, {".h", 0, true, false}, {"f1", 3, false, false}, {"g.t", 10, false, false}, {"s", 0, false, true}}; else if (dir == "e") left = {{".", 0, false, true}, {"..", 0, true, true}}; if (!pat.empty()) left.erase(std::remove_if(left.begin(), left.end(), [&](const E& x) { return !glob_(pat.c_str(), x.name.c_str()); }), left.end()); };
    static const std::vector<std::pair<S,S>> O = {{"a", ""}, {"a", "*.t"}, {"e", "*"}, {"zz", ""}, {"file", ""}, {"a", "f*"}};
    if (viactor) { auto o = mc::pick(O); MC_LOG("explorer(", o.first, ",", o.second, ")"); own.reset(new F::explorer(o.first, o.second)); load(o.first, o.second); } else own.reset(new F::explorer); e = own.get();
    unsigned n = mc::choose(mc::thorough() ? 6 : 5); for (unsigned i = 0; i < n; ++i) { unsigned k = mc::choose(4); mc::op();
        if (k == 0) { auto o = mc::pick(O); MC_LOG("open ", o.first, " ", o.second); bool ok = e->open(o.first, o.second); load(o.first, o.second); MC_CHECK(ok == (o.first == "a" || o.first == "e"), "open returns ", ok); }
        else if (k == 1) { MC_LOG("close"); e->close(); left.clear(); }
        else { unsigned all = k == 3 ? 20 : 1; for (unsigned j = 0; j < all; ++j) { F::explorer::file_data f; f.name = "unset"; bool ok = e->find_next(f); MC_LOG("find_next: ", ok, " ", f.name); MC_CHECK(ok == !left.empty(), "find_next returns ", ok); if (!ok) { MC_CHECK(f.name == "unset", "find_next modified its argument"); break; } E x{f.name, f.is_dir ? 0 : f.size, f.is_hidden, f.is_dir}; auto it = std::find(left.begin(), left.end(), x); MC_CHECK(it != left.end(), "unexpected entry ", f.name, " size ", x.size, " hidden ", x.hid, " directory ", x.dir); MC_CHECK(squeeze(f.full_path) == cur + "/" + f.name, "full path ", f.full_path); left.erase(it); } } }
}
MC_SCENARIO_S(links, 3) { // symbolic links to a file, a directory, nothing and themselves
    Dir d; put("f", "target"); put("x", "other"); ::mkdir("d", 0755); put("d/g", "in d"); static const std::vector<S> T = {"f", "d", "missing", "l", "d/g", "f/x"}; S t = mc::pick(T); if (symlink(t.c_str(), "l")) mc::fail("harness: symlink"); bool file = t == "f" || t == "d/g", dir = t == "d", gone = !file && !dir; S content = t == "f" ? "target" : "in d";
    auto islink = [](const char* p) { struct stat st; return lstat(p, &st) == 0 && S_ISLNK(st.st_mode); }; auto there = [](const char* p) { struct stat st; return lstat(p, &st) == 0; };
    auto has = [](const vif::vec1s& v, const S& n) { sz c = 0; for (auto& s : v) c += s == n; return c == 1; }; unsigned k = mc::choose(9); MC_LOG("link to ", t, ", operation ", k); mc::op(); bool ok = true, kept = true; S fc = "target", gc = "in d", xc = "other";
    switch (k) {
    case 0: MC_CHECK(F::exists("l") == !gone, "exists gives ", gone); if (file) MC_CHECK(F::to_string("l") == content, "to_string of a link"); break;
    case 1: ok = F::remove("l"); kept = false; MC_CHECK(ok, "remove of a link fails"); MC_CHECK(!there("l"), "the link is still there after it was removed"); break;
    case 2: ok = F::copy("l", "y"); MC_CHECK(ok == file, "copy of a link returns ", ok); if (file) MC_CHECK(!islink("y") && slurp("y") == content, "copy of a link"); break;
    case 3: ok = F::copy("x", "l"); if (t == "l" || dir || t == "f/x") MC_CHECK(!ok, "copy to an impossible target succeeds"); else { MC_CHECK(ok && slurp("l") == "other", "copy through a link"); if (t == "f") fc = "other"; if (t == "d/g") gc = "other"; } break;
    case 4: ok = F::copy("f", "l"); if (t == "f") MC_CHECK(ok, "copy of a file onto itself through a link"); else if (file) { MC_CHECK(ok, "copy through a link"); gc = "target"; } break;
    case 5: ok = F::move("l", "y"); kept = false; MC_CHECK(ok && islink("y") && !there("l"), "moving a link"); break;
    case 6: ok = F::move("x", "l"); kept = false; MC_CHECK(ok && !islink("l") && slurp("l") == "other" && !there("x"), "replacing a link"); xc = ""; break;
    case 7: { auto lf = F::list_files("."), ld = F::list_directories("."); if (file) MC_CHECK(has(lf, "l") && !has(ld, "l"), "link to a file"); if (dir) MC_CHECK(!has(lf, "l") && has(ld, "l"), "link to a directory"); if (gone) MC_CHECK(!has(ld, "l"), "a link to nothing is no directory"); break; }
    case 8: ok = F::mkdir("l/s"); MC_CHECK(ok == dir, "mkdir under a link returns ", ok); if (dir) { struct stat st; MC_CHECK(stat("d/s", &st) == 0 && S_ISDIR(st.st_mode), "mkdir under a link"); } break;
    }
    if (kept) MC_CHECK(islink("l"), "the link was lost"); MC_CHECK(slurp("f") == fc && slurp("d/g") == gc && (xc.empty() || slurp("x") == xc), "the content of a file has changed: f=", slurp("f"), " d/g=", slurp("d/g")); mc::outcome(mc::mix(k, ok));
}
