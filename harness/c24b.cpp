// C24, second part: histories of operations on HDUs, keywords and header strings.
#include "vifref.hpp"
#include "fitsref.hpp"
#undef exit
#undef _exit
#undef abort
#undef terminate
#undef quick_exit
#include <fitsio.h>
#include "trap.hpp"
#include <vif/core/print.hpp>
#include <vif/core/string_conversion.hpp>
#include <vif/utility/string.hpp>
#include <vif/io/filesystem.hpp>
#include <vif/io/fits.hpp>
using namespace vr; using namespace fsu; using fr::HDU; using vif::_;
namespace F = vif::fits;
struct MH { unsigned kind = 0; unsigned base = 0; std::map<S,S> keys; }; // kind 0: empty; 1: vec2d 2x3; 2: vec1 short 3
static vif::vec2d im2(unsigned b) { vif::vec2d v(2, 3); for (sz i = 0; i < 6; ++i) v[i] = b*10.0 + i + 0.5; return v; }
static vec<1,short> im1(unsigned b) { vec<1,short> v(3); for (sz i = 0; i < 3; ++i) v[i] = short(b*10 + i); return v; }
static void filecheck(const S& name, const std::vector<MH>& m) {
    auto f = fr::load(name); MC_CHECK(f.size() == m.size(), "file has ", f.size(), " HDUs instead of ", m.size());
    for (sz i = 0; i < m.size(); ++i) { auto& h = f[i]; if (i) MC_CHECK(h.str("XTENSION") == "IMAGE", "HDU ", i, " is not an image"); MC_CHECK(m[i].kind == 0 ? h.naxis() == 0 : m[i].kind == 1 ? (h.dims() == Dims{2, 3} && h.num("BITPIX") == -64) : (h.dims() == Dims{3} && h.num("BITPIX") == 16), "HDU ", i, " has dims ", h.dims(), " instead of those of kind ", m[i].kind);
        if (m[i].kind == 1) for (sz k = 0; k < 6; ++k) MC_CHECK(fr::FT<double>::get(h, k) == m[i].base*10.0 + k + 0.5, "HDU ", i, " pixel ", k, " is ", fr::FT<double>::get(h, k)); if (m[i].kind == 2) for (sz k = 0; k < 3; ++k) MC_CHECK(fr::FT<short>::get(h, k) == short(m[i].base*10 + k), "HDU ", i, " pixel ", k);
        for (S n : {"KA", "KB"}) { auto it = m[i].keys.find(n); sz c = 0; for (auto& x : h.cards) c += x.name == n; MC_CHECK(c == (it == m[i].keys.end() ? 0 : 1), "HDU ", i, " has ", c, " keywords ", n); if (c) MC_CHECK(h.str(n) == it->second, "HDU ", i, " keyword ", n, " is ", h.str(n), " instead of ", it->second); } }
}
template<typename I> void apicheck(I& im, const std::vector<MH>& m, sz cur) {
    mc::op(); MC_CHECK(im.is_open(), "file is not open"); if (m.empty()) return; MC_CHECK(im.hdu_count() == m.size(), "hdu_count is ", im.hdu_count(), " instead of ", m.size()); MC_CHECK(im.current_hdu() == cur, "current HDU is ", im.current_hdu(), " instead of ", cur); auto& h = m[cur]; MC_CHECK(im.hdu_type() == (h.kind ? F::image_hdu : F::empty_hdu), "hdu_type"); sz ax = h.kind == 0 ? 0 : h.kind == 1 ? 2 : 1; MC_CHECK(im.axis_count() == ax, "axis_count"); expect1(im.image_dims(), h.kind == 0 ? std::vector<uint_t>{} : h.kind == 1 ? std::vector<uint_t>{2, 3} : std::vector<uint_t>{3}, "image_dims");
    if constexpr (std::is_base_of<F::input_image, I>::value) { vif::vec2d a; vec<1,short> b; bool ra = mc::attempt([&] { im.read(a); }), rb = mc::attempt([&] { im.read(b); }); MC_CHECK(ra == (h.kind == 1) && rb == (h.kind == 2), "reading an image of kind ", h.kind, ra || rb ? " is accepted with another type" : " is rejected"); if (ra) { auto e = im2(h.base); expect(a, vr::read(e), "image"); } if (rb) { auto e = im1(h.base); expect(b, vr::read(e), "image"); } }
    for (S n : {"KA", "KB"}) { auto it = h.keys.find(n); bool has = it != h.keys.end(); MC_CHECK(im.has_keyword(n) == has, "has_keyword ", n); S v = "unset"; bool r = im.read_keyword(n, v); MC_CHECK(r == has && v == (has ? it->second : S("unset")), "keyword ", n, " is ", v); }
}
static void hduname(F::image* im, F::output_image* om) {}
MC_SCENARIO_S(hdus, 5) {
    Dir dir; const char* N = "h.fits"; std::vector<MH> m; sz cur = 0; bool file = false; unsigned steps = mc::thorough() ? 6 : 5, cnt = 0; std::unique_ptr<F::image> im; std::unique_ptr<F::input_image> in; std::unique_ptr<F::output_image> om; bool start = mc::flip(); unsigned wr = 0; bool moved = false;
    auto firstimg = [&]() { sz k = 0; while (k < m.size() && m[k].kind == 0) ++k; return k; };
    if (start) { F::output_image o(N); o.write(im2(9)); m = {MH{1, 9, {}}}; file = true; if (mc::flip()) { o.reach_hdu(2); o.write(im1(8)); m.push_back(MH{}); m.push_back(MH{2, 8, {}}); } o.close(); filecheck(N, m); }
    auto out = [&](auto f) { if (im) f(*im); else f(*om); };
    for (unsigned s = 0; s < steps; ++s) {
        bool open = im || om || in; unsigned k = open ? mc::choose(11) : 11 + mc::choose(3); ++cnt;
        switch (k) {
        case 0: { auto close = [&] { if (im) { im->close(); MC_CHECK(!im->is_open(), "still open"); im.reset(); } om.reset(); in.reset(); }; mc::assume(!m.empty()); close(); file = true; MC_LOG("close"); filecheck(N, m); break; }
        case 1: { sz h = mc::choose(m.size() > 2 ? m.size() + 1 : 3); MC_LOG("reach_hdu ", h); bool ro = bool(in); bool ok = mc::attempt([&] { if (im) im->reach_hdu(h); else if (om) om->reach_hdu(h); else in->reach_hdu(h); }); MC_CHECK(ok == (!ro || h < m.size()), "reach_hdu ", ok ? "accepted" : "rejected"); if (ok) { while (m.size() <= h) m.push_back(MH{}); cur = h; } break; }
        case 2: case 3: { mc::assume(!in); MC_LOG("write kind ", k - 1); bool e = m.empty() || m[cur].kind == 0; bool ok = mc::attempt([&] { if (k == 2) { if (im) im->write(im2(cnt)); else om->write(im2(cnt)); } else { if (im) im->write(im1(cnt)); else om->write(im1(cnt)); } }); MC_CHECK(ok == e, ok ? "writing over existing data is accepted" : "write rejected"); if (ok) { if (m.empty()) { m.emplace_back(); cur = 0; } m[cur].kind = k - 1; m[cur].base = cnt; } break; }
        case 4: case 5: { mc::assume(im && !m.empty()); MC_LOG("update kind ", k - 3); bool ok = mc::attempt([&] { if (k == 4) im->update(im2(cnt)); else im->update(im1(cnt)); }); MC_CHECK(ok == (m[cur].kind == k - 3), ok ? "update with other dimensions is accepted" : "update rejected"); if (ok) m[cur].base = cnt; break; }
        case 6: { mc::assume(!in && !m.empty()); S n = mc::flip() ? "KA" : "KB"; MC_LOG("write_keyword ", n); out([&](auto& o) { o.write_keyword(n, S("v") + std::to_string(cnt)); }); m[cur].keys[n] = "v" + std::to_string(cnt); break; }
        case 7: { mc::assume(!in && !m.empty() && !m[cur].keys.empty()); MC_LOG("remove_keyword KA"); out([&](auto& o) { o.remove_keyword("KA"); }); m[cur].keys.erase("KA"); break; }
        case 8: { mc::assume(!in && !m.empty()); MC_LOG("remove_hdu"); bool ok = mc::attempt([&] { out([&](auto& o) { o.remove_hdu(); }); }); MC_CHECK(ok == (cur > 0), ok ? "removing the primary HDU is accepted" : "remove_hdu rejected"); if (ok) { m.erase(m.begin() + cur); if (cur >= m.size()) cur = m.size() - 1; } break; }
        case 9: { mc::assume(!in); MC_LOG("write_empty"); bool e = m.empty() || m[cur].kind == 0; bool ok = mc::attempt([&] { if (im) im->write_empty(); else om->write_empty(); }); MC_CHECK(ok == e, ok ? "write_empty over existing data is accepted" : "write_empty rejected"); if (ok && m.empty()) { m.emplace_back(); cur = 0; } break; }
        case 10: { mc::assume(!moved); moved = true; MC_LOG("move"); if (im) { std::unique_ptr<F::image> n(new F::image(std::move(*im))); MC_CHECK(!im->is_open(), "moved object still open"); im = std::move(n); } else if (in) { std::unique_ptr<F::input_image> n(new F::input_image(std::move(*in))); in = std::move(n); } else { std::unique_ptr<F::output_image> n(new F::output_image(std::move(*om))); om = std::move(n); } if ((im || om) && !m.empty() && mc::flip()) { MC_LOG("flush"); out([&](auto& o) { o.flush(); }); } break; }
        case 11: { mc::assume(!file || firstimg() < m.size()); MC_LOG("open read/write"); bool e = !file || firstimg() < m.size(); bool ok = mc::attempt([&] { im.reset(new F::image(N)); }); MC_CHECK(ok == e, ok ? "a file without image is opened" : "opening rejected"); if (ok) { if (!file) m.clear(); cur = file ? firstimg() : 0; } else { mc::assume(false); } break; }
        case 12: { mc::assume(!file || firstimg() < m.size()); MC_LOG("open read only"); bool e = file && firstimg() < m.size(); bool ok = mc::attempt([&] { in.reset(new F::input_image(N)); }); MC_CHECK(ok == e, ok ? "a file without image is opened" : "opening rejected"); if (ok) cur = firstimg(); break; }
        case 13: { mc::assume(wr++ == 0); MC_LOG("open write only"); om.reset(new F::output_image(N)); m.clear(); cur = 0; file = false; break; }
        }
        if (im) apicheck(*im, m, cur); if (om) apicheck(*om, m, cur); if (in) apicheck(*in, m, cur);
    }
    if (!m.empty()) { im.reset(); in.reset(); om.reset(); if (tree().size()) filecheck(N, m); }
}
// ---- keywords --------------------------------------------------------------------------------------
struct KV { S name; unsigned v; };
static const unsigned NV = 14;
static S vtext(unsigned v) { switch (v) { case 0: return "0"; case 1: return "-5"; case 2: return "9223372036854775807"; case 3: return "0.1"; case 4: return "-1.7e+308"; case 5: return "it's 'q'"; case 6: return ""; case 7: return "a/b = c"; case 8: return S(40, 'z'); case 9: return "1"; case 10: return "  in  side"; case 11: return "T"; case 12: return "0.25"; case 13: return "32767"; } return "?"; }
template<typename O> void put_key(O& o, bool add, const S& n, unsigned v) { auto w = [&](auto x) { if (add) o.add_keyword(n, x, S("comment")); else o.write_keyword(n, x); }; switch (v) { case 0: w(uint_t(0)); break; case 1: w(int_t(-5)); break; case 2: w(std::numeric_limits<int_t>::max()); break; case 3: w(0.1); break; case 4: w(-1.7e308); break; case 9: w(true); break; case 12: w(0.25f); break; case 13: w(short(32767)); break; default: w(vtext(v)); } }
static bool isnum(unsigned v) { return v == 3 || v == 4 || v == 12; } static bool isint(unsigned v) { return v <= 2 || v == 9 || v == 13; }
static S norm(S s) { return fr::trim(s); }
template<typename FB> void keycheck(const FB& f, const std::vector<KV>& m, const std::vector<S>& names) {
    for (auto& n : names) { const KV* k = nullptr; for (auto& x : m) if (x.name == n) { k = &x; break; } mc::op(); MC_CHECK(f.has_keyword(n) == (k != nullptr), "has_keyword ", n, " is wrong"); S s = "unset"; bool r = f.read_keyword(n, s); MC_CHECK(r == (k != nullptr), "read_keyword ", n); double d = 7.75; bool rd = f.read_keyword(n, d); int_t i = 77; bool ri = f.read_keyword(n, i);
        if (!k) { MC_CHECK(s == "unset" && !rd && d == 7.75 && !ri && i == 77, "a missing keyword changed the value"); continue; } S e = vtext(k->v);
        if (isint(k->v)) { MC_CHECK(ri && std::to_string(i) == e && rd && d == atof(e.c_str()) && s == e, "keyword ", n, " read as ", i, " ", d, " ", s, " instead of ", e); }
        else if (isnum(k->v)) { double x = atof(e.c_str()); MC_CHECK(rd && mc::near(d, x, 1e-14) && !ri && i == 77, "keyword ", n, " read as ", d, " instead of ", e); }
        else { MC_CHECK(s == norm(e), "keyword ", n, " read as ", s, " instead of ", e); if (k->v != 11) MC_CHECK(!rd && d == 7.75 && !ri && i == 77, "string keyword ", n, " read as a number"); if (k->v == 11) MC_CHECK(ri && i == 1, "boolean keyword"); } }
    // the header string holds the same
    auto h = f.read_header(); MC_CHECK(h.size() % 80 == 0, "header size ", h.size()); for (auto& n : names) { if (n.size() > 8) continue; const KV* k = nullptr; for (auto& x : m) if (x.name == n) { k = &x; break; } S s = "unset"; bool r = F::getkey(h, n, s); MC_CHECK(r == (k != nullptr), "getkey ", n, " in the header"); if (k && !isnum(k->v) && k->v != 9) MC_CHECK(s == norm(vtext(k->v)), "getkey ", n, " is ", s, " instead of ", vtext(k->v)); }
}
MC_SCENARIO_S(keywords, 4) {
    Dir dir; const char* N = "k.fits"; std::vector<S> names = {"A", "BB", "a long name"}; std::vector<KV> m; std::unique_ptr<F::image> im(new F::image(N)); im->write(im1(3)); unsigned steps = 3; bool hdu1 = mc::flip(); if (hdu1) { im->reach_hdu(1); im->write(im2(4)); }
    for (unsigned s = 0; s < steps; ++s) { unsigned k = mc::choose(5); S n = names[mc::choose(s == 0 || mc::thorough() ? 3 : 2)]; MC_LOG("keyword operation ", k, " ", n);
        if (k == 4) { im.reset(); im.reset(new F::image(N)); if (hdu1) im->reach_hdu(1); }
        if (k == 3) { S q = n; if (mc::flip()) for (char& c : q) c = char(tolower(c)); im->remove_keyword(q); for (sz i = 0; i < m.size(); ++i) if (m[i].name == n) { m.erase(m.begin() + i); break; } }
        if (k <= 2) { unsigned v = s == 0 || mc::thorough() ? mc::choose(NV) : mc::pick<unsigned>({3, 5}); MC_LOG("  value ", vtext(v)); bool add = k == 1; S q = n; if (k == 2 && n.size() <= 8) for (char& c : q) c = char(tolower(c)); put_key(*im, add, q, v); KV* x = nullptr; if (!add) for (auto& y : m) if (y.name == n) { x = &y; break; } if (x) x->v = v; else m.push_back({n, v}); }
        keycheck(*im, m, names); }
    if (hdu1) { auto e = im2(4); vif::vec2d v; im->read(v); expect(v, vr::read(e), "image"); } else { auto e = im1(3); vec<1,short> v; im->read(v); expect(v, vr::read(e), "image"); }
    im.reset(); auto f = fr::load(N); MC_CHECK(f.size() == (hdu1 ? 2 : 1), "number of HDUs"); auto& h = f.back(); for (auto& n : names) { std::vector<S> a, b; for (auto& x : m) if (x.name == n && !isnum(x.v)) a.push_back(x.v == 9 ? "1" : fr::rtrim(vtext(x.v))); S un = n; for (char& c : un) c = char(toupper(c)); for (auto& c : h.cards) if ((c.name == n || c.name == un) && !(c.value.size() && strspn(c.value.c_str(), "0123456789.+-eE") == c.value.size() && c.value.find('.') != S::npos)) b.push_back(c.value); MC_CHECK(a == b, "keywords ", n, " in the file are ", b, " instead of ", a); }
    if (hdu1) for (auto& c : f[0].cards) for (auto& n : names) MC_CHECK(c.name != n, "keyword written in another HDU");
}
// ---- header strings --------------------------------------------------------------------------------
static const std::vector<S>& hvals() { static const std::vector<S> v = {"5", "-1.5", "'str'", "'a / b'", "'it''s'", "'END'", "T", "", "'x = y'", "1234567890123456789012345678901234567890123456789012345678901234567890" }; return v; }
struct HE { S key, val, com; };
static S unq(const S& v) { if (v.size() >= 2 && v[0] == '\'') { S r; for (sz i = 1; i + 1 < v.size(); ++i) { r += v[i]; if (v[i] == '\'') ++i; } return fr::trim(r); } return v; }
MC_SCENARIO_S(header_string, 4) {
    unsigned st = mc::choose(4); F::header h; std::vector<HE> m; auto pad = [](S s) { return s + S(80 - s.size(), ' '); }; bool end = st != 0; std::vector<S> other;
    if (st == 2) { h += pad("COMMENT KEYA = 3"); h += pad("HISTORY something / END"); other = {h.substr(0, 80), h.substr(80, 80)}; } if (st == 3) { h += pad("KEYA    = 'old value' / the comment"); m.push_back({"KEYA", "'old value'", "the comment"}); h += pad("ENDING  = 3"); m.push_back({"ENDING", "3", ""}); } if (end) h += pad("END");
    unsigned steps = 3; for (unsigned s = 0; s < steps; ++s) { bool full = s < 2 || mc::thorough(); S key = full ? mc::pick<S>({"KEYA", "K", "EIGHTCHR", "TOOLONGKEY"}) : mc::pick<S>({"KEYA", "K"}); S val = s == 0 || mc::thorough() ? mc::pick(hvals()) : mc::pick<S>({"-1.5", "'a / b'", "'it''s'", hvals().back()}); unsigned ci = full ? mc::choose(3) : 0; S com = ci == 0 ? "" : ci == 1 ? "a comment" : "what's / this"; MC_LOG("setkey ", key, " ", val, " / ", com); F::header before = h; HE* x = nullptr; for (auto& y : m) if (y.key == key) { x = &y; break; }
        S body = key + S(key.size() < 8 ? 8 - key.size() : 0, ' ') + "= " + val + (com.empty() ? S() : " / " + com); bool fits = key.size() <= 8 && body.size() <= 80; bool r = F::setkey(h, key, val, com); mc::op(); MC_CHECK(r == fits, "setkey returned ", r);
        if (!r) { MC_CHECK(h == before, "failed setkey changed the header"); continue; } bool trunc = false; if (x) { x->val = val; if (!com.empty()) x->com = com; } else m.push_back({key, val, com}); x = nullptr;
        MC_CHECK(h.size() % 80 == 0, "header size is ", h.size()); std::vector<S> cards; for (sz i = 0; i < h.size(); i += 80) cards.push_back(h.substr(i, 80)); if (end) { MC_CHECK(!cards.empty() && fr::rtrim(cards.back()) == "END", "END is not the last entry"); cards.pop_back(); } MC_CHECK(cards.size() == m.size() + other.size(), "header has ", cards.size(), " entries instead of ", m.size() + other.size());
        for (sz i = 0; i < other.size(); ++i) MC_CHECK(cards[i] == other[i], "other entry changed"); for (sz i = 0; i < m.size(); ++i) { auto c = fr::card(cards[other.size() + i]); MC_CHECK(c.name == m[i].key, "entry ", i, " is ", c.name, " instead of ", m[i].key); MC_CHECK(fr::trim(c.value) == unq(m[i].val), "entry ", m[i].key, " is ", c.value, " instead of ", m[i].val); S ec = m[i].com.substr(0, c.comment.size()); sz room = 80 - 10 - m[i].val.size(); MC_CHECK(c.comment == m[i].com || (room < m[i].com.size() + 4 && c.comment == fr::trim(ec)), "comment of ", m[i].key, " is ", c.comment, " instead of ", m[i].com); m[i].com = c.comment; }
        for (auto& y : m) { S v; MC_CHECK(F::getkey(h, y.key, v) && v == unq(y.val), "getkey ", y.key, " is ", v, " instead of ", y.val); double d = 1; bool rd = F::getkey(h, y.key, d); char* e; double x = strtod(y.val.c_str(), &e); bool nume = !y.val.empty() && !*e; MC_CHECK(rd == nume && (!rd || d == x), "getkey ", y.key, " as a number is ", d); } S v = "unset"; MC_CHECK(!F::getkey(h, "NOKEY", v) && v == "unset", "missing key found");
        auto p = F::parse_header(h); sz np = 0; for (auto& k : p) if (!k.novalue) ++np; sz nv = m.size(); if (st == 2) { np = 0; for (auto& k : p) if (!k.novalue && k.key.compare(0, 7, "COMMENT") != 0) ++np; } MC_CHECK(np == nv, "parse_header finds ", np, " entries instead of ", nv); for (auto& y : m) { bool f = false; for (auto& k : p) if (k.key == y.key) { f = true; S pv = k.value; MC_CHECK(unq(pv) == unq(y.val), "parse_header: ", y.key, " is ", k.value, " instead of ", y.val); } MC_CHECK(f, "parse_header: no ", y.key); }
        bool blank = false; for (auto& y : m) blank = blank || y.val.empty(); if (!blank && st != 2) { auto h2 = F::serialize_header(p); MC_CHECK(h2.size() == h.size(), "serialize_header gives ", h2.size(), " characters instead of ", h.size()); for (auto& y : m) { S v; MC_CHECK(F::getkey(h2, y.key, v) && v == unq(y.val), "serialize_header: ", y.key, " is ", v, " instead of ", y.val); } }
        mc::outcome(mc::hash_str(h)); }
}
// ---- errors ----------------------------------------------------------------------------------------
MC_SCENARIO(files) {
    Dir dir; ::mkdir("d", 0755); put("d/x", "x"); ::mkdir("ro", 0555); put("garbage", "this is not a FITS file"); put("empty", ""); F::write("good.fits", im1(1)); put("noread.fits", slurp("good.fits")); chmod("noread.fits", 0); put("nowrite.fits", slurp("good.fits")); chmod("nowrite.fits", 0444); S g = slurp("good.fits"); put("cut.fits", g.substr(0, 3000)); put("cut2.fits", g.substr(0, 800)); if (geteuid() == 0) return;
    S n = mc::pick<S>({"missing", "d", "garbage", "empty", "noread.fits", "cut.fits", "cut2.fits", "no/such.fits"}); unsigned k = mc::choose(6); MC_LOG(n, " ", k); auto before = tree(); vec<1,short> v; bool ok = true;
    switch (k) { case 0: ok = mc::attempt([&] { F::read(n, v); }); break; case 1: ok = mc::attempt([&] { F::input_image im(n); im.read(v); }); break;
    case 2: { F::input_image im; ok = mc::attempt([&] { im.open(n); im.read(v); }); bool ok2 = mc::attempt([&] { im.open("good.fits"); im.read(v); }); MC_CHECK(ok2 && v.size() == 3 && v[2] == 12, "object unusable after a failed open"); break; }
    case 3: { F::input_image im("good.fits"); ok = mc::attempt([&] { im.open(n); im.read(v); }); bool ok2 = mc::attempt([&] { im.open("good.fits"); im.read(v); }); MC_CHECK(ok2 && v.size() == 3 && v[2] == 12, "object unusable after a failed open"); break; }
    case 4: { F::input_image im; ok = mc::attempt([&] { im.read(v); }); ok = ok || mc::attempt([&] { im.reach_hdu(0); }) || mc::attempt([&] { im.image_dims(); }) || mc::attempt([&] { S s; im.read_keyword("A", s); }) || mc::attempt([&] { im.read_header(); }); F::output_image om; ok = ok || mc::attempt([&] { om.write(im1(1)); }) || mc::attempt([&] { om.write_keyword("A", 1.0); }) || mc::attempt([&] { om.remove_hdu(); }); F::image io; ok = ok || mc::attempt([&] { io.update(im1(2)); }); break; }
    case 5: { S w = mc::pick<S>({"ro/x.fits", "no/such.fits", "d"}); ok = mc::attempt([&] { F::write(w, im1(1)); }); break; } }
    MC_CHECK(!ok, "the error is not reported"); MC_CHECK(tree() == before, "files changed");
    bool u = mc::attempt([&] { F::update_hdu("nowrite.fits", im1(5), 0); }); MC_CHECK(!u && slurp("nowrite.fits") == g, "read-only file updated");
}
