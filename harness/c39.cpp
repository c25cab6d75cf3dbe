// C39: writes that fail are reported, truncated files are not taken for whole ones.  The file size limit of the process is set to every enumerated
// number of bytes, so that the write fails exactly there (as on a full disk or over a quota).
#include "vifref.hpp"
#include "fitsref.hpp"
#undef exit
#undef _exit
#undef abort
#undef terminate
#undef quick_exit
#include <fitsio.h>
#include <sys/resource.h>
// The calls to CFITSIO that return a status go through here, and the g_fault-th one fails.  (The file size limit is of no use for FITS files: CFITSIO itself
// ignores failures of fflush and fseek.)
static long g_calls = 0, g_fault = -1; static const char* g_failed = "";
template<typename F, typename... A> int faulty(const char* n, bool perform, F f, A... a) {
    int* st = std::get<sizeof...(A) - 1>(std::tuple<A...>(a...)); bool fail = g_calls++ == g_fault; if (!fail) return f(a...); g_failed = n; if (perform) f(a...); if (*st == 0) *st = 106; return *st;
}
#undef fits_read_col
#define fits_read_col(...) faulty("fits_read_col", false, ffgcv, __VA_ARGS__)
#undef fits_write_col
#define fits_write_col(...) faulty("fits_write_col", false, ffpcl, __VA_ARGS__)
#undef fits_get_num_rows
#define fits_get_num_rows(...) faulty("fits_get_num_rows", false, ffgnrw, __VA_ARGS__)
#undef fits_insert_img
#define fits_insert_img(...) faulty("fits_insert_img", false, ffiimg, __VA_ARGS__)
#undef fits_insert_btbl
#define fits_insert_btbl(...) faulty("fits_insert_btbl", false, ffibin, __VA_ARGS__)
#undef fits_get_img_dim
#define fits_get_img_dim(...) faulty("fits_get_img_dim", false, ffgidm, __VA_ARGS__)
#undef fits_write_key
#define fits_write_key(...) faulty("fits_write_key", false, ffpky, __VA_ARGS__)
#undef fits_update_key
#define fits_update_key(...) faulty("fits_update_key", false, ffuky, __VA_ARGS__)
#undef fits_set_hdustruc
#define fits_set_hdustruc(...) faulty("fits_set_hdustruc", false, ffrdef, __VA_ARGS__)
#undef fits_resize_img
#define fits_resize_img(...) faulty("fits_resize_img", false, ffrsim, __VA_ARGS__)
#undef fits_read_tdim
#define fits_read_tdim(...) faulty("fits_read_tdim", false, ffgtdm, __VA_ARGS__)
#undef fits_read_img
#define fits_read_img(...) faulty("fits_read_img", false, ffgpv, __VA_ARGS__)
#undef fits_movabs_hdu
#define fits_movabs_hdu(...) faulty("fits_movabs_hdu", false, ffmahd, __VA_ARGS__)
#undef fits_get_img_param
#define fits_get_img_param(...) faulty("fits_get_img_param", false, ffgipr, __VA_ARGS__)
#undef fits_get_coltype
#define fits_get_coltype(...) faulty("fits_get_coltype", false, ffgtcl, __VA_ARGS__)
#undef fits_write_tdim
#define fits_write_tdim(...) faulty("fits_write_tdim", false, ffptdm, __VA_ARGS__)
#undef fits_write_record
#define fits_write_record(...) faulty("fits_write_record", false, ffprec, __VA_ARGS__)
#undef fits_write_img
#define fits_write_img(...) faulty("fits_write_img", false, ffppr, __VA_ARGS__)
#undef fits_read_subset
#define fits_read_subset(...) faulty("fits_read_subset", false, ffgsv, __VA_ARGS__)
#undef fits_open_table
#define fits_open_table(...) faulty("fits_open_table", false, fftopn, __VA_ARGS__)
#undef fits_open_image
#define fits_open_image(...) faulty("fits_open_image", false, ffiopn, __VA_ARGS__)
#undef fits_open_file
#define fits_open_file(...) faulty("fits_open_file", false, ffopen, __VA_ARGS__)
#undef fits_insert_rows
#define fits_insert_rows(...) faulty("fits_insert_rows", false, ffirow, __VA_ARGS__)
#undef fits_insert_col
#define fits_insert_col(...) faulty("fits_insert_col", false, fficol, __VA_ARGS__)
#undef fits_hdr2str
#define fits_hdr2str(...) faulty("fits_hdr2str", false, ffhdr2str, __VA_ARGS__)
#undef fits_get_img_size
#define fits_get_img_size(...) faulty("fits_get_img_size", false, ffgisz, __VA_ARGS__)
#undef fits_get_bcolparms
#define fits_get_bcolparms(...) faulty("fits_get_bcolparms", false, ffgbcl, __VA_ARGS__)
#undef fits_flush_file
#define fits_flush_file(...) faulty("fits_flush_file", true, ffflus, __VA_ARGS__)
#undef fits_flush_buffer
#define fits_flush_buffer(...) faulty("fits_flush_buffer", true, ffflsh, __VA_ARGS__)
#undef fits_delete_rows
#define fits_delete_rows(...) faulty("fits_delete_rows", false, ffdrow, __VA_ARGS__)
#undef fits_delete_col
#define fits_delete_col(...) faulty("fits_delete_col", false, ffdcol, __VA_ARGS__)
#undef fits_delete_hdu
#define fits_delete_hdu(...) faulty("fits_delete_hdu", false, ffdhdu, __VA_ARGS__)
#undef fits_create_file
#define fits_create_file(...) faulty("fits_create_file", false, ffinit, __VA_ARGS__)
#undef fits_close_file
#define fits_close_file(...) faulty("fits_close_file", true, ffclos, __VA_ARGS__)
#include "trap.hpp"
#include <vif/core/print.hpp>
#include <vif/core/string_conversion.hpp>
#include <vif/utility/string.hpp>
#include <vif/io/filesystem.hpp>
#include <vif/io/ascii.hpp>
#include <vif/io/fits.hpp>
using namespace vr; using namespace fsu; using vif::_; using vif::vec1i; using vif::vec1d; using vif::vec2d; using vif::vec1s; using vif::vec1u; using vif::vec2f;
namespace F = vif::fits; namespace A = vif::ascii; using namespace vif;

struct Limit { rlimit o; Limit(sz n) { signal(SIGXFSZ, SIG_IGN); getrlimit(RLIMIT_FSIZE, &o); rlimit r = o; r.rlim_cur = n; setrlimit(RLIMIT_FSIZE, &r); } ~Limit() { setrlimit(RLIMIT_FSIZE, &o); } };
sz open_files() { sz n = 0; for (int f = 0; f < 256; ++f) if (fcntl(f, F_GETFD) != -1) ++n; return n; }
struct cat_t { vec1d x; vec1i n; vec1s name; MEMBERS1(x, n, name); MEMBERS2("cat_t", MAKE_MEMBER(x), MAKE_MEMBER(n), MAKE_MEMBER(name)); };

sz g_rows = 3; unsigned g_op = 0;
vec1i I() { vec1i r; for (sz i = 0; i < g_rows; ++i) r.push_back(int(i*i) - 5); return r; } vec1d D() { vec1d r; for (sz i = 0; i < g_rows; ++i) r.push_back(0.125*i - 1); return r; } vec1s T() { vec1s r; for (sz i = 0; i < g_rows; ++i) r.push_back(S(1 + i % 7, char('a' + i % 26))); return r; }
vec2d IM() { vec2d r(g_rows, 7); for (sz i = 0; i < r.size(); ++i) r[i] = 0.5*i - 3; return r; }
const unsigned nascii = 5, nwrite = 17, nops = 21;
const char* N = "out";
void prepare() { // the files which the operation starts from
    S old(100, 'x'); switch (g_op) { case 3: put("src", [] { S s; for (sz i = 0; i < g_rows*40; ++i) s += char('A' + i % 50); return s; }()); break; case 4: put("src", S(g_rows*1500, 'q')); put(N, old); break; case 0: put(N, old); break;
    case 7: { F::output_image f(N); f.write(vec2f(2, 2)); f.reach_hdu(1); f.write(vec2d(g_rows, 7)); break; } case 17: F::write(N, IM()); break; case 18: { F::output_image f(N); f.write(vec2f(2, 2)); f.reach_hdu(1); f.write(IM()); break; } case 11: case 12: case 20: { vec1d x = D(); F::write_table(N, "x", x); break; } case 14: case 16: case 19: { vec1i n = I(); vec1s t = T(); F::write_table(N, "n", n, "t", t); break; } }
}
bool operate() { // false when the operation reports a failure by its result
    vec1i n = I(); vec1d x = D(); vec1s t = T(); vec2d im = IM(); A::output_format o; bool ok = true;
    switch (g_op) {
    case 0: A::write_table(N, n, x); break;
    case 1: o.auto_width = false; o.min_width = 9; A::write_table(N, o, ftable(n, t)); break;
    case 2: o = A::output_format::csv(); A::write_table(N, o, ftable(t, x, n)); break;
    case 3: case 4: ok = vif::file::copy("src", N); break;
    case 5: F::write(N, im); break;
    case 6: { F::header h; F::setkey(h, "KEY", 3); F::write(N, im, h); break; }
    case 7: F::update_hdu(N, im, 1); break;
    case 8: F::write_table(N, "n", n, "x", x); break;
    case 9: F::write_table(N, ftable(t, x)); break;
    case 10: { cat_t c; c.x = x; c.n = n; c.name = t; F::write_table(N, c); break; }
    case 11: F::update_table(N, "n", n, "t", t); break;
    case 12: F::update_table(N, ftable(x, n)); break;
    case 13: { F::output_image f(N); f.write(im); f.write_keyword("A", 1.5); f.reach_hdu(1); f.write(n); f.flush(); f.close(); ok = f.cfitsio_status() == 0; break; }
    case 14: { F::table f(N); f.update_column("n", n); f.write_column("x", x); f.flush(); f.flush_buffer(); f.close(); ok = f.cfitsio_status() == 0; break; }
    case 15: { F::output_table f(N); f.set_format(F::table_format::row_oriented); f.allocate_column<double>("x", g_rows); f.allocate_column<vif::int_t>("m", g_rows, 2); f.write_keyword("K", S("v")); f.add_keyword("L", 2.5); f.close(); ok = f.cfitsio_status() == 0; break; }
    case 16: { F::table f(N); f.update_elements("n", vif::int_t(4), F::at(0)); f.remove_column("t"); f.reach_hdu(2); f.remove_hdu(); f.close(); ok = f.cfitsio_status() == 0; break; }
    // reading
    case 17: { vec2d v; F::header h; F::read(N, v, h); MC_CHECK(v.dims == im.dims && h.size() > 80, "read"); break; }
    case 18: { vec2d v; F::read_hdu(N, v, 1); MC_CHECK(v.dims == im.dims, "read"); MC_CHECK(F::read_header_hdu(N, 1).size() > 80, "header"); MC_CHECK(F::file_axes(N) == 2 && F::file_dimensions(N).size() == 2, "dims"); break; }
    case 19: { vec1i m; vec1s u; F::read_table(N, "n", m, "t", u); MC_CHECK(m.size() == g_rows && u.size() == g_rows, "read"); auto c = F::read_table_columns(N); MC_CHECK(c.size() == 2, "columns"); vif::int_t e; F::input_table it(N); it.read_elements("n", e, F::at(0)); break; }
    case 20: { vec1d y; vec1i m; vec2d z; F::read_table(N, ftable(x)); F::input_image ii(N); MC_CHECK(ii.hdu_count() == 2, "count"); break; }
    }
    return ok;
}
// one operation with its file limited to every size
void limited() {
    Dir dir; MC_LOG("operation ", g_op, " with ", g_rows, " rows"); prepare(); sz fd = open_files(); MC_CHECK(mc::attempt([&] { if (!operate()) mc::reject(); }), "operation fails without a limit"); MC_CHECK(open_files() == fd, "files left open"); S whole = slurp(N); sz s = whole.size(); unlink(N);
    // every limit for small files; for large ones every multiple of a step and its neighbours
    std::vector<sz> l; sz step = s <= 400 ? 1 : s <= 20000 ? 240 : (s/60/480 + 1)*480; if (mc::thorough()) step = s <= 4000 ? 1 : std::max<sz>(step/8, 1); for (sz i = 0; i <= s; i += step) { l.push_back(i); if (step > 8 && i && i % 2880 == 0) { l.push_back(i - 1); l.push_back(i + 1); } } for (sz i : {s, s + 1, s + 5000, s ? s - 1 : 0}) l.push_back(i);
    sz lim = l[mc::choose(l.size())]; MC_LOG("file limited to ", lim, " bytes out of ", s); prepare(); fd = open_files(); bool ok; { Limit q(lim); ok = mc::attempt([&] { if (!operate()) mc::reject(); }); }
    S now = access(N, F_OK) == 0 ? slurp(N) : S(); if (ok) MC_CHECK(now == whole, "success is reported although the file was not written entirely: ", now.size(), " bytes instead of ", s); if (lim > s + 3000) MC_CHECK(ok, "failure although the file fits");  MC_CHECK(open_files() == fd, "files left open"); mc::outcome(mc::mix(g_op, ok));
    // afterwards, with space again, the same operation works
    unlink(N); prepare(); MC_CHECK(mc::attempt([&] { if (!operate()) mc::reject(); }), "operation fails after an earlier failure"); MC_CHECK(slurp(N) == whole, "other file after an earlier failure"); unlink(N);
}
MC_SCENARIO_S(text, 2) { g_op = mc::choose(nascii); g_rows = mc::pick<sz>(mc::thorough() ? std::vector<sz>{0, 1, 4, 300, 3000} : std::vector<sz>{0, 1, 4, 300}); limited(); }

// every CFITSIO call of an operation fails in turn
MC_SCENARIO_S(status, 2) {
    Dir dir; g_op = nascii + mc::choose(nops - nascii); g_rows = mc::pick<sz>({1, 5}); MC_LOG("operation ", g_op, " with ", g_rows, " rows"); g_fault = -1; prepare(); g_calls = 0; MC_CHECK(mc::attempt([&] { if (!operate()) mc::reject(); }), "operation fails"); long n = g_calls; S whole = slurp(N); unlink(N); MC_CHECK(n > 1, "no call");
    prepare(); long k = mc::choose(n); sz fd = open_files(); g_calls = 0; g_fault = k; bool ok; ok = mc::attempt([&] { if (!operate()) mc::reject(); }); g_fault = -1; MC_LOG("call ", k, " fails: ", g_failed); MC_CHECK(!ok || (g_op >= nwrite && S(g_failed) == "fits_close_file"), "the failure of ", g_failed, " (call ", k, ") is not reported"); MC_CHECK(open_files() == fd, "files left open"); mc::outcome(mc::mix(g_op, k));
    unlink(N); prepare(); g_calls = 0; MC_CHECK(mc::attempt([&] { if (!operate()) mc::reject(); }), "operation fails after an earlier failure"); MC_CHECK(slurp(N) == whole && g_calls == n, "other file after an earlier failure"); unlink(N);
}
MC_SCENARIO_S(large, 2) { g_op = mc::pick<unsigned>({0, 2, 4}); g_rows = mc::pick<sz>(mc::thorough() ? std::vector<sz>{9000, 30000} : std::vector<sz>{1200}); limited(); }

// a file cut at every length: reading it fails or gives the data
MC_SCENARIO_S(truncated, 3) {
    Dir dir; unsigned k = mc::choose(5); g_rows = mc::pick<sz>({1, 5, 500}); vec1i n = I(); vec1d x = D(); vec1s t = T(); vec2d im = IM(); MC_LOG("kind ", k, " rows ", g_rows); { if (k == 0) F::write(N, im); if (k == 1) { F::output_image f(N); f.write(im); } if (k == 2) F::write_table(N, "x", x, "n", n, "t", t); if (k == 3) { F::output_table f(N); f.set_format(F::table_format::row_oriented); f.write_columns("x", x, "n", n, "t", t); } if (k == 4) { F::output_image f(N); f.write(vec2f(2, 2)); f.reach_hdu(1); f.write(im); } }
    S whole = slurp(N); sz s = whole.size(); std::vector<sz> l; sz step = mc::thorough() ? 36 : 360; for (sz i = 0; i <= s; i += step) { l.push_back(i); if (i && i % 2880 == 0) { l.push_back(i - 1); l.push_back(i + 1); } } sz c = l[mc::choose(l.size())]; MC_LOG("cut to ", c, " bytes out of ", s); put(N, whole.substr(0, c)); sz fd = open_files();
    vec2d r; vec1d y; vec1i m; vec1s u; bool ok = mc::attempt([&] { if (k == 0 || k == 1) F::read(N, r); if (k == 2 || k == 3) F::read_table(N, "x", y, "n", m, "t", u); if (k == 4) F::read_hdu(N, r, 1); });
    if (ok) { auto eq = [&](const auto& a, const auto& b) { MC_CHECK(a.dims == b.dims, "truncated file read as data of other dimensions"); for (sz i = 0; i < a.size(); ++i) MC_CHECK(a[i] == b[i], "element ", i, " of a truncated file read as ", a[i], " instead of ", b[i]); }; if (k == 2 || k == 3) { eq(y, x); eq(m, n); eq(u, t); } else eq(r, im); }
    if (c == s) MC_CHECK(ok, "whole file not read"); MC_CHECK(open_files() == fd, "files left open"); mc::outcome(mc::mix(k, ok));
}
