// C33: sky coordinates and unit conversions (vif/astro/astro.hpp).
#include "vifall.hpp"
using namespace vr;
namespace va = vif::astro;
using L = long long; using vif::vec1d; using vd = std::vector<double>; using vec1s = vif::vec<1,std::string>;
const long double R = std::acos(-1.0L)/180;
struct V3 { long double x, y, z; };
V3 unit(double a, double d) { return V3{cosl(d*R)*cosl(a*R), cosl(d*R)*sinl(a*R), sinl(d*R)}; }
long double chord(V3 a, V3 b) { return sqrtl((a.x-b.x)*(a.x-b.x) + (a.y-b.y)*(a.y-b.y) + (a.z-b.z)*(a.z-b.z)); }
long double sepl(V3 a, V3 b) { return 2*asinl(std::min(1.0L, chord(a, b)/2))/R*3600; } // arcsec
bool nr(double a, double b, double t) { return std::fabs(a - b) <= t; }

MC_SCENARIO_S(distance, 3) {
    static const vd ras = {0, 1e-5, 0.5, 90, 179.5, 180, 270, 359.999, 360, -15, 400}, des = {-90, -89.999, -45, 0, 1e-6, 30, 60.5, 89.9, 90}; double r1 = mc::pick(ras), d1 = mc::pick(des), r2 = mc::pick(ras), d2 = mc::pick(des); long double e = sepl(unit(r1, d1), unit(r2, d2)); double tol = 1e-6 + 1e-9*e + (e > 170*3600 ? 0.1 : 0); MC_LOG("distance between ", r1, ",", d1, " and ", r2, ",", d2, ": ", double(e)); mc::op(); mc::outcome(L(e*10));
    double a = va::angdist(r1, d1, r2, d2); MC_CHECK(nr(a, e, tol), "angdist is ", a); MC_CHECK(nr(va::angdistr(r1*R, d1*R, r2*R, d2*R)/R*3600, e, tol), "angdistr"); vec1d va1 = {r1, r2}, vd1 = {d1, d1}, va2 = {r2, r2}, vd2 = {d2, d1}; vec1d x = va::angdist(va1, vd1, va2, vd2); MC_CHECK(x.size() == 2 && nr(x[0], e, tol) && nr(x[1], 0, 1e-6), "angdist of vectors"); vec1d y = va::angdist(va2, vd2, r1, d1); MC_CHECK(y.size() == 2 && nr(y[0], e, tol), "angdist of a vector and a position");
    double rad = mc::pick(vd{0.01, 1, 3600, 60*3600.0, 120*3600.0, 179*3600.0}); if (std::fabs(rad - e) > 1e-3 + 1e-6*e) { auto l = va::angdist_less(va1, vd1, r2, d2, rad); MC_CHECK(l.size() == 2 && l[0] == (e < rad), "angdist_less for a radius of ", rad); }
    vec1d bad(3); MC_CHECK(!mc::attempt([&]() { va::angdist(bad, vd1, va2, vd2); }) && !mc::attempt([&]() { va::angdist(va1, vd1, va2, bad); }) && !mc::attempt([&]() { va::angdist(bad, bad, va2, vd2); }) && !mc::attempt([&]() { va::angdist(va1, bad, 0.0, 0.0); }) && !mc::attempt([&]() { va::angdist_less(va1, bad, 0.0, 0.0, 1.0); }), "coordinates of different sizes accepted");
}
MC_SCENARIO_S(normalize, 2) {
    double ra = mc::pick(vd{0, -1e-3, -10, -359, -360, -721.5, 10, 180, 359.5, 360, 361, 725, 1080.25}), dec = mc::pick(vd{0, 45, 90, 90.5, 135, 180, 200, 270, 300, 360, 450.25, -45, -90, -91, -179, -180, -200, -270, -300, -361, -450.25}); MC_LOG("normalise ", ra, ",", dec); V3 u = unit(ra, dec); double a = ra, d = dec; va::normalize_coordinates(a, d); mc::op(); MC_CHECK(a >= 0 && a <= 360 && d >= -90 && d <= 90, "normalised to ", a, ",", d); MC_CHECK(chord(u, unit(a, d)) < 1e-9, "normalised to ", a, ",", d, ", which is another position"); mc::outcome(L(a*100)); mc::outcome(L(d*100));
    if (ra >= 0 && ra < 360 && std::fabs(dec) <= 90) MC_CHECK(a == ra && d == dec, "normal coordinates changed"); vec1d va_ = {ra, 10}, vd_ = {dec, 20}; va::normalize_coordinates(va_, vd_); MC_CHECK(va_[0] == a && vd_[0] == d && va_[1] == 10 && vd_[1] == 20, "normalisation of vectors"); vec1d bad(3); MC_CHECK(!mc::attempt([&]() { va::normalize_coordinates(bad, vd_); }), "coordinates of different sizes accepted");
}
MC_SCENARIO_S(move, 2) { // small displacements
    double ra = mc::pick(vd{0, 10, 200, 359.9999}), dec = mc::pick(vd{-60, -1, 0, 0.5, 45, 80}), dx = mc::pick(vd{-30, 0, 1, 0.25, 60}), dy = mc::pick(vd{-20, 0, 0.5, 45}); MC_LOG("move ", ra, ",", dec, " by ", dx, ",", dy); double a = ra, d = dec; va::move_ra_dec(a, d, dx, dy); mc::op(); mc::outcome(L(dx*100 + dy)); MC_CHECK(nr((a - ra)*cos(dec*(double)R)*3600, dx, 1e-3 + 1e-3*std::fabs(dx)) && nr((d - dec)*3600, dy, 1e-6), "moved to ", a, ",", d); MC_CHECK(nr(sepl(unit(ra, dec), unit(a, d)), std::hypot(dx, dy), 1e-3 + 5e-3*std::hypot(dx, dy)), "moved by ", double(sepl(unit(ra, dec), unit(a, d))));
    vec1d va_ = {ra, 10.0}, vd_ = {dec, 60.0}; va::move_ra_dec(va_, vd_, dx, dy); MC_CHECK(nr(va_[0], a, 1e-12) && nr(vd_[0], d, 1e-12) && nr(vd_[1], 60 + dy/3600, 1e-12) && nr(va_[1], 10 + 2*dx/3600, 1e-9), "displacement of vectors"); vec1d bad(3); MC_CHECK(!mc::attempt([&]() { va::move_ra_dec(bad, vd_, 1.0, 1.0); }), "coordinates of different sizes accepted");
}
MC_SCENARIO_S(vernal, 2) { // rotation around the vernal axis
    double ra = mc::pick(vd{0, 10, 90, 135, 180, 180.5, 225, 270, 300, 359, -30}), dec = mc::pick(vd{-90, -85.66, -85.35, -80, -45, -10, -8, 0, 5, 60, 89, 90}), e = mc::pick(vd{-170, -90, -30, 0, 12.5, 90, 179, 1000, 1001}); if (e >= 1000) e = (e == 1000 ? 90 : -90) - dec; vec1d r = {ra, 20.0}, d = {dec, -5.0}, r2, d2; MC_LOG("rotate ", ra, ",", dec, " by ", e); va::angrot_vernal(r, d, e, r2, d2); mc::op(); MC_CHECK(r2.size() == 2 && d2.size() == 2, "sizes");
    for (int i = 0; i < 2; ++i) { V3 u = unit(r[i], d[i]), g = unit(r2[i], d2[i]); long double c = cosl(e*R), s = sinl(e*R); V3 x = {u.x, c*u.y - s*u.z, c*u.z + s*u.y}; MC_CHECK(chord(x, g) < 1e-6 && r2[i] >= 0 && r2[i] <= 360 && std::fabs(d2[i]) <= 90, "rotated to ", r2[i], ",", d2[i]); mc::outcome(L(r2[i]*100)); }
    { double v = va::vernal_angle(ra, dec); va::angrot_vernal(r, d, -v, r2, d2); MC_CHECK(nr(d2[0], 0, 1e-5), "rotating by the vernal angle (", v, ") brings the position to a declination of ", d2[0]); } vec1d bad(3); MC_CHECK(!mc::attempt([&]() { va::angrot_vernal(bad, d, 1.0, r2, d2); }), "coordinates of different sizes accepted");
}
std::string num(L v, int w) { std::string s = std::to_string(v); while (int(s.size()) < w) s = "0" + s; return s; }
MC_SCENARIO_S(parse_sexagesimal, 4) {
    static const std::vector<std::string> sg = {"", "-", "+"}; auto gen = [&](double& val, double f) { std::string s = mc::pick(sg); L h = mc::pick(std::vector<L>{0, 1, 12, 59}); L m = mc::pick(std::vector<L>{0, 7, 59}); static const std::vector<std::string> ss = {"00", "1.5", "09.25", "59.999", "0"}; std::string t = mc::pick(ss); val = (s == "-" ? -1 : 1)*(h + m/60.0 + std::stod(t)/3600)*f; return s + num(h, mc::flip() ? 2 : 1) + ":" + num(m, 2) + ":" + t; };
    double er, ed; std::string a = gen(er, 15), b = mc::thorough() || mc::flip() ? gen(ed, 1) : "-00:30:00"; if (b == "-00:30:00") ed = -0.5; MC_LOG("parse ", a, " ", b); double ra = 7, dec = 7; mc::op(); MC_CHECK(va::sex2deg(a, b, ra, dec), "rejected"); MC_CHECK(nr(ra, er, 1e-9) && nr(dec, ed, 1e-9), "gave ", ra, ",", dec, " instead of ", er, ",", ed); mc::outcome(L(ra*1e4)); mc::outcome(L(dec*1e4));
    vec1s va_ = {a, "x"}, vb = {b, b}; vec1d vr_, vd_; auto ok = va::sex2deg(va_, vb, vr_, vd_); MC_CHECK(ok.size() == 2 && ok[0] && !ok[1] && nr(vr_[0], er, 1e-9) && nr(vd_[0], ed, 1e-9) && std::isnan(vr_[1]) && std::isnan(vd_[1]), "parsing of vectors");
}
MC_SCENARIO(parse_malformed) { static const std::vector<std::string> bad = {"", "1", "1:2", "1:2:3:4", "a:2:3", "1:b:3", "1:2:c", "::", "1::2", "1.5:2:3", ":1:2", "1 2 3", "-", "1:2:", "1:2:3x"}; std::string a = mc::pick(bad), b = mc::flip() ? "1:2:3" : mc::pick(bad); if (mc::flip()) std::swap(a, b); MC_LOG("parse '", a, "' '", b, "'"); double ra = 7, dec = 7; mc::op(); MC_CHECK(!va::sex2deg(a, b, ra, dec), "accepted"); MC_CHECK(std::isnan(ra) && std::isnan(dec), "left ", ra, ",", dec); }
// fields: optional sign, digits, two digits below 60, two digits and decimals
double wellformed(const std::string& s, const char* w) { sz p = s.find(':'), q = s.rfind(':'); bool ok = p != s.npos && q > p; if (ok) { sz i = s[0] == '-'; ok = p > i; for (; i < p; ++i) ok = ok && isdigit(s[i]); ok = ok && q == p + 3 && isdigit(s[p+1]) && isdigit(s[p+2]) && s[p+1] < '6'; std::string t = s.substr(q + 1); ok = ok && t.size() >= 4 && isdigit(t[0]) && isdigit(t[1]) && t[2] == '.'; for (sz k = 3; k < t.size(); ++k) ok = ok && isdigit(t[k]); ok = ok && std::stod(t) <= 60; } MC_CHECK(ok, w, " was written as '", s, "'"); double v = std::stod(s.substr(s[0] == '-', p)) + std::stod(s.substr(p + 1, 2))/60 + std::stod(s.substr(q + 1))/3600; return s[0] == '-' ? -v : v; }
MC_SCENARIO_S(write_sexagesimal, 3) {
    auto gen = [&]() { double v = mc::pick(vd{0, 1, 12, 59, 150, 359}) + mc::pick(vd{0, 1, 30, 59})/60 + mc::pick(vd{0, 1, 9.5, 30.123456, 59.9999, 59.999999999, 1e-6, 2e-7, 1.25e-5, 3e-10, 1e-4})/3600; return mc::flip() ? -v : v; }; double ra = gen(), dec = mc::flip() ? gen() : -0.25; std::string a, b; MC_LOG("write ", ra, " ", dec); va::deg2sex(ra, dec, a, b); mc::op(); double x = wellformed(a, "RA"), y = wellformed(b, "Dec"); MC_CHECK(nr(x*15, ra, 15e-4/3600*1.01) && nr(y, dec, 1e-4/3600*1.01), "written as ", a, " ", b); mc::outcome(mc::hash_str(a)); double r, d; MC_CHECK(va::sex2deg(a, b, r, d) && nr(r, x*15, 1e-9) && nr(d, y, 1e-9), a, " ", b, " was read back as ", r, ",", d);
    vec1d vra = {ra, 10.0}, vde = {dec, -20.0}; vec1s sa, sb; va::deg2sex(vra, vde, sa, sb); MC_CHECK(sa.size() == 2 && sb.size() == 2 && sa[0] == a && sb[0] == b, "writing of vectors");
}
MC_SCENARIO_S(units, 3) {
    double z = mc::pick(vd{0, 0.5, 2, 7}), d = mc::pick(vd{1, 1e3, 4.5e4}), lam = mc::pick(vd{0.1, 1.6, 850}), l = mc::pick(vd{1, 1e10, 3e12}), zp = mc::pick(vd{23.9, 25, 0}); auto rel = [](double a, double b) { return std::fabs(a - b) <= 1e-9*std::fabs(b); }; mc::op(); MC_LOG("z=", z, " d=", d, " lambda=", lam, " L=", l, " zp=", zp);
    double f = va::lsun2uJy(z, d, lam, l); const double Lsol = 3.839e26, Mpc = 3.0856e22, c = 2.9979e14; double e = l*Lsol*lam*(1 + z)/(c*4*3.14159265358979*d*d*Mpc*Mpc)*1e32; MC_CHECK(std::fabs(f - e) <= 1e-6*e, "lsun2uJy is ", f, " instead of ", e); MC_CHECK(rel(va::uJy2lsun(z, d, lam*(1 + z), f), l), "uJy2lsun does not invert lsun2uJy"); mc::outcome(L(std::log(f)*1000));
    MC_CHECK(nr(va::uJy2mag(f, zp), -2.5*std::log10(f) + zp, 1e-9) && rel(va::mag2uJy(va::uJy2mag(f, zp), zp), f), "uJy2mag and mag2uJy"); MC_CHECK(nr(va::uJy2mag(1.0), 23.9, 1e-12) && rel(va::mag2uJy(23.9 - 2.5), 10), "default zero point"); double m = va::lsun2mag(lam, l, zp); MC_CHECK(nr(m, va::uJy2mag(va::lsun2uJy(0.0, 1e-5, lam, l), zp), 1e-6), "lsun2mag is not the magnitude at 10 pc"); MC_CHECK((rel(va::mag2lsun<double,double>(lam, m, zp), l)), "mag2lsun does not invert lsun2mag"); double g = va::uJy2cgs(lam, f); MC_CHECK(rel(va::cgs2uJy(lam*1e4, g), f), "cgs2uJy does not invert uJy2cgs"); MC_CHECK(std::fabs(va::uJy2cgs(1.0, 1.0)/2.9979e-19 - 1) < 1e-9, "uJy2cgs(1,1) is ", va::uJy2cgs(1.0, 1.0));
    vec1d vf = {f, 2*f}; auto vm = va::uJy2mag(vf, zp); auto vb = va::mag2uJy(vm, zp); MC_CHECK(vm.size() == 2 && rel(vb[0], f) && rel(vb[1], 2*f), "magnitudes of vectors");
}
