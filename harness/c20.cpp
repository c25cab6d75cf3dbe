// C20: hash of argument lists.
#include "vifref.hpp"
#include <vif/core/print.hpp>
#include <vif/utility/string.hpp>
using namespace vr;
using vif::_;
using S = std::string;
// independent SHA-1 (FIPS 180), padding built explicitly
static S sha1(S m) {
    std::uint64_t bits = m.size()*8; m += '\x80'; while (m.size() % 64 != 56) m += '\0'; for (int i = 7; i >= 0; --i) m += char(bits >> (8*i));
    std::uint32_t h[5] = {0x67452301u, 0xEFCDAB89u, 0x98BADCFEu, 0x10325476u, 0xC3D2E1F0u}; auto rot = [](std::uint32_t x, int n) { return x << n | x >> (32 - n); };
    for (sz o = 0; o < m.size(); o += 64) { std::uint32_t w[80]; for (int i = 0; i < 16; ++i) { w[i] = 0; for (int j = 0; j < 4; ++j) w[i] = w[i] << 8 | (unsigned char)m[o+4*i+j]; } for (int i = 16; i < 80; ++i) w[i] = rot(w[i-3]^w[i-8]^w[i-14]^w[i-16], 1);
        std::uint32_t a = h[0], b = h[1], c = h[2], d = h[3], e = h[4]; for (int i = 0; i < 80; ++i) { std::uint32_t f = i < 20 ? ((b & c) | (~b & d)) : i < 40 ? b^c^d : i < 60 ? ((b & c) | (b & d) | (c & d)) : b^c^d, k = i < 20 ? 0x5A827999u : i < 40 ? 0x6ED9EBA1u : i < 60 ? 0x8F1BBCDCu : 0xCA62C1D6u, t = rot(a, 5) + f + e + k + w[i]; e = d; d = c; c = rot(b, 30); b = a; a = t; }
        h[0] += a; h[1] += b; h[2] += c; h[3] += d; h[4] += e; }
    S r; char x[9]; for (int i = 0; i < 5; ++i) { snprintf(x, 9, "%08x", h[i]); r += x; } return r;
}
static bool hex40(const S& s) { if (s.size() != 40) return false; for (char c : s) if (!((c >= '0' && c <= '9') || (c >= 'a' && c <= 'f'))) return false; return true; }
static S ti(int v) { return S("i") + std::to_string(v); }
static S ts(const S& v) { return typeid(S).name() + v; }
MC_SCENARIO(documented) { unsigned k = mc::choose(4); S g = k == 0 ? vif::hash(1, 2, 3) : k == 1 ? vif::hash(1.0, 2.0, 3.0) : k == 2 ? vif::hash() : vif::hash(S()), e = k == 0 ? "570331ab965721aae8a8b3c628cae57a21a37560" : k == 1 ? "9c45014f7c7943cb7860f3db4b885fb44b510ec8" : k == 2 ? "da39a3ee5e6b4b0d3255bfef95601890afd80709" : sha1(ts("")); MC_CHECK(g == e, "documented value ", k, ": ", g, " instead of ", e); }
MC_SCENARIO(lengths) { sz n = mc::choose(mc::thorough() ? 1200 : 320); unsigned k = mc::choose(5); S s; for (sz i = 0; i < n; ++i) s += k == 0 ? 'a' : k == 1 ? char(i*7 + 1) : k == 2 ? char(0xff) : k == 3 ? char(i % 3 ? 0x80 : 0) : char('a' + (i*i) % 26); MC_LOG("hash of ", n, " bytes, kind ", k); S g = vif::hash(s), e = sha1(ts(s)); MC_CHECK(g == e, "hash of ", n, " bytes is ", g, " instead of ", e); mc::outcome(mc::hash_str(g)); }
MC_SCENARIO(bytes) { sz n = mc::pick<sz>({1, 17, 18, 19, 20, 55, 56, 64, 100}), p = mc::choose(n); unsigned c = mc::choose(256); S s(n, 'x'); s[p] = char(c); S g = vif::hash(s); MC_LOG("hash of ", n, " bytes with byte ", p, " = ", c); MC_CHECK(g == sha1(ts(s)), "hash differs from SHA-1"); if (c != 'x') MC_CHECK(g != vif::hash(S(n, 'x')), "changing a byte does not change the hash"); }
MC_SCENARIO_S(lists, 2) {
    int a = mc::pick({0, 1, -1, 12, 2147483647}), b = mc::pick({0, 2, 3, 123}); S s = mc::pick(std::vector<S>{"", "1", "abc"}); const int ca = a; const S cs = s; MC_LOG("hash(", a, ",", b, ",", s, ")"); S e = sha1(ti(a) + ti(b) + ts(s)), g = vif::hash(a, b, s); MC_CHECK(g == e, "hash of a list is ", g, " instead of ", e);
    MC_CHECK(vif::hash(ca, b, cs) == g && vif::hash(int(a), int(b), S(s)) == g && vif::hash(std::move(ca), b, cs) == g, "the hash depends on how arguments are passed"); MC_CHECK(a == ca && s == cs, "arguments modified");
}
// All values of the universe hash to different strings, and equal values to equal strings
static std::vector<std::pair<S,S>> universe() {
    std::vector<std::pair<S,S>> r; auto add = [&](const S& name, const S& h) { r.push_back({name, h}); }; const std::vector<int> iv = {0, 1, 2, 3, 12, 23, 123, -1};
    for (int x : iv) { add(mc::str("int ", x), vif::hash(x)); add(mc::str("long ", x), vif::hash(long(x))); add(mc::str("double ", x), vif::hash(double(x))); add(mc::str("float ", x), vif::hash(float(x))); add(mc::str("string ", x), vif::hash(std::to_string(x))); }
    for (int x : iv) for (int y : iv) { add(mc::str("ints ", x, " ", y), vif::hash(x, y)); add(mc::str("vec ", x, " ", y), vif::hash(vec<1,int>{x, y})); add(mc::str("vec+int ", x, " ", y), vif::hash(vec<1,int>{x}, y)); add(mc::str("doubles ", x, " ", y), vif::hash(double(x), double(y))); add(mc::str("strings ", x, " ", y), vif::hash(std::to_string(x), std::to_string(y))); }
    for (int x = 0; x < 8; ++x) add(mc::str("three ", x), vif::hash(x & 1, (x >> 1) & 1, (x >> 2) & 1)); add("true", vif::hash(true)); add("false", vif::hash(false));
    double d = 1; for (int i = 0; i < 20; ++i) { d = std::nextafter(d, 2.0); add(mc::str("1+", i+1, "eps"), vif::hash(d)); } for (double x : {0.1, 0.10000001, 1e20, 1.00000000001e20, 1e-9, 1.23456789, 1.23456788, 123456789.25, 123456789.5}) { add(mc::str("double ", x), vif::hash(x)); add(mc::str("vec1d ", x), vif::hash(vec<1,double>{x})); }
    for (float x : {0.1f, 0.1000001f, 16777216.f, 16777215.f}) add(mc::str("float ", double(x)), vif::hash(x)); return r;
}
MC_SCENARIO(distinct) { static const auto u = universe(), w = universe(); unsigned i = mc::choose(u.size()); mc::op(u.size()); MC_CHECK(hex40(u[i].second), "hash of ", u[i].first, " is ", u[i].second); MC_CHECK(w[i] == u[i], "hash of ", u[i].first, " changed"); for (sz j = 0; j < i; ++j) MC_CHECK(u[j].second != u[i].second, "same hash for ", u[j].first, " and ", u[i].first); mc::outcome(mc::hash_str(u[i].second)); }
template<typename T> void category(T x, T y) { T l = x; const T c = x; T* p = &l; S h = vif::hash(T(x)); MC_LOG("value categories"); MC_CHECK(vif::hash(l) == h && vif::hash(c) == h && vif::hash(std::move(l)) == h && vif::hash(*p) == h && vif::hash(static_cast<const T&>(c)) == h, "the hash depends on how the argument is passed"); MC_CHECK(vif::hash(y) != h, "different values, same hash"); MC_CHECK(vif::hash(x, y) != vif::hash(y, x), "the hash does not depend on the order"); }
MC_SCENARIO(categories) { unsigned k = mc::choose(8); if (k == 0) category<int>(1, 2); if (k == 1) category<double>(0.1, 0.1000000001); if (k == 2) category<S>("a", "b"); if (k == 3) category<vec<1,int>>({1, 2}, {1, 3}); if (k == 4) category<vec<1,double>>({1, 2}, {1, 2.0000000001}); if (k == 5) category<bool>(true, false); if (k == 6) category<vif::vec1s>({"a", "b"}, {"a", "c"}); if (k == 7) category<vec<2,float>>({{1, 2}}, {{1, 2.0001f}}); }
