// Minimal independent reader of FITS files (from the FITS standard; does not use CFITSIO).
#ifndef FITSREF_HPP
#define FITSREF_HPP
#include "fsutil.hpp"
namespace fr {
    using S = std::string; using sz = std::size_t;
    struct Card { S name, value, comment, text; bool has = false; };
    struct HDU { std::vector<Card> cards; S data; sz datasize = 0;
        const Card* find(const S& n) const { for (auto& c : cards) if (c.name == n) return &c; return nullptr; }
        bool has(const S& n) const { return find(n) != nullptr; }
        long long num(const S& n, long long def = -99999) const { auto c = find(n); return c ? atoll(c->value.c_str()) : def; }
        S str(const S& n) const { auto c = find(n); return c ? c->value : S("?"); }
        sz naxis() const { return sz(num("NAXIS")); }
        std::vector<sz> dims() const { std::vector<sz> d; for (sz i = naxis(); i >= 1; --i) d.push_back(sz(num("NAXIS" + std::to_string(i)))); return d; } // row-major order
    };
    inline S rtrim(S s) { while (!s.empty() && s.back() == ' ') s.pop_back(); return s; }
    inline S ltrim(S s) { sz p = s.find_first_not_of(' '); return p == S::npos ? S() : s.substr(p); }
    inline S trim(const S& s) { return ltrim(rtrim(s)); }
    inline Card card(const S& t) { Card c; c.text = t; S rest; if (t.compare(0, 9, "HIERARCH ") == 0) { sz e = t.find('='); c.name = trim(t.substr(9, e == S::npos ? e : e - 9)); if (e == S::npos) return c; rest = t.substr(e + 1); } else { c.name = rtrim(t.substr(0, 8)); if (t.substr(8, 2) != "= ") return c; rest = t.substr(10); }
        c.has = true; S r = ltrim(rest); if (!r.empty() && r[0] == '\'') { sz i = 1; S v; for (; i < r.size(); ++i) { if (r[i] == '\'') { if (i + 1 < r.size() && r[i+1] == '\'') { v += '\''; ++i; continue; } break; } v += r[i]; } c.value = rtrim(v); rest = i < r.size() ? r.substr(i + 1) : S(); sz s = rest.find('/'); if (s != S::npos) c.comment = trim(rest.substr(s + 1)); }
        else { sz s = r.find('/'); c.value = trim(r.substr(0, s)); if (s != S::npos) c.comment = trim(r.substr(s + 1)); } return c; }
    inline std::vector<HDU> parse(const S& b) { std::vector<HDU> f; MC_CHECK(b.size() % 2880 == 0, "the size of the FITS file is ", b.size(), ", not a multiple of 2880"); sz p = 0; while (p < b.size()) { HDU h; bool end = false; sz q = p; for (; q + 80 <= b.size(); q += 80) { S t = b.substr(q, 80); for (char c : t) MC_CHECK(c >= 32 && c < 127, "invalid character in FITS header: ", t); if (rtrim(t) == "END") { end = true; q += 80; break; } h.cards.push_back(card(t)); } MC_CHECK(end, "no END in FITS header"); while ((q - p) % 2880) ++q;
            MC_CHECK(h.cards.size() >= 2 && (f.empty() ? h.cards[0].name == "SIMPLE" && h.cards[0].value == "T" : h.cards[0].name == "XTENSION"), "invalid start of HDU ", f.size());
            sz n = h.naxis() ? 1 : 0; for (sz x : h.dims()) n *= x; n = sz(std::llabs(h.num("BITPIX")))/8*(n + sz(h.num("PCOUNT", 0))); MC_CHECK(q + n <= b.size(), "FITS file is truncated: HDU ", f.size(), " needs ", n, " bytes at ", q, " of ", b.size()); h.data = b.substr(q, n); q += (n + 2879)/2880*2880; p = q; f.push_back(h); } return f; }
    inline std::vector<HDU> load(const S& file) { return parse(fsu::slurp(file)); }
    template<typename T> T be(const S& d, sz pos) { T t; char b[sizeof(T)]; for (sz i = 0; i < sizeof(T); ++i) b[sizeof(T) - 1 - i] = d[pos + i]; memcpy(&t, b, sizeof(T)); return t; }
    template<typename T> struct FT; // how a type is stored in images
    template<> struct FT<bool> { static const int bitpix = 8; static bool get(const HDU& h, sz i) { return h.data[i] != 0; } };
    template<> struct FT<char> { static const int bitpix = 8; static char get(const HDU& h, sz i) { return char(int((unsigned char)h.data[i]) + (h.has("BZERO") ? int(h.num("BZERO")) : 0)); } };
    template<> struct FT<short> { static const int bitpix = 16; static short get(const HDU& h, sz i) { return be<short>(h.data, 2*i); } };
    template<> struct FT<std::ptrdiff_t> { static const int bitpix = 64; static std::ptrdiff_t get(const HDU& h, sz i) { return be<std::ptrdiff_t>(h.data, 8*i); } };
    template<> struct FT<sz> { static const int bitpix = 64; static sz get(const HDU& h, sz i) { return be<sz>(h.data, 8*i); } };
    template<> struct FT<float> { static const int bitpix = -32; static float get(const HDU& h, sz i) { return be<float>(h.data, 4*i); } };
    template<> struct FT<double> { static const int bitpix = -64; static double get(const HDU& h, sz i) { return be<double>(h.data, 8*i); } };
}
#endif
