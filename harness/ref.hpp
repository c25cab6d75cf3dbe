// Reference model of multi-dimensional arrays: row-major list of values plus dimensions.
#ifndef REF_HPP
#define REF_HPP
#include "mc.hpp"

namespace ref {
    using sz = std::size_t;
    using Dims = std::vector<sz>;

    inline sz prod(const Dims& d) { sz p = 1; for (auto x : d) p *= x; return p; }

    template<typename T> struct Arr {
        Dims d; std::vector<T> v;
        Arr() {}
        Arr(const Dims& dd) : d(dd), v(prod(dd)) {}
        Arr(const Dims& dd, const std::vector<T>& vv) : d(dd), v(vv) {}
        sz size() const { return v.size(); }
        bool operator==(const Arr& o) const { return d == o.d && v == o.v; }
    };

    // row-major strides, computed the boring way
    inline sz flat(const Dims& d, const std::vector<sz>& i) {
        sz f = 0; for (sz k = 0; k < d.size(); ++k) f = f*d[k] + i[k]; return f;
    }
    inline std::vector<sz> multi(const Dims& d, sz f) {
        std::vector<sz> r(d.size());
        for (sz k = d.size(); k-- > 0;) { r[k] = f % d[k]; f /= d[k]; }
        return r;
    }

    // Distinct, recognisable values
    template<typename T> struct Val { static T make(long k) { return T(k); } };
    template<> struct Val<bool> { static bool make(long k) { return (k*2654435761ul >> 7) & 1; } };
    template<> struct Val<std::string> { static std::string make(long k) { return "s" + std::to_string(k); } };
    template<> struct Val<char> { static char make(long k) { return char('A' + (k % 26)); } };
    template<> struct Val<double> { static double make(long k) { return k + 0.5; } };

    template<typename T> Arr<T> filled(const Dims& d, long base) {
        Arr<T> a(d); for (sz i = 0; i < a.v.size(); ++i) a.v[i] = Val<T>::make(base + (long)i); return a;
    }
}
namespace mc {
    template<typename T> struct show_<ref::Arr<T>> {
        static void run(std::ostream& o, const ref::Arr<T>& a) {
            o << "dims("; for (std::size_t i = 0; i < a.d.size(); ++i) o << (i?",":"") << a.d[i]; o << ")";
            show_<std::vector<T>>::run(o, a.v);
        }
    };
}
#endif
