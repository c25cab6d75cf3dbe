// Glue between the reference model and the real vif vectors (public interface only).
#ifndef VIFREF_HPP
#define VIFREF_HPP
#include "ref.hpp"
#include "trap.hpp"
#include <vif/core/vec.hpp>
#include <vif/utility/generic.hpp>

namespace vr {
    using namespace ref;
    using vif::vec;
    using vif::uint_t;
    using vif::int_t;

    template<typename T> struct elem { using type = typename std::remove_cv<typename std::remove_pointer<T>::type>::type; };

    // Read a vector or view through size()/dims/operator[]
    template<std::size_t D, typename T>
    Arr<typename elem<T>::type> read(const vec<D,T>& v) {
        using E = typename elem<T>::type;
        Arr<E> a; a.d.assign(v.dims.begin(), v.dims.end());
        MC_CHECK(prod(a.d) == v.size(), "dimensions and number of elements disagree: dims ", a.d, " size ", v.size());
        MC_CHECK(v.empty() == (v.size() == 0), "empty() disagrees with size()");
        a.v.reserve(v.size());
        for (uint_t i = 0; i < v.size(); ++i) a.v.push_back(v[i]);
        // iterators must agree with indexing
        uint_t k = 0;
        for (auto it = v.begin(); it != v.end(); ++it) {
            MC_CHECK(k < a.v.size(), "iteration visits more elements than size()");
            E e = *it;
            MC_CHECK(mc::same<E>(e, a.v[k]), "iteration and indexing disagree at ", k);
            ++k;
        }
        MC_CHECK(k == a.v.size(), "iteration visits ", k, " elements instead of ", a.v.size());
        return a;
    }

    template<std::size_t D, typename T>
    vec<D,T> make(const Arr<T>& a) {
        std::array<uint_t,D> d; for (sz i = 0; i < D; ++i) d[i] = a.d[i];
        vec<D,T> v(d);
        for (uint_t i = 0; i < a.v.size(); ++i) v[i] = a.v[i];
        return v;
    }
    inline vec<1,uint_t> makeu(const std::vector<sz>& a) { vec<1,uint_t> v; for (auto x : a) v.push_back(x); return v; }
    template<typename T> vec<1,T> make1(const std::vector<T>& a) { vec<1,T> v; for (auto x : a) v.push_back(x); return v; }

    template<typename E> bool same_arr(const Arr<E>& a, const Arr<E>& b) {
        if (a.d != b.d || a.v.size() != b.v.size()) return false;
        for (sz i = 0; i < a.v.size(); ++i) if (!mc::same<E>(a.v[i], b.v[i])) return false;
        return true;
    }

    template<std::size_t D, typename T>
    void expect(const vec<D,T>& v, const Arr<typename elem<T>::type>& a, const char* what) {
        auto r = read(v);
        mc::op();
        if (!same_arr(r, a)) MC_FAIL(what, ": expected ", a, " got ", r);
        std::uint64_t h = a.v.size(); for (auto x : a.d) h = mc::mix(h, x);
        for (sz i = 0; i < a.v.size(); ++i) h = mc::mix(h, std::hash<typename elem<T>::type>()(a.v[i]));
        mc::outcome(h);
    }
    template<typename T>
    void expect1(const vec<1,T>& v, const std::vector<typename elem<T>::type>& a, const char* what) {
        expect(v, Arr<typename elem<T>::type>({a.size()}, a), what);
    }
    // Run f on the vector itself, on a const reference, or on a view selecting it out of a larger vector
    template<std::size_t D, typename T, typename F> void as_vec_or_view(const Arr<T>& a, F&& f) {
        unsigned k = mc::choose(2);
        if (k == 0) { auto v = make<D,T>(a); f(v); expect(v, a, "argument"); return; }
        // reversed storage plus a guard row, selected back by a view
        sz n = a.d[0], p = n ? a.size()/n : 0; Dims bd = a.d; bd[0] = n + 1; Arr<T> b(bd); std::vector<sz> ids;
        for (sz i = 0; i < n; ++i) { ids.push_back(n - i); for (sz j = 0; j < p; ++j) b.v[(n-i)*p + j] = a.v[i*p + j]; }
        auto big = make<D,T>(b);
        if constexpr (D == 1) { const auto w = big[makeu(ids)]; f(w); expect(w, a, "view argument"); }
        else { const auto w = big(makeu(ids), vif::_); f(w); expect(w, a, "view argument"); }
    }
}
#endif
