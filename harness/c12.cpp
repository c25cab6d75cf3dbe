// C12: flat/multidimensional indices, index lists and sequences.
#include "vifref.hpp"
using namespace vr;
using vif::_;

template<std::size_t D> void ids_() {
    Dims d; for (sz i = 0; i < D; ++i) d.push_back(1 + mc::choose(D <= 2 ? 5 : 3));
    std::array<uint_t,D> ad; for (sz i = 0; i < D; ++i) ad[i] = d[i];
    vec<D,int> v(ad); const auto& cv = v; for (sz f = 0; f < v.size(); ++f) v[f] = f + 100;
    MC_LOG("dims ", d); std::vector<sz> all, tab(D*v.size());
    for (sz f = 0; f < v.size(); ++f) {
        auto m = multi(d, f); all.push_back(f); for (sz i = 0; i < D; ++i) tab[i*v.size() + f] = m[i];
        expect1(vif::mult_ids(ad, f), m, "mult_ids(dims)"); expect1(vif::mult_ids(v, f), m, "mult_ids(vec)"); expect1(vif::mult_ids(cv, f), m, "mult_ids(const vec)");
        auto go = [&](auto... is) {
            uint_t a = vif::flat_id(ad, is...), b = vif::flat_id(v, is...); MC_CHECK(a == f && b == f, "flat_id", m, " gave ", a, " ", b); MC_CHECK(&v(is...) == &v[f], "flat_id and operator() disagree");
        };
        auto sgn = [&](auto... is) { uint_t a = vif::flat_id(ad, is...), b = vif::flat_id(v, is...); MC_CHECK(a == f && b == f, "flat_id with negative indices gave ", a, " ", b); };
        auto g = [&](sz i) { return int(m[i]); }; auto n = [&](sz i) { return int(m[i]) - int(d[i]); };
        if constexpr (D == 1) { go(m[0]); go(g(0)); sgn(n(0)); } if constexpr (D == 2) { go(m[0], m[1]); go(g(0), m[1]); sgn(n(0), g(1)); sgn(m[0], n(1)); } if constexpr (D == 3) { go(m[0], m[1], m[2]); sgn(n(0), n(1), n(2)); sgn(g(0), n(1), m[2]); } if constexpr (D == 4) { go(m[0], m[1], m[2], m[3]); sgn(n(0), g(1), g(2), n(3)); }
    }
    expect(vif::mult_ids(ad, makeu(all)), Arr<sz>({D, v.size()}, tab), "mult_ids of all indices"); expect(vif::mult_ids(v, makeu(all)), Arr<sz>({D, v.size()}, tab), "mult_ids of all indices");
    // lists of indices, in any order and repeated
    std::vector<sz> l; sz n = mc::choose(4); for (sz i = 0; i < n; ++i) l.push_back(mc::pick<sz>({0, v.size()-1, v.size()/2})); Arr<sz> e({D, n}); for (sz k = 0; k < n; ++k) { auto m = multi(d, l[k]); for (sz i = 0; i < D; ++i) e.v[i*n+k] = m[i]; }
    auto vl = makeu(l); expect(vif::mult_ids(v, vl), e, "mult_ids of a list"); expect1(vl, l, "argument of mult_ids");
    // out of bounds
    sz bad = mc::choose(D); auto oob = [&](int val) { std::vector<int> q(D, 0); q[bad] = val; bool ok = mc::attempt([&]() { if constexpr (D == 1) vif::flat_id(v, q[0]); if constexpr (D == 2) vif::flat_id(v, q[0], q[1]); if constexpr (D == 3) vif::flat_id(v, q[0], q[1], q[2]); if constexpr (D == 4) vif::flat_id(v, q[0], q[1], q[2], q[3]); }); return ok; };
    MC_CHECK(!oob(d[bad]), "flat_id accepted an index out of bounds in dimension ", bad);
    // traversal by increments
    vec<1,uint_t> id(D), lim; for (sz i = 0; i < D; ++i) lim.push_back(d[i]);
    for (sz f = 0; f < 2*v.size(); ++f) { expect1(id, multi(d, f % v.size()), "increment_index_list"); vif::increment_index_list(id, lim); }
    expect1(lim, d, "dimensions of increment_index_list"); expect1(id, Dims(D, 0), "increment_index_list wraps around");
    bool cube = true; for (sz i = 0; i < D; ++i) if (d[i] != d[0]) cube = false;
    if (cube) for (sz f = 0; f <= v.size(); ++f) { expect1(id, multi(d, f % v.size()), "increment_index_list with a single size"); vif::increment_index_list(id, d[0]); }
}
MC_SCENARIO(ids_1) { ids_<1>(); }
MC_SCENARIO(ids_2) { ids_<2>(); }
MC_SCENARIO(ids_3) { ids_<3>(); }
MC_SCENARIO_S(ids_4, 2) { ids_<4>(); }
MC_SCENARIO(ids_view) { // indices relative to a view
    sz a = 1 + mc::choose(4), b = 1 + mc::choose(4), n = 1 + mc::choose(3); vec<2,int> v(a, b); std::vector<sz> r; for (sz i = 0; i < n; ++i) r.push_back(mc::choose(a)); auto w = v(makeu(r), _);
    for (sz f = 0; f < w.size(); ++f) { expect1(vif::mult_ids(w, f), multi({n, b}, f), "mult_ids of a view"); MC_CHECK(vif::flat_id(w, f/b, f%b) == f, "flat_id of a view"); }
}
template<typename T> void indgen_() {
    sz a = mc::choose(6), b = mc::choose(5), c = mc::choose(4); auto seq = [](Dims d) { Arr<T> r(d); for (sz i = 0; i < r.size(); ++i) r.v[i] = T(i); return r; };
    expect(vif::indgen<T>(a), seq({a}), "indgen"); expect(vif::indgen<T>((int)a), seq({a}), "indgen"); expect(vif::indgen<T>(a, b), seq({a,b}), "indgen"); expect(vif::indgen<T>(a, b, c), seq({a,b,c}), "indgen"); expect(vif::indgen<T>(std::array<uint_t,2>{{a,b}}, c), seq({a,b,c}), "indgen"); expect(vif::indgen<T>(c, std::array<uint_t,2>{{a,b}}), seq({c,a,b}), "indgen");
}
MC_SCENARIO(indgen_uint) { indgen_<uint_t>(); expect(vif::indgen(3), Arr<sz>({3}, {0,1,2}), "indgen"); }
MC_SCENARIO(indgen_int) { indgen_<int>(); }
MC_SCENARIO(indgen_double) { indgen_<double>(); }
MC_SCENARIO(indgen_float) { indgen_<float>(); }
