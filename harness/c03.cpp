// C03: views made by every combination of index arguments select the right elements, in order and shape.
#include "vifref.hpp"
using namespace vr;
using vif::_;
using vif::repeat;
#ifndef PART
#define PART 99
#endif

enum Kind { SCAL, FULL, LEFT, RIGHT, BOTH, IDU, IDI, IDV, IDC, NKIND };
static const char* kname[] = {"scalar", "_", "_-b", "a-_", "a-_-b", "vec1u", "vec1i", "view of vec1u", "vec1uc"};
struct Arg {
    Kind k; long a = 0, b = 0; std::vector<long> ids; sz n = 0;
    std::vector<sz> pos; bool bad_index = false, bad_range = false, maybe_empty = false;
    vec<1,uint_t> vu, vbig; vec<1,int> vi; vec<1,unsigned char> vc;
};

static bool resolve(long x, sz n, sz& r) {
    if (x >= (long)n || x < -(long)n) return false;
    r = x < 0 ? x + n : x; return true;
}

// choose the value(s) of an argument of kind k for a dimension of n elements; wide: larger value alphabet
static void choose_arg(Arg& g, Kind k, sz n, int wide) {
    g.k = k; g.n = n;
    switch (k) {
    case SCAL: {
        std::vector<long> c; for (long i = 0; i <= (long)n; ++i) c.push_back(i);
        if (n > 0) { c.push_back(-1); c.push_back(-(long)n); }
        g.a = mc::pick(c);
        sz r = 0; if (resolve(g.a, n, r)) g.pos = {r}; else g.bad_index = true;
        break; }
    case FULL: for (sz i = 0; i < n; ++i) g.pos.push_back(i); break;
    case LEFT:
        g.b = long(mc::choose(n + 3)) - 1;
        if (g.b < 0 || g.b >= (long)n) g.bad_range = true; else for (long i = 0; i <= g.b; ++i) g.pos.push_back(i);
        break;
    case RIGHT:
        g.a = long(mc::choose(n + 3)) - 1;
        if (g.a < 0 || g.a >= (long)n) g.bad_range = true; else for (long i = g.a; i < (long)n; ++i) g.pos.push_back(i);
        break;
    case BOTH:
        g.a = mc::choose(n + 2); g.b = mc::choose(n + 2);
        if (g.a >= (long)n || g.b >= (long)n || g.a > g.b + 1) g.bad_range = true;
        else { if (g.a == g.b + 1) g.maybe_empty = true; for (long i = g.a; i <= g.b; ++i) g.pos.push_back(i); }
        break;
    default: {
        unsigned len = mc::choose(wide >= 2 ? 4 : 3);
        for (unsigned j = 0; j < len; ++j) {
            long x;
            if (k == IDI) {
                std::vector<long> c; for (long i = -(long)n; i <= (long)n; ++i) if (wide || i >= -1) c.push_back(i);
                x = mc::pick(c);
            } else x = mc::choose(n + 1);
            g.ids.push_back(x);
            sz r = 0; if (resolve(x, n, r)) g.pos.push_back(r); else g.bad_index = true;
        }
        if (g.bad_index) g.pos.clear();
        for (auto x : g.ids) { g.vu.push_back(x); g.vi.push_back(x); g.vc.push_back(x); }
        g.vbig.push_back(99);
        for (sz j = g.ids.size(); j-- > 0;) { g.vbig.push_back(g.ids[j]); g.vbig.push_back(99); }
        break; }
    }
}
static std::string show(const Arg& g) {
    switch (g.k) {
    case SCAL: return mc::str(g.a); case FULL: return "_"; case LEFT: return mc::str("_-", g.b); case RIGHT: return mc::str(g.a, "-_");
    case BOTH: return mc::str(g.a, "-_-", g.b); default: return mc::str(kname[g.k], g.ids);
    }
}

// Apply: o(args...) for the run-time kinds
template<std::size_t D, std::size_t K, unsigned MASK> struct apply_ {
    template<typename F, typename ... A> static void run(F& f, std::vector<Arg>& g, const A& ... a) {
        if constexpr (K == D) {
            if constexpr (!(std::is_same<A,int>::value && ...)) f(a...); // not all scalars
        } else {
            Arg& x = g[K];
            if constexpr ((MASK >> SCAL) & 1) if (x.k == SCAL) apply_<D,K+1,MASK>::run(f, g, a..., (int)x.a);
            if constexpr ((MASK >> FULL) & 1) if (x.k == FULL) apply_<D,K+1,MASK>::run(f, g, a..., _);
            if constexpr ((MASK >> LEFT) & 1) if (x.k == LEFT) apply_<D,K+1,MASK>::run(f, g, a..., _-x.b);
            if constexpr ((MASK >> RIGHT) & 1) if (x.k == RIGHT) apply_<D,K+1,MASK>::run(f, g, a..., x.a-_);
            if constexpr ((MASK >> BOTH) & 1) if (x.k == BOTH) apply_<D,K+1,MASK>::run(f, g, a..., x.a-_-x.b);
            if constexpr ((MASK >> IDU) & 1) if (x.k == IDU) apply_<D,K+1,MASK>::run(f, g, a..., x.vu);
            if constexpr ((MASK >> IDI) & 1) if (x.k == IDI) apply_<D,K+1,MASK>::run(f, g, a..., x.vi);
            if constexpr ((MASK >> IDC) & 1) if (x.k == IDC) apply_<D,K+1,MASK>::run(f, g, a..., x.vc);
            if constexpr ((MASK >> IDV) & 1) if (x.k == IDV) {
                // a view, in reverse order, of every second element of a larger index vector
                vec<1,uint_t> sel; for (sz j = x.ids.size(); j-- > 0;) sel.push_back(2*j + 1);
                apply_<D,K+1,MASK>::run(f, g, a..., x.vbig[sel]);
            }
        }
    }
};

// Expected result
struct Expect { Dims d; std::vector<sz> flat; int verdict; }; // 0 must be accepted, 1 must be rejected, 2 either (empty selection)
static Expect expected(const Dims& od, const std::vector<Arg>& g) {
    Expect e; e.verdict = 0;
    bool bad_index = false, bad_range = false, maybe = false, empty = false;
    for (auto& x : g) {
        bad_range |= x.bad_range; bad_index |= x.bad_index; maybe |= x.maybe_empty;
        if (!x.bad_index && !x.bad_range && x.pos.empty()) empty = true;
        if (x.k != SCAL) e.d.push_back(x.k >= IDU ? x.ids.size() : x.pos.size());
    }
    if (bad_range) { e.verdict = 1; return e; }
    if (bad_index) { e.verdict = (empty || maybe) ? 2 : 1; return e; }
    if (maybe) e.verdict = 2;
    std::vector<std::vector<sz>> acc = {{}};
    for (auto& x : g) {
        std::vector<std::vector<sz>> nx;
        for (auto& p : acc) for (auto q : x.pos) { auto r = p; r.push_back(q); nx.push_back(r); }
        acc = nx;
    }
    for (auto& p : acc) e.flat.push_back(ref::flat(od, p));
    return e;
}

// Checks a selection: parent object o (values pv, row-major), result must be e
template<typename O, typename F>
void selection(O& o, const std::vector<int>& pv, const Expect& e, F&& sel, const char* what) {
    ref::Arr<int> got; bool addr = true;
    bool ok = mc::attempt([&]() {
        auto w = sel(o);
        got = read(w);
        for (sz i = 0; i < w.size() && i < e.flat.size(); ++i) if (&w[i] != &o[e.flat[i]]) addr = false;
    });
    if (e.verdict == 1) { MC_CHECK(!ok, what, ": out of bounds selection accepted, gave ", got); return; }
    if (!ok) { MC_CHECK(e.verdict == 2, what, ": valid selection rejected"); return; }
    ref::Arr<int> exp; exp.d = e.d; for (auto f : e.flat) exp.v.push_back(pv[f]);
    MC_CHECK(got == exp, what, ": expected ", exp, " got ", got);
    MC_CHECK(addr, what, ": the view does not refer to the original elements");
    std::uint64_t h = mc::hash_str(what); for (auto f : e.flat) h = mc::mix(h, f); for (auto d : e.d) h = mc::mix(h, d+77);
    mc::outcome(h);
}

template<std::size_t D, unsigned MASK, typename O>
void select_paren(O& o, const Dims& od, const std::vector<int>& pv, std::vector<Arg>& g, const char* what) {
    Expect e = expected(od, g);
    bool valid = e.verdict == 0; for (auto& x : g) { for (auto i : x.ids) if (i < 0) valid = false; if (x.a < 0) valid = false; }
    auto f = [&](const auto& ... a) {
        selection(o, pv, e, [&](auto& p) { return p(a...); }, what);
        if (valid) selection(o, pv, e, [&](auto& p) { return p.safe(a...); }, "safe access");
    };
    apply_<D,0,MASK>::run(f, g);
}

static Kind choose_kind(unsigned mask) {
    std::vector<Kind> c; for (unsigned k = 0; k < NKIND; ++k) if ((mask >> k) & 1) c.push_back((Kind)k);
    return mc::pick(c);
}

// cat: 0 vector, 1 const vector, 2 view, 3 view of a const vector
template<std::size_t D, typename F> void with_parent(unsigned cat, const Dims& dims, F&& f) {
    auto a = filled<int>(dims, 100); auto v = make<D,int>(a);
    if (cat == 0) f(v, dims, a.v);
    else if (cat == 1) f(const_cast<const vec<D,int>&>(v), dims, a.v);
    else {
        // larger parent, whose rows are taken in reverse order
        Dims big = dims; big[0] += 1;
        auto b = filled<int>(big, 100); auto p = make<D,int>(b);
        vec<1,uint_t> ids; std::vector<int> pv; sz row = 1; for (sz k = 1; k < D; ++k) row *= dims[k];
        for (sz i = dims[0]; i-- > 0;) { ids.push_back(i+1); for (sz j = 0; j < row; ++j) pv.push_back(b.v[(i+1)*row + j]); }
        const auto& cp = p;
        if constexpr (D == 1) {
            if (cat == 2) { auto w = p(ids); f(w, dims, pv); } else { const auto w = cp(ids); f(w, dims, pv); }
        } else {
            if (cat == 2) { auto w = p(ids, repeat<D-1>(_)); f(w, dims, pv); } else { const auto w = cp(ids, repeat<D-1>(_)); f(w, dims, pv); }
        }
    }
}
static const char* catname[] = {"vector", "const vector", "view", "view of const vector"};

template<std::size_t D, unsigned MASK, unsigned CATS> void paren(const std::vector<Dims>& shapes, int wide) {
    std::vector<unsigned> cats; for (unsigned c = 0; c < 4; ++c) if ((CATS >> c) & 1) cats.push_back(c);
    unsigned cat = mc::pick(cats);
    Dims dims = mc::pick(shapes);
    std::vector<Arg> g(D);
    bool all = true;
    std::vector<Kind> ks(D);
    for (sz k = 0; k < D; ++k) { ks[k] = choose_kind(MASK); if (ks[k] != SCAL) all = false; }
    mc::assume(!all);
    for (sz k = 0; k < D; ++k) choose_arg(g[k], ks[k], dims[k], wide);
    if (mc::verbose()) { std::string s; for (auto& x : g) s += " " + show(x); MC_LOG(catname[cat], " of dims ", dims, " (", mc::raw{s}, " )"); }
    with_parent<D>(cat, dims, [&](auto& o, const Dims& od, const std::vector<int>& pv) {
        // restrict to the requested categories at compile time
        using O = typename std::remove_reference<decltype(o)>::type;
        constexpr bool isc = std::is_const<O>::value;
        constexpr bool isview = vif::meta::is_view<typename std::remove_const<O>::type>::value;
        constexpr bool iscv = std::is_same<typename std::remove_const<O>::type, vec<D,const int*>>::value;
        constexpr unsigned c = iscv ? 3 : isview ? 2 : isc ? 1 : 0;
        if constexpr ((CATS >> c) & 1) select_paren<D,MASK>(o, od, pv, g, "parentheses");
    });
}

template<std::size_t D> void brackets(const std::vector<Dims>& shapes) {
    unsigned cat = mc::choose(4);
    Dims dims = mc::pick(shapes);
    std::vector<Arg> g(1);
    Kind k = choose_kind(((1u << NKIND) - 1) & ~(1u << SCAL));
    choose_arg(g[0], k, prod(dims), D == 1 ? 2 : 1);
    MC_LOG(catname[cat], " of dims ", dims, " [", mc::raw{show(g[0])}, "]");
    with_parent<D>(cat, dims, [&](auto& o, const Dims& od, const std::vector<int>& pv) {
        Expect e = expected({prod(od)}, g);
        bool valid = e.verdict == 0; for (auto i : g[0].ids) if (i < 0) valid = false;
        auto f = [&](const auto& a) {
            selection(o, pv, e, [&](auto& p) { return p[a]; }, "brackets");
            using O = typename std::remove_cv<typename std::remove_reference<decltype(o)>::type>::type;
            using A = typename std::remove_cv<typename std::remove_reference<decltype(a)>::type>::type;
            if constexpr (!std::is_same<O, vec<D,const int*>>::value && !std::is_const<typename std::remove_reference<decltype(o)>::type>::value && !std::is_same<A, vec<1,int>>::value)
                if (valid) selection(o, pv, e, [&](auto& p) { return p.safe[a]; }, "safe brackets");
        };
        apply_<1,0,((1u << NKIND) - 1) & ~(1u << SCAL)>::run(f, g);
    });
}

#define M(k) (1u << k)
#if PART == 0 || PART == 99
MC_SCENARIO(brackets_1d) { brackets<1>({{0},{1},{2},{3},{4}}); }
MC_SCENARIO(brackets_2d) { brackets<2>({{0,2},{1,2},{2,2},{3,1}}); }
#endif
#if PART == 1 || PART == 99
MC_SCENARIO(paren_1d) { paren<1, M(FULL)|M(LEFT)|M(RIGHT)|M(BOTH)|M(IDU)|M(IDI)|M(IDV)|M(IDC), 15>({{0},{1},{2},{3},{4}}, 2); }
#endif
#if PART == 2 || PART == 99
MC_SCENARIO_S(paren_2d_vec, 4) { paren<2, M(SCAL)|M(FULL)|M(LEFT)|M(RIGHT)|M(BOTH)|M(IDU)|M(IDI)|M(IDV), 1>({{0,2},{2,0},{1,3},{3,2},{2,3}}, 1); }
#endif
#if PART == 3 || PART == 99
MC_SCENARIO_S(paren_2d_const, 4) { paren<2, M(SCAL)|M(FULL)|M(BOTH)|M(IDU)|M(IDI), 2>({{0,2},{2,0},{3,2},{2,3}}, 1); }
MC_SCENARIO_S(paren_2d_cview, 4) { paren<2, M(SCAL)|M(FULL)|M(RIGHT)|M(IDU), 8>({{2,0},{3,2},{2,3}}, 1); }
#endif
#if PART == 4 || PART == 99
MC_SCENARIO_S(paren_2d_view, 4) { paren<2, M(SCAL)|M(FULL)|M(LEFT)|M(BOTH)|M(IDU)|M(IDI), 4>({{0,2},{2,0},{3,2},{2,3}}, 1); }
#endif
#if PART == 5 || PART == 99
MC_SCENARIO_S(paren_3d_vec, 5) { paren<3, M(SCAL)|M(FULL)|M(RIGHT)|M(IDU), 1>({{2,1,2},{1,2,2},{2,2,1},{2,0,1}}, 0); }
#endif
#if PART == 6 || PART == 99
MC_SCENARIO_S(paren_3d_other, 5) { paren<3, M(SCAL)|M(LEFT)|M(IDI), 3>({{2,1,2},{1,2,2}}, 0); }
MC_SCENARIO_S(paren_3d_view, 5) { paren<3, M(SCAL)|M(FULL)|M(IDU), 4>({{2,1,2},{1,2,2},{2,2,1}}, 0); }
#endif
#if PART == 7 || PART == 99
MC_SCENARIO_S(paren_4d, 6) { paren<4, M(SCAL)|M(BOTH), 1>({{2,1,2,2}}, 0); }
MC_SCENARIO(repeated) {
    // repeat<N>(x) stands for N times the argument x
    Dims dims = mc::pick(std::vector<Dims>{{2,2,2},{3,2,2},{2,3,3},{1,2,3}});
    auto a = filled<int>(dims, 100); auto v = make<3,int>(a);
    const auto& c = v;
    std::vector<Arg> g(3);
    unsigned form = mc::choose(6);
    // forms: (rep3 _), (x, rep2 ids), (rep2 ids, x), (rep2 int, _), (_, rep2 int), (rep3 range)
    auto same = [&](Kind k, sz i0, sz n) { Arg x; sz m = dims[i0]; for (sz i = i0; i < i0+n; ++i) m = std::min(m, dims[i]); choose_arg(x, k, m, 0);
        // re-evaluate against each dimension
        for (sz i = i0; i < i0+n; ++i) { Arg y = x; y.n = dims[i]; y.pos.clear(); y.bad_index = y.bad_range = y.maybe_empty = false;
            if (k == FULL) for (sz j = 0; j < dims[i]; ++j) y.pos.push_back(j);
            if (k == SCAL) { sz r; if (resolve(y.a, dims[i], r)) y.pos = {r}; else y.bad_index = true; }
            if (k == IDU) { for (auto q : y.ids) { sz r; if (resolve(q, dims[i], r)) y.pos.push_back(r); else y.bad_index = true; } if (y.bad_index) y.pos.clear(); }
            if (k == BOTH) { if (y.a >= (long)dims[i] || y.b >= (long)dims[i] || y.a > y.b+1) y.bad_range = true; else { if (y.a == y.b+1) y.maybe_empty = true; for (long j = y.a; j <= y.b; ++j) y.pos.push_back(j); } }
            g[i] = y; } };
    auto go = [&](auto& o, auto&& sel, const char* what) { selection(o, a.v, expected(dims, g), sel, what); };
    if (form == 0) { same(FULL, 0, 3); go(v, [&](auto& p) { return p(repeat<3>(_)); }, "v(repeat<3>(_))"); go(c, [&](auto& p) { return p(repeat<3>(_)); }, "c(repeat<3>(_))"); }
    if (form == 1) { choose_arg(g[0], SCAL, dims[0], 0); same(IDU, 1, 2); MC_LOG("v(", g[0].a, ", repeat<2>(", g[1].ids, ")) dims ", dims);
        go(v, [&](auto& p) { return p((int)g[0].a, repeat<2>(g[1].vu)); }, "v(x, repeat<2>(ids))"); go(c, [&](auto& p) { return p((int)g[0].a, repeat<2>(g[1].vu)); }, "c(x, repeat<2>(ids))"); }
    if (form == 2) { choose_arg(g[2], SCAL, dims[2], 0); same(IDU, 0, 2); MC_LOG("v(repeat<2>(", g[1].ids, "), ", g[2].a, ") dims ", dims);
        go(v, [&](auto& p) { return p(repeat<2>(g[0].vu), (int)g[2].a); }, "v(repeat<2>(ids), x)"); }
    if (form == 3) { same(SCAL, 0, 2); choose_arg(g[2], FULL, dims[2], 0); go(v, [&](auto& p) { return p(repeat<2>((int)g[0].a), _); }, "v(repeat<2>(x), _)"); }
    if (form == 4) { choose_arg(g[0], FULL, dims[0], 0); same(SCAL, 1, 2); go(v, [&](auto& p) { return p(_, repeat<2>((int)g[1].a)); }, "v(_, repeat<2>(x))"); go(c, [&](auto& p) { return p(_, repeat<2>((int)g[1].a)); }, "c(_, repeat<2>(x))"); }
    if (form == 5) { same(BOTH, 0, 3); go(v, [&](auto& p) { return p(repeat<3>(g[0].a-_-g[0].b)); }, "v(repeat<3>(a-_-b))"); }
}
MC_SCENARIO(bracket_lists) {
    // v[{i,j}] with an initializer list, vectors and views
    Dims dims = mc::pick(std::vector<Dims>{{2},{3},{4}});
    auto a = filled<int>(dims, 100); auto v = make<1,int>(a);
    long n = dims[0];
    long i = long(mc::choose(2*n+1)) - n, j = long(mc::choose(2*n+1)) - n;
    std::vector<Arg> g(1); g[0].k = IDI; g[0].ids = {i, j};
    for (auto x : g[0].ids) { sz r; if (resolve(x, n, r)) g[0].pos.push_back(r); else g[0].bad_index = true; }
    if (g[0].bad_index) g[0].pos.clear();
    MC_LOG("v[{", i, ",", j, "}] size ", n);
    selection(v, a.v, expected(dims, g), [&](auto& p) { return p[{i, j}]; }, "v[{i,j}]");
    auto w = v(_);
    selection(w, a.v, expected(dims, g), [&](auto& p) { return p[{i, j}]; }, "view[{i,j}]");
}
#endif
