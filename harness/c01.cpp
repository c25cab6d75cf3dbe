// C01: every history of whole-vector operations keeps shape and content as the array model says.
#include "vifref.hpp"
using namespace vr;
using namespace vif;

static const long BASE = 100;

// ---------------------------------------------------------------- 1-D histories
template<typename T> void hist1(unsigned depth) {
    vec<1,T> X[2]; Arr<T> M[2] = {Arr<T>({0}), Arr<T>({0})};
    long next = BASE;
    auto fresh = [&]() { return Val<T>::make(next++); };
    // start from a non-trivial state as well as from the empty one
    if (mc::choose(2)) {
        for (int k = 0; k < 3; ++k) { T t = fresh(); X[0].push_back(t); M[0].v.push_back(t); M[0].d[0]++; }
        MC_LOG("start X0=", M[0]);
    } else MC_LOG("start X0 empty");
    for (unsigned s = 0; s < depth; ++s) {
        unsigned a = mc::choose(2), b = 1 - a;
        vec<1,T>& x = X[a]; vec<1,T>& y = X[b]; Arr<T>& m = M[a]; Arr<T>& n = M[b];
        std::string an = "X" + std::to_string(a), bn = "X" + std::to_string(b);
        switch (mc::choose(22)) {
        case 0: MC_LOG(an, ".push_back"); { T t = fresh(); x.push_back(t); m.v.push_back(t); m.d[0]++; } break;
        case 1: MC_LOG(an, ".push_back(own last element)"); if (m.v.empty()) throw mc::skip{};
                x.push_back(x[x.size()-1]); m.v.push_back(m.v.back()); m.d[0]++; break;
        case 2: MC_LOG(an, ".clear"); x.clear(); m = Arr<T>({0}); break;
        case 3: MC_LOG(an, ".resize(n+2)"); x.resize(m.v.size()+2); m.v.resize(m.v.size()+2); m.d[0] += 2; break;
        case 4: MC_LOG(an, ".resize(n/2)"); x.resize(m.v.size()/2); m.v.resize(m.v.size()/2); m.d[0] = m.v.size(); break;
        case 5: MC_LOG(an, "=", bn); x = y; m = n; break;
        case 6: MC_LOG(an, "=move(", bn, ")"); x = std::move(y); m = n; n = Arr<T>({0}); break;
        case 7: MC_LOG(an, " constructed by move from ", bn); { vec<1,T> z(std::move(y)); m = n; n = Arr<T>({0}); expect(y, n, "moved-from"); x = z; } break;
        case 8: MC_LOG("swap"); std::swap(x, y); std::swap(m, n); break;
        case 9: MC_LOG(an, "=", an); { vec<1,T>& r = x; x = r; } break;
        case 10: MC_LOG(an, "={a,b,c}"); { T p = fresh(), q = fresh(), r = fresh(); x = {p,q,r}; m = Arr<T>({3}, {p,q,r}); } break;
        case 11: MC_LOG(an, "={}"); x = vec<1,T>{}; m = Arr<T>({0}); break;
        case 12: MC_LOG("append(", an, ",", bn, ")"); append(x, y); m.v.insert(m.v.end(), n.v.begin(), n.v.end()); m.d[0] = m.v.size(); break;
        case 13: MC_LOG("prepend(", an, ",", bn, ")"); prepend(x, y); m.v.insert(m.v.begin(), n.v.begin(), n.v.end()); m.d[0] = m.v.size(); break;
        case 14: MC_LOG("append(", an, ",", an, ")"); { append(x, x); auto t = m.v; m.v.insert(m.v.end(), t.begin(), t.end()); m.d[0] = m.v.size(); } break;
        case 15: MC_LOG("prepend(", an, ",", an, ")"); { prepend(x, x); auto t = m.v; m.v.insert(m.v.end(), t.begin(), t.end()); m.d[0] = m.v.size(); } break;
        case 16: MC_LOG("inplace_remove(", an, ", first and last)"); { if (m.v.size() < 2) throw mc::skip{};
                inplace_remove(x, vec1u{0, m.v.size()-1}); m.v.erase(m.v.begin()); m.v.pop_back(); m.d[0] = m.v.size(); } break;
        case 17: MC_LOG(an, "=", an, "[reversed indices + repeat]"); { if (m.v.empty()) throw mc::skip{};
                std::vector<sz> id; for (sz i = m.v.size(); i-- > 0;) id.push_back(i); id.push_back(0); id.push_back(m.v.size()-1);
                vec1u vid = makeu(id); x = x[vid]; std::vector<T> t; for (auto i : id) t.push_back(m.v[i]); m.v = t; m.d[0] = t.size(); } break;
        case 18: MC_LOG(an, "=", bn, "[_]"); x = y[_]; m = n; break;
        case 19: MC_LOG(an, ".reserve(size+3)"); x.reserve(m.v.size()+3); break;
        case 20: MC_LOG(an, "=const ", an, "[1-_ twice]"); { if (m.v.size() < 2) throw mc::skip{};
                const vec<1,T>& cx = x; vec1u id = makeu({1, 0, 1, 0, 1}); x = cx[id]; Arr<T> t({5}); for (int k = 0; k < 5; ++k) t.v[k] = m.v[id[k]]; m = t; } break;
        case 21: MC_LOG(an, "=replicate(x,3) by size ctor and assignment"); { vec<1,T> z(3); m = Arr<T>({3}); expect(z, m, "size constructor"); x = z; } break;
        }
        mc::op();
        expect(X[0], M[0], "X0"); expect(X[1], M[1], "X1");
        if (!m.v.empty()) {
            MC_CHECK(mc::same<T>(x.front(), m.v.front()) && mc::same<T>(x.back(), m.v.back()), "front()/back() wrong");
        }
        if (m.v.size() > 24) throw mc::skip{};
    }
    // copies are independent
    vec<1,T> c = X[0]; Arr<T> mc0 = M[0];
    c.push_back(fresh());
    if (!mc0.v.empty()) c[0] = Val<T>::make(7);
    expect(X[0], M[0], "original after its copy was modified");
}

MC_SCENARIO_S(history_1d_int, 3) { hist1<int_t>(mc::thorough() ? 4 : 3); }
MC_SCENARIO_S(history_1d_string, 3) { hist1<std::string>(mc::thorough() ? 4 : 3); }
MC_SCENARIO_S(history_1d_bool, 3) { hist1<bool>(3); }
MC_SCENARIO_S(history_1d_double, 3) { hist1<double>(mc::thorough() ? 4 : 3); }

// ---------------------------------------------------------------- multi-D histories
template<std::size_t D> struct tools;
template<> struct tools<2> {
    static std::vector<Dims> shapes() { return {{2,3},{3,2},{1,3},{0,3},{2,2}}; }
    static std::vector<Dims> rows() { return {{3},{2},{1}}; }
    template<typename V> static void resize(V& v, const Dims& d) { v.resize(d[0], d[1]); }
};
template<> struct tools<3> {
    static std::vector<Dims> shapes() { return {{2,1,2},{1,2,2},{2,2,1},{0,2,2},{2,2,2}}; }
    static std::vector<Dims> rows() { return {{1,2},{2,2},{2,1}}; }
    template<typename V> static void resize(V& v, const Dims& d) { std::array<uint_t,2> t = {{d[1], d[2]}}; v.resize(d[0], t); }
};
template<typename T> struct nested {
    static void assign(vec<2,T>& v, const Arr<T>& a) {
        const auto& x = a.v;
        if (a.d == Dims{2,3}) v = {{x[0],x[1],x[2]},{x[3],x[4],x[5]}};
        else if (a.d == Dims{3,2}) v = {{x[0],x[1]},{x[2],x[3]},{x[4],x[5]}};
        else if (a.d == Dims{1,3}) v = {{x[0],x[1],x[2]}};
        else if (a.d == Dims{2,2}) v = vec<2,T>({{x[0],x[1]},{x[2],x[3]}});
        else throw mc::skip{};
    }
    static void assign(vec<3,T>& v, const Arr<T>& a) {
        const auto& x = a.v;
        if (a.d == Dims{2,1,2}) v = {{{x[0],x[1]}},{{x[2],x[3]}}};
        else if (a.d == Dims{1,2,2}) v = {{{x[0],x[1]},{x[2],x[3]}}};
        else if (a.d == Dims{2,2,1}) v = {{{x[0]},{x[1]}},{{x[2]},{x[3]}}};
        else if (a.d == Dims{2,2,2}) v = vec<3,T>({{{x[0],x[1]},{x[2],x[3]}},{{x[4],x[5]},{x[6],x[7]}}});
        else throw mc::skip{};
    }
};
// append along dimension N in the model; false if incompatible
template<typename T> bool model_append(Arr<T>& m, const Arr<T>& n, sz N, bool front) {
    if (m.v.empty()) { m = n; return true; }
    if (n.v.empty()) return true;
    for (sz k = 0; k < m.d.size(); ++k) if (k != N && m.d[k] != n.d[k]) return false;
    Arr<T> r; r.d = m.d; r.d[N] += n.d[N]; r.v.resize(prod(r.d));
    const Arr<T>& p = front ? n : m; const Arr<T>& q = front ? m : n;
    for (sz f = 0; f < r.v.size(); ++f) {
        auto i = multi(r.d, f);
        if (i[N] < p.d[N]) r.v[f] = p.v[flat(p.d, i)]; else { i[N] -= p.d[N]; r.v[f] = q.v[flat(q.d, i)]; }
    }
    m = r; return true;
}
template<std::size_t D, typename T> void do_append(vec<D,T>& x, const vec<D,T>& y, sz N, bool front) {
    if (N == 0) { if (front) prepend<0>(x, y); else append<0>(x, y); }
    else if (N == 1) { if (front) prepend<1>(x, y); else append<1>(x, y); }
    else { if (front) prepend<D-1>(x, y); else append<D-1>(x, y); }
}

template<typename T> void push_view(vec<2,T>& x, vec<1,T>& r) { x.push_back(r[_]); }
template<typename T> void push_view(vec<3,T>& x, vec<2,T>& r) { x.push_back(r(_,_)); }
template<typename T> auto full(vec<2,T>& y) -> decltype(y(_,_)) { return y(_,_); }
template<typename T> auto full(vec<3,T>& y) -> decltype(y(_,_,_)) { return y(_,_,_); }
template<typename T> auto rowsel(vec<2,T>& y, const vec1u& i) -> decltype(y(i,_)) { return y(i,_); }
template<typename T> auto rowsel(vec<3,T>& y, const vec1u& i) -> decltype(y(i,_,_)) { return y(i,_,_); }

template<std::size_t D, typename T> void histN(unsigned depth) {
    vec<D,T> X[2]; Arr<T> M[2] = {Arr<T>(Dims(D, 0)), Arr<T>(Dims(D, 0))};
    long next = BASE;
    auto shapes = tools<D>::shapes(); auto rows = tools<D>::rows();
    auto mk = [&](const Dims& d) { Arr<T> a(d); for (sz i = 0; i < a.v.size(); ++i) a.v[i] = Val<T>::make(next++); return a; };
    if (mc::choose(2)) { M[0] = mk(shapes[0]); X[0] = make<D,T>(M[0]); MC_LOG("start X0=", M[0]); } else MC_LOG("start X0 empty");
    for (unsigned s = 0; s < depth; ++s) {
        unsigned a = mc::choose(2), b = 1 - a;
        vec<D,T>& x = X[a]; vec<D,T>& y = X[b]; Arr<T>& m = M[a]; Arr<T>& n = M[b];
        std::string an = "X" + std::to_string(a), bn = "X" + std::to_string(b);
        switch (mc::choose(15)) {
        case 0: { unsigned k = mc::choose(rows.size()); bool view = mc::choose(2) == 1; auto r = mk(rows[k]); MC_LOG(an, ".push_back(row ", r, view ? " as view)" : ")");
                bool okm = m.v.empty() || Dims(m.d.begin()+1, m.d.end()) == r.d;
                vec<D-1,T> rv = make<D-1,T>(r);
                bool ok = mc::attempt([&] { if (view) { push_view(x, rv); } else x.push_back(rv); });
                MC_CHECK(ok == okm, ok ? "push_back of an incompatible row was accepted" : "push_back of a compatible row was rejected");
                if (!ok) return;
                if (m.v.empty()) { m.d[0] = 1; for (sz k2 = 1; k2 < D; ++k2) m.d[k2] = r.d[k2-1]; m.v = r.v; }
                else { m.d[0]++; m.v.insert(m.v.end(), r.v.begin(), r.v.end()); } } break;
        case 1: MC_LOG(an, ".clear"); x.clear(); m = Arr<T>(Dims(D, 0)); break;
        case 2: { auto d = shapes[mc::choose(shapes.size())]; MC_LOG(an, ".resize ", d); tools<D>::resize(x, d);
                MC_CHECK(Dims(x.dims.begin(), x.dims.end()) == d, "resize: wrong dimensions"); MC_CHECK(x.size() == prod(d), "resize: wrong number of elements");
                m = mk(d); for (sz i = 0; i < m.v.size(); ++i) x[i] = m.v[i]; } break;
        case 3: MC_LOG(an, "=", bn); x = y; m = n; break;
        case 4: MC_LOG(an, "=move(", bn, ")"); x = std::move(y); m = n; n = Arr<T>(Dims(D, 0)); break;
        case 5: MC_LOG(an, " constructed by move from ", bn); { vec<D,T> z(std::move(y)); m = n; n = Arr<T>(Dims(D, 0)); expect(y, n, "moved-from"); x = std::move(z); expect(z, n, "moved-from"); } break;
        case 6: MC_LOG("swap"); std::swap(x, y); std::swap(m, n); break;
        case 7: { auto d = shapes[mc::choose(shapes.size())]; Arr<T> v = mk(d); MC_LOG(an, "= nested list ", v); nested<T>::assign(x, v); m = v; } break;
        case 8: { auto d = shapes[mc::choose(shapes.size())]; std::array<uint_t,D> dd; for (sz k = 0; k < D; ++k) dd[k] = d[k]; MC_LOG(an, "= vec(dims ", d, ")"); x = vec<D,T>(dd); m = Arr<T>(d); } break;
        case 9: case 10: { sz N = mc::choose(D); bool front = mc::choose(2) == 1; bool self = mc::choose(2) == 1;
                MC_LOG(front ? "prepend<" : "append<", N, ">(", an, ",", self ? an : bn, ")");
                Arr<T> t = m; const Arr<T> src = self ? m : n; bool okm = model_append(t, src, N, front);
                bool ok = mc::attempt([&] { do_append(x, self ? x : y, N, front); });
                MC_CHECK(ok == okm, ok ? "append/prepend of incompatible dimensions was accepted" : "append/prepend of compatible dimensions was rejected");
                if (!ok) return; m = t; } break;
        case 11: { if (m.v.empty()) throw mc::skip{}; sz k = mc::choose(m.d[0] + 1); MC_LOG("inplace_remove(", an, ",{", k, "})");
                bool ok = mc::attempt([&] { inplace_remove(x, vec1u{k}); });
                MC_CHECK(ok == (k < m.d[0]), ok ? "removal of an index out of bounds was accepted" : "valid removal was rejected");
                if (!ok) return;
                sz p = m.v.size()/m.d[0]; m.v.erase(m.v.begin()+k*p, m.v.begin()+(k+1)*p); m.d[0]--; } break;
        case 12: MC_LOG(an, "= view of ", bn); x = full(y); m = n; break;
        case 13: MC_LOG(an, "= row-reversed view of ", an); { if (m.v.empty()) throw mc::skip{}; std::vector<sz> id; for (sz i = m.d[0]; i-- > 0;) id.push_back(i); id.push_back(0);
                vec1u vid = makeu(id); x = rowsel(x, vid); Arr<T> t; t.d = m.d; t.d[0] = id.size(); sz p = m.v.size()/m.d[0];
                for (auto i : id) t.v.insert(t.v.end(), m.v.begin()+i*p, m.v.begin()+(i+1)*p); m = t; } break;
        case 14: MC_LOG(an, " flattened and reformed"); { vec<1,T> f = flatten(x); expect(f, Arr<T>({m.v.size()}, m.v), "flatten"); x = reform(f, x.dims); } break;
        }
        mc::op();
        expect(X[0], M[0], "X0"); expect(X[1], M[1], "X1");
        if (m.v.size() > 30) throw mc::skip{};
    }
}
MC_SCENARIO_S(history_2d_int, 3) { histN<2,int_t>(mc::thorough() ? 4 : 3); }
MC_SCENARIO_S(history_3d_int, 3) { histN<3,int_t>(3); }
MC_SCENARIO_S(history_2d_string, 3) { histN<2,std::string>(mc::thorough() ? 3 : 2); }
MC_SCENARIO_S(history_2d_bool, 3) { histN<2,bool>(mc::thorough() ? 3 : 2); }
