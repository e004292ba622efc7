// History engine: drives the real library through random histories and runs the monitors.
#pragma once
#include <algorithm>
#include <random>

#include "gen.hpp"

namespace vf {

inline double tol_of(const Info& f) { return f.inexact ? 1e-7 * (1 + f.M()) : 0; }

struct Engine {
    std::unique_ptr<Model> own;
    Model& m;
    Rng r;
    Stats& st;
    std::set<uint64_t>* states_seen = nullptr;
    std::ostringstream log;
    vector<Shadow> sh;
    string opts;
    ssize_t cap = 0;  // of larger models

    Engine(uint64_t seed, Stats& st) : own(std::make_unique<Model>()), m(*own), r(seed), st(st) { m.st = &st; }
    // shares a (locked) model
    Engine(uint64_t seed, Stats& st, Model& model) : m(model), r(seed), st(st) {}

    const string nm(int i) const { return m.infos[i].op; }
    string where(int i) const { return "#" + std::to_string(i) + " " + m.infos[i].desc; }

    // ------------------------------------------------------------------ reading
    ND read(int i, const State& s, const char* kind) const {
        const Info& f = m.infos[i];
        const ArrayNode* p = f.ptr;
        ND o;
        auto sp = p->shape(s);
        o.shape.assign(sp.begin(), sp.end());
        ssize_t n = p->size(s);
        if (n < 0 || prod(o.shape) != n)
            fail(kind, f.op, where(i) + ": size " + std::to_string(n) + " does not match shape " + shp(o.shape));
        if ((ssize_t)o.shape.size() != p->ndim()) fail(kind, f.op, where(i) + ": ndim differs from shape");
        if (p->len(s) != n * (ssize_t)sizeof(double)) fail(kind, f.op, where(i) + ": len differs from size");
        auto v = p->view(s);
        if (v.size() != n) fail(kind, f.op, where(i) + ": view size differs");
        o.data.reserve(n);
        auto it = v.begin();
        for (ssize_t k = 0; k < n; ++k, ++it) o.data.push_back(*it);
        if (it != v.end()) fail(kind, f.op, where(i) + ": walking the view does not reach its end");
        // walk the exposed buffer by strides
        auto strides = p->strides();
        if ((ssize_t)strides.size() != p->ndim()) fail(kind, f.op, where(i) + ": strides length");
        if (n) {
            const char* b = (const char*)p->buff(s);
            vector<ssize_t> c(o.shape.size(), 0);
            for (ssize_t k = 0; k < n; ++k) {
                ssize_t off = 0;
                for (size_t a = 0; a < c.size(); ++a) off += c[a] * strides[a];
                double x = *(const double*)(b + off);
                if (x != o.data[k])
                    fail(kind, f.op, where(i) + ": buffer walked by strides differs from the view");
                for (size_t a = c.size(); a-- > 0;) {
                    if (++c[a] < o.shape[a]) break;
                    c[a] = 0;
                }
            }
        }
        return o;
    }

    vector<ND> read_all(const State& s, const char* kind) const {
        vector<ND> out(m.infos.size());
        for (size_t i = 0; i < m.infos.size(); ++i)
            if (m.infos[i].ptr && !m.infos[i].dead) out[i] = read((int)i, s, kind);
        return out;
    }

    static bool same(const ND& a, const ND& b, double tol) {
        if (a.shape != b.shape || a.data.size() != b.data.size()) return false;
        for (size_t i = 0; i < a.data.size(); ++i) {
            double x = a.data[i], y = b.data[i];
            if (tol == 0 ? !(x == y) : !(std::fabs(x - y) <= tol)) return false;
        }
        return true;
    }

    void compare(const vector<ND>& got, const vector<ND>& want, const char* kind, bool exact,
                 const string& when) const {
        for (size_t i = 0; i < m.infos.size(); ++i) {
            const Info& f = m.infos[i];
            if (!f.ptr || f.dead) continue;
            if (!same(got[i], want[i], exact ? 0 : tol_of(f)))
                fail(kind, f.op, when + ": " + where((int)i) + " is " + show(got[i]) + ", expected " + show(want[i]));
            st.add(string("mon:") + kind);
        }
    }

    // ------------------------------------------------------------------ domains
    void domain(int di, const State& s, const char* when) const {
        const Info& f = m.infos[m.decs[di]];
        auto bad = [&](const string& w) { fail("domain", f.op, string(when) + ": " + where(m.decs[di]) + " " + w); };
        st.add("mon:domain");
        switch (f.dk) {
            case DK::binary:
            case DK::integer: {
                ND v = read(m.decs[di], s, "domain");
                for (double x : v.data)
                    if (!(x >= f.lo && x <= f.hi && x == std::floor(x))) bad("holds " + std::to_string(x));
                if (v.shape != f.shape) bad("has the wrong shape");
                break;
            }
            case DK::list:
            case DK::set: {
                ND v = read(m.decs[di], s, "domain");
                std::set<double> seen;
                for (double x : v.data) {
                    if (!(x >= 0 && x < f.n && x == std::floor(x))) bad("holds " + std::to_string(x));
                    if (!seen.insert(x).second) bad("holds a duplicate");
                }
                if ((ssize_t)v.data.size() < f.mn || (ssize_t)v.data.size() > f.mx) bad("has an illegal size");
                break;
            }
            case DK::lists:
            case DK::bitsets: {
                vector<int> cnt(f.n, 0);
                for (size_t i = 0; i < m.infos.size(); ++i)
                    if (m.infos[i].parent == m.decs[di]) {
                        ND v = read((int)i, s, "domain");
                        if (f.dk == DK::lists) {
                            for (double x : v.data) {
                                if (!(x >= 0 && x < f.n && x == std::floor(x))) bad("holds an illegal element");
                                cnt[(int)x]++;
                            }
                        } else {
                            if ((ssize_t)v.data.size() != f.n) bad("bit set has the wrong length");
                            for (size_t k = 0; k < v.data.size(); ++k) {
                                if (v.data[k] != 0 && v.data[k] != 1) bad("holds a non-bit");
                                cnt[k] += (int)v.data[k];
                            }
                        }
                    }
                for (int c : cnt)
                    if (c != 1) bad("is not a partition");
                break;
            }
            default:
                break;
        }
    }

    // shadow of what the state shows (after domain() has validated it)
    Shadow learn(int di, const State& s) const {
        const Info& f = m.infos[m.decs[di]];
        Shadow o;
        if (f.dk == DK::lists || f.dk == DK::bitsets) {
            if (f.dk == DK::bitsets) o.owner.assign(f.n, -1);
            for (size_t i = 0; i < m.infos.size(); ++i)
                if (m.infos[i].parent == m.decs[di]) {
                    ND v = read((int)i, s, "domain");
                    if (f.dk == DK::lists)
                        o.ls.push_back(v.data);
                    else
                        for (size_t k = 0; k < v.data.size(); ++k)
                            if (v.data[k] != 0) o.owner[k] = m.infos[i].child_index;
                }
        } else
            o.v = read(m.decs[di], s, "domain").data;
        return o;
    }

    // ------------------------------------------------------------------ initial states
    template <class T>
    void shuffle(vector<T>& v) {
        for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[r.range(0, i - 1)]);
    }
    Shadow random_shadow(int di) {
        const Info& f = m.infos[m.decs[di]];
        Shadow s;
        switch (f.dk) {
            case DK::binary:
            case DK::integer:
                for (ssize_t i = 0; i < prod(f.shape); ++i)
                    s.v.push_back(r.chance(15) ? f.lo : (r.chance(15) ? f.hi : (double)r.range((ll)f.lo, (ll)f.hi)));
                break;
            case DK::list:
            case DK::set: {
                for (ssize_t i = 0; i < f.n; ++i) s.v.push_back((double)i);
                shuffle(s.v);
                s.v.resize(r.range(f.mn, f.mx));
                break;
            }
            case DK::bitsets:
                for (ssize_t i = 0; i < f.n; ++i) s.owner.push_back((int)r.range(0, f.mx - 1));
                break;
            case DK::lists: {
                s.ls.resize(f.mx);
                vector<double> e;
                for (ssize_t i = 0; i < f.n; ++i) e.push_back((double)i);
                shuffle(e);
                for (double x : e) s.ls[r.range(0, f.mx - 1)].push_back(x);
                break;
            }
            case DK::dyn: {
                ssize_t rows = r.range(f.mn, f.mx / f.n);
                for (ssize_t i = 0; i < rows * f.n; ++i) s.v.push_back(dynval(f));
                break;
            }
            default:
                break;
        }
        return s;
    }
    double dynval(const Info& f) {
        return f.g ? r.range((ll)f.lo * 4, (ll)f.hi * 4) / 4.0 : (double)r.range((ll)f.lo, (ll)f.hi);
    }

    void init_dec(int di, State& s, const Shadow& v) {
        const Info& f = m.infos[m.decs[di]];
        switch (f.dk) {
            case DK::binary: {
                auto* p = dynamic_cast<BinaryNode*>(f.ptr);
                bool whole = true;
                for (double x : v.v) whole = whole && x == std::floor(x);
                if (!whole || r.chance(50)) p->initialize_state(s, vector<double>(v.v));
                else {
                    vector<int> t(v.v.begin(), v.v.end());
                    p->initialize_state(s, t);
                }
                break;
            }
            case DK::integer: dynamic_cast<IntegerNode*>(f.ptr)->initialize_state(s, vector<double>(v.v)); break;
            case DK::list:
            case DK::set: dynamic_cast<CollectionNode*>(f.ptr)->initialize_state(s, v.v); break;
            case DK::bitsets: {
                vector<vector<double>> c(f.mx, vector<double>(f.n, 0));
                for (ssize_t i = 0; i < f.n; ++i) c[v.owner[i]][i] = 1;
                dynamic_cast<DisjointBitSetsNode*>(f.node)->initialize_state(s, c);
                break;
            }
            case DK::lists: dynamic_cast<DisjointListsNode*>(f.node)->initialize_state(s, v.ls); break;
            case DK::dyn:
                dynamic_cast<DynamicArrayTestingNode*>(f.ptr)->initialize_state(s, std::span<const double>(v.v));
                break;
            default: break;
        }
    }

    State fresh(const vector<Shadow>& sh) {
        State s = m.graph.empty_state();
        vector<int> order;
        for (size_t i = 0; i < m.decs.size(); ++i) order.push_back((int)i);
        shuffle(order);
        for (int d : order) init_dec(d, s, sh[d]);
        static_cast<const Graph&>(m.graph).initialize_state(s);
        return s;
    }

    // illegal explicit initial states have to be refused and leave the slot empty
    void refuse_init() {
        State s = m.graph.empty_state();
        for (size_t d = 0; d < m.decs.size(); ++d) {
            const Info& f = m.infos[m.decs[d]];
            Shadow v = random_shadow((int)d);
            string what;
            auto idx = [&](size_t n) { return (size_t)r.range(0, n - 1); };
            std::function<void()> go;
            switch (f.dk) {
                case DK::binary:
                case DK::integer:
                    switch (r.range(0, 4)) {
                        case 0: v.v.push_back(f.lo); what = "too long"; break;
                        case 1: if (v.v.empty()) continue; v.v.pop_back(); what = "too short"; break;
                        case 2: if (v.v.empty()) continue; v.v[idx(v.v.size())] = f.hi + 1; what = "above the bound"; break;
                        case 3: if (v.v.empty()) continue; v.v[idx(v.v.size())] = f.lo - 1; what = "below the bound"; break;
                        default: if (v.v.empty() || f.lo == f.hi) continue; v.v[idx(v.v.size())] = f.lo + 0.5; what = "fractional"; break;
                    }
                    break;
                case DK::list:
                case DK::set:
                    switch (r.range(0, 5)) {
                        case 0: if (v.v.empty()) continue; v.v[idx(v.v.size())] = (double)f.n; what = "too large"; break;
                        case 1: if (v.v.empty()) continue; v.v[idx(v.v.size())] = -1; what = "negative"; break;
                        case 2: if (v.v.size() < 2) continue; v.v[0] = v.v[1]; what = "duplicate"; break;
                        case 3: if (v.v.empty()) continue; v.v[idx(v.v.size())] += 0.5; what = "fractional"; break;
                        case 4: if (f.mn == 0) continue; v.v.resize(f.mn - 1); what = "too small"; break;
                        default:
                            if (f.mx >= f.n) continue;
                            v.v.clear();
                            for (ssize_t i = 0; i < f.mx + 1; ++i) v.v.push_back((double)i);
                            what = "too many";
                            break;
                    }
                    break;
                case DK::lists:
                    switch (r.range(0, 5)) {
                        case 0: v.ls.emplace_back(); what = "too many lists"; break;
                        case 1: v.ls[0].push_back((double)f.n); what = "too large"; break;
                        case 2: if (f.n == 0) continue; v.ls[idx(v.ls.size())].push_back(0); what = "duplicate"; break;
                        case 3: {
                            size_t k = idx(v.ls.size());
                            if (v.ls[k].empty()) continue;
                            v.ls[k].pop_back();
                            what = "missing element";
                            break;
                        }
                        case 4: {
                            size_t k = idx(v.ls.size());
                            if (v.ls[k].empty()) continue;
                            v.ls[k][0] = -1;
                            what = "negative";
                            break;
                        }
                        default: {
                            size_t k = idx(v.ls.size());
                            if (v.ls[k].empty()) continue;
                            v.ls[k][0] += 0.5;
                            what = "fractional";
                            break;
                        }
                    }
                    break;
                case DK::bitsets: {
                    vector<vector<double>> c(f.mx, vector<double>(f.n, 0));
                    for (ssize_t i = 0; i < f.n; ++i) c[v.owner[i]][i] = 1;
                    if (f.n < 2 || f.mx < 2) continue;
                    switch (r.range(0, 3)) {
                        case 0: {  // one element in two sets, another in none
                            size_t a = idx(f.n), b = (a + 1) % f.n;
                            for (auto& x : c) x[a] = 0;
                            for (auto& x : c) x[b] = 0;
                            c[0][b] = c[1][b] = 1;
                            what = "doubled and missing element";
                            break;
                        }
                        case 1: c[0][idx(f.n)] = 2; what = "not binary"; break;
                        case 2: c[idx(f.mx)].push_back(0); what = "too long"; break;
                        default: c.pop_back(); what = "too few sets"; break;
                    }
                    auto* p = dynamic_cast<DisjointBitSetsNode*>(f.node);
                    go = [p, c, &s]() { p->initialize_state(s, c); };
                    break;
                }
                default: continue;
            }
            if (!go) go = [&]() { init_dec((int)d, s, v); };
            bool threw = false;
            try {
                go();
            } catch (const std::exception&) {
                threw = true;
            }
            st.add("mon:init");
            st.add("init_refusal:" + f.op + ":" + what);
            if (!threw) fail("init", f.op, where(m.decs[d]) + ": an illegal initial state was accepted (" + what + ")");
            if (s[m.decs[d] >= 0 ? f.node->topological_index() : 0])
                fail("init", f.op, where(m.decs[d]) + ": a refused initial state was stored (" + what + ")");
        }
    }

    void default_states() {
        State s = m.graph.empty_state();
        for (size_t d = 0; d < m.decs.size(); ++d) {
            const Info& f = m.infos[m.decs[d]];
            if (f.dk == DK::dyn) init_dec((int)d, s, random_shadow((int)d));
            else if ((f.dk == DK::binary || f.dk == DK::integer) && r.chance(50)) {
                std::mt19937 g((unsigned)r.next());
                RngAdaptor rng(g);
                dynamic_cast<NumberNode*>(f.ptr)->initialize_state(s, rng);
            }
        }
        static_cast<const Graph&>(m.graph).initialize_state(s);
        for (size_t d = 0; d < m.decs.size(); ++d) domain((int)d, s, "after default initialisation");
        vector<Shadow> v;
        for (size_t d = 0; d < m.decs.size(); ++d) v.push_back(learn((int)d, s));
        compare(read_all(s, "fresh_value"), m.eval(v), "fresh_value", false, "default state");
    }

    // ------------------------------------------------------------------ moves
    // A move is recorded as a closure so that the twin can replay it.
    struct Move {
        int di;
        std::function<void(State&)> go;
        string text;
    };

    // picks and applies one move on decision di of state s and updates the shadow `v`
    std::optional<Move> move(int di, State& s, Shadow& v) {
        const Info& f = m.infos[m.decs[di]];
        Move mv;
        mv.di = di;
        std::ostringstream t;
        t << where(m.decs[di]) << " ";
        bool hidden = false;  // learn visible value from the state
        Shadow before = v;
        ssize_t keep_idx = -1;
        string what;
        if (f.dk != DK::dyn && r.chance(22)) {
            unsigned seed = (unsigned)r.next();
            const DecisionNode* d = f.dec;
            mv.go = [d, seed](State& x) {
                std::mt19937 g(seed);
                RngAdaptor rng(g);
                d->default_move(x, rng);
            };
            t << "default_move(" << seed << ")";
            mv.go(s);
            domain(di, s, "after default_move");
            v = learn(di, s);
            what = "default";
        } else {
            switch (f.dk) {
                case DK::binary: {
                    auto* p = dynamic_cast<BinaryNode*>(f.ptr);
                    ssize_t n = prod(f.shape);
                    if (!n) return std::nullopt;
                    ssize_t i = r.range(0, n - 1), j = r.range(0, n - 1);
                    switch (r.range(0, 4)) {
                        case 0: mv.go = [=](State& x) { p->flip(x, i); }; v.v[i] = 1 - v.v[i]; t << "flip " << i; what = "flip"; break;
                        case 1: mv.go = [=](State& x) { p->set(x, i); }; v.v[i] = 1; t << "set " << i; what = "set"; break;
                        case 2: mv.go = [=](State& x) { p->unset(x, i); }; v.v[i] = 0; t << "unset " << i; what = "unset"; break;
                        case 3: mv.go = [=](State& x) { p->exchange(x, i, j); }; std::swap(v.v[i], v.v[j]); t << "exchange " << i << "," << j; what = "exchange"; break;
                        default: {
                            int val = (int)r.range(0, 1);
                            mv.go = [=](State& x) { p->set_value(x, i, val); };
                            v.v[i] = val;
                            t << "set_value " << i << "=" << val;
                            what = "set_value";
                        }
                    }
                    break;
                }
                case DK::integer: {
                    auto* p = dynamic_cast<IntegerNode*>(f.ptr);
                    ssize_t n = prod(f.shape);
                    if (!n) return std::nullopt;
                    ssize_t i = r.range(0, n - 1), j = r.range(0, n - 1);
                    if (r.chance(10)) {  // an illegal value has to be refused
                        ll val = r.chance(50) ? (ll)f.hi + 1 : (ll)f.lo - 1;
                        bool threw = false;
                        try {
                            p->set_value(s, i, (int)val);
                        } catch (const std::exception&) {
                            threw = true;
                        }
                        if (!threw) fail("domain", f.op, where(m.decs[di]) + ": set_value accepted " + std::to_string(val));
                        st.add("mon:move_refused");
                    }
                    if (r.chance(25)) {
                        mv.go = [=](State& x) { p->exchange(x, i, j); };
                        std::swap(v.v[i], v.v[j]);
                        t << "exchange " << i << "," << j;
                        what = "exchange";
                    } else {
                        int val = (int)(r.chance(15) ? f.lo : (r.chance(15) ? f.hi : (double)r.range((ll)f.lo, (ll)f.hi)));
                        mv.go = [=](State& x) { p->set_value(x, i, val); };
                        v.v[i] = val;
                        t << "set_value " << i << "=" << val;
                        what = "set_value";
                    }
                    break;
                }
                case DK::list:
                case DK::set: {
                    auto* p = dynamic_cast<CollectionNode*>(f.ptr);
                    ssize_t n = v.v.size();
                    int k = (int)r.range(0, 4);
                    if (k == 0 && f.dynamic && n < f.mx) {
                        mv.go = [=](State& x) { p->grow(x); };
                        v.v.push_back(-1);
                        hidden = true, keep_idx = n;
                        t << "grow";
                        what = "grow";
                    } else if (k == 1 && f.dynamic && n > f.mn) {
                        mv.go = [=](State& x) { p->shrink(x); };
                        v.v.pop_back();
                        t << "shrink";
                        what = "shrink";
                    } else if (k == 2 && n > 0) {
                        ssize_t a = r.range(0, n - 1), b = r.range(0, n - 1);
                        mv.go = [=](State& x) { p->rotate(x, a, b); };
                        double e = v.v[b];
                        v.v.erase(v.v.begin() + b);
                        v.v.insert(v.v.begin() + a, e);
                        t << "rotate dest=" << a << " src=" << b;
                        what = "rotate";
                    } else if (k == 3 && f.dynamic && n > 0 && n < f.mx) {
                        ssize_t a = r.range(0, n - 1), b = r.range(n, f.mx - 1);
                        if (r.chance(50)) mv.go = [=](State& x) { p->exchange(x, a, b); };
                        else mv.go = [=](State& x) { p->exchange(x, b, a); };
                        hidden = true, keep_idx = a;
                        t << "exchange " << a << "," << b << " (hidden)";
                        what = "exchange_hidden";
                    } else {
                        if (n < 1) return std::nullopt;
                        ssize_t a = r.range(0, n - 1), b = r.range(0, n - 1);
                        mv.go = [=](State& x) { p->exchange(x, a, b); };
                        std::swap(v.v[a], v.v[b]);
                        t << "exchange " << a << "," << b;
                        what = "exchange";
                    }
                    break;
                }
                case DK::bitsets: {
                    if (f.n == 0) return std::nullopt;
                    auto* p = dynamic_cast<DisjointBitSetsNode*>(f.node);
                    ssize_t a = r.range(0, f.mx - 1), b = r.range(0, f.mx - 1), e = r.range(0, f.n - 1);
                    if (r.chance(60)) a = v.owner[e];
                    mv.go = [=](State& x) { p->swap_between_sets(x, a, b, e); };
                    if (v.owner[e] == a) v.owner[e] = (int)b;
                    else if (v.owner[e] == b) v.owner[e] = (int)a;
                    t << "swap_between_sets " << a << "," << b << " el " << e;
                    what = "swap";
                    break;
                }
                case DK::lists: {
                    auto* p = dynamic_cast<DisjointListsNode*>(f.node);
                    vector<int> ne;
                    for (size_t k = 0; k < v.ls.size(); ++k)
                        if (!v.ls[k].empty()) ne.push_back((int)k);
                    if (ne.empty()) return std::nullopt;
                    int a = r.pick(ne);
                    ssize_t n = v.ls[a].size();
                    ssize_t i = r.range(0, n - 1), j = r.range(0, n - 1);
                    switch (r.range(0, 5)) {
                        case 0:
                            mv.go = [=](State& x) { p->swap_in_list(x, a, i, j); };
                            std::swap(v.ls[a][i], v.ls[a][j]);
                            t << "swap_in_list " << a << ":" << i << "," << j;
                            what = "swap";
                            break;
                        case 1: {
                            mv.go = [=](State& x) { p->rotate_in_list(x, a, i, j); };
                            double e = v.ls[a][j];
                            v.ls[a].erase(v.ls[a].begin() + j);
                            v.ls[a].insert(v.ls[a].begin() + i, e);
                            t << "rotate_in_list " << a << ": dest=" << i << " src=" << j;
                            what = "rotate";
                            break;
                        }
                        case 2: {  // a completely new configuration
                            auto nv = random_shadow(di).ls;
                            mv.go = [=](State& x) {
                                for (size_t k = 0; k < nv.size(); ++k) p->set_state(x, k, nv[k]);
                            };
                            v.ls = nv;
                            t << "set_state of every list";
                            what = "set_state";
                            break;
                        }
                        default: {
                            int b = (int)r.range(0, f.mx - 1);
                            ssize_t q = v.ls[b].size() - (a == b ? 1 : 0);
                            ssize_t k = r.range(0, q);
                            mv.go = [=](State& x) { p->pop_to_list(x, a, i, b, k); };
                            double e = v.ls[a][i];
                            v.ls[a].erase(v.ls[a].begin() + i);
                            v.ls[b].insert(v.ls[b].begin() + k, e);
                            t << "pop_to_list " << a << ":" << i << " -> " << b << ":" << k;
                            what = "pop";
                        }
                    }
                    break;
                }
                case DK::dyn: {
                    auto* p = dynamic_cast<DynamicArrayTestingNode*>(f.ptr);
                    ssize_t rows = v.v.size() / f.n, mxr = f.mx / f.n;
                    int k = (int)r.range(0, 3);
                    if (k == 0 && rows < mxr) {
                        int cnt = (int)r.range(1, std::min<ssize_t>(2, mxr - rows));
                        vector<double> nv;
                        for (ssize_t q = 0; q < cnt * f.n; ++q) nv.push_back(dynval(f));
                        mv.go = [=](State& x) { p->grow(x, std::span<const double>(nv)); };
                        for (double q : nv) v.v.push_back(q);
                        t << "grow " << cnt;
                        what = "grow";
                    } else if (k == 1 && rows > f.mn) {
                        mv.go = [=](State& x) { p->shrink(x); };
                        v.v.resize(v.v.size() - f.n);
                        t << "shrink";
                        what = "shrink";
                    } else if (!v.v.empty()) {
                        ssize_t i = r.range(0, v.v.size() - 1);
                        double val = dynval(f);
                        mv.go = [=](State& x) { p->set(x, i, val); };
                        v.v[i] = val;
                        t << "set " << i << "=" << val;
                        what = "set";
                    } else
                        return std::nullopt;
                    break;
                }
                default: return std::nullopt;
            }
            mv.go(s);
            if (hidden) {
                domain(di, s, "after a move");
                Shadow a = learn(di, s);
                if (a.v.size() != v.v.size()) fail("move", f.op, where(m.decs[di]) + ": " + t.str() + " gave the wrong size");
                v.v[keep_idx] = a.v[keep_idx];
                // the incoming element was not visible before
                if (std::count(before.v.begin(), before.v.end(), a.v[keep_idx]))
                    fail("move", f.op, where(m.decs[di]) + ": " + t.str() + " brought in a visible element");
            }
        }
        // the decision must show exactly the requested values
        check_dec(di, s, v, t.str());
        st.add("move:" + f.op + ":" + what);
        mv.text = t.str();
        log << "    " << mv.text << "\n";
        return mv;
    }

    void check_dec(int di, const State& s, const Shadow& v, const string& t) {
        const Info& f = m.infos[m.decs[di]];
        domain(di, s, "after a move");
        Shadow a = learn(di, s);
        if (a.v != v.v || a.ls != v.ls || a.owner != v.owner)
            fail("move", f.op, "after " + t + " the decision does not hold the requested values");
        if (f.dk == DK::lists) {
            auto* p = dynamic_cast<DisjointListsNode*>(f.node);
            for (size_t k = 0; k < v.ls.size(); ++k)
                if (p->get_disjoint_list_size(const_cast<State&>(s), k) != (ssize_t)v.ls[k].size())
                    fail("move", f.op, "get_disjoint_list_size is wrong after " + t);
        }
        if (f.dk == DK::bitsets) {
            auto* p = dynamic_cast<DisjointBitSetsNode*>(f.node);
            for (size_t k = 0; k < v.owner.size(); ++k)
                if (p->get_containing_set_index(const_cast<State&>(s), k) != v.owner[k])
                    fail("move", f.op, "get_containing_set_index is wrong after " + t);
        }
        if (f.dk == DK::binary || f.dk == DK::integer) {
            auto* p = dynamic_cast<NumberNode*>(f.ptr);
            for (size_t k = 0; k < v.v.size(); ++k)
                if (p->get_value(const_cast<State&>(s), k) != v.v[k])
                    fail("move", f.op, "get_value is wrong after " + t);
        }
        st.add("mon:move");
    }

    // ------------------------------------------------------------------ monitors
    void check_diffs(const State& s, const vector<ND>& before, const vector<ND>& now) {
        for (size_t i = 0; i < m.infos.size(); ++i) {
            const Info& f = m.infos[i];
            if (!f.ptr || f.dead) continue;
            auto bad = [&](const string& w) {
                std::ostringstream o;
                o << where((int)i) << ": " << w << "; before " << show(before[i]) << " now " << show(now[i]) << " diff";
                for (auto& u : f.ptr->diff(s)) o << " (" << u.index << ": " << u.old << "->" << u.value << ")";
                fail("diff", f.op, o.str());
            };
            vector<double> v = before[i].data;
            bool pl = false, rm = false, up = false;
            for (const auto& u : f.ptr->diff(s)) {
                ssize_t n = v.size();
                bool placed = std::isnan(u.old), removed = std::isnan(u.value);
                if (placed && removed) bad("an update from nothing to nothing");
                if (placed) {
                    if (u.index != n) bad("placement not at the end");
                    v.push_back(u.value);
                    pl = true;
                } else if (removed) {
                    if (n == 0 || u.index != n - 1) bad("removal not at the end");
                    if (v.back() != u.old) bad("removal names a value that was not held");
                    v.pop_back();
                    rm = true;
                } else {
                    if (u.index < 0 || u.index >= n) bad("index out of range");
                    if (v[u.index] != u.old) bad("old value is not the value held");
                    v[u.index] = u.value;
                    up = true;
                }
            }
            if (v != now[i].data) bad("replaying the changes does not give the new value");
            if (f.ptr->size_diff(s) != (ssize_t)now[i].data.size() - (ssize_t)before[i].data.size())
                bad("size_diff is wrong (" + std::to_string(f.ptr->size_diff(s)) + ")");
            st.add("mon:diff");
            if (pl) st.add("seen:placement:" + f.op);
            if (rm) st.add("seen:removal:" + f.op);
            if (up) st.add("seen:update:" + f.op);
        }
    }

    void check_quiet(const State& s, const char* when) {
        for (size_t i = 0; i < m.infos.size(); ++i) {
            const Info& f = m.infos[i];
            if (!f.ptr || f.dead) continue;
            if (!f.ptr->diff(s).empty()) fail("pending", f.op, string(when) + ": " + where((int)i) + " still reports changes");
            if (f.ptr->size_diff(s) != 0) fail("pending", f.op, string(when) + ": " + where((int)i) + " still reports a size difference");
            st.add("mon:pending");
        }
    }

    void check_bounds(const State& s, const vector<ND>& now) {
        for (size_t i = 0; i < m.infos.size(); ++i) {
            const Info& f = m.infos[i];
            if (!f.ptr || f.dead) continue;
            auto bad = [&](const string& w) { fail("bounds", f.op, where((int)i) + ": " + w + "; value " + show(now[i])); };
            if (!now[i].data.empty()) {
                double lo = f.ptr->min(), hi = f.ptr->max();
                double t = f.inexact ? tol_of(f) : 0;
                bool integral = f.ptr->integral(), logical = f.ptr->logical();
                for (double x : now[i].data) {
                    if (!(x >= lo - t)) bad("below the advertised minimum " + std::to_string(lo));
                    if (!(x <= hi + t)) bad("above the advertised maximum " + std::to_string(hi));
                    if (integral && x != std::floor(x)) bad("advertised integral");
                    if (logical && x != 0 && x != 1) bad("advertised logical");
                }
            }
            ssize_t n = now[i].data.size();
            auto sz = [&](const SizeInfo& si, const char* w) {
                if (si.min && n < *si.min) bad(string(w) + " advertises at least " + std::to_string(*si.min) + " elements");
                if (si.max && n > *si.max) bad(string(w) + " advertises at most " + std::to_string(*si.max) + " elements");
            };
            SizeInfo si = f.ptr->sizeinfo();
            sz(si, "sizeinfo");
            if (!f.dynamic) {
                if (n != f.ptr->size()) bad("static size differs");
            } else {
                sz(si.substitute(1), "sizeinfo.substitute(1)");
                sz(si.substitute(100), "sizeinfo.substitute(100)");
                st.add("mon:sizeinfo");
            }
            auto sh = f.ptr->shape();
            for (size_t k = 0; k < sh.size(); ++k)
                if (!(k == 0 && f.dynamic) && sh[k] != now[i].shape[k]) bad("static shape differs");
            st.add("mon:bounds");
        }
    }

    // `now` is what the symbols of the state hold
    void check_goal(const State& s, const vector<ND>& now, const char* when) {
        double e = m.graph.energy(s);
        if (m.objective >= 0) {
            double w = now[m.objective].data.at(0);
            if (e != w)
                fail("energy", "graph", string(when) + ": energy " + std::to_string(e) + ", objective is " + std::to_string(w));
            st.add("mon:energy");
        }
        bool ok = true;
        for (int c : m.constraints) ok = ok && now[c].data.at(0) != 0;
        if (m.graph.feasible(s) != ok) fail("feasible", "graph", string(when) + ": feasible() is " + std::to_string(!ok));
        if (!m.constraints.empty()) st.add(ok ? "mon:feasible_true" : "mon:feasible_false");
    }

    // ------------------------------------------------------------------ graph
    void check_order() {
        auto nodes = m.graph.nodes();
        std::map<const Node*, ssize_t> pos;
        for (size_t i = 0; i < nodes.size(); ++i) pos[nodes[i].get()] = i;
        if (!m.graph.topologically_sorted()) fail("order", "graph", "not sorted after topological_sort");
        for (size_t i = 0; i < nodes.size(); ++i) {
            if (nodes[i]->topological_index() != (ssize_t)i)
                fail("order", "graph", "node at position " + std::to_string(i) + " has index " + std::to_string(nodes[i]->topological_index()));
            for (auto* p : nodes[i]->predecessors()) {
                if (!pos.count(p)) fail("order", "graph", "predecessor not in the graph");
                if (pos[p] >= (ssize_t)i) fail("order", "graph", "a node is ordered before one it depends on");
            }
            st.add("mon:order");
        }
        ssize_t k = 0;
        for (auto* d : m.graph.decisions()) {
            if (d != nodes[k].get() || static_cast<const Node*>(d)->topological_index() != k)
                fail("order", "graph", "decisions are not first in creation order");
            if (static_cast<const Node*>(d) != m.infos[m.decs[k]].node) fail("order", "graph", "decisions are not in creation order");
            ++k;
        }
        if (k != (ssize_t)m.decs.size() || m.graph.num_decisions() != k) fail("order", "graph", "wrong number of decisions");
        check_edges();
    }
    // every node's predecessors are the arguments it was built from, and the successor lists mirror
    void check_edges() {
        std::map<const Node*, int> id;
        for (size_t i = 0; i < m.infos.size(); ++i)
            if (!m.infos[i].dead) id[m.infos[i].node] = (int)i;
        if ((ssize_t)id.size() != m.graph.num_nodes()) fail("edges", "graph", "wrong number of nodes");
        std::map<std::pair<const Node*, const Node*>, int> fwd, bwd;
        for (auto& [n, i] : id) {
            auto& f = m.infos[i];
            vector<const Node*> want;
            for (int a : f.args) want.push_back(m.infos[a].node);
            vector<const Node*> got(n->predecessors().begin(), n->predecessors().end());
            if (f.op == "size" || f.op == "constant" || true) {
                if (got != want) fail("edges", f.op, where(i) + ": the predecessors are not its operands");
            }
            for (auto* p : got) bwd[{p, n}]++;
            for (auto& s : n->successors()) {
                fwd[{n, s.ptr}]++;
                if (s.index < 0 || s.index >= (int)s.ptr->predecessors().size() || s.ptr->predecessors()[s.index] != n)
                    fail("edges", f.op, where(i) + ": a successor entry has the wrong position");
            }
            st.add("mon:edges");
        }
        if (fwd != bwd) fail("edges", "graph", "successors do not mirror predecessors");
    }

    void locked_refusals() {
        auto& g = m.graph;
        ssize_t n = g.num_nodes();
        for (int k = 0; k < 3; ++k) {
            bool threw = false;
            try {
                if (k == 0) g.emplace_node<ConstantNode>(3.0);
                else if (k == 1) g.emplace_node<BinaryNode>(std::initializer_list<ssize_t>{2});
                else {
                    int a = -1;
                    for (size_t i = 0; i < m.infos.size(); ++i)
                        if (m.infos[i].ptr && !m.infos[i].dead) a = (int)i;
                    if (a < 0) continue;
                    g.emplace_node<AbsoluteNode>(m.infos[a].ptr);
                }
            } catch (const std::exception&) {
                threw = true;
            }
            if (!threw) fail("order", "graph", "a locked model accepted a symbol");
            if (g.num_nodes() != n) fail("order", "graph", "a locked model changed");
            st.add("mon:locked");
        }
        check_edges();
    }

    void do_remove(Gen& gen) {
        // user references
        vector<std::pair<int, std::shared_ptr<bool>>> watch;
        std::set<int> held;
        bool ignore = r.chance(35);
        vector<std::weak_ptr<bool>> weak(m.infos.size());
        for (size_t i = 0; i < m.infos.size(); ++i) {
            if (m.infos[i].dead) continue;
            if (r.chance(15)) {
                watch.emplace_back((int)i, m.infos[i].node->expired_ptr());
                held.insert((int)i);
            }
        }
        // expected: keep what the rules keep
        std::set<int> keep;
        std::function<void(int)> mark = [&](int i) {
            if (!keep.insert(i).second) return;
            for (int a : m.infos[i].args) mark(a);
        };
        ssize_t alive = 0;
        for (size_t i = 0; i < m.infos.size(); ++i) {
            const Info& f = m.infos[i];
            if (f.dead) continue;
            ++alive;
            if (f.dk != DK::none || f.parent >= 0) mark((int)i);
            if (!ignore && held.count((int)i)) mark((int)i);
        }
        if (m.objective >= 0) mark(m.objective);
        for (int c : m.constraints) mark(c);
        std::map<const Node*, int> id;
        for (size_t i = 0; i < m.infos.size(); ++i)
            if (!m.infos[i].dead) id[m.infos[i].node] = (int)i;
        ssize_t got = m.graph.remove_unused_nodes(ignore);
        st.add("mon:removal");
        std::set<int> left;
        for (auto& p : m.graph.nodes()) {
            if (!id.count(p.get())) fail("removal", "graph", "an unknown node appeared");
            left.insert(id[p.get()]);
        }
        for (auto& [n, i] : id) {
            bool k = keep.count(i), l = left.count(i);
            if (k && !l) fail("removal", m.infos[i].op, where(i) + " is used but was removed");
            if (!k && l) fail("removal", m.infos[i].op, where(i) + " is unused but was kept");
        }
        if (got != alive - (ssize_t)keep.size()) fail("removal", "graph", "the number returned is wrong");
        for (auto& [i, p] : watch)
            if (*p != !left.count(i)) fail("removal", m.infos[i].op, "a handle does not report its expiry");
        st.add("seen:removed", got);
        for (size_t i = 0; i < m.infos.size(); ++i)
            if (!left.count((int)i) && !m.infos[i].dead) {
                m.infos[i].dead = true;
                m.infos[i].ptr = nullptr;
            }
        if (m.graph.topologically_sorted()) fail("removal", "graph", "still sorted after removal");
        check_edges();
        (void)gen;
    }

    void goals() {
        vector<int> ones, logical;
        for (size_t i = 0; i < m.infos.size(); ++i) {
            auto& f = m.infos[i];
            if (!f.ptr || f.dead || f.dynamic || prod(f.shape) != 1) continue;
            ones.push_back((int)i);
            if (f.ptr->logical()) logical.push_back((int)i);
        }
        if (!ones.empty() && r.chance(80)) {
            m.objective = r.pick(ones);
            m.graph.set_objective(m.infos[m.objective].ptr);
        }
        for (int k = 0; k < 3; ++k)
            if (!logical.empty() && r.chance(50)) {
                int c = r.pick(logical);
                m.constraints.push_back(c);
                m.graph.add_constraint(m.infos[c].ptr);
            }
    }

    // lazily evaluated, independent initialisation order
    void lazy(const vector<Shadow>& v, const vector<ND>& want) {
        State s;
        if (r.chance(50)) s = m.graph.empty_state();
        // decisions first
        ssize_t nd = m.decs.size();
        if ((ssize_t)s.size() < nd) s.resize(nd);
        for (size_t d = 0; d < m.decs.size(); ++d) init_dec((int)d, s, v[d]);
        vector<int> order;
        for (size_t i = 0; i < m.infos.size(); ++i)
            if (m.infos[i].ptr && !m.infos[i].dead) order.push_back((int)i);
        shuffle(order);
        size_t cut = order.size() / 2;
        for (size_t k = 0; k < cut; ++k) {
            Graph::recursive_initialize(s, m.infos[order[k]].node);
            ND got = read(order[k], s, "lazy");
            if (!same(got, want[order[k]], tol_of(m.infos[order[k]])))
                fail("lazy", nm(order[k]), where(order[k]) + " evaluated lazily is " + show(got) + ", expected " + show(want[order[k]]));
            st.add("mon:lazy");
        }
        // change one decision: reset it and everything that depends on it
        if (!m.decs.empty()) {
            int d = (int)r.range(0, nd - 1);
            vector<Shadow> v2 = v;
            v2[d] = random_shadow(d);
            std::set<const Node*> dep;
            std::function<void(const Node*)> walk = [&](const Node* n) {
                if (!dep.insert(n).second) return;
                for (auto& q : n->successors()) walk(q.ptr);
            };
            walk(m.infos[m.decs[d]].node);
            vector<bool> had;
            for (auto& p : m.graph.nodes())
                had.push_back(p->topological_index() < (ssize_t)s.size() && s[p->topological_index()]);
            Graph::recursive_reset(s, m.infos[m.decs[d]].node);
            size_t k = 0;
            for (auto& p : m.graph.nodes()) {
                bool has = p->topological_index() < (ssize_t)s.size() && s[p->topological_index()];
                bool expect = had[k] && !dep.count(p.get());
                if (has != expect) fail("lazy", "graph", "resetting a decision reset the wrong symbols");
                ++k;
            }
            init_dec(d, s, v2[d]);
            auto want2 = read_all(fresh(v2), "lazy");
            shuffle(order);
            for (int i : order) {
                Graph::recursive_initialize(s, m.infos[i].node);
                ND got = read(i, s, "lazy");
                if (!same(got, want2[i], tol_of(m.infos[i])))
                    fail("lazy", nm(i), where(i) + " re-evaluated after a reset is " + show(got) + ", expected " + show(want2[i]));
                st.add("mon:lazy");
            }
        }
    }

    // ------------------------------------------------------------------ history
    void build() {
        Gen g(m, r);
        cap = g.cap;
        if (cap) st.add(cap > 200 ? "seen:large" : "seen:medium");
        m.hostile = r.chance(75);
        m.try_invalid = true;
        g.decisions((int)r.range(1, 4));
        int nc = (int)r.range(1, 3);
        for (int i = 0; i < nc; ++i) g.add_constant();
        g.nodes((int)(!g.cap && r.chance(2) ? r.range(30, 80) : r.range(2, 12)));
        goals();
        if (r.chance(25)) do_remove(g);
        m.graph.topological_sort();
        check_order();
        if (r.chance(25)) locked_refusals();
        if (r.chance(25)) {
            m.graph.reset_topological_sort();
            if (m.graph.topologically_sorted()) fail("order", "graph", "still sorted after reset");
            if (r.chance(50)) g.decisions(1);
            g.nodes((int)r.range(1, 4));
            if (r.chance(30)) do_remove(g);
            m.graph.topological_sort();
            check_order();
        }
    }

    uint64_t hash(const vector<ND>& a) const {
        uint64_t h = 1469598103934665603ull;
        auto mix = [&](uint64_t x) { h = (h ^ x) * 1099511628211ull; };
        for (auto& n : a) {
            for (auto d : n.shape) mix((uint64_t)d + 77);
            for (double x : n.data) {
                uint64_t b;
                std::memcpy(&b, &x, 8);
                mix(b);
            }
        }
        for (auto& f : m.infos) mix(std::hash<string>()(f.op));
        return h;
    }

    void run_history(int steps) {
        int nd = (int)m.decs.size();
        sh.clear();
        for (int d = 0; d < nd; ++d) sh.push_back(random_shadow(d));
        refuse_init();
        default_states();
        const Graph& g = m.graph;
        State s = fresh(sh);
        State tw = fresh(sh);
        vector<ND> want = m.eval(sh);
        auto cur = read_all(s, "fresh_value");
        compare(cur, want, "fresh_value", false, "initial state");
        check_quiet(s, "after initialisation");
        check_bounds(s, cur);
        check_goal(s, cur, "initially");
        vector<Shadow> osh;
        for (int d = 0; d < nd; ++d) osh.push_back(random_shadow(d));
        State ot = fresh(osh);
        auto ocur = read_all(ot, "isolation");
        if (r.chance(40)) lazy(sh, cur);
        for (int step = 0; step < steps; ++step) {
            log << "  step " << step << "\n";
            vector<int> ds;
            for (int d = 0; d < nd; ++d)
                if (r.chance(nd == 1 ? 100 : 55)) ds.push_back(d);
            if (ds.empty()) ds.push_back((int)r.range(0, nd - 1));
            vector<Move> mv;
            vector<Shadow> nsh = sh;
            int k = (int)(r.chance(6) ? 0 : (r.chance(15) ? r.range(5, 14) : r.range(1, 5)));
            if (cap && r.chance(25)) k = (int)r.range(15, 90);
            for (int q = 0; q < k; ++q) {
                int d = r.pick(ds);
                auto one = move(d, s, nsh[d]);
                if (one) mv.push_back(*one);
            }
            // moves touch the decisions only
            vector<const Node*> src;
            for (int d : ds) src.push_back(m.infos[m.decs[d]].node);
            if (r.chance(12))
                for (int d = 0; d < nd; ++d)
                    if (!std::count(ds.begin(), ds.end(), d)) src.push_back(m.infos[m.decs[d]].node);
            shuffle(src);
            bool accept = r.chance(50);
            vector<ND> nwant = m.eval(nsh);
            vector<ND> scratch = read_all(fresh(nsh), "fresh_value");
            compare(scratch, nwant, "fresh_value", false, "evaluation from scratch");
            auto mon = [&](const State& x) {
                auto now = read_all(x, "inc_value");
                compare(now, scratch, "inc_value", false, "after propagating");
                compare(now, nwant, "oracle_value", false, "after propagating");
                check_diffs(x, cur, now);
                check_bounds(x, now);
                check_goal(x, now, "after propagating");
                if (states_seen) states_seen->insert(hash(now));
                return now;
            };
            int mode = (int)r.range(0, 9);
            if (mode == 9) {  // drop the moves before they were propagated
                log << "    revert without propagating\n";
                vector<const Node*> rs;
                for (int d : ds) rs.push_back(m.infos[m.decs[d]].node);
                for (auto* n : rs) n->revert(s);
                auto back = read_all(s, "snapshot");
                compare(back, cur, "snapshot", true, "after reverting moves that were not propagated");
                check_quiet(s, "after reverting moves");
                st.add("step:dropped");
                continue;
            }
            vector<ND> pending;
            if (mode < 5) {
                log << "    propose, " << (accept ? "accept" : "reject") << "\n";
                int called = 0;
                g.propose(s, src, [&](const Graph& gg, State& x) {
                    ++called;
                    if (&gg != &g || &x != &s) fail("propose", "graph", "the acceptance test was given something else");
                    {
                        // what the acceptance test can see
                        auto now = read_all(x, "propose");
                        compare(now, scratch, "propose", false, "in the acceptance test");
                        if (m.objective >= 0 && g.energy(x) != now[m.objective].data.at(0))
                            fail("propose", "graph", "the energy in the acceptance test is not the objective");
                    }
                    pending = mon(x);
                    return accept;
                });
                if (called != 1) fail("propose", "graph", "the acceptance test was called " + std::to_string(called) + " times");
                st.add("mon:propose");
            } else {
                log << "    descendants/propagate/" << (accept ? "commit" : "revert") << "\n";
                auto changed = Graph::descendants(s, src);
                check_descendants(src, changed);
                g.propagate(s, changed);
                pending = mon(s);
                if (accept) {
                    if (r.chance(50)) g.commit(s, changed);
                    else g.commit(s, std::vector<const Node*>(changed));
                } else {
                    if (r.chance(50)) g.revert(s, changed);
                    else g.revert(s, std::vector<const Node*>(changed));
                }
            }
            check_quiet(s, accept ? "after accepting" : "after rejecting");
            if (accept) {
                auto now = read_all(s, "snapshot");
                compare(now, pending, "snapshot", true, "after accepting");
                sh = nsh;
                want = nwant;
                cur = now;
                st.add("step:accepted");
                // the twin only ever sees accepted moves
                for (auto& o : mv) o.go(tw);
                g.propose(tw, src);
                auto tv = read_all(tw, "twin");
                compare(tv, cur, "twin", false, "the state that never saw a rejected move");
                check_quiet(tw, "after accepting (twin)");
            } else {
                auto back = read_all(s, "snapshot");
                compare(back, cur, "snapshot", true, "after rejecting");
                st.add("step:rejected");
            }
            check_goal(s, cur, accept ? "after accepting" : "after rejecting");
            for (int d = 0; d < nd; ++d) domain(d, s, "between moves");
            // other states of the model: nothing done to this one can be seen there
            if (r.chance(60)) {
                auto there = read_all(ot, "isolation");
                compare(there, ocur, "isolation", true, "another state of the model, which was not touched,");
                check_quiet(ot, "another state of the model, which was not touched");
                if (r.chance(50)) {
                    int d = (int)r.range(0, nd - 1);
                    int n = (int)r.range(1, 3);
                    for (int q = 0; q < n; ++q) move(d, ot, osh[d]);
                    vector<const Node*> one{m.infos[m.decs[d]].node};
                    g.propose(ot, one);
                    ocur = read_all(ot, "isolation");
                    compare(ocur, read_all(fresh(osh), "isolation"), "isolation", false, "a state used alongside another");
                    compare(read_all(s, "isolation"), cur, "isolation", true, "a state while another one was changed");
                }
            }
        }
    }

    void check_descendants(const vector<const Node*>& src, const vector<const Node*>& got) {
        std::set<const Node*> want;
        std::function<void(const Node*)> walk = [&](const Node* n) {
            if (!want.insert(n).second) return;
            for (auto& q : n->successors()) walk(q.ptr);
        };
        for (auto* n : src) walk(n);
        std::set<const Node*> have(got.begin(), got.end());
        if (have != want || have.size() != got.size()) fail("order", "graph", "descendants() is not the set of dependent symbols");
        for (size_t i = 1; i < got.size(); ++i)
            if (got[i - 1]->topological_index() >= got[i]->topological_index()) fail("order", "graph", "descendants() are not in order");
        st.add("mon:descendants");
    }
};

}  // namespace vf
