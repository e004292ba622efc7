// Random model construction through the public C++ API.
#pragma once
#include "ref.hpp"

namespace vf {

struct Gen {
    Model& m;
    Rng& r;
    // Some models are larger: their dimensions come from a few sizes so that operands still fit together
    vector<ssize_t> pool;
    ssize_t cap = 0;
    Gen(Model& m, Rng& r) : m(m), r(r) {
        int x = (int)r.range(0, 199);
        if (x < 3) {
            cap = 500;
            for (int i = 0; i < 2; ++i) pool.push_back(r.range(8, 150));
        } else if (x < 18) {
            cap = 120;
            for (int i = 0; i < 2; ++i) pool.push_back(r.range(5, 24));
        }
    }
    ssize_t size(ll normal) { return cap ? (r.chance(75) ? r.pick(pool) : r.range(5, 2 * pool[0])) : normal; }
    // how many more of something
    ll more(ll normal) { return cap && r.chance(60) ? r.range(normal, normal + pool[0]) : normal; }

    double quarter(ll a, ll b) { return r.range(a * 4, b * 4) / 4.0; }

    vector<ssize_t> rshape(int maxnd = 4) {
        static const vector<int> nds = {0, 1, 1, 1, 2, 2, 2, 3};
        int nd = std::min<int>(maxnd, r.chance(4) ? 4 : r.pick(nds));
        vector<ssize_t> s;
        for (int i = 0; i < nd; ++i) {
            int x = (int)r.range(0, 99);
            s.push_back(x < 4 ? 0 : (x < 16 ? 1 : (ssize_t)r.range(2, nd >= 4 ? 2 : nd >= 3 ? 3 : 4)));
            if (cap && x >= 16 && x < 80) {
                ssize_t d = r.pick(pool);
                if (prod(s) / std::max<ssize_t>(s.back(), 1) * d <= cap) s.back() = d;
            }
        }
        return s;
    }
    bool alive(int i) const { return !m.infos[i].dead && m.infos[i].ptr; }
    ArrayNode* P(int i) { return m.infos[i].ptr; }
    ssize_t maxn(const Info& f) const { return f.dynamic ? f.mx : prod(f.shape); }

    template <class F>
    int pick(F&& pred) {
        vector<int> c;
        for (size_t i = 0; i < m.infos.size(); ++i)
            if (alive((int)i) && pred(m.infos[i])) c.push_back((int)i);
        if (c.empty()) return -1;
        // prefer recent nodes half of the time so that chains get deep
        if (r.chance(50)) {
            size_t k = c.size() > 4 ? c.size() - 4 : 0;
            return c[r.range(k, c.size() - 1)];
        }
        return r.pick(c);
    }

    // constructs through the graph; turns an exception into a violation or a counted refusal
    template <class F>
    int make(Info f, bool expect_ok, F&& ctor) {
        try {
            f.ptr = ctor();
        } catch (const std::exception& e) {
            if (m.st) m.st->add("refused:" + f.op);
            check_graph();
            if (expect_ok)
                fail("refused", f.op,
                     "constructing " + f.desc + " was refused: " + string(e.what()));
            return -1;
        }
        ssize_t mx = f.mx;
        int id = m.add(std::move(f));
        Info& g = m.infos[id];
        if (!g.dynamic) g.mx = prod(g.shape);
        else g.mx = mx;
        return id;
    }

    // every successor pointer must belong to a node of the graph
    void check_graph() {
        std::unordered_set<const Node*> s;
        for (auto& p : m.graph.nodes()) s.insert(p.get());
        for (auto& p : m.graph.nodes()) {
            for (auto& sv : p->successors())
                if (!s.count(sv.ptr))
                    fail("dangling", "graph",
                         "after a refused construction a node keeps a successor that is not in "
                         "the model");
            for (auto* q : p->predecessors())
                if (!s.count(q)) fail("dangling", "graph", "predecessor not in the model");
        }
        if (m.st) m.st->add("mon:graph_after_refusal");
    }

    // ---------------------------------------------------------------- decisions
    void fin_dec(int id) {
        Info& f = m.infos[id];
        f.didx = (int)m.decs.size();
        m.decs.push_back(id);
    }
    void add_decision(DK dk) {
        Info f;
        f.dk = dk;
        std::ostringstream d;
        switch (dk) {
            case DK::binary: {
                auto s = rshape();
                f.op = "binary";
                d << "Binary" << shp(s);
                f.desc = d.str();
                f.lo = 0, f.hi = 1, f.mn = 0, f.mx = 0;
                ssize_t lo = 0, hi = 1;
                auto* p = m.graph.emplace_node<BinaryNode>(std::span<const ssize_t>(s));
                f.ptr = p, f.dec = p;
                f.n = prod(s);
                int id = m.add(f);
                m.infos[id].mn = lo, m.infos[id].mx = prod(s);
                (void)hi;
                fin_dec(id);
                break;
            }
            case DK::integer: {
                auto s = rshape();
                f.op = "integer";
                ll lo, hi;
                switch (r.range(0, 7)) {
                    case 0: lo = r.range(-5, 0); hi = r.range(0, 5); break;
                    case 1: lo = r.range(1, 3); hi = lo + r.range(0, 5); break;
                    case 2: lo = r.range(-9, -1); hi = lo + r.range(0, -1 - lo); break;
                    case 3: lo = hi = r.range(-3, 3); break;
                    case 4: lo = r.range(-2000000000ll, -1); hi = r.range(lo, 2000000000ll); break;
                    case 5: lo = 0; hi = r.range(1, 100); break;
                    default: lo = 0; hi = r.range(0, 3); break;
                }
                d << "Integer" << shp(s) << "[" << lo << "," << hi << "]";
                f.desc = d.str();
                f.lo = (double)lo, f.hi = (double)hi;
                auto* p = m.graph.emplace_node<IntegerNode>(std::span<const ssize_t>(s), (int)lo, (int)hi);
                f.ptr = p, f.dec = p;
                f.n = prod(s);
                int id = m.add(f);
                m.infos[id].mx = prod(s);
                fin_dec(id);
                break;
            }
            case DK::list: {
                ll n = r.chance(6) ? 0 : size(r.range(1, 5));
                f.op = "list";
                ll mn = n, mx = n;
                ListNode* p;
                if (r.chance(25) && n > 0) {
                    mn = r.range(0, n);
                    mx = r.range(mn, n);
                    p = m.graph.emplace_node<ListNode>(n, mn, mx);
                } else
                    p = m.graph.emplace_node<ListNode>(n);
                d << "List(" << n << "," << mn << "," << mx << ")";
                f.desc = d.str();
                f.lo = 0, f.hi = std::max<ll>(0, n - 1);
                f.ptr = p, f.dec = p;
                f.n = n, f.mn = mn;
                int id = m.add(f);
                m.infos[id].mx = mx;
                m.infos[id].mn = mn;
                m.infos[id].szclass = id;
                fin_dec(id);
                break;
            }
            case DK::set: {
                ll n = r.chance(6) ? 0 : size(r.range(1, 5));
                ll mn = 0, mx = n;
                SetNode* p;
                if (r.chance(50) && n > 0) {
                    mn = r.range(0, n);
                    mx = r.range(mn, n);
                    p = m.graph.emplace_node<SetNode>(n, mn, mx);
                } else
                    p = m.graph.emplace_node<SetNode>(n);
                f.op = "set";
                d << "Set(" << n << "," << mn << "," << mx << ")";
                f.desc = d.str();
                f.lo = 0, f.hi = std::max<ll>(0, n - 1);
                f.ptr = p, f.dec = p;
                f.n = n;
                int id = m.add(f);
                m.infos[id].mx = mx;
                m.infos[id].mn = mn;
                m.infos[id].szclass = id;
                fin_dec(id);
                break;
            }
            case DK::bitsets:
            case DK::lists: {
                ll n = r.chance(6) ? 0 : size(r.range(1, 5)), k = r.range(1, 4);
                bool bs = dk == DK::bitsets;
                f.op = bs ? "disjoint_bit_sets" : "disjoint_lists";
                d << f.op << "(" << n << "," << k << ")";
                f.desc = d.str();
                f.n = n, f.mn = k, f.mx = k;
                Node* pn;
                DisjointBitSetsNode* pb = nullptr;
                DisjointListsNode* pl = nullptr;
                if (bs) {
                    pb = m.graph.emplace_node<DisjointBitSetsNode>(n, k);
                    pn = pb;
                    f.dec = pb;
                } else {
                    pl = m.graph.emplace_node<DisjointListsNode>(n, k);
                    pn = pl;
                    f.dec = pl;
                }
                f.node = pn;
                int id = m.add(f);
                fin_dec(id);
                for (ll i = 0; i < k; ++i) {
                    Info c;
                    c.op = bs ? "disjoint_bit_set" : "disjoint_list";
                    c.desc = c.op + "#" + std::to_string(i);
                    c.args = {id};
                    c.parent = id;
                    c.child_index = (int)i;
                    c.lo = 0;
                    c.hi = bs ? 1 : std::max<ll>(0, n - 1);
                    c.n = n;
                    if (bs)
                        c.ptr = m.graph.emplace_node<DisjointBitSetNode>(pb);
                    else
                        c.ptr = m.graph.emplace_node<DisjointListNode>(pl);
                    int cid = m.add(c);
                    m.infos[cid].mx = n;
                    if (n) m.infos[cid].szclass = cid;
                }
                break;
            }
            case DK::dyn: {
                f.op = "dyn";
                int nd = r.chance(5) ? 4 : (int)r.range(1, 3);
                ssize_t a = r.range(1, 3), b = r.range(1, nd == 4 ? 2 : 3);
                ssize_t row = nd == 1 ? 1 : (nd == 2 ? a : nd == 3 ? a * b : a * b * 2);
                bool integral = r.chance(50);
                ll lo = r.range(-3, 3), hi = lo + r.range(0, 4);
                if (integral && r.chance(60)) lo = 0, hi = r.range(0, 3);
                ll mn = r.range(0, 3), mx = mn + more(r.range(0, 4));  // rows
                auto mk = [&](std::initializer_list<ssize_t> sh) {
                    return m.graph.emplace_node<DynamicArrayTestingNode>(
                            sh, (double)lo, (double)hi, integral, mn * row, mx * row);
                };
                DynamicArrayTestingNode* p =
                        nd == 1   ? mk({-1})
                        : nd == 2 ? mk({-1, a})
                        : nd == 3 ? mk({-1, a, b})
                                  : mk({-1, a, b, 2});
                d << "Dyn nd=" << nd << " a=" << a << " b=" << b << " [" << lo << "," << hi << "]"
                  << (integral ? "int" : "") << " rows[" << mn << "," << mx << "]";
                f.desc = d.str();
                f.lo = (double)lo, f.hi = (double)hi;
                f.g = integral ? 0 : 2;
                f.ptr = p, f.dec = p;
                f.n = row;
                int id = m.add(f);
                m.infos[id].mn = mn;          // rows
                m.infos[id].mx = mx * row;    // elements
                if (nd == 1 && mn < mx) m.infos[id].szclass = id;  // not of those with a size that cannot change
                fin_dec(id);
                break;
            }
            default:
                break;
        }
    }

    // ---------------------------------------------------------------- constants
    int add_constant() {
        auto s = rshape();
        int flavour = (int)r.range(0, 5);
        if (flavour == 4) {  // square, for permutations
            ssize_t n = r.range(1, 4);
            s.assign(r.range(1, 3), n);
            if (cap && s.size() <= 2) {
                ssize_t d = r.pick(pool);
                if (s.size() == 1 || d * d <= cap) s.assign(s.size(), d);
            }
        }
        bool index_like = r.chance(35);
        if (index_like && r.chance(70)) s = r.chance(30) ? vector<ssize_t>{} : vector<ssize_t>{size(r.range(1, 4))};
        Info f;
        f.op = "constant";
        auto buf = std::make_unique<vector<double>>();
        ssize_t n = prod(s);
        ll hi = more(r.range(0, 3));
        bool quart = r.chance(40);
        for (ssize_t i = 0; i < n; ++i)
            buf->push_back(index_like ? (double)r.range(0, hi)
                                      : (quart ? quarter(-4, 4) : (double)r.range(-4, 4)));
        f.lo = f.hi = n ? (*buf)[0] : 0;
        for (double x : *buf) f.lo = std::min(f.lo, x), f.hi = std::max(f.hi, x);
        f.g = quart && !index_like ? 2 : 0;
        ND val{s, *buf};
        f.ref = [val](const vector<const ND*>&) { return val; };
        f.desc = "Constant" + show(val);
        double* ptr = buf->data();
        if (s.empty() && r.chance(50)) {
            double v = buf->at(0);
            return make(f, true, [&]() { return m.graph.emplace_node<ConstantNode>(v); });
        }
        if (s.size() == 1 && r.chance(50)) {
            vector<double> v = *buf;
            return make(f, true, [&]() { return m.graph.emplace_node<ConstantNode>(v); });
        }
        m.owned.push_back(std::move(buf));
        return make(f, true, [&]() {
            return m.graph.emplace_node<ConstantNode>(ptr, std::span<const ssize_t>(s));
        });
    }

    // ---------------------------------------------------------------- arithmetic
    static void bounds_bin(const string& op, const Info& a, const Info& b, Info& f) {
        auto corners = [&](auto fn) {
            double c[4] = {fn(a.lo, b.lo), fn(a.lo, b.hi), fn(a.hi, b.lo), fn(a.hi, b.hi)};
            f.lo = *std::min_element(c, c + 4);
            f.hi = *std::max_element(c, c + 4);
        };
        f.inexact = a.inexact || b.inexact;
        f.g = std::max(a.g, b.g);
        if (op == "add") f.lo = a.lo + b.lo, f.hi = a.hi + b.hi;
        else if (op == "sub") f.lo = a.lo - b.hi, f.hi = a.hi - b.lo;
        else if (op == "mul") {
            corners([](double x, double y) { return x * y; });
            f.g = a.g + b.g;
        } else if (op == "div") {
            corners([](double x, double y) { return x / y; });
            f.inexact = true;
        } else if (op == "mod") f.lo = -b.M(), f.hi = b.M();
        else if (op == "max") f.lo = std::max(a.lo, b.lo), f.hi = std::max(a.hi, b.hi);
        else if (op == "min") f.lo = std::min(a.lo, b.lo), f.hi = std::min(a.hi, b.hi);
        else f.lo = 0, f.hi = 1, f.g = 0, f.inexact = false;
    }

    int add_binary_op() {
        static const vector<string> ops = {"add", "sub", "mul", "div", "mod", "eq",
                                           "le",  "and", "or",  "xor", "max", "min"};
        string op = r.pick(ops);
        bool exact_only = op == "mod" || op == "eq" || op == "le" || op == "and" || op == "or" || op == "xor";
        auto okin = [&](const Info& x) { return !(exact_only && x.inexact); };
        int a = pick([&](const Info& x) { return okin(x); });
        if (a < 0) return -1;
        const Info A = m.infos[a];
        int b = -1;
        auto denom = [&](const Info& x) {
            if (op != "div") return true;
            if (x.inexact || prod(x.shape) == 0) return false;
            double lo = x.ptr->min(), hi = x.ptr->max();
            return (lo > 0 && x.lo > 0) || (hi < 0 && x.hi < 0);
        };
        if (A.dynamic || r.chance(35))
            b = pick([&](const Info& x) {
                return okin(x) && denom(x) && !x.dynamic && prod(x.shape) == 1 &&
                       (!A.dynamic || x.shape.size() <= A.shape.size());
            });
        else
            b = pick([&](const Info& x) { return okin(x) && denom(x) && !x.dynamic && x.shape == A.shape; });
        if (b < 0) return -1;
        if (op != "div" && r.chance(50)) std::swap(a, b);
        const Info X = m.infos[a], Y = m.infos[b];
        Info f;
        f.op = op;
        f.args = {a, b};
        bounds_bin(op, X, Y, f);
        if (!Model::fits(f.M(), f.g)) return -1;
        f.mx = X.dynamic ? X.mx : Y.mx;
        f.szclass = X.dynamic ? X.szclass : Y.szclass;
        f.desc = op;
        f.ref = [op](const vector<const ND*>& v) {
            return broadcast2(*v[0], *v[1], [&](double x, double y) { return ref_bin(op, x, y); });
        };
        return make(f, true, [&]() -> ArrayNode* {
            auto* x = P(a);
            auto* y = P(b);
            auto& g = m.graph;
            if (op == "add") return g.emplace_node<AddNode>(x, y);
            if (op == "sub") return g.emplace_node<SubtractNode>(x, y);
            if (op == "mul") return g.emplace_node<MultiplyNode>(x, y);
            if (op == "div") return g.emplace_node<DivideNode>(x, y);
            if (op == "mod") return g.emplace_node<ModulusNode>(x, y);
            if (op == "eq") return g.emplace_node<EqualNode>(x, y);
            if (op == "le") return g.emplace_node<LessEqualNode>(x, y);
            if (op == "and") return g.emplace_node<AndNode>(x, y);
            if (op == "or") return g.emplace_node<OrNode>(x, y);
            if (op == "xor") return g.emplace_node<XorNode>(x, y);
            if (op == "max") return g.emplace_node<MaximumNode>(x, y);
            return g.emplace_node<MinimumNode>(x, y);
        });
    }

    int add_nary() {
        static const vector<string> ops = {"add", "mul", "max", "min"};
        string op = r.pick(ops);
        int a = pick([&](const Info& x) { return !x.dynamic && !(op == "mul" && x.inexact); });
        if (a < 0) return -1;
        auto shape = m.infos[a].shape;
        vector<int> args = {a};
        int n = (int)r.range(0, 3);
        for (int i = 0; i < n; ++i)
            args.push_back(pick([&](const Info& x) {
                return !x.dynamic && x.shape == shape && !(op == "mul" && x.inexact);
            }));
        Info f = m.infos[a];
        Info acc = f;
        double unit = std::max(1.0, f.M());
        for (size_t i = 1; i < args.size(); ++i) {
            Info t;
            bounds_bin(op, acc, m.infos[args[i]], t);
            acc = t;
            unit *= std::max(1.0, m.infos[args[i]].M());
        }
        if (op == "mul" && !Model::fits(unit, acc.g)) return -1;
        f = Info();
        f.lo = acc.lo, f.hi = acc.hi, f.g = acc.g, f.inexact = acc.inexact;
        if (!Model::fits(f.M(), f.g)) return -1;
        f.op = "nary_" + op;
        f.args = args;
        f.desc = f.op;
        f.ref = [op](const vector<const ND*>& v) {
            ND o = *v[0];
            for (size_t k = 1; k < v.size(); ++k)
                for (size_t i = 0; i < o.data.size(); ++i)
                    o.data[i] = ref_bin(op, o.data[i], v[k]->data[i]);
            return o;
        };
        vector<ArrayNode*> ps;
        for (int k : args) ps.push_back(P(k));
        auto go = [&](auto* tag) -> ArrayNode* {
            using T = std::remove_pointer_t<decltype(tag)>;
            if (r.chance(30)) {  // incremental construction
                T* p = m.graph.emplace_node<T>(ps[0]);
                for (size_t i = 1; i < ps.size(); ++i) p->add_node(ps[i]);
                return p;
            }
            return m.graph.emplace_node<T>(std::span<ArrayNode*>(ps));
        };
        return make(f, true, [&]() -> ArrayNode* {
            if (op == "add") return go((NaryAddNode*)nullptr);
            if (op == "mul") return go((NaryMultiplyNode*)nullptr);
            if (op == "max") return go((NaryMaximumNode*)nullptr);
            return go((NaryMinimumNode*)nullptr);
        });
    }

    int add_unary() {
        static const vector<string> ops = {"abs", "logical", "neg", "not", "square", "sqrt"};
        string op = r.pick(ops);
        bool ex = op == "logical" || op == "not" || op == "sqrt";
        int a = pick([&](const Info& x) {
            if (ex && x.inexact) return false;
            if (op == "sqrt") return x.lo >= 0 && x.ptr->min() >= 0;
            return true;
        });
        if (a < 0) return -1;
        const Info A = m.infos[a];
        Info f;
        f.op = op;
        f.desc = op;
        f.args = {a};
        f.g = A.g, f.inexact = A.inexact;
        f.mx = A.mx;
        f.szclass = A.szclass;
        if (op == "abs") f.lo = (A.lo > 0) ? A.lo : (A.hi < 0 ? -A.hi : 0), f.hi = A.M();
        else if (op == "neg") f.lo = -A.hi, f.hi = -A.lo;
        else if (op == "square") f.lo = 0, f.hi = A.M() * A.M(), f.g = 2 * A.g;
        else if (op == "sqrt") f.lo = 0, f.hi = std::sqrt(A.M()) + 1e-9, f.inexact = true;
        else f.lo = 0, f.hi = 1, f.g = 0, f.inexact = false;
        if (!Model::fits(f.M(), f.g)) return -1;
        f.ref = [op](const vector<const ND*>& v) {
            ND o = *v[0];
            for (double& x : o.data) x = ref_un(op, x);
            return o;
        };
        return make(f, true, [&]() -> ArrayNode* {
            auto* x = P(a);
            auto& g = m.graph;
            if (op == "abs") return g.emplace_node<AbsoluteNode>(x);
            if (op == "logical") return g.emplace_node<LogicalNode>(x);
            if (op == "neg") return g.emplace_node<NegativeNode>(x);
            if (op == "not") return g.emplace_node<NotNode>(x);
            if (op == "square") return g.emplace_node<SquareNode>(x);
            return g.emplace_node<SquareRootNode>(x);
        });
    }

    int add_reduce() {
        static const vector<string> ops = {"sum", "sum", "prod", "prod", "rmax", "rmin", "all", "any"};
        string op = r.pick(ops);
        bool ex = op == "all" || op == "any" || op == "prod";
        int a = pick([&](const Info& x) { return !(ex && x.inexact); });
        if (a < 0) return -1;
        const Info A = m.infos[a];
        std::optional<double> init;
        bool maybe_empty = A.dynamic || prod(A.shape) == 0;
        if ((maybe_empty && (op == "rmax" || op == "rmin")) || r.chance(35)) {
            init = (op == "all" || op == "any") ? (double)r.range(0, 1) : (double)r.range(-3, 3);
            if (r.chance(20) && op != "all" && op != "any") init = quarter(-2, 2);
        }
        Info f;
        f.op = op;
        f.desc = op + (init ? "(init=" + std::to_string(*init) + ")" : "");
        f.args = {a};
        f.g = A.g, f.inexact = A.inexact;
        double n = (double)maxn(A);
        double iv = init.value_or(op == "prod" ? 1 : 0);
        int ig = init ? 2 : 0;
        if (op == "sum") {
            f.lo = iv + std::min(0.0, n * A.lo);
            f.hi = iv + std::max(0.0, n * A.hi);
            f.g = std::max(f.g, ig);
        } else if (op == "prod") {
            double u = std::pow(std::max(1.0, A.M()), n) * std::max(1.0, std::fabs(iv));
            f.lo = -u, f.hi = u;
            f.g = (int)(A.g * n) + ig;
            if (A.g * n > 40) return -1;
        } else if (op == "rmax" || op == "rmin") {
            f.lo = init ? std::min(A.lo, iv) : A.lo;
            f.hi = init ? std::max(A.hi, iv) : A.hi;
            f.g = std::max(f.g, ig);
        } else
            f.lo = 0, f.hi = 1, f.g = 0, f.inexact = false;
        if (!Model::fits(f.M(), f.g)) return -1;
        f.ref = [op, init](const vector<const ND*>& v) { return ref_reduce(op, *v[0], init); };
        auto go = [&](auto* tag) -> ArrayNode* {
            using T = std::remove_pointer_t<decltype(tag)>;
            if (init) return m.graph.emplace_node<T>(P(a), *init);
            return m.graph.emplace_node<T>(P(a));
        };
        return make(f, true, [&]() -> ArrayNode* {
            if (op == "sum") return go((SumNode*)nullptr);
            if (op == "prod") return go((ProdNode*)nullptr);
            if (op == "rmax") return go((MaxNode*)nullptr);
            if (op == "rmin") return go((MinNode*)nullptr);
            if (op == "all") return go((AllNode*)nullptr);
            return go((AnyNode*)nullptr);
        });
    }

    int add_partial_sum() {
        int a = pick([&](const Info& x) { return !x.dynamic && x.shape.size() >= 1 && prod(x.shape) >= 1; });
        if (a < 0) return -1;
        const Info A = m.infos[a];
        ssize_t axis = r.range(0, A.shape.size() - 1);
        double init = r.chance(30) ? (double)r.range(-2, 2) : 0;
        Info f;
        f.op = "partial_sum";
        f.desc = "partial_sum(axis=" + std::to_string(axis) + ",init=" + std::to_string(init) + ")";
        f.args = {a};
        f.g = A.g, f.inexact = A.inexact;
        double n = (double)A.shape[axis];
        f.lo = init + std::min(0.0, n * A.lo), f.hi = init + std::max(0.0, n * A.hi);
        if (!Model::fits(f.M(), f.g)) return -1;
        f.ref = [axis, init](const vector<const ND*>& v) { return ref_partial_sum(*v[0], axis, init); };
        return make(f, true, [&]() -> ArrayNode* {
            if (init != 0) return m.graph.emplace_node<PartialSumNode>(P(a), axis, init);
            return m.graph.emplace_node<PartialSumNode>(P(a), axis);
        });
    }

    int add_where() {
        int x = pick([&](const Info&) { return true; });
        if (x < 0) return -1;
        const Info X = m.infos[x];
        int y = pick([&](const Info& t) { return t.shape == X.shape; });
        int c;
        if (X.dynamic || r.chance(50))
            c = pick([&](const Info& t) { return !t.inexact && !t.dynamic && prod(t.shape) == 1; });
        else
            c = pick([&](const Info& t) { return !t.inexact && !t.dynamic && t.shape == X.shape; });
        if (y < 0 || c < 0) return -1;
        const Info Y = m.infos[y], C = m.infos[c];
        Info f;
        f.op = "where";
        f.desc = "where";
        f.args = {c, x, y};
        f.lo = std::min(X.lo, Y.lo), f.hi = std::max(X.hi, Y.hi);
        f.g = std::max(X.g, Y.g), f.inexact = X.inexact || Y.inexact;
        f.mx = std::max(X.mx, Y.mx);
        if (!Model::fits(f.M(), f.g)) return -1;
        bool scalar = prod(C.shape) == 1;
        f.ref = [scalar](const vector<const ND*>& v) {
            if (scalar) return v[0]->data[0] != 0 ? *v[1] : *v[2];
            ND o = *v[1];
            for (size_t i = 0; i < o.data.size(); ++i)
                o.data[i] = v[0]->data[i] != 0 ? v[1]->data[i] : v[2]->data[i];
            return o;
        };
        return make(f, true, [&]() { return m.graph.emplace_node<WhereNode>(P(c), P(x), P(y)); });
    }

    int add_basic() {
        int a = pick([&](const Info& x) { return x.shape.size() >= 1 && x.ptr->contiguous(); });
        if (a < 0) return -1;
        const Info A = m.infos[a];
        vector<BIdx> ix;
        vector<BasicIndexingNode::slice_or_int> lib;
        std::ostringstream d;
        d << "basic[";
        for (size_t k = 0; k < A.shape.size(); ++k) {
            ssize_t dim = A.shape[k];
            BIdx b{};
            if (dim > 0 && r.chance(30)) {
                b.is_int = true;
                b.i = r.range(-dim, dim - 1);
                lib.push_back((ssize_t)b.i);
                d << b.i << ",";
            } else {
                b.is_int = false;
                ssize_t q = dim < 0 ? 4 : dim;
                if (r.chance(60)) b.s.start = r.range(-q - 1, q + 1);
                if (r.chance(60)) b.s.stop = r.range(-q - 1, q + 1);
                if (r.chance(35)) b.s.step = r.range(1, 3);
                if (r.chance(4)) b.s.step = r.pick(vector<ll>{8, 1ll << 40, 1ll << 62, std::numeric_limits<ll>::max()});
                auto o = [](std::optional<ll> v) {
                    return v ? std::optional<ssize_t>((ssize_t)*v) : std::nullopt;
                };
                lib.push_back(Slice(o(b.s.start), o(b.s.stop), o(b.s.step)));
                auto so = [](std::optional<ll> v) { return v ? std::to_string(*v) : string(); };
                d << so(b.s.start) << ":" << so(b.s.stop) << ":" << so(b.s.step) << ",";
            }
            ix.push_back(b);
        }
        d << "]";
        Info f;
        f.op = A.dynamic ? "basic_dyn" : "basic";
        f.desc = d.str();
        f.args = {a};
        f.lo = A.lo, f.hi = A.hi, f.g = A.g, f.inexact = A.inexact;
        f.mx = A.mx;
        f.ref = [ix](const vector<const ND*>& v) { return ref_basic(*v[0], ix); };
        return make(f, true, [&]() { return m.graph.emplace_node<BasicIndexingNode>(P(a), lib); });
    }

    static std::optional<ssize_t> min_rows(const Info& x) {
        auto si = x.ptr->sizeinfo().substitute(100);
        if (!si.min) return std::nullopt;
        ssize_t row = 1;
        for (size_t k = 1; k < x.shape.size(); ++k) row *= x.shape[k];
        if (row == 0) return std::nullopt;
        return *si.min / row;
    }

    int add_advanced() {
        int a = pick([&](const Info& x) { return x.shape.size() >= 1 && x.ptr->contiguous(); });
        if (a < 0) return -1;
        const Info A = m.infos[a];
        size_t nd = A.shape.size();
        vector<ssize_t> dims = A.shape;
        if (A.dynamic) dims[0] = min_rows(A).value_or(-1);
        auto cand = [&](size_t k, const Info& x) {
            return !x.inexact && x.shape.size() <= 1 && x.ptr->integral() && x.ptr->min() >= 0 &&
                   x.ptr->max() < dims[k] && x.lo >= 0 && x.hi < dims[k];
        };
        size_t k0 = r.range(0, nd - 1);
        int i0 = pick([&](const Info& x) { return cand(k0, x); });
        if (i0 < 0) return -1;
        const Info I0 = m.infos[i0];
        vector<int> which(nd, -1);
        vector<int> args = {a};
        for (size_t k = 0; k < nd; ++k) {
            int id = -1;
            if (k == k0)
                id = i0;
            else if (r.chance(45)) {
                if (I0.dynamic)
                    id = pick([&](const Info& x) {
                        return cand(k, x) && x.dynamic && (&x == &m.infos[i0] ||
                                                           (x.szclass >= 0 && x.szclass == I0.szclass));
                    });
                else
                    id = pick([&](const Info& x) { return cand(k, x) && !x.dynamic && x.shape == I0.shape; });
            }
            if (id >= 0) {
                which[k] = (int)args.size() - 1;
                args.push_back(id);
            }
        }
        // predict legality
        bool first = true, ended = false, split = false;
        for (size_t k = 0; k < nd; ++k) {
            if (which[k] >= 0) {
                if (!first && ended) split = true;
                first = false;
            } else if (!first)
                ended = true;
        }
        bool b1 = split || which[0] >= 0 || I0.shape.empty();
        bool ok = true;
        if (split && A.dynamic && which[0] < 0) ok = false;
        if (!b1 && I0.dynamic) ok = false;
        if (A.dynamic && which[0] < 0 && I0.shape.empty()) ok = false;
        vector<AdvancedIndexingNode::array_or_slice> lib;
        std::ostringstream d;
        d << "adv[";
        for (size_t k = 0; k < nd; ++k) {
            if (which[k] >= 0) {
                lib.push_back(P(args[which[k] + 1]));
                d << "#" << args[which[k] + 1] << ",";
            } else {
                lib.push_back(Slice());
                d << ":,";
            }
        }
        d << "]";
        Info f;
        f.op = A.dynamic ? "advanced_dyn" : "advanced";
        f.desc = d.str();
        f.args = args;
        f.lo = A.lo, f.hi = A.hi, f.g = A.g, f.inexact = A.inexact;
        {
            ssize_t mult = 1;
            for (size_t k = 0; k < nd; ++k)
                if (which[k] < 0) mult *= (k == 0 && A.dynamic) ? A.mx : A.shape[k];
            f.mx = mult * std::max<ssize_t>(1, maxn(I0));
        }
        if (nd == 1 && !A.dynamic && I0.dynamic) f.szclass = I0.szclass;
        f.ref = [which](const vector<const ND*>& v) {
            vector<const ND*> idx(v.begin() + 1, v.end());
            return ref_advanced(*v[0], which, idx);
        };
        return make(f, ok, [&]() { return m.graph.emplace_node<AdvancedIndexingNode>(P(a), lib); });
    }

    int add_permutation() {
        int a = pick([&](const Info& x) {
            if (x.op != "constant" || x.shape.empty()) return false;
            for (auto dd : x.shape)
                if (dd != x.shape[0]) return false;
            return x.shape[0] > 0;
        });
        if (a < 0) {
            if (r.chance(50)) add_constant();
            return -1;
        }
        ssize_t n = m.infos[a].shape[0];
        int o = pick([&](const Info& x) {
            return !x.inexact && x.shape.size() == 1 && x.shape[0] == n && x.ptr->integral() &&
                   x.ptr->min() >= 0 && x.ptr->max() < n && x.lo >= 0 && x.hi < n;
        });
        if (o < 0) return -1;
        Info f = m.infos[a];
        Info g;
        g.op = "permutation";
        g.desc = "permutation";
        g.args = {a, o};
        g.lo = f.lo, g.hi = f.hi, g.g = f.g;
        g.ref = [](const vector<const ND*>& v) { return ref_permutation(*v[0], *v[1]); };
        return make(g, true, [&]() { return m.graph.emplace_node<PermutationNode>(P(a), P(o)); });
    }

    int add_concat() {
        int a = pick([&](const Info& x) { return !x.dynamic && x.shape.size() >= 1; });
        if (a < 0) return -1;
        const Info A = m.infos[a];
        ssize_t axis = r.range(0, A.shape.size() - 1);
        vector<int> args = {a};
        int n = (int)r.range(0, 3);
        for (int i = 0; i < n; ++i) {
            int b = pick([&](const Info& x) {
                if (x.dynamic || x.shape.size() != A.shape.size()) return false;
                for (size_t k = 0; k < x.shape.size(); ++k)
                    if ((ssize_t)k != axis && x.shape[k] != A.shape[k]) return false;
                return true;
            });
            if (b >= 0) args.push_back(b);
        }
        std::swap(args[0], args[r.range(0, args.size() - 1)]);
        Info f;
        f.op = "concat";
        f.desc = "concat(axis=" + std::to_string(axis) + ")";
        f.args = args;
        f.lo = A.lo, f.hi = A.hi;
        ssize_t tot = 0;
        for (int k : args) {
            auto& x = m.infos[k];
            f.lo = std::min(f.lo, x.lo), f.hi = std::max(f.hi, x.hi);
            f.g = std::max(f.g, x.g), f.inexact |= x.inexact;
            tot += prod(x.shape);
        }
        if (tot > 200 || !Model::fits(f.M(), f.g)) return -1;
        f.ref = [axis](const vector<const ND*>& v) { return ref_concat(v, axis); };
        vector<ArrayNode*> ps;
        for (int k : args) ps.push_back(P(k));
        return make(f, true, [&]() {
            return m.graph.emplace_node<ConcatenateNode>(std::span<ArrayNode*>(ps), axis);
        });
    }

    int add_reshape() {
        int a = pick([&](const Info& x) { return !x.dynamic && x.ptr->contiguous(); });
        if (a < 0) return -1;
        const Info A = m.infos[a];
        ssize_t n = prod(A.shape);
        vector<ssize_t> s;
        ssize_t rest = n;
        int pieces = (int)r.range(0, 2);
        for (int i = 0; i < pieces && rest > 0; ++i) {
            vector<ssize_t> dv;
            for (ssize_t q = 1; q <= rest; ++q)
                if (rest % q == 0) dv.push_back(q);
            ssize_t q = r.pick(dv);
            s.push_back(q);
            rest /= q;
        }
        if (rest != 1 || s.empty()) {
            if (!(n == 1 && r.chance(50) && s.empty())) s.push_back(rest);
        }
        Info f = A;
        Info g;
        g.op = "reshape";
        g.desc = "reshape" + shp(s);
        g.args = {a};
        g.lo = f.lo, g.hi = f.hi, g.g = f.g, g.inexact = f.inexact;
        g.ref = [s](const vector<const ND*>& v) { return ND{s, v[0]->data}; };
        return make(g, true, [&]() {
            return m.graph.emplace_node<ReshapeNode>(P(a), std::span<const ssize_t>(s));
        });
    }

    int add_size() {
        int a = pick([&](const Info& x) { return x.dynamic || r.chance(20); });
        if (a < 0) return -1;
        Info f;
        f.op = "size";
        f.desc = "size";
        f.args = {a};
        f.lo = 0, f.hi = (double)std::max<ssize_t>(maxn(m.infos[a]), 0);
        f.ref = [](const vector<const ND*>& v) {
            return ND{{}, {(double)v[0]->data.size()}};
        };
        return make(f, true, [&]() { return m.graph.emplace_node<SizeNode>(P(a)); });
    }

    int add_qm() {
        int a = pick([&](const Info& x) { return !x.dynamic && x.shape.size() == 1 && x.M() < 100000; });
        if (a < 0) return -1;
        const Info A = m.infos[a];
        int n = (int)A.shape[0];
        QuadraticModel qm(n);
        vector<double> lin(n, 0);
        std::map<std::pair<int, int>, double> q;
        double bound = 0;
        int ops = (int)r.range(0, 2 * n);
        for (int i = 0; i < n; ++i) {
            lin[i] = (double)r.range(-3, 3);
            qm.set_linear(i, lin[i]);
            bound += std::fabs(lin[i]) * A.M();
        }
        for (int t = 0; t < ops && n; ++t) {
            int u = (int)r.range(0, n - 1), v = (int)r.range(0, n - 1);
            double b = (double)r.range(-3, 3);
            auto key = std::make_pair(std::min(u, v), std::max(u, v));
            if (r.chance(50)) {
                qm.add_quadratic(u, v, b);
                q[key] += b;
            } else {
                qm.set_quadratic(u, v, b);
                q[key] = b;
            }
        }
        for (auto& [k, b] : q) bound += std::fabs(b) * A.M() * A.M();
        Info f;
        f.op = "qm";
        f.desc = "qm";
        f.args = {a};
        f.lo = -bound, f.hi = bound;
        f.g = 2 * A.g, f.inexact = A.inexact;
        if (!Model::fits(f.M() + 1, f.g)) return -1;
        f.ref = [lin, q](const vector<const ND*>& v) {
            double s = 0;
            for (size_t i = 0; i < lin.size(); ++i) s += lin[i] * v[0]->data[i];
            for (auto& [k, b] : q) s += b * v[0]->data[k.first] * v[0]->data[k.second];
            return ND{{}, {s}};
        };
        return make(f, true, [&]() {
            return m.graph.emplace_node<QuadraticModelNode>(P(a), std::move(qm));
        });
    }

    // ---------------------------------------------------------------- invalid constructions
    template <class F>
    void expect_throw(const string& what, F&& ctor) {
        ssize_t before = m.graph.num_nodes();
        vector<std::pair<size_t, size_t>> deg;
        for (auto& p : m.graph.nodes()) deg.emplace_back(p->successors().size(), p->predecessors().size());
        bool threw = false;
        try {
            ctor();
        } catch (const std::exception&) {
            threw = true;
        }
        if (m.st) m.st->add("invalid_attempt:" + what);
        if (!threw) fail("accepted", what, "an invalid construction was accepted: " + what);
        if (m.graph.num_nodes() != before)
            fail("dangling", what, "a refused construction changed the number of nodes");
        size_t i = 0;
        for (auto& p : m.graph.nodes()) {
            if (deg[i].first != p->successors().size() || deg[i].second != p->predecessors().size())
                fail("dangling", what,
                     "a refused construction left an edge behind (" + what + ")");
            ++i;
        }
        check_graph();
    }

    void invalid_attempt() {
        auto& g = m.graph;
        int a = pick([&](const Info& x) { return !x.dynamic && prod(x.shape) > 1; });
        int dyn = pick([&](const Info& x) { return x.dynamic; });
        int any = pick([&](const Info&) { return true; });
        switch (r.range(0, 16)) {
            case 0:
                if (a >= 0) {
                    int b = pick([&](const Info& x) { return !x.dynamic && prod(x.shape) > 1 && x.shape != m.infos[a].shape; });
                    if (b >= 0)
                        expect_throw("binary shape mismatch", [&]() { g.emplace_node<AddNode>(P(a), P(b)); });
                    if (b >= 0)
                        expect_throw("nary shape mismatch", [&]() {
                            vector<ArrayNode*> ps = {P(a), P(a), P(b)};
                            g.emplace_node<NaryAddNode>(std::span<ArrayNode*>(ps));
                        });
                    if (b >= 0)
                        expect_throw("where shape mismatch", [&]() { g.emplace_node<WhereNode>(P(a), P(a), P(b)); });
                }
                break;
            case 1:
                if (dyn >= 0) expect_throw("reshape dynamic", [&]() { g.emplace_node<ReshapeNode>(P(dyn), vector<ssize_t>{2}); });
                break;
            case 2:
                if (dyn >= 0) expect_throw("nary dynamic", [&]() {
                        vector<ArrayNode*> ps = {P(dyn), P(dyn)};
                        g.emplace_node<NaryMaximumNode>(std::span<ArrayNode*>(ps));
                    });
                break;
            case 3:
                if (dyn >= 0) expect_throw("max of dynamic without init", [&]() { g.emplace_node<MaxNode>(P(dyn)); });
                break;
            case 4:
                if (any >= 0) {
                    int zero = pick([&](const Info& x) { return (x.op == "integer" || x.op == "binary" || x.op == "constant") && !x.dynamic && prod(x.shape) == 1 && x.lo <= 0 && x.hi >= 0; });
                    if (zero >= 0) expect_throw("divide by possibly zero", [&]() { g.emplace_node<DivideNode>(P(any), P(zero)); });
                }
                break;
            case 5: {
                int neg = pick([&](const Info& x) { return x.lo < 0 && x.op == "integer"; });
                if (neg >= 0) expect_throw("sqrt of possibly negative", [&]() { g.emplace_node<SquareRootNode>(P(neg)); });
                break;
            }
            case 6: {
                int arr = pick([&](const Info& x) { return !x.dynamic && x.shape.size() == 1; });
                int ix = arr < 0 ? -1 : pick([&](const Info& x) {
                    return (x.op == "integer" || x.op == "list" || x.op == "set") && x.shape.size() <= 1 && (x.dynamic || prod(x.shape) != 0) &&
                           x.hi >= (double)m.infos[arr].shape[0];
                });
                if (ix >= 0) expect_throw("index out of range", [&]() {
                        g.emplace_node<AdvancedIndexingNode>(P(arr), P(ix));
                    });
                break;
            }
            case 7: {
                int arr = pick([&](const Info& x) { return !x.dynamic && x.shape.size() == 1; });
                if (arr >= 0) expect_throw("integer index out of range", [&]() {
                        vector<BasicIndexingNode::slice_or_int> v{(ssize_t)m.infos[arr].shape[0]};
                        g.emplace_node<BasicIndexingNode>(P(arr), v);
                    });
                break;
            }
            case 8:
                if (a >= 0) expect_throw("reshape size mismatch", [&]() {
                        g.emplace_node<ReshapeNode>(P(a), vector<ssize_t>{(ssize_t)prod(m.infos[a].shape) + 1});
                    });
                break;
            case 9:
                if (a >= 0 && m.infos[a].shape.size() >= 1) expect_throw("concat axis", [&]() {
                        vector<ArrayNode*> ps = {P(a), P(a)};
                        g.emplace_node<ConcatenateNode>(std::span<ArrayNode*>(ps), (ssize_t)m.infos[a].shape.size());
                    });
                break;
            case 10:
                if (dyn >= 0 && m.infos[dyn].shape.size() == 1) {
                    // mixing a static and a dynamic array: must be refused without leaving edges
                    int st = pick([&](const Info& x) { return !x.dynamic && x.shape.size() == 1; });
                    if (st >= 0) expect_throw("concat dynamic", [&]() {
                            vector<ArrayNode*> ps = {P(st), P(dyn)};
                            g.emplace_node<ConcatenateNode>(std::span<ArrayNode*>(ps), (ssize_t)0);
                        });
                }
                break;
            case 11:
                expect_throw("integer bounds", [&]() { g.emplace_node<IntegerNode>(std::initializer_list<ssize_t>{2}, 5, 4); });
                expect_throw("set sizes", [&]() { g.emplace_node<SetNode>(3, 2, 1); });
                expect_throw("set sizes", [&]() { g.emplace_node<SetNode>(3, 0, 4); });
                break;
            case 12: {
                int c = pick([&](const Info& x) { return x.op == "constant" && x.shape.size() == 1 && x.shape[0] > 0; });
                int o = c < 0 ? -1 : pick([&](const Info& x) {
                    return x.op == "integer" && x.shape == m.infos[c].shape &&
                           (x.hi >= (double)x.shape[0] || x.lo < 0);
                });
                if (o >= 0) expect_throw("permutation order out of range", [&]() { g.emplace_node<PermutationNode>(P(c), P(o)); });
                break;
            }
            case 13: {
                int par = -1;
                for (int d : m.decs)
                    if (m.infos[d].dk == DK::lists || m.infos[d].dk == DK::bitsets) par = d;
                if (par >= 0) {
                    if (m.infos[par].dk == DK::lists)
                        expect_throw("too many lists", [&]() {
                            g.emplace_node<DisjointListNode>(dynamic_cast<DisjointListsNode*>(m.infos[par].node));
                        });
                    else
                        expect_throw("too many sets", [&]() {
                            g.emplace_node<DisjointBitSetNode>(dynamic_cast<DisjointBitSetsNode*>(m.infos[par].node));
                        });
                }
                break;
            }
            case 14:
                if (a >= 0) expect_throw("partial sum axis", [&]() {
                        g.emplace_node<PartialSumNode>(P(a), (ssize_t)m.infos[a].shape.size());
                    });
                break;
            case 16: {
                // two index arrays whose sizes can differ
                auto small = [&](const Info& x) {
                    return !x.inexact && x.shape.size() == 1 && x.ptr->integral() && x.ptr->min() >= 0 &&
                           x.ptr->max() < 6 && x.lo >= 0 && x.hi < 6;
                };
                auto varying = [&](const Info& x) {
                    if (!x.dynamic || x.szclass < 0) return false;
                    const Info& c = m.infos[x.szclass];
                    return c.op == "disjoint_list" ? c.n > 0 && m.infos[c.parent].mn > 1 : c.mn < c.mx;
                };
                int i = pick([&](const Info& x) { return small(x) && varying(x); });
                if (i < 0) break;
                int j = pick([&](const Info& x) {
                    return small(x) && (x.dynamic ? (x.szclass >= 0 && varying(x) && x.szclass != m.infos[i].szclass)
                                                  : true);
                });
                if (j < 0) break;
                bool sib = m.infos[j].dynamic;
                int sq = -1;
                {
                    auto buf = std::make_unique<vector<double>>(36, 1.0);
                    double* ptr = buf->data();
                    m.owned.push_back(std::move(buf));
                    Info f;
                    f.op = "constant";
                    f.desc = "Constant(6,6)";
                    f.lo = f.hi = 1;
                    ND val{{6, 6}, vector<double>(36, 1.0)};
                    f.ref = [val](const vector<const ND*>&) { return val; };
                    vector<ssize_t> s = {6, 6};
                    sq = make(f, true, [&]() {
                        return m.graph.emplace_node<ConstantNode>(ptr, std::span<const ssize_t>(s));
                    });
                }
                if (sq >= 0)
                    expect_throw(sib ? "index arrays of different dynamic sizes" : "dynamic and fixed index arrays",
                                 [&]() { g.emplace_node<AdvancedIndexingNode>(P(sq), P(i), P(j)); });
                break;
            }
            case 15:
                if (a >= 0) {
                    if (m.infos[a].shape.size() == 1 && m.infos[a].shape[0] > 0)
                        expect_throw("qm size mismatch", [&]() {
                            g.emplace_node<QuadraticModelNode>(P(a), QuadraticModel((int)m.infos[a].shape[0] + 1));
                        });
                    expect_throw("objective not scalar", [&]() { g.set_objective(P(a)); });
                    expect_throw("constraint not scalar", [&]() { g.add_constraint(P(a)); });
                }
                break;
        }
    }

    // ---------------------------------------------------------------- whole models
    int add_node() {
        switch (r.range(0, 22)) {
            case 0: return add_constant();
            case 1: case 2: case 3: case 4: return add_binary_op();
            case 5: return add_nary();
            case 6: case 7: return add_unary();
            case 8: case 9: case 10: return add_reduce();
            case 11: return add_partial_sum();
            case 12: case 13: return add_where();
            case 14: case 15: return add_basic();
            case 16: case 17: return add_advanced();
            case 18: return add_permutation();
            case 19: return add_concat();
            case 20: return add_reshape();
            case 21: return add_size();
            default: return add_qm();
        }
    }

    void decisions(int n) {
        static const vector<DK> kinds = {DK::binary, DK::binary, DK::integer, DK::integer, DK::list,
                                         DK::list,   DK::set,    DK::set,     DK::bitsets, DK::lists,
                                         DK::dyn,    DK::dyn};
        for (int i = 0; i < n; ++i) {
            DK k = r.pick(kinds);
            if (k == DK::dyn && !m.hostile) k = DK::set;
            add_decision(k);
        }
    }
    void nodes(int n) {
        int made = 0, tries = 0;
        while (made < n && tries < 12 * n) {
            ++tries;
            if (m.try_invalid && r.chance(8)) invalid_attempt();
            if (add_node() >= 0) ++made;
        }
    }
};

}  // namespace vf
