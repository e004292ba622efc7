// Running sums and products over values of very different sizes. A value is compared with a
// direct evaluation of the symbol's inputs. When every step of that evaluation is exact (integers,
// everything below 2^53) the value has to be equal, whatever was there before; otherwise it
// has to agree up to rounding.
#include <cmath>

#include "modes.hpp"

namespace vf {
using namespace dwave::optimization;
using std::to_string;
typedef long double ld;

static const ld EXACT = 9007199254740992.0L;

struct Expect {
    double want;
    ld scale;  // everything that takes part in the evaluation, without cancellation
    bool product;
};

struct Target {
    string name;
    ArrayNode* node;
    std::function<vector<Expect>(const State&)> eval;
};

static vector<double> values_of(const Array* a, const State& s) {
    auto v = a->view(s);
    return vector<double>(v.begin(), v.end());
}

static Expect sum_of(const vector<double>& v, double init) {
    ld t = init, a = std::abs((ld)init);
    for (double x : v) t += x, a += std::abs((ld)x);
    return {(double)t, a, false};
}

static Expect product_of(const vector<double>& v, double init) {
    ld t = init, a = std::abs((ld)init);
    for (double x : v) {
        t *= x;
        if (x != 0) a *= std::abs((ld)x);
    }
    return {(double)t, a, true};
}

void wide_case(Rng& r, Stats& st, std::ostringstream& log, std::set<uint64_t>& seen) {
    Graph g;
    const ssize_t rows = r.range(1, 5), cols = r.range(1, r.chance(40) ? 12 : 4), total = rows * cols;
    const bool negative = r.chance(50);
    const int lim = 2000000000;
    auto* x = g.emplace_node<IntegerNode>(std::initializer_list<ssize_t>{rows, cols}, negative ? -lim : 0, lim);
    auto* flat = g.emplace_node<ReshapeNode>(x, vector<ssize_t>{total});
    auto* set = g.emplace_node<SetNode>(total);
    auto* chosen = g.emplace_node<AdvancedIndexingNode>(flat, set);
    log << "x = integer(" << rows << ", " << cols << ")" << (negative ? " of both signs" : "") << "\n";

    vector<Target> targets;
    // the arrays that are reduced: the integers, their squares, fourth powers, a dynamic selection
    auto* square = g.emplace_node<MultiplyNode>(x, x);
    auto* fourth = g.emplace_node<MultiplyNode>(square, square);
    auto* picked_square = g.emplace_node<SquareNode>(chosen);
    vector<std::pair<string, ArrayNode*>> fixed{{"x", x}, {"x*x", square}, {"x**4", fourth}};
    vector<std::pair<string, ArrayNode*>> all = fixed;
    all.push_back({"x[set]", chosen});
    all.push_back({"x[set]**2", picked_square});

    auto one = [](Expect e) { return vector<Expect>{e}; };
    for (int k = (int)r.range(2, 6); k-- > 0;) {
        switch (r.range(0, 5)) {
            case 0: {
                auto [name, a] = r.pick(all);
                targets.push_back({"sum(" + name + ")", g.emplace_node<SumNode>(a), [a = a, one](const State& s) { return one(sum_of(values_of(a, s), 0)); }});
                break;
            }
            case 1: {
                auto [name, a] = r.pick(all);
                double init = r.chance(60) ? 1 : (double)r.range(2, 5);
                targets.push_back({"prod(" + name + ")", init == 1 ? g.emplace_node<ProdNode>(a) : g.emplace_node<ProdNode>(a, init),
                                   [a = a, init, one](const State& s) { return one(product_of(values_of(a, s), init)); }});
                break;
            }
            case 2: {
                auto [name, a] = r.pick(fixed);
                const int axis = (int)r.range(0, 1);
                targets.push_back({"sum(" + name + ", axis=" + to_string(axis) + ")", g.emplace_node<PartialSumNode>(a, axis),
                                   [a = a, axis, rows, cols](const State& s) {
                                       auto v = values_of(a, s);
                                       vector<Expect> out;
                                       for (ssize_t i = 0; i < (axis ? rows : cols); ++i) {
                                           vector<double> line;
                                           for (ssize_t j = 0; j < (axis ? cols : rows); ++j) line.push_back(axis ? v[i * cols + j] : v[j * cols + i]);
                                           out.push_back(sum_of(line, 0));
                                       }
                                       return out;
                                   }});
                break;
            }
            case 3:
            case 4: {  // operands: rows of one of the arrays
                auto [name, a] = r.pick(fixed);
                vector<ArrayNode*> ops;
                for (ssize_t i = 0; i < rows; ++i) {
                    vector<BasicIndexingNode::slice_or_int> ix{i, Slice()};
                    ops.push_back(g.emplace_node<BasicIndexingNode>(a, ix));
                }
                if (r.chance(50)) ops.push_back(ops[0]);
                const bool add = r.chance(50);
                ArrayNode* n;
                if (add) n = g.emplace_node<NaryAddNode>(ops);
                else n = g.emplace_node<NaryMultiplyNode>(ops);
                targets.push_back({string(add ? "add" : "multiply") + "(rows of " + name + ")", n, [ops, cols, add](const State& s) {
                                       vector<Expect> out;
                                       for (ssize_t j = 0; j < cols; ++j) {
                                           vector<double> line;
                                           for (auto* o : ops) line.push_back(values_of(o, s)[j]);
                                           out.push_back(add ? sum_of(line, 0) : product_of(line, 1));
                                       }
                                       return out;
                                   }});
                break;
            }
            default: {
                if (negative) break;  // cancellation inside one of its terms is not tracked
                QuadraticModel q(total);
                vector<double> lin(total);
                std::map<std::pair<int, int>, double> quad;
                for (int i = 0; i < total; ++i) q.set_linear(i, lin[i] = (double)r.range(0, 3));
                for (int i = (int)r.range(0, 2 * total); i-- > 0;) {
                    int u = (int)r.range(0, total - 1), v = (int)r.range(0, total - 1);
                    double c = (double)r.range(0, 3);
                    q.set_quadratic(u, v, c);
                    quad[std::minmax(u, v)] = c;
                }
                auto* n = g.emplace_node<QuadraticModelNode>(flat, std::move(q));
                targets.push_back({"quadratic model of x", n, [=](const State& s) {
                                       auto v = values_of(flat, s);
                                       vector<double> terms;
                                       for (ssize_t i = 0; i < total; ++i) terms.push_back(lin[i] * v[i]);
                                       for (auto& [k, c] : quad) terms.push_back(c * v[k.first] * v[k.second]);
                                       return vector<Expect>{sum_of(terms, 0)};
                                   }});
            }
        }
    }
    for (auto& t : targets) log << t.name << "\n";

    g.topological_sort();
    State s = g.empty_state();
    // most of the time everything is small; now and then something is huge
    int hot = 0;
    bool zeros = true;
    auto value = [&]() -> int {
        int v;
        switch (r.range(0, 5)) {
            case 0: v = zeros ? 0 : hot > 50 ? lim : 1; break;
            case 1: v = 1; break;
            case 2: v = (int)r.range(2, 9); break;
            case 3: v = hot > 40 ? (int)r.range(100000000, lim) : (int)r.range(0, 3); break;
            case 4: v = hot > 20 ? (int)r.range(1000, 3000000) | 1 : 1; break;
            default: v = hot > 70 ? lim - (int)r.range(0, 50) : (int)r.range(1, 5); break;
        }
        return negative && r.chance(40) ? -v : v;
    };
    vector<double> val(total);
    hot = r.chance(50) ? 100 : 0;
    zeros = r.chance(70);
    for (auto& y : val) y = value();
    vector<double> picked;
    for (ssize_t i = 0; i < total; ++i)
        if (r.chance(60)) picked.push_back((double)i);
    ssize_t npicked = (ssize_t)picked.size();
    x->initialize_state(s, vector<double>(val));
    set->initialize_state(s, vector<double>(picked));
    g.initialize_state(s);

    bool was_inexact = false;
    auto check = [&](const char* when) {
        bool inexact = false;
        for (auto& t : targets) {
            auto want = t.eval(s);
            auto got = values_of(t.node, s);
            auto bad = [&](size_t i) {
                char b[200];
                snprintf(b, sizeof b, "%s: value %zu of %s is %.17g, evaluated afresh it is %.17g", when, i, t.name.c_str(), got[i], want[i].want);
                fail("inc_value", t.name.substr(0, t.name.find('(')), string(b) + "\n" + log.str());
            };
            double lo = t.node->min(), hi = t.node->max();
            if (lo == std::numeric_limits<double>::lowest()) lo = -INFINITY;  // stands for no bound
            if (hi == std::numeric_limits<double>::max()) hi = INFINITY;
            for (double v : got) {
                st.add("mon:bounds");
                // the ends are computed in floating point as well
                const ld slack_lo = std::abs((ld)lo) * 1e-9L, slack_hi = std::abs((ld)hi) * 1e-9L;
                if (!((std::isinf(lo) && lo < 0) || v >= lo - slack_lo) || !((std::isinf(hi) && hi > 0) || v <= hi + slack_hi)) {
                    char b[200];
                    snprintf(b, sizeof b, "%s: value %.17g of %s is not between %.17g and %.17g", when, v, t.name.c_str(), lo, hi);
                    fail("bounds", t.name.substr(0, t.name.find('(')), string(b) + "\n" + log.str());
                }
                if (t.node->integral() && std::isfinite(v) && v != std::round(v)) fail("bounds", t.name.substr(0, t.name.find('(')), string(when) + ": " + t.name + " is fractional\n" + log.str());
            }
            if (want.size() != got.size()) fail("inc_value", t.name, string(when) + ": number of values\n" + log.str());
            for (size_t i = 0; i < got.size(); ++i) {
                st.add("mon:inc_value");
                const Expect& e = want[i];
                if (e.scale <= EXACT) {
                    if (got[i] != e.want) bad(i);
                    st.add(was_inexact ? "mon:exact_again" : "mon:exact");
                } else {
                    inexact = true;
                    st.add(std::isinf(e.want) ? "seen:overflow" : "seen:inexact");
                    if (std::isinf(e.want)) {
                        if (got[i] != e.want) bad(i);
                    } else if (std::isnan(got[i]) || !(std::abs((ld)got[i] - e.want) <= 1e-9L * (e.product ? std::abs((ld)e.want) : e.scale)))
                        bad(i);
                }
            }
        }
        was_inexact = inexact;
    };
    check("initially");
    uint64_t h = 1469598103934665603ull;
    for (int k = (int)r.range(3, 12); k-- > 0;) {
        hot = r.chance(40) ? 0 : (int)r.range(0, 100);
        zeros = r.chance(60);
        vector<const Node*> src{x};
        const bool whole = r.chance(35);
        vector<double> nv = val;
        auto put = [&](ssize_t i, int y) {
            x->set_value(s, i, y);
            nv[i] = y;
            log << "x[" << i << "] = " << y << "\n";
            h = (h ^ (uint64_t)(i * 4000000007ll + y)) * 1099511628211ull;
        };
        if (whole) {
            for (ssize_t i = 0; i < total; ++i) put(i, value());
        } else {
            for (int j = (int)r.range(1, 5); j-- > 0;) put(r.range(0, total - 1), value());
        }
        ssize_t np = npicked;
        if (r.chance(50)) {
            src.push_back(set);
            for (int j = (int)r.range(1, 3); j-- > 0;) {
                if (np < total && r.chance(50)) set->grow(s), ++np, log << "grow\n";
                else if (np > 0) set->shrink(s), --np, log << "shrink\n";
            }
        }
        const bool accept = r.chance(65);
        vector<vector<double>> before;
        for (auto& t : targets) before.push_back(values_of(t.node, s));
        g.propose(s, src, [&](const Graph&, State&) {
            check("after propagating");
            for (size_t i = 0; i < targets.size(); ++i) {
                auto& t = targets[i];
                auto bad = [&](const char* w) { fail("diff", t.name.substr(0, t.name.find('(')), t.name + ": " + w + "\n" + log.str()); };
                for (auto& u : t.node->diff(s)) {
                    if (u.index < 0 || u.index >= (ssize_t)before[i].size()) bad("a change outside of the array");
                    if (u.old != before[i][u.index]) bad("a change that starts from another value");
                    before[i][u.index] = u.value;
                }
                if (before[i] != values_of(t.node, s)) bad("the changes do not give the new values");
                st.add("mon:diff");
            }
            return accept;
        });
        log << (accept ? "accept\n" : "reject\n");
        if (accept) val = nv, npicked = np;
        check(accept ? "after accepting" : "after rejecting");
        st.add(accept ? "step:accepted" : "step:rejected");
    }
    seen.insert(h ^ (uint64_t)total);
}

}  // namespace vf
