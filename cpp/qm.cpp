// Quadratic models: coefficients and values against a dictionary of coefficients.
#include "modes.hpp"

namespace vf {
using namespace dwave::optimization;
using std::to_string;

void qm_case(Rng& r, Stats& st, std::ostringstream& log, std::set<uint64_t>& seen) {
    int n = (int)r.range(r.chance(5) ? 0 : 1, 7);
    QuadraticModel qm(n);
    vector<double> lin(n, 0);
    std::map<std::pair<int, int>, double> q;  // u <= v
    auto coef = [&]() { return r.chance(15) ? 0.0 : r.range(-12, 12) / 4.0; };
    auto bad = [&](const string& w) { fail("qm", "QuadraticModel", w + "\n" + log.str()); };
    auto check = [&](QuadraticModel& m, const char* when) {
        if (m.num_variables() != n) bad("num_variables");
        vector<double> l(n), s(n);
        m.get_linear(l.data());
        m.get_squares(s.data());
        ssize_t inter = 0;
        for (auto& [k, v] : q) inter += k.first != k.second;
        for (int u = 0; u < n; ++u) {
            if (m.get_linear(u) != lin[u] || l[u] != lin[u]) bad(string(when) + ": linear bias of " + to_string(u));
            double sq = q.count({u, u}) ? q[{u, u}] : 0;
            if (s[u] != sq || m.get_quadratic(u, u) != sq) bad(string(when) + ": square bias of " + to_string(u));
            for (int v = 0; v < n; ++v) {
                auto k = std::minmax(u, v);
                double w = q.count(k) ? q[k] : 0;
                if (m.get_quadratic(u, v) != w) bad(string(when) + ": interaction " + to_string(u) + "," + to_string(v) + " is " + to_string(m.get_quadratic(u, v)) + ", expected " + to_string(w));
            }
        }
        if (m.num_interactions() != inter) bad(string(when) + ": num_interactions is " + to_string(m.num_interactions()) + ", expected " + to_string(inter));
        vector<int> row(inter), col(inter);
        vector<double> b(inter);
        m.get_quadratic(row.data(), col.data(), b.data());
        std::set<std::pair<int, int>> got;
        for (ssize_t i = 0; i < inter; ++i) {
            auto k = std::minmax(row[i], col[i]);
            if (!got.insert(k).second || !q.count(k) || q[k] != b[i]) bad(string(when) + ": the list of interactions");
        }
        st.add("mon:coefficients");
    };
    int ops = n ? (int)r.range(0, 25) : 0;
    for (int i = 0; i < ops; ++i) {
        int u = (int)r.range(0, n - 1), v = (int)r.range(0, n - 1);
        double c = coef();
        switch (r.range(0, 6)) {
            case 0: qm.set_linear(u, c); lin[u] = c; log << "set_linear " << u << " " << c << "\n"; break;
            case 1: qm.add_linear(u, c); lin[u] += c; log << "add_linear " << u << " " << c << "\n"; break;
            case 2: qm.set_quadratic(u, v, c); q[std::minmax(u, v)] = c; log << "set_quadratic " << u << " " << v << " " << c << "\n"; break;
            case 3: qm.add_quadratic(u, v, c); q[std::minmax(u, v)] += c; log << "add_quadratic " << u << " " << v << " " << c << "\n"; break;
            case 4: {
                vector<double> l;
                for (int k = 0; k < n; ++k) l.push_back(coef()), lin[k] += l[k];
                qm.add_linear(l.data());
                log << "add_linear(array)\n";
                break;
            }
            case 5: {
                vector<double> l;
                for (int k = 0; k < n; ++k) l.push_back(coef()), q[{k, k}] += l[k];
                qm.add_squares(l.data());
                log << "add_squares(array)\n";
                break;
            }
            default: {
                vector<int> row, col;
                vector<double> b;
                for (int k = (int)r.range(0, 6); k-- > 0;) {
                    row.push_back((int)r.range(0, n - 1));
                    col.push_back((int)r.range(0, n - 1));
                    b.push_back(coef());
                    q[std::minmax(row.back(), col.back())] += b.back();
                    log << "add_quadratic(array) " << row.back() << " " << col.back() << " " << b.back() << "\n";
                }
                qm.add_quadratic((ssize_t)row.size(), row.data(), col.data(), b.data());
                break;
            }
        }
        st.add("mon:op");
        if (r.chance(30)) check(qm, "while building");
    }
    check(qm, "when built");
    uint64_t h = n;
    for (auto& [k, v] : q) h = (h ^ (uint64_t)(k.first * 64 + k.second) ^ (uint64_t)(v * 4 + 4096) << 20) * 1099511628211ull;
    for (double x : lin) h = (h ^ (uint64_t)(x * 4 + 4096)) * 1099511628211ull;
    seen.insert(h);

    // in a model: contiguous and strided inputs
    Graph g;
    IntegerNode* big = nullptr;
    ArrayNode* x = nullptr;
    ssize_t start = 0, step = 1;
    ssize_t total;
    if (r.chance(45) && n > 0) {  // a column of a matrix, or every other element
        step = r.range(2, 3);
        start = r.range(0, step - 1);
        total = n * step;
        if (r.chance(50)) {
            big = g.emplace_node<IntegerNode>(std::initializer_list<ssize_t>{n, step}, -3, 3);
            vector<BasicIndexingNode::slice_or_int> ix{Slice(), start};
            x = g.emplace_node<BasicIndexingNode>(big, ix);
        } else {
            big = g.emplace_node<IntegerNode>(std::initializer_list<ssize_t>{total}, -3, 3);
            vector<BasicIndexingNode::slice_or_int> ix{Slice(start, std::nullopt, step)};
            x = g.emplace_node<BasicIndexingNode>(big, ix);
        }
        st.add("seen:strided_input");
    } else {
        total = n;
        big = g.emplace_node<IntegerNode>(std::initializer_list<ssize_t>{n}, -3, 3);
        x = big;
        st.add("seen:contiguous_input");
    }
    auto* node = g.emplace_node<QuadraticModelNode>(x, std::move(qm));
    check(*node->get_quadratic_model(), "in the model");
    g.topological_sort();
    State s = g.empty_state();
    vector<double> val(total);
    for (auto& y : val) y = (double)r.range(-3, 3);
    big->initialize_state(s, vector<double>(val));
    g.initialize_state(s);
    auto value = [&](const vector<double>& a) {
        auto e = [&](int i) { return a[start + i * step]; };
        double t = 0;
        for (int i = 0; i < n; ++i) t += lin[i] * e(i);
        for (auto& [k, b] : q) t += b * e(k.first) * e(k.second);
        return t;
    };
    auto expect = [&](const vector<double>& a, const char* when) {
        double got = *node->buff(s);
        if (got != value(a)) fail("qm_value", "QuadraticModelNode", string(when) + ": value " + to_string(got) + ", expected " + to_string(value(a)) + "\n" + log.str());
        st.add("mon:value");
    };
    expect(val, "initially");
    for (int k = (int)r.range(2, 10); k-- > 0 && total;) {
        vector<double> nv = val;
        for (int j = (int)r.range(1, 6); j-- > 0;) {
            ssize_t i = r.range(0, total - 1), i2 = r.range(0, total - 1);
            if (r.chance(70)) {
                int y = (int)r.range(-3, 3);
                big->set_value(s, i, y);
                nv[i] = y;
                log << "x[" << i << "] = " << y << "\n";
            } else {
                big->exchange(s, i, i2);
                std::swap(nv[i], nv[i2]);
                log << "exchange " << i << " " << i2 << "\n";
            }
        }
        bool accept = r.chance(50);
        vector<const Node*> src{big};
        g.propose(s, src, [&](const Graph&, State& y) {
            expect(nv, "after propagating");
            double sum = value(val);
            for (auto& u : node->diff(y)) {
                if (u.old != sum) fail("qm_value", "QuadraticModelNode", "the change reported starts from another value\n" + log.str());
                sum = u.value;
            }
            if (sum != value(nv)) fail("qm_value", "QuadraticModelNode", "the change reported does not give the new value\n" + log.str());
            return accept;
        });
        log << (accept ? "accept\n" : "reject\n");
        if (accept) val = nv;
        expect(val, accept ? "after accepting" : "after rejecting");
    }
}

}  // namespace vf
