// Random model generator, independent reference evaluator, and shadow decision state.
//
// Nothing in here reads library internals: decisions are tracked in a shadow copy that is
// advanced by the documented meaning of each move, and every other symbol has a reference
// function (written from the documentation / NumPy semantics) evaluated on the shadow values.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <variant>
#include <vector>

#include "dwave-optimization/array.hpp"
#include "dwave-optimization/graph.hpp"
#include "dwave-optimization/nodes.hpp"
#include "dwave-optimization/nodes/testing.hpp"

namespace vf {
using namespace dwave::optimization;
using std::size_t;
using std::string;
using std::vector;
typedef long long ll;

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) {
        next();
        next();
    }
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    ll range(ll a, ll b) {  // inclusive
        if (b <= a) return a;
        return a + (ll)(next() % (uint64_t)(b - a + 1));
    }
    bool chance(int pct) { return (ll)(next() % 100) < pct; }
    template <class T>
    const T& pick(const vector<T>& v) {
        return v[next() % v.size()];
    }
};

struct ND {
    vector<ssize_t> shape;
    vector<double> data;
};

inline ssize_t prod(const vector<ssize_t>& s) {
    ssize_t p = 1;
    for (auto d : s) p *= d;
    return p;
}
inline string shp(const vector<ssize_t>& s) {
    std::ostringstream o;
    o << "(";
    for (size_t i = 0; i < s.size(); ++i) o << (i ? "," : "") << s[i];
    o << ")";
    return o.str();
}
inline string show(const ND& a) {
    std::ostringstream o;
    o.precision(17);
    o << shp(a.shape) << "[";
    for (size_t i = 0; i < a.data.size() && i < 40; ++i) o << (i ? " " : "") << a.data[i];
    if (a.data.size() > 40) o << " ...";
    o << "]";
    return o.str();
}

enum class DK { none, binary, integer, list, set, bitsets, lists, dyn };

// shadow of one decision
struct Shadow {
    vector<double> v;             // numbers, collections (visible part), dynamic arrays
    vector<vector<double>> ls;    // disjoint lists
    vector<int> owner;            // bit sets
};

struct Info {
    string op;
    ArrayNode* ptr = nullptr;  // null for the disjoint parents
    Node* node = nullptr;
    vector<int> args;
    std::function<ND(const vector<const ND*>&)> ref;
    // static facts, computed by the generator
    vector<ssize_t> shape;
    bool dynamic = false;
    double lo = 0, hi = 0;  // sound interval
    int g = 0;              // all values are multiples of 2^-g
    bool inexact = false;
    string desc;
    // decisions
    DK dk = DK::none;
    DecisionNode* dec = nullptr;
    int didx = -1;           // index in shadow vector
    int parent = -1;         // disjoint child: index of the parent info
    int child_index = -1;
    ssize_t n = 0, mn = 0, mx = 0;  // sizes, bounds
    bool dead = false;       // removed
    int szclass = -1;        // two dynamic arrays of one class (>= 0) always have equal sizes
    double M() const { return std::max(std::fabs(lo), std::fabs(hi)); }
};

constexpr double BITS_LIMIT = 281474976710656.0;  // 2^48

struct BuildRefused : std::runtime_error {
    using std::runtime_error::runtime_error;
};

struct Stats {
    std::map<string, long> c;
    void add(const string& k, long n = 1) { c[k] += n; }
    void merge(const Stats& o) {
        for (auto& [k, v] : o.c) c[k] += v;
    }
};

struct Violation : std::runtime_error {
    string kind, node;
    Violation(string k, string n, const string& m) : std::runtime_error(m), kind(k), node(n) {}
};

// The kinds of violation that decide the property being checked (empty: all of them). Violations
// of other kinds are counted and the history goes on, up to a point.
inline std::set<string> enabled_kinds;
inline thread_local int ignored_in_case = 0;
inline thread_local std::map<string, long> ignored_total;
struct Abandoned {};

inline void fail(const string& kind, const string& node, const string& msg) {
    if (!enabled_kinds.empty() && !enabled_kinds.count(kind)) {
        ++ignored_total[kind];
        if (++ignored_in_case > 40) throw Abandoned();
        return;
    }
    throw Violation(kind, node, msg);
}

// ---------------------------------------------------------------------------------------------

class Model {
 public:
    Graph graph;
    vector<Info> infos;
    vector<int> decs;  // infos index of each decision, in creation order
    vector<std::unique_ptr<vector<double>>> owned;  // constant buffers
    Stats* st = nullptr;
    bool hostile = true;       // use DynamicArrayTestingNode
    bool try_invalid = false;  // attempt invalid constructions as well
    int objective = -1;
    vector<int> constraints;
    vector<std::shared_ptr<bool>> listeners;

    string describe() const {
        std::ostringstream o;
        for (size_t i = 0; i < infos.size(); ++i) {
            auto& f = infos[i];
            o << "#" << i << (f.dead ? " (removed) " : " ") << f.desc << "(";
            for (size_t k = 0; k < f.args.size(); ++k) o << (k ? "," : "") << "#" << f.args[k];
            o << ") shape=" << shp(f.shape) << "\n";
        }
        return o.str();
    }

    // ---- evaluation --------------------------------------------------------------------------
    vector<ND> eval(const vector<Shadow>& sh) const {
        vector<ND> out(infos.size());
        for (size_t i = 0; i < infos.size(); ++i) {
            const Info& f = infos[i];
            if (f.dead) continue;
            if (f.parent >= 0) {
                const Shadow& s = sh[infos[f.parent].didx];
                if (infos[f.parent].dk == DK::lists) {
                    out[i].data = s.ls[f.child_index];
                    out[i].shape = {(ssize_t)out[i].data.size()};
                } else {
                    out[i].shape = {(ssize_t)s.owner.size()};
                    for (int o : s.owner) out[i].data.push_back(o == f.child_index ? 1 : 0);
                }
            } else if (f.dk != DK::none) {
                const Shadow& s = sh[f.didx];
                switch (f.dk) {
                    case DK::binary:
                    case DK::integer:
                        out[i].shape = f.shape;
                        out[i].data = s.v;
                        break;
                    case DK::list:
                    case DK::set:
                        out[i].data = s.v;
                        out[i].shape = {(ssize_t)s.v.size()};
                        break;
                    case DK::dyn: {
                        out[i].shape = f.shape;
                        ssize_t row = 1;
                        for (size_t k = 1; k < f.shape.size(); ++k) row *= f.shape[k];
                        out[i].shape[0] = s.v.size() / row;
                        out[i].data = s.v;
                        break;
                    }
                    default:
                        break;
                }
            } else {
                vector<const ND*> a;
                for (int k : f.args) a.push_back(&out[k]);
                out[i] = f.ref(a);
            }
        }
        return out;
    }

    // ---- helpers -----------------------------------------------------------------------------
    int add(Info f) {
        f.shape.clear();
        if (f.ptr) {
            for (auto d : f.ptr->shape()) f.shape.push_back(d);
            f.dynamic = f.ptr->size() < 0;
            f.node = f.ptr;
        }
        infos.push_back(std::move(f));
        if (st) st->add("node:" + infos.back().op);
        return (int)infos.size() - 1;
    }

    static bool fits(double M, int g) {
        return std::isfinite(M) && g <= 40 && M * std::ldexp(1.0, g) <= BITS_LIMIT;
    }
};

}  // namespace vf
