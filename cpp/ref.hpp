// Reference semantics (NumPy) of every symbol, on plain ND values.
#pragma once
#include "model.hpp"

namespace vf {

inline double ref_mod(double x, double y) {
    if (y == 0) return 0;  // documented: x % 0 == 0
    // exact for the dyadic values we use: scale to integers
    double sc = 1;
    while ((x * sc != std::floor(x * sc) || y * sc != std::floor(y * sc)) && sc < 1e12) sc *= 2;
    __int128 a = (__int128)(x * sc), b = (__int128)(y * sc);
    __int128 r = a % b;
    if (r != 0 && ((r < 0) != (b < 0))) r += b;
    return (double)r / sc;
}

inline double ref_bin(const string& op, double x, double y) {
    if (op == "add") return x + y;
    if (op == "sub") return x - y;
    if (op == "mul") return x * y;
    if (op == "div") return x / y;
    if (op == "mod") return ref_mod(x, y);
    if (op == "eq") return x == y ? 1 : 0;
    if (op == "le") return x <= y ? 1 : 0;
    if (op == "and") return (x != 0 && y != 0) ? 1 : 0;
    if (op == "or") return (x != 0 || y != 0) ? 1 : 0;
    if (op == "xor") return ((x != 0) != (y != 0)) ? 1 : 0;
    if (op == "max") return x > y ? x : y;
    if (op == "min") return x < y ? x : y;
    throw std::logic_error("ref_bin " + op);
}

inline double ref_un(const string& op, double x) {
    if (op == "abs") return x < 0 ? -x : x;
    if (op == "logical") return x != 0 ? 1 : 0;
    if (op == "neg") return -x;
    if (op == "not") return x == 0 ? 1 : 0;
    if (op == "square") return x * x;
    if (op == "sqrt") return std::sqrt(x);
    throw std::logic_error("ref_un " + op);
}

// NumPy broadcasting of two arrays
inline ND broadcast2(const ND& a, const ND& b, const std::function<double(double, double)>& f) {
    size_t nd = std::max(a.shape.size(), b.shape.size());
    ND o;
    o.shape.resize(nd);
    auto dim = [&](const ND& x, size_t k) -> ssize_t {
        size_t off = nd - x.shape.size();
        return k < off ? 1 : x.shape[k - off];
    };
    for (size_t k = 0; k < nd; ++k) {
        ssize_t p = dim(a, k), q = dim(b, k);
        if (p == q)
            o.shape[k] = p;
        else if (p == 1)
            o.shape[k] = q;
        else if (q == 1)
            o.shape[k] = p;
        else
            throw std::logic_error("reference: shapes do not broadcast");
    }
    ssize_t n = prod(o.shape);
    o.data.resize(n);
    vector<ssize_t> ix(nd, 0);
    for (ssize_t i = 0; i < n; ++i) {
        ssize_t ia = 0, ib = 0;
        for (size_t k = 0; k < nd; ++k) {
            ssize_t p = dim(a, k), q = dim(b, k);
            ia = ia * p + (p == 1 ? 0 : ix[k]);
            ib = ib * q + (q == 1 ? 0 : ix[k]);
        }
        o.data[i] = f(a.data[ia], b.data[ib]);
        for (size_t k = nd; k-- > 0;) {
            if (++ix[k] < o.shape[k]) break;
            ix[k] = 0;
        }
    }
    return o;
}

inline ND ref_reduce(const string& op, const ND& a, std::optional<double> init) {
    ND o;
    double acc;
    size_t i = 0;
    if (op == "all") {
        acc = init.value_or(1) != 0;
        for (double x : a.data) acc = (acc != 0 && x != 0);
    } else if (op == "any") {
        acc = init.value_or(0) != 0;
        for (double x : a.data) acc = (acc != 0 || x != 0);
    } else {
        if (op == "sum")
            acc = init.value_or(0);
        else if (op == "prod")
            acc = init.value_or(1);
        else if (init)
            acc = *init;
        else {
            acc = a.data.at(0);
            i = 1;
        }
        for (; i < a.data.size(); ++i) {
            double x = a.data[i];
            if (op == "sum") acc += x;
            else if (op == "prod") acc *= x;
            else if (op == "rmax") acc = x > acc ? x : acc;
            else if (op == "rmin") acc = x < acc ? x : acc;
            else throw std::logic_error("ref_reduce " + op);
        }
    }
    o.data = {acc};
    return o;
}

inline ND ref_partial_sum(const ND& a, ssize_t axis, double init) {
    ND o;
    for (size_t k = 0; k < a.shape.size(); ++k)
        if ((ssize_t)k != axis) o.shape.push_back(a.shape[k]);
    o.data.assign(prod(o.shape), init);
    ssize_t inner = 1;
    for (size_t k = axis + 1; k < a.shape.size(); ++k) inner *= a.shape[k];
    ssize_t m = a.shape[axis];
    for (ssize_t i = 0; i < (ssize_t)a.data.size(); ++i) {
        ssize_t in = i % inner, out = i / inner / m;
        o.data[out * inner + in] += a.data[i];
    }
    return o;
}

// python slice -> list of indices
struct PySlice {
    std::optional<ll> start, stop, step;
};
inline vector<ssize_t> slice_indices(const PySlice& s, ll n) {
    ll step = std::clamp<ll>(s.step.value_or(1), -n - 1, n + 1);  // larger ones make no difference
    ll lo = step > 0 ? 0 : -1, hi = step > 0 ? n : n - 1;
    auto clamp = [&](ll v) {
        if (v < 0) v += n;
        return v < lo ? lo : (v > hi ? hi : v);
    };
    ll start = s.start ? clamp(*s.start) : (step > 0 ? lo : hi);
    ll stop = s.stop ? clamp(*s.stop) : (step > 0 ? hi : lo);
    vector<ssize_t> out;
    if (step > 0)
        for (ll i = start; i < stop; i += step) out.push_back(i);
    else
        for (ll i = start; i > stop; i += step) out.push_back(i);
    return out;
}

struct BIdx {
    bool is_int;
    ll i;
    PySlice s;
};

inline ND ref_basic(const ND& a, const vector<BIdx>& ix) {
    vector<vector<ssize_t>> sel;
    ND o;
    for (size_t k = 0; k < ix.size(); ++k) {
        if (ix[k].is_int) {
            ll i = ix[k].i;
            if (i < 0) i += a.shape[k];
            sel.push_back({(ssize_t)i});
        } else {
            sel.push_back(slice_indices(ix[k].s, a.shape[k]));
            o.shape.push_back(sel.back().size());
        }
    }
    ssize_t n = 1;
    for (auto& s : sel) n *= s.size();
    vector<size_t> c(sel.size(), 0);
    for (ssize_t t = 0; t < n; ++t) {
        ssize_t off = 0;
        for (size_t k = 0; k < sel.size(); ++k) off = off * a.shape[k] + sel[k][c[k]];
        o.data.push_back(a.data.at(off));
        for (size_t k = sel.size(); k-- > 0;) {
            if (++c[k] < sel[k].size()) break;
            c[k] = 0;
        }
    }
    return o;
}

// which[k] == -1: full slice, otherwise the index (into idx arrays) used for axis k
inline ND ref_advanced(const ND& a, const vector<int>& which, const vector<const ND*>& idx) {
    bool first = true, ended = false, split = false;
    size_t first_axis = 0;
    const ND* proto = nullptr;
    for (size_t k = 0; k < which.size(); ++k) {
        if (which[k] >= 0) {
            if (first) {
                first_axis = k;
                first = false;
                proto = idx[which[k]];
            } else if (ended)
                split = true;
        } else if (!first)
            ended = true;
    }
    vector<ssize_t> ishape = proto->shape;  // all the same shape
    ND o;
    // output axes: list of (kind, axis): kind 0 = slice axis, kind 1 = whole index block
    vector<int> order;
    if (split) {
        order.push_back(-1);
        for (size_t k = 0; k < which.size(); ++k)
            if (which[k] < 0) order.push_back((int)k);
    } else {
        for (size_t k = 0; k < which.size(); ++k) {
            if (k == first_axis) order.push_back(-1);
            if (which[k] < 0) order.push_back((int)k);
        }
    }
    for (int x : order) {
        if (x == -1)
            for (auto d : ishape) o.shape.push_back(d);
        else
            o.shape.push_back(a.shape[x]);
    }
    ssize_t n = prod(o.shape), in = prod(ishape);
    vector<ssize_t> dims;  // per order element
    for (int x : order) dims.push_back(x == -1 ? in : a.shape[x]);
    vector<ssize_t> c(order.size(), 0);
    for (ssize_t t = 0; t < n; ++t) {
        vector<ssize_t> pos(which.size(), 0);
        for (size_t q = 0; q < order.size(); ++q) {
            if (order[q] == -1) {
                for (size_t k = 0; k < which.size(); ++k)
                    if (which[k] >= 0) {
                        const ND* id = idx[which[k]];
                        pos[k] = (ssize_t)id->data.at(c[q]);
                    }
            } else
                pos[order[q]] = c[q];
        }
        ssize_t off = 0;
        for (size_t k = 0; k < pos.size(); ++k) {
            if (pos[k] < 0 || pos[k] >= a.shape[k])
                throw std::logic_error("reference: index out of range");
            off = off * a.shape[k] + pos[k];
        }
        o.data.push_back(a.data.at(off));
        for (size_t q = order.size(); q-- > 0;) {
            if (++c[q] < dims[q]) break;
            c[q] = 0;
        }
    }
    return o;
}

inline ND ref_permutation(const ND& a, const ND& order) {
    ND o;
    o.shape = a.shape;
    size_t nd = a.shape.size();
    vector<ssize_t> c(nd, 0);
    ssize_t n = prod(a.shape);
    for (ssize_t t = 0; t < n; ++t) {
        ssize_t off = 0;
        for (size_t k = 0; k < nd; ++k) off = off * a.shape[k] + (ssize_t)order.data.at(c[k]);
        o.data.push_back(a.data.at(off));
        for (size_t k = nd; k-- > 0;) {
            if (++c[k] < a.shape[k]) break;
            c[k] = 0;
        }
    }
    return o;
}

inline ND ref_concat(const vector<const ND*>& as, ssize_t axis) {
    ND o;
    o.shape = as[0]->shape;
    for (size_t i = 1; i < as.size(); ++i) o.shape[axis] += as[i]->shape[axis];
    ssize_t outer = 1;
    for (ssize_t k = 0; k < axis; ++k) outer *= o.shape[k];
    for (ssize_t q = 0; q < outer; ++q)
        for (auto* a : as) {
            ssize_t blk = 1;
            for (size_t k = axis; k < a->shape.size(); ++k) blk *= a->shape[k];
            for (ssize_t z = 0; z < blk; ++z) o.data.push_back(a->data.at(q * blk + z));
        }
    return o;
}

}  // namespace vf
