// Array views: iterators, slices, index conversions, broadcasting, and the list-of-changes helper.
#include <compare>
#include <iterator>

#include "dwave-optimization/utils.hpp"
#include "modes.hpp"

namespace vf {
using dwave::optimization::Slice;
using std::to_string;

static uint64_t hmix(uint64_t h, uint64_t x) { return (h ^ x) * 1099511628211ull; }

// ---------------------------------------------------------------- iterators
// An array view, described by a function from flat positions to addresses.
template <class It>
static void walk(Rng& r, Stats& st, std::ostringstream& log, It begin, ssize_t n,
                 const std::function<const double*(ssize_t)>& at, const string& what) {
    auto bad = [&](const string& w) { fail("iter", what, what + ": " + w + "\n" + log.str()); };
    // plain walk
    {
        It it = begin;
        It end = begin + n;
        ssize_t k = 0;
        for (; it != end && k <= n; ++it, ++k)
            if (k < n && &*it != at(k)) bad("walking reaches the wrong element at " + to_string(k));
        if (k != n) bad("walking visits " + to_string(k) + " elements of " + to_string(n));
        st.add("mon:walk");
        It back = end;
        for (ssize_t j = n; j-- > 0;) {
            --back;
            if (&*back != at(j)) bad("walking backwards reaches the wrong element at " + to_string(j));
        }
        if (!(back == begin)) bad("walking backwards does not return to the start");
        if (end - begin != n || begin - end != -n) bad("the distance between the ends is not the size");
        if (std::distance(begin, end) != n) bad("std::distance is not the size");
    }
    // a population of iterators doing random things
    struct P {
        It it;
        ssize_t k;
    };
    vector<P> ps;
    for (int i = 0; i < 3; ++i) ps.push_back({begin, 0});
    auto verify = [&](const char* op) {
        for (auto& p : ps) {
            if (p.k < n) {
                if (&*p.it != at(p.k))
                    bad(string("after ") + op + " an iterator at position " + to_string(p.k) + " is somewhere else");
                if (p.it.operator->() != at(p.k)) bad("operator-> is somewhere else");
            }
            st.add("mon:position");
        }
    };
    int steps = (int)r.range(10, 40);
    for (int s = 0; s < steps; ++s) {
        size_t i = r.range(0, ps.size() - 1), j = r.range(0, ps.size() - 1);
        P &a = ps[i], &b = ps[j];
        const char* op = "";
        switch (r.range(0, 14)) {
            case 0: op = "++"; if (a.k < n) { ++a.it; ++a.k; } break;
            case 1: op = "--"; if (a.k > 0) { --a.it; --a.k; } break;
            case 2: {
                op = "post++";
                if (a.k < n) {
                    It o = a.it++;
                    if (&*o != at(a.k)) bad("post-increment returns the wrong position");
                    ++a.k;
                }
                break;
            }
            case 3: {
                op = "post--";
                if (a.k > 0) {
                    It o = a.it--;
                    if (a.k < n && &*o != at(a.k)) bad("post-decrement returns the wrong position");
                    --a.k;
                }
                break;
            }
            case 4: { op = "+="; ssize_t t = r.range(0, n); a.it += t - a.k; a.k = t; break; }
            case 5: { op = "-="; ssize_t t = r.range(0, n); a.it -= a.k - t; a.k = t; break; }
            case 6: { op = "+"; ssize_t t = r.range(0, n); b = P{a.it + (t - a.k), t}; break; }
            case 7: { op = "n+"; ssize_t t = r.range(0, n); ssize_t d = t - a.k; b = P{d + a.it, t}; break; }
            case 8: { op = "-n"; ssize_t t = r.range(0, n); b = P{a.it - (a.k - t), t}; break; }
            case 9: {
                op = "[]";
                if (n) { ssize_t t = r.range(0, n - 1); if (&a.it[t - a.k] != at(t)) bad("operator[] is the wrong element"); }
                break;
            }
            case 10:
                op = "-";
                if (a.it - b.it != a.k - b.k)
                    bad("distance " + to_string(a.it - b.it) + " between positions " + to_string(a.k) + " and " + to_string(b.k));
                break;
            case 11: {
                op = "compare";
                if ((a.it == b.it) != (a.k == b.k)) bad("== is wrong for positions " + to_string(a.k) + " and " + to_string(b.k));
                if ((a.it != b.it) != (a.k != b.k)) bad("!= is wrong");
                if ((a.it < b.it) != (a.k < b.k)) bad("< is wrong for positions " + to_string(a.k) + " and " + to_string(b.k));
                if ((a.it > b.it) != (a.k > b.k)) bad("> is wrong");
                if ((a.it <= b.it) != (a.k <= b.k)) bad("<= is wrong");
                if ((a.it >= b.it) != (a.k >= b.k)) bad(">= is wrong");
                break;
            }
            case 12: { op = "copy"; It c = a.it; b = P{c, a.k}; if (a.k < n && &*c != at(a.k)) bad("a copy is somewhere else"); break; }
            case 13: { op = "move"; It c = a.it; It d = std::move(c); b.it = std::move(d); b.k = a.k; break; }
            default: { op = "copy of begin"; a = P{begin, 0}; break; }
        }
        st.add(string("op:") + op);
        verify(op);
    }
}

// ---------------------------------------------------------------- slices
static void slices(Rng& r, Stats& st) {
    constexpr ssize_t MAX = std::numeric_limits<ssize_t>::max(), MIN = std::numeric_limits<ssize_t>::lowest();
    auto val = [&]() -> ssize_t {
        if (r.chance(4)) return MAX;
        if (r.chance(4)) return MIN;
        if (r.chance(6)) return r.range(-100, 100);
        return r.range(-9, 9);
    };
    std::optional<ssize_t> a, b, c;
    if (!r.chance(25)) a = val();
    if (!r.chance(25)) b = val();
    if (!r.chance(30)) {
        c = r.chance(5) ? (r.chance(50) ? MAX : -MAX) : r.range(-5, 5);
    }
    ssize_t n = r.chance(15) ? 0 : r.range(0, 9);
    std::ostringstream d;
    auto show = [&](auto& x) { return x ? to_string(*x) : string("None"); };
    d << "slice(" << show(a) << "," << show(b) << "," << show(c) << ") of " << n;
    auto bad = [&](const string& w) { fail("slice", "Slice", d.str() + ": " + w); };
    if (c && *c == 0) {
        bool threw = false;
        try {
            Slice(a, b, c);
        } catch (const std::invalid_argument&) {
            threw = true;
        }
        if (!threw) bad("a step of 0 was accepted");
        st.add("mon:slice_zero_step");
        return;
    }
    Slice s(a, b, c);
    ssize_t step = c.value_or(1);
    // Python: an index below 0 counts from the end; then the range is cut to the sequence
    auto cut = [&](std::optional<ssize_t> x, bool first) -> __int128 {
        __int128 lo = step > 0 ? 0 : -1, hi = step > 0 ? n : n - 1;
        if (!x) return (step > 0) == first ? lo : hi;
        __int128 v = *x;
        if (v < 0) v += n;
        return v < lo ? lo : (v > hi ? hi : v);
    };
    vector<ssize_t> want;
    __int128 from = cut(a, true), to = cut(b, false);
    for (__int128 i = from; step > 0 ? i < to : i > to; i += step) want.push_back((ssize_t)i);
    if (r.chance(20)) {
        bool threw = false;
        try {
            (void)s.fit_at(-1);
        } catch (const std::invalid_argument&) {
            threw = true;
        }
        if (!threw) bad("fit_at accepted a negative size");
    }
    for (int how = 0; how < 3; ++how) {
        Slice f = how == 0 ? s.fit(n) : how == 1 ? s.fit_at(n) : s.fit((int)n);
        if (f.step != step) bad("fitting changed the step");
        vector<ssize_t> got;
        for (__int128 i = f.start; (f.step > 0 ? i < f.stop : i > f.stop) && got.size() < 300; i += f.step) got.push_back((ssize_t)i);
        if (got != want) bad("the fitted slice selects other elements");
        if (f.size() != want.size()) bad("size() is " + to_string(f.size()) + ", expected " + to_string(want.size()));
    }
    // size of the slice as written
    __int128 cnt = 0;
    if (step > 0 && s.start < s.stop) cnt = ((__int128)s.stop - s.start - 1) / step + 1;
    if (step < 0 && s.stop < s.start) cnt = ((__int128)s.start - s.stop - 1) / (-(__int128)step) + 1;
    if (cnt == (__int128)(std::size_t)cnt && s.size() != (std::size_t)cnt) bad("size() of the slice as written is " + to_string(s.size()));
    if (s.empty() != (s == Slice())) bad("empty()");
    st.add("mon:slice");
    if (want.size()) st.add("seen:slice_nonempty");
}

// ---------------------------------------------------------------- index conversions, broadcasting
static void conversions(Rng& r, Stats& st) {
    int nd = (int)r.range(0, 4);
    vector<ssize_t> shape, strides(nd);
    for (int i = 0; i < nd; ++i) shape.push_back(r.range(1, 4));
    ssize_t n = 1;
    for (int i = nd; i-- > 0;) strides[i] = n * (ssize_t)sizeof(double), n *= shape[i];
    vector<ssize_t> idx(nd, 0);
    for (ssize_t k = 0; k < n; ++k) {
        if (nd) {
            auto got = dwave::optimization::unravel_index(strides, k);
            if (got != idx) fail("convert", "unravel_index", "unravel_index(" + to_string(k) + ") for shape " + shp(shape) + " is " + shp(got));
        }
        if (dwave::optimization::ravel_multi_index(strides, idx) != k)
            fail("convert", "ravel_multi_index", "ravel_multi_index for shape " + shp(shape) + " at " + shp(idx));
        st.add("mon:convert");
        for (int i = nd; i-- > 0;) {
            if (++idx[i] < shape[i]) break;
            idx[i] = 0;
        }
    }
    // broadcasting
    vector<ssize_t> a, b;
    for (int i = (int)r.range(0, 4); i-- > 0;) a.push_back(r.chance(40) ? 1 : r.range(0, 3));
    for (int i = (int)r.range(0, 4); i-- > 0;) b.push_back(r.chance(40) ? 1 : (r.chance(50) && (ssize_t)b.size() < (ssize_t)a.size() ? a[b.size()] : r.range(0, 3)));
    bool ok = true;
    vector<ssize_t> want;
    size_t m = std::max(a.size(), b.size());
    for (size_t i = 0; i < m; ++i) {  // from the last axis
        ssize_t x = i < a.size() ? a[a.size() - 1 - i] : 1, y = i < b.size() ? b[b.size() - 1 - i] : 1;
        if (x != y && x != 1 && y != 1) ok = false;
        want.insert(want.begin(), x == 1 ? y : x);
    }
    bool threw = false;
    vector<ssize_t> got;
    try {
        got = dwave::optimization::broadcast_shape(std::span<const ssize_t>(a), std::span<const ssize_t>(b));
    } catch (const std::invalid_argument&) {
        threw = true;
    }
    if (threw == ok || (ok && got != want))
        fail("convert", "broadcast_shape", "broadcasting " + shp(a) + " with " + shp(b) + (threw ? " was refused" : " gives " + shp(got)));
    st.add(ok ? "mon:broadcast_ok" : "mon:broadcast_refused");
}

// ---------------------------------------------------------------- deduplicating changes
static void dedup(Rng& r, Stats& st) {
    using dwave::optimization::Update;
    vector<double> v0;
    for (int i = (int)r.range(0, 6); i-- > 0;) v0.push_back((double)r.range(-3, 3));
    vector<double> v = v0;
    vector<Update> d;
    int k = (int)r.range(0, 12);
    for (int i = 0; i < k; ++i) {
        int what = (int)r.range(0, 3);
        if (what == 0) {
            double x = (double)r.range(-3, 3);
            d.push_back(Update::placement(v.size(), x));
            v.push_back(x);
        } else if (what == 1 && !v.empty()) {
            d.push_back(Update::removal(v.size() - 1, v.back()));
            v.pop_back();
        } else if (!v.empty()) {
            size_t j = r.range(0, v.size() - 1);
            double x = (double)r.range(-3, 3);
            d.emplace_back((ssize_t)j, v[j], x);
            v[j] = x;
        }
    }
    std::ostringstream o;
    for (auto& u : d) o << u << " ";
    dwave::optimization::deduplicate_diff(d);
    o << "-> ";
    for (auto& u : d) o << u << " ";
    std::set<ssize_t> seen;
    vector<double> w = v0;
    // removals have to be applied from the back
    vector<Update> rem;
    for (auto& u : d) {
        if (!seen.insert(u.index).second) fail("dedup", "deduplicate_diff", "two changes for one index: " + o.str());
        if (u.null()) fail("dedup", "deduplicate_diff", "a change from nothing to nothing: " + o.str());
        if (u.removed()) rem.push_back(u);
        else if (u.placed()) {
            if (u.index != (ssize_t)w.size()) fail("dedup", "deduplicate_diff", "placement not at the end: " + o.str());
            w.push_back(u.value);
        } else {
            if (u.index >= (ssize_t)w.size() || w[u.index] != u.old) fail("dedup", "deduplicate_diff", "wrong old value: " + o.str());
            w[u.index] = u.value;
        }
    }
    for (size_t i = rem.size(); i-- > 0;) {
        if (rem[i].index != (ssize_t)w.size() - 1 || w.back() != rem[i].old) fail("dedup", "deduplicate_diff", "wrong removal: " + o.str());
        w.pop_back();
    }
    if (w != v) fail("dedup", "deduplicate_diff", "the changes do not give the same result: " + o.str());
    st.add("mon:dedup");
}

void iter_case(Rng& r, Stats& st, std::ostringstream& log, std::set<uint64_t>& seen) {
    for (int i = 0; i < 20; ++i) slices(r, st);
    for (int i = 0; i < 4; ++i) conversions(r, st);
    for (int i = 0; i < 10; ++i) dedup(r, st);

    // a parent array and a view of it taken by slices with steps of any sign
    int nd = (int)r.range(0, 4);
    vector<ssize_t> pshape;
    ssize_t pn = 1;
    for (int i = 0; i < nd; ++i) pshape.push_back(r.range(1, 5)), pn *= pshape.back();
    vector<ssize_t> pst(nd);
    ssize_t acc = sizeof(double);
    for (int i = nd; i-- > 0;) pst[i] = acc, acc *= pshape[i];
    vector<double> mem(pn);
    for (ssize_t i = 0; i < pn; ++i) mem[i] = (double)i;
    vector<ssize_t> shape, strides;
    ssize_t off = 0;
    for (int i = 0; i < nd; ++i) {
        int how = (int)r.range(0, 9);
        if (how == 0) {  // one element, axis dropped
            off += r.range(0, pshape[i] - 1) * pst[i];
        } else if (how == 1) {  // empty
            shape.push_back(0), strides.push_back(pst[i]);
        } else {
            ssize_t step = r.chance(40) ? 1 : (r.chance(50) ? r.range(1, 3) : -r.range(1, 3));
            ssize_t start = r.chance(50) ? (step > 0 ? 0 : pshape[i] - 1) : r.range(0, pshape[i] - 1);
            ssize_t most = step > 0 ? (pshape[i] - start + step - 1) / step : start / -step + 1;
            ssize_t len = r.chance(60) ? most : r.range(1, most);
            off += start * pst[i];
            shape.push_back(len), strides.push_back(step * pst[i]);
        }
    }
    ssize_t n = prod(shape);
    const double* base = mem.data() + off / (ssize_t)sizeof(double);
    auto at = [&](ssize_t k) {
        ssize_t o = 0;
        for (size_t a = shape.size(); a-- > 0;) {
            o += (k % shape[a]) * strides[a];
            k /= shape[a];
        }
        return base + o / (ssize_t)sizeof(double);
    };
    log << "view: shape " << shp(shape) << " strides " << shp(strides) << " of an array of shape " << shp(pshape) << "\n";
    uint64_t h = 1469598103934665603ull;
    for (auto x : shape) h = hmix(h, x + 3);
    for (auto x : strides) h = hmix(h, (uint64_t)x + 1000003);
    seen.insert(h);
    using CIt = dwave::optimization::Array::const_iterator;
    using MIt = dwave::optimization::Array::iterator;
    if (shape.empty()) {
        // scalars are walked as contiguous arrays of one element
        walk<CIt>(r, st, log, CIt(base), 1, [&](ssize_t) { return base; }, "scalar");
    } else {
        walk<CIt>(r, st, log, CIt(base, std::span<const ssize_t>(shape), std::span<const ssize_t>(strides)), n, at, "strided");
        walk<MIt>(r, st, log, MIt(const_cast<double*>(base), (ssize_t)shape.size(), shape.data(), strides.data()), n, at, "strided mutable");
        st.add("seen:strided_ndim_" + to_string(shape.size()));
        bool neg = false;
        for (auto x : strides) neg = neg || x < 0;
        if (neg) st.add("seen:negative_stride");
        if (!n) st.add("seen:empty");
        // writing through the mutable iterator reaches exactly the elements of the view
        if (n) {
            MIt it(const_cast<double*>(base), (ssize_t)shape.size(), shape.data(), strides.data());
            vector<double> want = mem;
            for (ssize_t k = 0; k < n; ++k) want[at(k) - mem.data()] = -1;
            for (ssize_t k = 0; k < n; ++k, ++it) *it = -1;
            if (mem != want) fail("iter", "strided mutable", "writing through the view wrote elsewhere\n" + log.str());
            st.add("mon:write");
        }
    }
    walk<CIt>(r, st, log, CIt(mem.data()), pn, [&](ssize_t k) { return mem.data() + k; }, "contiguous");
    // masked
    double fill = 77;
    vector<double> mask(pn);
    for (auto& x : mask) x = r.chance(40) ? (double)r.range(1, 2) : 0;
    walk<CIt>(r, st, log, CIt(mem.data(), mask.data(), &fill), pn,
              [&](ssize_t k) { return mask[k] != 0 ? (const double*)&fill : mem.data() + k; }, "masked");
}

}  // namespace vf
