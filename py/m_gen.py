"""Generated models against a direct computation of the problems they are named for."""
import io, math, warnings
import numpy as np
from dwave.optimization import Model
from dwave.optimization import generators as G

warnings.simplefilter("ignore")


def q(r, lo, hi):
    """A number for which sums are exact."""
    k = r.randrange(4)
    if k == 0:
        return r.randint(int(lo), int(hi))
    if k == 1:
        return r.randint(int(lo * 4), int(hi * 4)) / 4
    return r.randint(int(lo), max(int(lo), int(hi) // 4))


def form(r, a, integral=False, kept=None, ndim=None):
    """One of the ways of passing an array; what is passed is recorded with a copy."""
    a = np.asarray(a)
    isint = bool((a == np.floor(a)).all()) if a.size else True
    opts = ["list", "tuple", "float64", "fortran", "strided", "readonly", "float32", "reversed"]
    if isint:
        opts += ["int64", "int64", "int32"]
        if a.size and abs(a).max() < 30000:
            opts.append("int16")
        if a.size and a.min() >= 0 and a.max() < 256:
            opts += ["uint8"] * 2
        if a.size and a.min() >= -128 and a.max() < 128:
            opts.append("int8")
    if integral:
        opts = [o for o in opts if o not in ("float32",)]
    k = r.choice(opts)
    base = a.astype(int) if isint and (integral or r.random() < .5) else a.astype(float)
    if k == "list":
        x = base.tolist()
    elif k == "tuple":
        x = tuple(tuple(v) for v in base.tolist()) if base.ndim == 2 else tuple(base.tolist())
    elif k == "fortran":
        x = np.asfortranarray(base)
    elif k == "strided":
        big = np.full(tuple(2 * s + 1 for s in base.shape), 7, dtype=base.dtype)
        x = big[tuple(slice(1, 1 + 2 * s, 2) for s in base.shape)]
        x[...] = base
    elif k == "reversed":
        x = np.ascontiguousarray(base[::-1])[::-1]
    elif k == "readonly":
        x = base.copy()
        x.flags.writeable = False
    else:
        x = base.astype(k)
    if isinstance(x, (list, tuple)):
        kept.append((x, repr(x)))
    else:
        kept.append((x, x.copy()))
    return x


def some(r, most, rare=.06):
    """A number up to `most`, rarely a good deal more."""
    return r.randint(8, 14) if r.random() < rare else r.randint(1, most)


class Inst:
    """An instance: the arguments, the decisions, and the cost and feasibility of an assignment."""
    tol = 0

    def __init__(self, r, ctx):
        self.r, self.ctx, self.kept = r, ctx, []
        self.make()

    def f(self, a, **k):
        return form(self.r, a, kept=self.kept, **k)

    def unchanged(self):
        for x, was in self.kept:
            if isinstance(x, (list, tuple)):
                if repr(x) != was:
                    return f"{was} became {x}"
            elif x.dtype != was.dtype or x.shape != was.shape or not np.array_equal(x, was, equal_nan=True):
                return f"{was.tolist()} became {x.tolist()}"
        return None

    def call(self):
        return getattr(G, self.name)(*self.args, **self.kw)


class BinPacking(Inst):
    name = "bin_packing"

    def make(self):
        r = self.r
        n = some(r, 6)
        self.w = np.array([q(r, 0, 20) for _ in range(n)], dtype=float)
        self.cap = max(float(self.w.max()), 0.25) + r.choice([0, 0, .25, 1, 5, 30])
        if r.random() < .3:
            s = float(sum(r.sample(list(self.w), r.randint(1, n))))
            if s >= self.w.max() and s > 0:
                self.cap = s
        self.args, self.kw = (self.f(self.w), self.cap), {}
        self.n = n

    def assign(self, model, i):
        r, n = self.r, self.n
        nb = r.randint(1, n)
        a = np.zeros((n, n))
        for k in range(n):
            a[r.randrange(nb) if r.random() < .7 else r.randrange(n), k] = 1
        s, = model.iter_decisions()
        s.set_state(i, [list(x) for x in a])
        load = [sum(self.w[k] for k in range(n) if a[b, k]) for b in range(n)]
        return sum(1 for b in range(n) if a[b].any()), all(x <= self.cap for x in load), a.tolist()

    def bad(self):
        r = self.r
        k = r.randrange(5)
        w = self.w.tolist()
        if k == 0:
            return "no items", ([], self.cap), {}
        if k == 1:
            return "capacity", (w, r.choice([0, -1, -.5, math.nan])), {}
        if k == 2:
            return "negative weight", (w + [-1], self.cap), {}
        if k == 3:
            return "heavy item", (w + [self.cap + .25], self.cap), {}
        return "not numbers", (r.choice([[w], w + [math.nan], w + [math.inf], ["a"], [[w]]]) if len(w) != 1 else [math.nan], self.cap), {}


class Knapsack(Inst):
    name = "knapsack"

    def make(self):
        r = self.r
        n = self.n = r.choice([0, 1, 1, 2, 3, 4, 5, 6, some(r, 7)])
        self.w = np.array([q(r, 0, 20) for _ in range(n)], dtype=float)
        self.v = np.array([q(r, 0, 20) for _ in range(n)], dtype=float)
        self.cap = r.choice([.25, 1, 5, 20.5, 1000])
        if n and r.random() < .5:
            self.cap = float(sum(r.sample(list(self.w), r.randint(1, n)))) or 1
        self.args, self.kw = (self.f(self.v), self.f(self.w), self.cap), {}

    def assign(self, model, i):
        r = self.r
        x = r.sample(range(self.n), r.randint(0, self.n))
        s, = model.iter_decisions()
        s.set_state(i, x)
        return -sum(self.v[k] for k in x), sum(self.w[k] for k in x) <= self.cap, x

    def bad(self):
        r = self.r
        k = r.randrange(5)
        v, w = self.v.tolist(), self.w.tolist()
        if k == 0:
            return "lengths", (v + [1], w, self.cap) if r.random() < .5 else (v, w + [1], self.cap), {}
        if k == 1:
            return "capacity", (v, w, r.choice([0, -1, -.5, math.nan])), {}
        if k == 2:
            return "negative weight", (v + [1], w + [-1], self.cap), {}
        if k == 3:
            return "negative value", (v + [-1], w + [1], self.cap), {}
        return "not numbers", r.choice([(v + [math.nan], w + [1], self.cap), (v + [1], w + [math.inf], self.cap), ([v], [w], self.cap) if False else ([["a"]], [["b"]], self.cap)]), {}


class QAP(Inst):
    name = "quadratic_assignment"

    def make(self):
        r = self.r
        n = self.n = some(r, 5)
        self.d = np.array([[q(r, 0, 20) for _ in range(n)] for _ in range(n)], dtype=float)
        self.fl = np.array([[q(r, 0, 20) for _ in range(n)] for _ in range(n)], dtype=float)
        self.args, self.kw = (self.f(self.d), self.f(self.fl)), {}
        if n == 1 and r.random() < .3:
            self.args = (float(self.d[0, 0]), [float(self.fl[0, 0])])

    def assign(self, model, i):
        p = self.r.sample(range(self.n), self.n)
        s, = model.iter_decisions()
        s.set_state(i, p)
        return sum(self.fl[a, b] * self.d[p[a], p[b]] for a in range(self.n) for b in range(self.n)), True, p

    def bad(self):
        r = self.r
        d, f = self.d.tolist(), self.fl.tolist()
        big = np.ones((self.n + 1, self.n + 1))
        neg = self.d.copy()
        neg[r.randrange(self.n), r.randrange(self.n)] = r.choice([-1, -.25, math.nan, math.inf])
        k = r.randrange(4)
        if k == 0:
            return "sizes", r.choice([(d, big), (big, f)]), {}
        if k == 1:
            return "values", r.choice([(neg, f), (d, neg)]), {}
        if k == 2:
            return "square", r.choice([(np.ones((self.n, self.n + 1)), f), (np.ones((self.n, self.n + 1)), np.ones((self.n, self.n + 1)))]), {}
        return "dimensions", r.choice([([d], [f]), (d, [f])]), {}


class TSP(Inst):
    name = "traveling_salesperson"

    def make(self):
        r = self.r
        n = self.n = some(r, 6)
        self.d = np.array([[q(r, 0, 20) for _ in range(n)] for _ in range(n)], dtype=float)
        self.args, self.kw = (self.f(self.d),), {}

    def assign(self, model, i):
        p = self.r.sample(range(self.n), self.n)
        s, = model.iter_decisions()
        s.set_state(i, p)
        return sum(self.d[p[a], p[(a + 1) % self.n]] for a in range(self.n)), True, p

    def bad(self):
        r = self.r
        neg = self.d.copy()
        neg[r.randrange(self.n), r.randrange(self.n)] = r.choice([-1, -.25, math.nan, math.inf])
        return r.choice([("values", (neg,), {}), ("square", (np.ones((self.n, self.n + 1)),), {}), ("dimensions", ([self.d],), {}), ("not numbers", ([["a"]],), {}), ("empty", ([],), {})])


class FlowShop(Inst):
    name = "flow_shop_scheduling"

    def make(self):
        r = self.r
        m, n = some(r, 5), some(r, 6)
        self.m, self.n = m, n
        self.t = np.array([[q(r, 0, 20) for _ in range(n)] for _ in range(m)], dtype=float)
        t = self.f(self.t)
        if m == 1 and r.random() < .3:
            t = self.f(self.t[0])
        self.args, self.kw = (t,), {}

    def assign(self, model, i):
        p = self.r.sample(range(self.n), self.n)
        s, = model.iter_decisions()
        s.set_state(i, p)
        end = np.zeros((self.m + 1, self.n + 1))
        for a in range(self.m):
            for k, j in enumerate(p):
                end[a + 1, k + 1] = max(end[a, k + 1], end[a + 1, k]) + self.t[a, j]
        return end[self.m, self.n], True, p

    def bad(self):
        r = self.r
        neg = self.t.copy()
        neg[r.randrange(self.m), r.randrange(self.n)] = r.choice([-1, -.25, math.nan, math.inf])
        return r.choice([("values", (neg,), {}), ("empty", (r.choice([[], [[]], np.ones((0, 3)), np.ones((3, 0))]),), {}), ("dimensions", ([self.t],), {})])


class JobShop(Inst):
    name = "job_shop_scheduling"

    def make(self):
        r = self.r
        n, m = some(r, 4, .03), some(r, 4, .03)
        self.n, self.m = n, m
        self.t = np.array([[r.randint(0 if r.random() < .3 else 1, 9) for _ in range(m)] for _ in range(n)])
        self.mac = np.array([r.sample(range(m), m) for _ in range(n)])
        self.one = r.random() < .5
        t, mac = self.t, self.mac + self.one
        if n == 1 and r.random() < .3:
            t, mac = t[0], mac[0]
        self.args = (self.f(t, integral=True), self.f(mac, integral=True))
        self.kw = {}
        self.ub = int(self.t.sum())
        if r.random() < .5:
            self.ub = max(1, self.ub + r.choice([0, 1, 5, 30]))
            self.kw = dict(upper_bound=r.choice([self.ub, float(self.ub), np.int64(self.ub)]))

    def assign(self, model, i):
        r, n, m = self.r, self.n, self.m
        s = np.zeros((n, m), dtype=int)
        k = r.randrange(4)
        if k == 0:
            for a in range(n):
                for b in range(m):
                    s[a, b] = r.randint(0, self.ub)
        else:
            # a schedule without overlaps
            job, mach, nxt = [0] * n, [0] * m, [0] * n
            todo = [a for a in range(n) for _ in range(m)]
            r.shuffle(todo)
            for a in todo:
                b = self.mac[a, nxt[a]]
                st = max(job[a], mach[b])
                s[a, b] = st
                job[a] = mach[b] = st + self.t[a, b]
                nxt[a] += 1
            if k == 2:
                # almost one
                a, b = r.randrange(n), r.randrange(m)
                s[a, b] = min(max(0, s[a, b] + r.choice([-1, 1])), self.ub)
            if k == 3 and n > 1:
                a, b = r.sample(range(n), 2)
                c = r.randrange(m)
                s[a, c], s[b, c] = s[b, c], s[a, c]
            s = np.minimum(s, self.ub)
        d, = model.iter_decisions()
        d.set_state(i, s)
        e = s + self.t
        ok = all(e[a, self.mac[a, k]] <= s[a, self.mac[a, k + 1]] for a in range(n) for k in range(m - 1))
        ok = ok and all(e[a, b] <= s[c, b] or e[c, b] <= s[a, b] for b in range(m) for a in range(n) for c in range(a))
        if d.lower_bound() > 0 or d.upper_bound() < self.ub:
            self.ctx.viol("generator", self.name, f"the start times are limited to {d.lower_bound()}..{d.upper_bound()} with the upper bound {self.ub}")
        return e.max(), ok, s.tolist()

    def bad(self):
        r = self.r
        t, mac = self.t.copy(), self.mac + self.one
        k = r.randrange(6)
        a, b = r.randrange(self.n), r.randrange(self.m)
        if k == 0:
            neg = t.astype(float)
            neg[a, b] = r.choice([-1, .5, math.nan, math.inf, 1.25])
            return "times", (neg, mac), {}
        if k == 1:
            mac = mac.copy()
            mac[a, b] = r.choice([-1, self.m + 1, mac[a, b - 1] if self.m > 1 else 2])
            return "machines", (t, mac), {}
        if k == 2:
            return "shapes", r.choice([(t, np.hstack([mac, mac])), (np.vstack([t, t]), mac)]), {}
        if k == 3:
            return "empty", r.choice([([], []), ([[]], [[]])]), {}
        if k == 4:
            return "dimensions", ([t], [mac]), {}
        return "upper bound", (t, mac), dict(upper_bound=r.choice([0, -1, .5]))


def routes(r, n, k):
    """Lists of the customers for each of the vehicles."""
    p = r.sample(range(n), n)
    out = [[] for _ in range(k)]
    use = r.sample(range(k), r.randint(1, k))
    for c in p:
        out[r.choice(use)].append(c)
    return out


class CVRP(Inst):
    name = "capacitated_vehicle_routing"
    tol = 1e-9

    def make(self):
        r = self.r
        n, k = some(r, 6), some(r, 4)
        self.n, self.k = n, k
        self.dem = np.array([max(.25, q(r, 1, 20)) for _ in range(n)], dtype=float)
        self.split = routes(r, n, k)
        self.cap = max([sum(self.dem[c] for c in x) for x in self.split] + [float(self.dem.sum()) / k])
        self.cap = math.ceil(self.cap * 4) / 4 + r.choice([0, 0, .25, 10])
        how = self.how = r.randrange(3)
        full = np.concatenate([[0], self.dem])
        if how == 0:
            self.d = np.array([[q(r, 0, 20) for _ in range(n + 1)] for _ in range(n + 1)], dtype=float)
            self.args = (self.f(full), k, self.cap)
            self.kw = dict(distances=self.f(self.d))
        else:
            xy = np.array([[q(r, 0 if r.random() < .5 else -20, 100) for _ in range(2)] for _ in range(n + 1)], dtype=float)
            self.d = np.array([[math.hypot(a[0] - b[0], a[1] - b[1]) for b in xy] for a in xy])
            if how == 1:
                self.args = (self.f(full), k, self.cap)
                self.kw = dict(locations_x=self.f(xy[:, 0]), locations_y=self.f(xy[:, 1]))
            else:
                self.args = (self.f(self.dem), k, self.cap)
                self.kw = dict(locations_x=self.f(xy[1:, 0]), locations_y=self.f(xy[1:, 1]), depot_x_y=self.f(xy[0]))
            self.xy = xy

    def length(self, rt):
        t = 0
        for x in rt:
            if x:
                t += self.d[0, x[0] + 1] + self.d[x[-1] + 1, 0] + sum(self.d[a + 1, b + 1] for a, b in zip(x, x[1:]))
        return t

    def assign(self, model, i):
        rt = self.split if self.r.random() < .3 else routes(self.r, self.n, self.k)
        d, = model.iter_decisions()
        d.set_state(i, rt)
        return self.length(rt), all(sum(self.dem[c] for c in x) <= self.cap for x in rt), rt

    def bad(self):
        r, n, k = self.r, self.n, self.k
        full = [0] + self.dem.tolist()
        D = np.ones((n + 1, n + 1))
        xs = list(range(n + 1))
        neg = D.copy()
        neg[r.randrange(n + 1), r.randrange(n + 1)] = r.choice([-1, math.nan, math.inf])
        return r.choice([
            ("vehicles", (full, r.choice([0, -1, 1.5, "2"]), 1000.), dict(distances=D)),
            ("capacity", (full, k, r.choice([0, -1, math.nan])), dict(distances=D)),
            ("total demand", (full, k, float(self.dem.sum()) / k - .125), dict(distances=D)),
            ("depot demand", ([1] + full[1:], k, 1000.), dict(distances=D)),
            ("zero demand", (full[:-1] + [0], k, 1000.), dict(distances=D)),
            ("negative demand", (full[:-1] + [-1], k, 1000.), dict(distances=D)),
            ("distances", (full, k, 1000.), dict(distances=neg)),
            ("size", (full + [1], k, 1000.), dict(distances=D)),
            ("both", (full, k, 1000.), dict(distances=D, locations_x=xs, locations_y=xs)),
            ("both", (full, k, 1000.), dict(distances=D, depot_x_y=[0, 0])),
            ("none", (full, k, 1000.), {}),
            ("one axis", (full, k, 1000.), dict(locations_x=xs)),
            ("lengths", (full, k, 1000.), dict(locations_x=xs, locations_y=xs + [1])),
            ("lengths", (full, k, 1000.), dict(locations_x=xs + [1], locations_y=xs + [1])),
            ("depot", (full, k, 1000.), dict(locations_x=xs, locations_y=xs, depot_x_y=[0, 0])),
            ("depot", (full[1:], k, 1000.), dict(locations_x=xs[1:], locations_y=xs[1:])),
            ("depot", (full[1:], k, 1000.), dict(locations_x=xs[1:], locations_y=xs[1:], depot_x_y=r.choice([[1], [1, 2, 3], [1, math.nan]]))),
            ("location", (full, k, 1000.), dict(locations_x=xs[:-1] + [math.nan], locations_y=xs)),
            ("location", (full, k, 1000.), dict(locations_x=xs, locations_y=xs[:-1] + [math.inf])),
        ])


class VRPTW(CVRP):
    name = "capacitated_vehicle_routing_with_time_windows"
    tol = 0

    def make(self):
        r = self.r
        n, k = some(r, 6), some(r, 4)
        self.n, self.k = n, k
        scale = r.choice([1, 1, 1, 2 ** 18])
        self.dem = np.array([max(.25, q(r, 1, 20)) for _ in range(n)], dtype=float)
        self.split = routes(r, n, k)
        self.cap = max([sum(self.dem[c] for c in x) for x in self.split] + [float(self.dem.sum()) / k])
        self.cap = math.ceil(self.cap * 4) / 4 + r.choice([0, 0, .25, 30])
        self.d = np.array([[q(r, 0, 20) for _ in range(n + 1)] for _ in range(n + 1)], dtype=float) * scale
        if r.random() < .3:
            self.d = (self.d + self.d.T) / 2
        if r.random() < .3:
            self.d[:, 0] = self.d[0, :]
        self.sv = np.array([0] + [q(r, 0, 5) for _ in range(n)], dtype=float) * scale
        self.open = np.array([0] + [q(r, 0, 40) for _ in range(n)], dtype=float) * scale
        self.close = self.open + self.sv + np.array([q(r, 0, 60) for _ in range(n + 1)]) * scale
        if r.random() < .6:
            # the times of the known routes, so that they just fit
            self.close[0] = 0
            for x in self.split:
                t = 0
                for s, e in self.times(x):
                    c = x[t]
                    self.close[c + 1] = e + r.choice([0, 0, 0, .25, 5]) * scale
                    t += 1
                if x:
                    self.close[0] = max(self.close[0], e + self.d[x[-1] + 1, 0])
            self.close[0] += r.choice([0, 0, .25, 100]) * scale
        self.args = ()
        self.kw = dict(demand=self.f(np.concatenate([[0], self.dem])), number_of_vehicles=k, vehicle_capacity=self.cap, time_distances=self.f(self.d),
                       time_window_open=self.f(self.open), time_window_close=self.f(self.close), service_time=self.f(self.sv))

    def times(self, x):
        """Beginning and end of the service at each stop."""
        t, at, out = 0, 0, []
        for c in x:
            s = max(t + self.d[at, c + 1], self.open[c + 1])
            t, at = s + self.sv[c + 1], c + 1
            out.append((s, t))
        return out

    def assign(self, model, i):
        rt = self.split if self.r.random() < .4 else routes(self.r, self.n, self.k)
        d, = model.iter_decisions()
        d.set_state(i, rt)
        limit = min(3 * max(1, self.n // self.k), self.n + 1)
        ok = all(sum(self.dem[c] for c in x) <= self.cap and len(x) <= limit for x in rt)
        for x in rt:
            ts = self.times(x)
            ok = ok and all(e <= self.close[c + 1] for c, (s, e) in zip(x, ts))
            if x:
                ok = ok and ts[-1][1] + self.d[x[-1] + 1, 0] <= self.close[0]
        return self.length(rt), ok, rt

    def bad(self):
        r, n = self.r, self.n
        kw = dict(demand=[0] + self.dem.tolist(), number_of_vehicles=self.k, vehicle_capacity=self.cap, time_distances=self.d.tolist(),
                  time_window_open=self.open.tolist(), time_window_close=self.close.tolist(), service_time=self.sv.tolist())
        k = r.randrange(9)
        if k == 0:
            kw["number_of_vehicles"] = r.choice([0, -1, 1.5])
        elif k == 1:
            kw["vehicle_capacity"] = r.choice([0, -1, math.nan, float(self.dem.sum()) / self.k - .125])
        elif k == 2:
            kw["demand"][0] = 1
            kw["vehicle_capacity"] += 10
        elif k == 3:
            kw["demand"][-1] = r.choice([0, -1, math.nan])
        elif k == 4:
            kw["service_time"][0] = 1
        elif k == 5:
            a = r.choice(["demand", "time_window_open", "time_window_close", "service_time"])
            kw[a] = kw[a] + [0] if r.random() < .5 else kw[a][:-1]
        elif k == 6:
            a = r.choice(["time_window_open", "time_window_close", "service_time"])
            kw[a][-1] = r.choice([-1, math.nan, math.inf])
        elif k == 7:
            kw["time_distances"][-1][0] = r.choice([-1, math.nan, math.inf])
        else:
            kw["time_distances"] = kw["time_distances"][:-1]
        return f"{k}", (), kw


class CQM(Inst):
    """The conversion of a quadratic model with constraints, for which the part of dimod that is used is stood in for."""
    name = "_from_constrained_quadratic_model"

    class Vars(list):
        pass

    class QM:
        def __init__(self, r, nv, quad):
            k = r.randint(1, nv)
            self.variables = CQM.Vars(f"v{i}" for i in r.sample(range(nv), k))
            self.lin = {v: r.randint(-9, 9) / 2 for v in self.variables}
            self.quad = []
            if quad:
                pairs = [(u, v) for a, u in enumerate(self.variables) for v in self.variables[:a]]
                self.quad = [(u, v, r.randint(-9, 9) / 2) for u, v in r.sample(pairs, r.randint(0, len(pairs)))]
            self.offset = r.choice([0, 0, 1.5, -3])

        def get_linear(self, v):
            return self.lin[v]

        def is_linear(self):
            return not self.quad

        def iter_quadratic(self):
            return iter(self.quad)

        def energy(self, x):
            return sum(b * x[v] for v, b in self.lin.items()) + sum(b * x[u] * x[v] for u, v, b in self.quad) + self.offset

    class Value:
        def __init__(self, v):
            self.value = self.name = v

    class Comp:
        pass

    def make(self):
        r = self.r
        self.nv = some(r, 6)
        self.variables = CQM.Vars(f"v{i}" for i in r.sample(range(self.nv), self.nv))
        self.objective = CQM.QM(r, self.nv, r.random() < .7)
        self.constraints = {}
        for i in range(r.randint(0, 4)):
            c = CQM.Comp()
            c.lhs, c.rhs, c.sense = CQM.QM(r, self.nv, r.random() < .4), r.randint(-9, 9) / 2, CQM.Value(r.choice(["==", "<=", ">="]))
            if r.random() < .5:
                c.rhs = c.lhs.energy({v: r.randrange(2) for v in self.variables})
            self.constraints[i] = c
        self.args, self.kw = (self,), {}

    def vartype(self, v):
        return CQM.Value("BINARY")

    def num_variables(self):
        return self.nv

    def assign(self, model, i):
        x = {v: self.r.randrange(2) for v in self.variables}
        d, = model.iter_decisions()
        d.set_state(i, [x[v] for v in self.variables])
        ok = True
        for c in self.constraints.values():
            e = c.lhs.energy(x)
            ok = ok and {"==": e == c.rhs, "<=": e <= c.rhs, ">=": e >= c.rhs}[c.sense.value]
        return self.objective.energy(x), ok, x

    def bad(self):
        self.vartype = lambda v: CQM.Value("INTEGER")
        return "vartype", (self,), {}

    def __repr__(self):
        return f"CQM({self.variables}, {self.objective.lin} {self.objective.quad} {self.objective.offset}, {[(c.lhs.lin, c.lhs.quad, c.lhs.offset, c.sense.value, c.rhs) for c in self.constraints.values()]})"


ALL = [BinPacking, Knapsack, QAP, TSP, FlowShop, JobShop, CVRP, VRPTW, CQM]


def show(x):
    return repr(x) if not isinstance(x, np.ndarray) else f"{x.dtype}{x.tolist()}"


def compare(ctx, s, model, i, cost, ok, a, what=""):
    got = model.objective.state(i)
    ctx.count("mon:cost")
    if got.shape != () or not abs(float(got) - cost) <= s.tol * max(1, abs(cost)):
        ctx.viol("generator", s.name, f"{what}the objective of {a} is {got.tolist()} instead of {cost}")
    feasible = model.feasible(i)
    ctx.count("mon:feasible_true" if ok else "mon:feasible_false")
    if bool(feasible) != bool(ok):
        bad = [k for k, c in enumerate(model.iter_constraints()) if not c.state(i)]
        ctx.viol("generator", s.name, f"{what}{a} is {'feasible' if feasible else f'infeasible by the constraints {bad}'} instead of {'feasible' if ok else 'infeasible'}")


def case(ctx, r):
    cls = r.choice(ALL)
    s = cls(r, ctx)
    ctx.count("gen:" + s.name)
    ctx.text = f"{s.name}({', '.join([show(x) for x in s.args] + [f'{k}={show(x)}' for k, x in s.kw.items()])})"
    model = s.call()
    was = s.unchanged()
    ctx.count("mon:unchanged")
    if was:
        ctx.viol("generator", s.name, f"the caller's array {was}")
    if not model.is_locked():
        ctx.viol("generator", s.name, "the model is not locked") if cls is not CQM else model.lock()
    n = r.randint(2, 6)
    model.states.resize(n)
    done = []
    for i in range(n):
        cost, ok, a = s.assign(model, i)
        done.append((cost, ok, a))
        compare(ctx, s, model, i, cost, ok, a)
    # again, after all of them were set
    for i, (cost, ok, a) in enumerate(done):
        if r.random() < .3:
            compare(ctx, s, model, i, cost, ok, a, "later ")
    if s.unchanged():
        ctx.viol("generator", s.name, "the caller's array changed when the model was used")
    if r.random() < .15:
        with model.to_file(max_num_states=n) as f:
            m2 = Model.from_file(f)
        m2.lock()
        for i, (cost, ok, a) in enumerate(done):
            compare(ctx, s, m2, i, cost, ok, a, "loaded from a file, ")
    ctx.saw(ctx.text)
    if ctx.case % 300 == 0:
        ctx.sample(ctx.text + f" {done[0]}")
    what, args, kw = s.bad()
    ctx.count("mon:invalid")
    ctx.text = f"{s.name}({', '.join([show(x) for x in args] + [f'{k}={show(x)}' for k, x in kw.items()])})"
    s.kept = [(x, x.copy()) for x in list(args) + list(kw.values()) if isinstance(x, (np.ndarray, list)) and not isinstance(x, CQM.Vars)]
    s.kept = [(x, repr(x) if isinstance(x, list) else c) for x, c in s.kept]
    try:
        getattr(G, s.name)(*args, **kw)
        ctx.viol("generator", s.name, f"an invalid instance was accepted: {what}")
    except (ValueError, TypeError, IndexError, ArithmeticError) as e:
        ctx.count("refused:" + type(e).__name__)
    if s.unchanged():
        ctx.viol("generator", s.name, f"the caller's array changed although the instance was refused: {what}")
