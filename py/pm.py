"""Random models built through the Python API, with a NumPy oracle per symbol."""
import math
import random

import numpy as np
import dwave.optimization as dwo
from dwave.optimization import Model
from dwave.optimization import mathematical as M
from dwave.optimization import symbols as S

LIM = 1e7
LOGICAL = ("binary", "eq", "le", "and", "or", "xor", "not", "logical", "all", "any")


def prod(s):
    p = 1
    for x in s:
        p *= x
    return p


class Nd:
    """A symbol and what we know about it independently of the library."""
    __slots__ = ("sym", "op", "pre", "fn", "shape", "mx", "lo", "hi", "integral", "dec", "id", "desc", "contig", "cls", "edges", "aux")

    def __init__(self, op, pre, fn, shape, lo, hi, integral=False, mx=None, dec=None, desc="", contig=True, cls=None):
        self.op, self.pre, self.fn, self.shape, self.lo, self.hi = op, pre, fn, shape, lo, hi
        self.integral, self.dec, self.desc, self.contig = integral, dec, desc or op, contig
        self.mx = prod(shape) if mx is None and shape is not None and -1 not in shape else mx
        self.cls = cls
        self.edges = pre       # the predecessors the symbol should report, in order
        self.sym = self.id = self.aux = None

    @property
    def dyn(self):
        return self.shape is not None and len(self.shape) > 0 and self.shape[0] == -1

    @property
    def array(self):
        return self.shape is not None

    @property
    def big(self):
        return max(abs(self.lo), abs(self.hi))


# ------------------------------------------------------------------------------ decision domains
class Dom:
    """kind: binary integer list set bitsets lists"""

    def __init__(self, kind, **k):
        self.kind = kind
        self.__dict__.update(k)

    def random(self, r):
        k = self.kind
        if k in ("binary", "integer"):
            n = prod(self.shape)
            if r.random() < .15:
                v = r.choice([self.lo, self.hi])
                v = [v] * n
            else:
                v = [r.randint(self.lo, self.hi) for _ in range(n)]
            return np.array(v, dtype=float).reshape(self.shape)
        if k == "list":
            v = list(range(self.n))
            r.shuffle(v)
            return np.array(v, dtype=float)
        if k == "set":
            m = r.randint(self.mn, self.mx)
            return np.array(r.sample(range(self.n), m), dtype=float)
        if k == "bitsets":
            a = np.zeros((self.k, self.n))
            for j in range(self.n):
                a[r.randrange(self.k), j] = 1
            return a
        out = [[] for _ in range(self.k)]
        v = list(range(self.n))
        r.shuffle(v)
        for x in v:
            out[r.randrange(self.k)].append(float(x))
        return out

    def legal(self, v):
        """Is v (as read from the library) a legal value? v: array, or list of arrays."""
        k = self.kind
        if k in ("binary", "integer"):
            return v.shape == tuple(self.shape) and bool(((v == np.round(v)) & (v >= self.lo) & (v <= self.hi)).all())
        if k == "list":
            return v.shape == (self.n,) and sorted(v.tolist()) == list(range(self.n))
        if k == "set":
            return (v.ndim == 1 and self.mn <= len(v) <= self.mx and len(set(v.tolist())) == len(v)
                    and all(x == int(x) and 0 <= x < self.n for x in v.tolist()))
        if k == "bitsets":
            a = np.array(v)
            return a.shape == (self.k, self.n) and bool(((a == 0) | (a == 1)).all()) and bool((a.sum(axis=0) == 1).all())
        flat = [x for l in v for x in np.asarray(l).tolist()]
        return len(v) == self.k and sorted(flat) == list(range(self.n))

    def illegal(self, r):
        """(state, why) that must be refused."""
        k = self.kind
        if k == "binary":
            n = prod(self.shape)
            c = [(np.zeros(n + 1), "too many"), (np.zeros(max(n - 1, 0)), "too few")] if n else [(np.zeros(1), "too many")]
            if n:
                for bad in (2, -1, 7):
                    a = np.array([r.randint(0, 1) for _ in range(n)])
                    a[r.randrange(n)] = bad
                    c.append((a.reshape(self.shape), "not binary"))
            return r.choice(c)
        if k == "integer":
            n = prod(self.shape)
            c = [(np.full(n + 1, self.lo), "too many")]
            if n:
                c.append((np.full(n - 1, self.lo), "too few"))
                for bad in (self.lo - 1, self.hi + 1):
                    a = np.array([r.randint(self.lo, self.hi) for _ in range(n)])
                    a[r.randrange(n)] = bad
                    c.append((a.reshape(self.shape), "out of bounds"))
            return r.choice(c)
        if k == "list":
            n = self.n
            c = [(list(range(n + 1)), "too long")]
            if n:
                c += [(list(range(n - 1)), "too short"), ([n] + list(range(1, n)), "out of range"), ([-1] + list(range(1, n)), "negative")]
            if n > 1:
                c.append(([0] * n, "duplicates"))
            return r.choice(c)
        if k == "set":
            n = self.n
            c = []
            if self.mx >= 2:
                c.append(([0, 0], "duplicates"))
            if self.mx >= 1:
                c += [([n] * 1 + list(range(max(self.mn - 1, 0))), "out of range"), ([-1] + list(range(max(self.mn - 1, 0))), "negative")]
            if self.mx < n:
                c.append((list(range(self.mx + 1)), "too large"))
            if self.mn > 0:
                c.append((list(range(self.mn - 1)), "too small"))
            if not c:
                c.append(([n], "out of range"))
            return r.choice(c)
        if k == "bitsets":
            a = np.asarray(self.random(r))
            c = [(np.zeros((self.k + 1, self.n)), "too many sets")]
            if self.n:
                b = a.copy()
                b[:, r.randrange(self.n)] = 0
                c.append((b, "an element in no set"))
                if self.k > 1:
                    b = a.copy()
                    b[:, r.randrange(self.n)] = 1
                    c.append((b, "an element in several sets"))
            return r.choice(c)
        a = self.random(r)
        c = []
        nonempty = [i for i in range(self.k) if a[i]]
        if nonempty:
            i = r.choice(nonempty)
            b = [list(x) for x in a]
            b[i].pop()
            c.append((b, "an element missing"))
            b = [list(x) for x in a]
            b[r.randrange(self.k)].append(a[i][0])
            c.append((b, "an element twice"))
            b = [list(x) for x in a]
            b[i][0] = self.n
            c.append((b, "out of range"))
        c.append(([list(x) for x in a] + [[]], "too many lists"))
        b = [list(x) for x in a]
        b[0].append(self.n)
        c.append((b, "an element too many"))
        return r.choice(c)


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.array_equal(a, b, equal_nan=True))


class PM:
    def __init__(self, r, ctx=None, model=None):
        self.r, self.ctx = r, ctx
        self.model = model or Model()
        self.nodes = []     # in order of creation, everything the model should contain
        self.objective = None
        self.constraints = []
        # some models are larger, with a few sizes so that operands still fit together
        self.pool = [r.randint(5, 40) for _ in range(2)] if r.random() < .06 else []
        # and some have many decisions, parts, operands, constraints and states
        self.many = not self.pool and r.random() < .06
        self.preds = {}     # id -> [ids]: the inputs of symbols that the library composed as first reported

    # ---------------------------------------------------------------------------- basics
    def add(self, nd, sym):
        nd.sym, nd.id = sym, sym.id()
        nd.cls = type(sym).__name__
        if nd.cls == "Permutation":
            nd.edges = None   # whether the rows are kept is up to the library
        self.nodes.append(nd)
        return nd

    def arrays(self, pred=lambda n: True):
        return [n for n in self.nodes if n.array and n.sym is not None and pred(n)]

    def pick(self, pred=lambda n: True):
        c = self.arrays(pred)
        if not c:
            return None
        if self.r.random() < .5:
            c = c[-4:]
        return self.r.choice(c)

    @property
    def decs(self):
        return [n for n in self.nodes if n.dec is not None]

    def rshape(self, maxnd=4):
        nd = min(maxnd, 4 if self.r.random() < .03 else self.r.choice([0, 1, 1, 1, 2, 2, 2, 3]))
        out = []
        for _ in range(nd):
            x = self.r.randrange(100)
            out.append(0 if x < 4 else 1 if x < 16 else self.r.randint(2, {3: 3, 4: 2}.get(nd, 4)))
            if self.pool and 16 <= x < 80:
                d = self.r.choice(self.pool)
                if prod(out[:-1]) * d <= 150:
                    out[-1] = d
        return tuple(out)

    def rsize(self):
        return self.r.choice(self.pool) if self.pool and self.r.random() < .75 else self.r.choice([0, 1, 2, 3, 3, 4, 5])

    # ---------------------------------------------------------------------------- decisions
    def decision(self, kind=None):
        r, m = self.r, self.model
        kind = kind or r.choice(["binary", "binary", "integer", "integer", "list", "list", "set", "set", "bitsets", "lists"])
        if kind == "binary":
            s = self.rshape()
            arg = None if s == () and r.random() < .5 else (s[0] if len(s) == 1 and r.random() < .5 else s)
            return self.add(Nd("binary", [], None, s, 0, 1, True, dec=Dom("binary", shape=s, lo=0, hi=1), desc=f"binary{s}"), m.binary(arg))
        if kind == "integer":
            s = self.rshape()
            lo = r.choice([0, 0, 0, r.randint(-5, 0), r.randint(1, 3)])
            hi = lo + r.choice([0, 1, 3, 5, 100])
            kw = dict(lower_bound=lo, upper_bound=hi)
            if lo == 0 and r.random() < .3:
                kw.pop("lower_bound")
            return self.add(Nd("integer", [], None, s, lo, hi, True, dec=Dom("integer", shape=s, lo=lo, hi=hi), desc=f"integer{s}[{lo},{hi}]"),
                            m.integer(s if r.random() < .8 or len(s) != 1 else s[0], **kw))
        if kind == "list":
            n = self.rsize()
            return self.add(Nd("list", [], None, (n,), 0, max(n - 1, 0), True, dec=Dom("list", n=n), desc=f"list({n})"), m.list(n))
        if kind == "set":
            n = self.rsize()
            mn = r.choice([0, 0, r.randint(0, n)])
            mx = r.choice([n, r.randint(mn, n)])
            shape = (-1,) if mn != mx else (mn,)
            sym = m.set(n) if (mn, mx) == (0, n) and r.random() < .5 else m.set(n, mn, mx)
            return self.add(Nd("set", [], None, shape, 0, max(n - 1, 0), True, mx=mx, dec=Dom("set", n=n, mn=mn, mx=mx), desc=f"set({n},{mn},{mx})"), sym)
        n, k = self.rsize(), r.randint(8, 13) if self.many and r.random() < .3 else r.randint(1, 3)
        if kind == "bitsets":
            main, parts = m.disjoint_bit_sets(n, k)
            d = self.add(Nd("bitsets", [], None, None, 0, 1, True, dec=Dom("bitsets", n=n, k=k), desc=f"disjoint_bit_sets({n},{k})"), main)
            for i, p in enumerate(parts):
                q = self.add(Nd("bitset", [d], None, (n,), 0, 1, True, desc=f"bitset{i}"), p)
                q.aux = i
            return d
        main, parts = m.disjoint_lists(n, k)
        d = self.add(Nd("lists", [], None, None, 0, 1, True, dec=Dom("lists", n=n, k=k), desc=f"disjoint_lists({n},{k})"), main)
        for i, p in enumerate(parts):
            q = self.add(Nd("dlist", [d], None, (-1,), 0, max(n - 1, 0), True, mx=n, desc=f"list{i}"), p)
            q.aux = i
        return d

    def constant(self, shape=None, vals=None):
        r = self.r
        if vals is None:
            shape = self.rshape() if shape is None else shape
            n = prod(shape)
            k = r.randrange(4)
            if k == 0:
                v = [r.randint(0, 3) for _ in range(n)]
            elif k == 1:
                v = [r.randint(-12, 12) / 4 for _ in range(n)]
            elif k == 2:
                v = [r.randint(-5, 5) for _ in range(n)]
            else:
                v = [r.randint(1, 4) for _ in range(n)]
            vals = np.array(v, dtype=r.choice([float, float, float, int]) if k != 1 else float).reshape(shape)
        a = np.array(vals)
        arg = a
        c = r.randrange(5)
        if c == 0:
            arg = a.tolist() if a.size else a
        elif c == 1 and a.ndim == 2:
            arg = np.asfortranarray(a)
        elif c == 2 and a.ndim and a.size:
            arg = np.repeat(a, 2, axis=0)[::2]
        elif c == 3 and a.size and float(np.abs(a).max()) < 100 and (a == np.round(a)).all():
            arg = a.astype(r.choice([np.int8, np.float32, np.int64]))
        keep = a.astype(float).copy()
        lo, hi = (float(keep.min()), float(keep.max())) if keep.size else (0., 0.)
        nd = Nd("constant", [], lambda: keep.copy(), tuple(keep.shape), lo, hi, bool((keep == np.round(keep)).all()), desc=f"constant{tuple(keep.shape)}")
        nd.aux = keep
        return self.add(nd, self.model.constant(arg))

    # ---------------------------------------------------------------------------- operations
    def make(self, nd, build):
        """Build the symbol; the operation is legal, so a refusal is a violation."""
        try:
            sym = build()
        except Exception as e:
            if self.ctx:
                self.ctx.viol("refused", nd.op, f"{nd.desc} of {[p.desc for p in nd.pre]} shapes {[p.shape for p in nd.pre]} was refused: {e!r}")
            return None
        return self.add(nd, sym)

    def unary(self):
        r = self.r
        op = r.choice(["neg", "abs", "square", "pow", "pow1", "sqrt", "logical", "not"])
        a = self.pick((lambda n: n.lo >= 0 and n.op in ("binary", "integer", "list", "set", "constant", "abs", "square", "bitset")) if op == "sqrt" else
                      (lambda n: n.big < 100) if op in ("square", "pow") else (lambda n: True))
        if a is None:
            return None
        x = a.sym
        if op == "neg":
            nd, f = Nd("neg", [a], lambda v: -v, a.shape, -a.hi, -a.lo, a.integral, a.mx), lambda: r.choice([lambda: -x, lambda: S.Negative(x)])()
        elif op == "abs":
            nd, f = Nd("abs", [a], np.abs, a.shape, 0, a.big, a.integral, a.mx), lambda: abs(x)
        elif op == "square":
            nd, f = Nd("square", [a], np.square, a.shape, 0, a.big ** 2, a.integral, a.mx), lambda: r.choice([lambda: x ** 2, lambda: S.Square(x)])()
        elif op == "pow":
            if a.dyn:
                return None
            k = r.randint(3, 4)
            nd, f = Nd("pow", [a], lambda v: v ** k, a.shape, -a.big ** k, a.big ** k, a.integral, a.mx, desc=f"pow{k}"), lambda: x ** k
            nd.edges = [a] * k
        elif op == "pow1":
            if self.ctx and not (x ** 1).id() == x.id():
                self.ctx.viol("value", "pow1", "x ** 1 is not x")
            return None
        elif op == "sqrt":
            nd, f = Nd("sqrt", [a], np.sqrt, a.shape, 0, a.hi ** .5, False, a.mx), lambda: r.choice([lambda: M.sqrt(x), lambda: S.SquareRoot(x)])()
        elif op == "logical":
            nd, f = Nd("logical", [a], lambda v: v.astype(bool).astype(float), a.shape, 0, 1, True, a.mx), lambda: M.logical(x)
        else:
            nd, f = Nd("not", [a], lambda v: np.logical_not(v).astype(float), a.shape, 0, 1, True, a.mx), lambda: M.logical_not(x)
        return self.make(nd, f)

    BIN = {
        "add": (lambda x, y: x + y, [lambda x, y: x + y, M.add, S.Add]),
        "sub": (lambda x, y: x - y, [lambda x, y: x - y, S.Subtract]),
        "mul": (lambda x, y: x * y, [lambda x, y: x * y, M.multiply, S.Multiply]),
        "div": (lambda x, y: x / y, [lambda x, y: x / y, M.divide]),
        "mod": (lambda x, y: np.where(y == 0, 0, np.mod(x, np.where(y == 0, 1, y))), [lambda x, y: x % y, M.mod]),
        "eq": (lambda x, y: (x == y).astype(float), [lambda x, y: x == y, S.Equal]),
        "le": (lambda x, y: (x <= y).astype(float), [lambda x, y: x <= y, lambda x, y: y >= x if not isinstance(y, S.Constant) else x <= y]),
        "max": (np.maximum, [M.maximum]),
        "min": (np.minimum, [M.minimum]),
        "and": (lambda x, y: np.logical_and(x, y).astype(float), [M.logical_and]),
        "or": (lambda x, y: np.logical_or(x, y).astype(float), [M.logical_or]),
        "xor": (lambda x, y: np.logical_xor(x, y).astype(float), [M.logical_xor]),
    }

    def binary_op(self):
        r = self.r
        op = r.choice(list(self.BIN))
        a = self.pick(lambda n: n.big < 1e4)
        if a is None:
            return None
        den = (lambda n: n.lo > 0 or n.hi < 0) if op == "div" else (lambda n: True)
        simple = (lambda n: n.op in ("integer", "constant")) if op == "div" else (lambda n: True)
        if a.dyn or r.random() < .4:
            b = self.pick(lambda n: not n.dyn and n.shape == () and n.big < 1e4 and den(n) and simple(n))
        else:
            b = self.pick(lambda n: n.shape == a.shape and n.big < 1e4 and den(n) and simple(n))
        if b is None:
            return None
        if op != "div" and r.random() < .5:
            a, b = b, a
        np_f, forms = self.BIN[op]
        big = a.big + b.big if op in ("add", "sub") else a.big * b.big if op == "mul" else max(a.big, b.big) if op != "div" else a.big * 4 * LIM / LIM
        wide = a if a.shape != () else b
        lo, hi = -big, big
        if op in ("eq", "le", "and", "or", "xor"):
            lo, hi = 0, 1
        elif op == "add":
            lo, hi = a.lo + b.lo, a.hi + b.hi
        elif op == "sub":
            lo, hi = a.lo - b.hi, a.hi - b.lo
        elif op == "mul":
            c = [a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi]
            lo, hi = min(c), max(c)
        elif op == "max":
            lo, hi = max(a.lo, b.lo), max(a.hi, b.hi)
        elif op == "min":
            lo, hi = min(a.lo, b.lo), min(a.hi, b.hi)
        elif op == "div":
            m = min(abs(b.lo), abs(b.hi))
            lo, hi = -a.big / m, a.big / m
        integral = op in ("eq", "le", "and", "or", "xor") or (op != "div" and a.integral and b.integral)
        nd = Nd(op, [a, b], np_f, wide.shape, lo, hi, integral, wide.mx)
        form = r.choice(forms)
        if form is self.BIN["le"][1][1] and a.op == "constant":
            form = forms[0]
        return self.make(nd, lambda: form(a.sym, b.sym))

    def nary(self):
        r = self.r
        op = r.choice(["add", "mul", "max", "min"])
        a = self.pick(lambda n: not n.dyn and n.big < 50)
        if a is None:
            return None
        args = [a] + [self.pick(lambda n: not n.dyn and n.shape == a.shape and n.big < 50) for _ in range(r.randint(2, 14 if self.many else 3))]
        f = {"add": M.add, "mul": M.multiply, "max": M.maximum, "min": M.minimum}[op]
        c = {"add": S.NaryAdd, "mul": S.NaryMultiply, "max": S.NaryMaximum, "min": S.NaryMinimum}[op]
        g = {"add": np.add, "mul": np.multiply, "max": np.maximum, "min": np.minimum}[op]

        def fn(*v):
            o = v[0]
            for x in v[1:]:
                o = g(o, x)
            return o
        big = sum(x.big for x in args) if op == "add" else prod([max(x.big, 1) for x in args]) if op == "mul" else max(x.big for x in args)
        nd = Nd("nary_" + op, args, fn, a.shape, -big, big, all(x.integral for x in args))
        return self.make(nd, lambda: r.choice([f, c])(*[x.sym for x in args]))

    def inplace(self):
        """y = x; y += z: x must keep its meaning."""
        r = self.r
        op = r.choice(["add", "mul"])
        a = self.pick(lambda n: not n.dyn and n.big < 50)
        if a is None:
            return None
        b = self.pick(lambda n: n.shape == a.shape and n.big < 50 and not n.dyn)
        if b is None:
            return None

        def go():
            y = a.sym
            if op == "add":
                y += b.sym
            else:
                y *= b.sym
            return y

        def fn(*v):
            o = v[0]
            for x in v[1:]:
                o = o + x if op == "add" else o * x
            return o
        big = a.big + b.big if op == "add" else a.big * b.big
        nd = Nd("i" + op, [a, b], fn, a.shape, -big, big, a.integral and b.integral)
        used = any(a in n.pre for n in self.nodes) or a is self.objective or a in self.constraints
        before = self.model.num_symbols()
        try:
            y = go()
        except Exception as e:
            if self.ctx:
                self.ctx.viol("refused", nd.op, f"{nd.desc} of {a.desc} and {b.desc} was refused: {e!r}")
            return None
        if y.id() == a.id:
            # extended in place, which is fine as long as nothing else depends on it
            if self.ctx:
                self.ctx.count("mon:inplace")
                if used:
                    self.ctx.viol("graph", nd.op, f"{a.desc} was changed in place although other symbols depend on it")
                if a.op not in ("nary_" + op, "i" + op, "pow"):
                    self.ctx.viol("graph", nd.op, f"{a.desc} was changed in place")
            if a.edges is None:
                if a.id in self.preds:
                    self.preds[a.id].append(b.id)
                a.pre = list(a.pre) + [b]
            else:
                a.edges = list(a.edges) + [b]
                a.pre = list(a.edges)
            a.fn = fn
            a.lo, a.hi, a.integral = -big, big, nd.integral
            a.desc = a.op = "i" + op
            return a
        if a.op in ("nary_" + op, "i" + op, "pow"):
            nd.edges = None   # of the array itself or of what it is made from
        return self.add(nd, y)

    def reduce(self):
        r = self.r
        op = r.choice(["sum", "sum", "prod", "max", "min", "all", "any"])
        a = self.pick((lambda n: not n.dyn and n.mx > 0) if op in ("max", "min") else
                      (lambda n: n.big < 6 and n.mx <= 6) if op == "prod" else (lambda n: True))
        if a is None:
            return None
        fn = {"sum": np.sum, "prod": np.prod, "max": np.max, "min": np.min,
              "all": lambda v: np.float64(v.astype(bool).all()), "any": lambda v: np.float64(v.astype(bool).any())}[op]
        n = max(a.mx, 1)
        if op == "sum":
            lo, hi = min(0, n * a.lo), max(0, n * a.hi)
        elif op == "prod":
            hi = max(a.big, 1) ** n
            lo = -hi
        elif op in ("all", "any"):
            lo, hi = 0, 1
        else:
            lo, hi = a.lo, a.hi
        if max(abs(lo), abs(hi)) > LIM:
            return None
        nd = Nd(op if op in ("sum", "prod", "all", "any") else "r" + op, [a], fn, (), lo, hi, a.integral or op in ("all", "any"))
        return self.make(nd, lambda: getattr(a.sym, op)())

    def partial_sum(self):
        a = self.pick(lambda n: not n.dyn and len(n.shape) >= 1 and n.mx >= 1)
        if a is None:
            return None
        ax = self.r.randrange(len(a.shape))
        k = a.shape[ax]
        nd = Nd("partial_sum", [a], lambda v: v.sum(axis=ax), a.shape[:ax] + a.shape[ax + 1:], min(0, k * a.lo), max(0, k * a.hi), a.integral, desc=f"sum(axis={ax})")
        nd.aux = ax
        return self.make(nd, lambda: a.sym.sum(axis=ax))

    def where(self):
        r = self.r
        x = self.pick()
        if x is None:
            return None
        y = self.pick(lambda n: n.shape == x.shape)
        c = self.pick(lambda n: not n.dyn and (n.shape == () if x.dyn or r.random() < .5 else n.shape == x.shape))
        if y is None or c is None:
            return None
        nd = Nd("where", [c, x, y], lambda c, x, y: (x if c != 0 else y) if c.ndim == 0 else np.where(c != 0, x, y), x.shape,
                min(x.lo, y.lo), max(x.hi, y.hi), x.integral and y.integral, max(x.mx, y.mx))
        return self.make(nd, lambda: M.where(c.sym, x.sym, y.sym))

    def basic(self):
        r = self.r
        a = self.pick(lambda n: n.contig and len(n.shape) >= 1)
        if a is None:
            return None
        ix, contig = [], True
        for d in a.shape:
            if d > 0 and r.random() < .3:
                ix.append(r.randint(-d, d - 1))
            else:
                q = 4 if d < 0 else d
                ix.append(slice(r.choice([None, r.randint(-q - 1, q + 1)]), r.choice([None, r.randint(-q - 1, q + 1)]),
                                r.choice([None, None, None, r.randint(1, 3), r.randint(1, 3), r.choice([5, 8, 100, 2 ** 62])])))
        while len(ix) > 1 and ix[-1] == slice(None) and r.random() < .5:
            ix.pop()
        full = list(ix) + [slice(None)] * (len(a.shape) - len(ix))
        key = ix[0] if len(ix) == 1 and r.random() < .5 else tuple(ix)
        if all(isinstance(i, int) for i in full) and a.dyn:
            return None
        if a.dyn and isinstance(full[0], int):
            return None
        if not a.dyn:
            t = np.zeros(a.shape)[tuple(full)]
            shape = t.shape
            # (of an empty array, numpy says that anything is contiguous and the library does not)
            t = np.zeros([d or 2 for d in a.shape])[tuple(full)]
            contig = t.flags.c_contiguous and (t.ndim == 0 or all(isinstance(i, int) or i == slice(None) for i in full))
        else:
            t = np.zeros((max(a.mx, 0) if len(a.shape) == 1 else 3,) + a.shape[1:])[tuple(full)]
            shape = (-1,) + t.shape[1:]
            contig = all(i == slice(None) for i in full)
        nd = Nd("basic", [a], lambda v: v[tuple(full)], shape, a.lo, a.hi, a.integral, a.mx if a.dyn else None, desc=f"basic{key}", contig=contig)
        return self.make(nd, lambda: a.sym[key])

    def index_for(self, dim, like=None):
        """A symbol that the library can prove to be within range(dim)."""
        ok = ("list", "set", "integer", "binary", "bitset", "dlist", "constant")
        return self.pick(lambda n: n.op in ok and len(n.shape) <= 1 and n.integral and n.lo >= 0 and n.hi < dim and dim > 0
                         and (n.op not in ("list", "set", "dlist") or (n.dec or n.pre[0].dec).n <= dim)
                         and (like is None or n is like or (not n.dyn and n.shape == like.shape)))

    def advanced(self):
        r = self.r
        a = self.pick(lambda n: n.contig and len(n.shape) >= 1 and not n.dyn)
        if a is None:
            return None
        nd_ = len(a.shape)
        k0 = r.randrange(nd_)
        i0 = self.index_for(a.shape[k0])
        if i0 is None:
            return None
        ix = [slice(None)] * nd_
        pre = {k0: i0}
        for k in range(nd_):
            if k != k0 and r.random() < .4:
                j = self.index_for(a.shape[k], like=i0) if not i0.dyn else (i0 if i0.hi < a.shape[k] and i0.mx <= a.shape[k] else None)
                if j is not None and (i0.dyn is False or (j is i0 and (i0.dec or i0.pre[0].dec).n <= a.shape[k])):
                    pre[k] = j
        combined = r.random() < .35 and nd_ > len(pre)
        for k in range(nd_):
            if k in pre:
                continue
            if combined and a.shape[k] > 0 and r.random() < .5:
                ix[k] = r.randint(-a.shape[k], a.shape[k] - 1)
            elif combined and r.random() < .5:
                q = a.shape[k]
                ix[k] = slice(r.choice([None, r.randint(0, q)]), r.choice([None, r.randint(0, q)]), None)
        combined = any(not (k in pre) and ix[k] != slice(None) for k in range(nd_))
        ks = sorted(pre)
        if combined:
            return self.combined(a, ix, pre, ks)
        split = ks[-1] - ks[0] != len(ks) - 1
        if i0.dyn and not (split or ks[0] == 0):
            return None

        def fn(v, *iv):
            j = list(ix)
            for k, t in zip(ks, iv):
                j[k] = t.astype(int)
            return v[tuple(j)]
        probe = fn(np.zeros(a.shape), *[np.zeros(i0.mx if i0.dyn else i0.shape, dtype=int) if i0.mx else np.zeros(i0.shape if not i0.dyn else (0,), dtype=int) for _ in ks])
        shape = (-1,) + probe.shape[1:] if i0.dyn else probe.shape
        rest = prod(probe.shape[1:]) if i0.dyn else 1
        nd = Nd("advanced", [a] + [pre[k] for k in ks], fn, shape, a.lo, a.hi, a.integral, i0.mx * rest if i0.dyn else None,
                desc="advanced" + str([pre[k].desc if k in pre else ix[k] for k in range(nd_)]))

        def go():
            j = [pre[k].sym if k in pre else ix[k] for k in range(nd_)]
            while len(j) > 1 and isinstance(j[-1], slice) and r.random() < .5:
                j.pop()
            return a.sym[j[0]] if len(j) == 1 else a.sym[tuple(j)]
        return self.make(nd, go)

    def combined(self, a, ix, pre, ks):
        """Integers and slices next to arrays: several symbols are made."""
        dyn = any(n.dyn for n in pre.values())
        if dyn:
            # only the first axis of the result can be dynamic
            at = [k for k, q in enumerate(q for q in range(len(ix)) if q in pre or not isinstance(ix[q], int)) if q in pre]
            if at[0] > 0 and at[-1] - at[0] == len(at) - 1:
                return None

        def fn(v, *iv):
            j = list(ix)
            for k, t in zip(ks, iv):
                j[k] = t.astype(int)
            return v[tuple(j)]
        try:
            sym = a.sym[tuple(pre[k].sym if k in pre else ix[k] for k in range(len(ix)))]
        except Exception as e:
            self.foreign()
            if self.ctx:
                self.ctx.viol("refused", "combined", f"{[pre[k].desc if k in pre else ix[k] for k in range(len(ix))]} of {a.desc} of shape {a.shape} was refused: {e!r}")
            return None
        i0 = pre[ks[0]]
        shape = fn(np.zeros(a.shape), *[np.zeros((min(i0.mx, 1),) if dyn else pre[k].shape, dtype=int) for k in ks]).shape
        mx = i0.mx * prod(shape[1:]) if dyn else None
        shape = ((-1,) if dyn else shape[:1]) + shape[1:]
        # the symbols in between
        self.foreign(skip=sym.id())
        nd = Nd("combined", [a] + [pre[k] for k in ks], fn, shape, a.lo, a.hi, a.integral, mx,
                desc="combined" + str([pre[k].desc if k in pre else ix[k] for k in range(len(ix))]))
        nd.edges = None
        if self.ctx:
            self.ctx.count("combined")
        return self.add(nd, sym)

    def foreign(self, skip=None):
        """Take note of symbols the library made on its own."""
        known = {n.id for n in self.nodes}
        for s in self.model.iter_symbols():
            if s.id() not in known and s.id() != skip:
                nd = Nd("hidden", [], None, None, 0, 0)
                nd.edges = None
                self.add(nd, s)

    def permutation(self):
        a = self.pick(lambda n: n.op == "constant" and len(n.shape) == 2 and n.shape[0] == n.shape[1] > 0)
        if a is None:
            n = self.r.randint(1, 4)
            a = self.constant((n, n))
        o = self.index_for(a.shape[0])
        if o is None or len(o.shape) != 1 or o.dyn:
            return None
        rows = self.make(Nd("advanced", [a, o], lambda v, i: v[i.astype(int)], o.shape + a.shape[1:], a.lo, a.hi, a.integral, desc="A[x,:]"), lambda: a.sym[o.sym, :])
        if rows is None:
            return None
        nd = Nd("permutation", [a, o], lambda v, i: v[i.astype(int)][:, i.astype(int)], o.shape + o.shape, a.lo, a.hi, a.integral, desc="A[x,:][:,x]")
        nd.edges = [rows, o]
        return self.make(nd, lambda: rows.sym[:, o.sym])

    def concat(self):
        r = self.r
        a = self.pick(lambda n: not n.dyn and len(n.shape) >= 1)
        if a is None:
            return None
        ax = r.randrange(len(a.shape))
        if r.random() < .1:
            # of one array
            y = M.concatenate(r.choice([a.sym, [a.sym], (a.sym,)]), axis=ax)
            if self.ctx and (y.shape() != a.sym.shape() or not y.equals(a.sym)):
                self.ctx.viol("value", "concat", f"concatenate of one array gave {y!r}")
            return None
        args = [a]
        for _ in range(r.randint(1, 12 if self.many else 2)):
            args.append(self.pick(lambda n: not n.dyn and len(n.shape) == len(a.shape) and all(i == ax or p == q for i, (p, q) in enumerate(zip(n.shape, a.shape)))))
        shape = list(a.shape)
        shape[ax] = sum(x.shape[ax] for x in args)
        nd = Nd("concat", args, lambda *v: np.concatenate(v, axis=ax), tuple(shape), min(x.lo for x in args), max(x.hi for x in args),
                all(x.integral for x in args), desc=f"concatenate(axis={ax})")
        nd.aux = ax
        return self.make(nd, lambda: M.concatenate(r.choice([tuple, list])(x.sym for x in args), axis=ax))

    def reshape(self):
        r = self.r
        a = self.pick(lambda n: not n.dyn and n.contig and n.mx > 0)
        if a is None:
            return None
        s, rest = [], a.mx
        for _ in range(r.randint(0, 2)):
            q = r.choice([q for q in range(1, rest + 1) if rest % q == 0])
            s.append(q)
            rest //= q
        s.append(rest)
        s = tuple(s)
        nd = Nd("reshape", [a], lambda v: v.reshape(s), s, a.lo, a.hi, a.integral, desc=f"reshape{s}")
        return self.make(nd, lambda: r.choice([lambda: a.sym.reshape(s), lambda: a.sym.reshape(*s)])())

    def size(self):
        a = self.pick(lambda n: n.dyn)
        if a is None:
            return None
        return self.make(Nd("size", [a], lambda v: np.float64(v.size), (), 0, a.mx, True), lambda: self.r.choice([lambda: a.sym.size(), lambda: S.Size(a.sym)])())

    def qm(self):
        r = self.r
        a = self.pick(lambda n: not n.dyn and len(n.shape) == 1 and n.shape[0] >= 1 and n.big <= 100)
        if a is None:
            return None
        n = a.shape[0]
        lin, quad = {}, {}
        terms = []
        for _ in range(r.randint(1, 2 * n)):
            u, v, b = r.randrange(n), r.randrange(n), r.randint(-8, 8) / 2
            terms.append((u, v, b))
        if r.random() < .25:
            # squares only
            terms = [(u, u, b) for u, v, b in terms]
        if r.random() < .5:
            # later entries of a dict replace earlier ones with the same key, (u, v) and (v, u) are different keys
            for u, v, b in terms:
                quad[u, v] = b
            lin = {r.randrange(n): r.randint(-4, 4) / 2 for _ in range(r.randint(0, n))}
            args = (dict(quad), dict(lin)) if lin or r.random() < .5 else (dict(quad),)
            terms = [(u, v, b) for (u, v), b in quad.items()]
            lv = lin
        else:
            lvec = [r.randint(-4, 4) / 2 for _ in range(r.choice([n, n, r.randint(0, n)]))]
            q = (np.array([t[2] for t in terms]), (np.array([t[0] for t in terms]), np.array([t[1] for t in terms])))
            args = (q, lvec) if lvec or r.random() < .5 else (q,)
            lv = dict(enumerate(lvec))
        Q, L = np.zeros((n, n)), np.zeros(n)
        for u, v, b in terms:
            Q[min(u, v), max(u, v)] += b
        for i, b in lv.items():
            L[i] += b
        big = (np.abs(Q).sum()) * a.big ** 2 + np.abs(L).sum() * a.big
        nd = Nd("qm", [a], lambda x: np.float64(x @ Q @ x + L @ x), (), -big, big, False)
        nd.aux = (L, Q)
        return self.make(nd, lambda: self.model.quadratic_model(a.sym, *args))

    OPS = ["constant"] + ["binary_op"] * 5 + ["nary"] + ["inplace"] + ["unary"] * 2 + ["reduce"] * 3 + ["partial_sum"] + ["where"] * 2 + \
        ["basic"] * 2 + ["advanced"] * 3 + ["permutation", "concat", "reshape", "size", "qm"]

    def op(self):
        return getattr(self, self.r.choice(self.OPS))()

    def build(self, ndec=None, nconst=None, nops=None):
        r = self.r
        for _ in range(ndec or (r.randint(9, 14) if self.many else r.randint(1, 4))):
            self.decision()
        for _ in range(r.randint(1, 3) if nconst is None else nconst):
            self.constant()
        made = 0
        want = nops if nops is not None else r.randint(30, 60) if r.random() < .02 and not self.pool else r.randint(2, 12)
        for _ in range(want * 6):
            if made >= want:
                break
            if r.random() < .06:
                self.decision()
            if self.op() is not None:
                made += 1
        return self

    def goals(self):
        """Set an objective and constraints."""
        r = self.r
        sc = self.arrays(lambda n: n.shape == ())
        if sc and r.random() < .8:
            self.objective = r.choice(sc)
            self.model.minimize(self.objective.sym)
        for _ in range(r.randint(0, 15 if self.many else 3)):
            c = self.pick(lambda n: n.shape == () and n.op in LOGICAL)
            if c is not None:
                self.constraints.append(c)
                self.model.add_constraint(c.sym)
        return self

    # ---------------------------------------------------------------------------- states and values
    def wild(self):
        """A constant with values that are not in the usual range; nothing is computed with it."""
        r = self.r
        v = [r.choice([math.nan, math.inf, -math.inf, -0., 5e-324, 2.2e-308, 1.7e308, -1e300, 2. ** 53 + 2, .1, 1 / 3]) for _ in range(r.randint(1, 12))]
        a = np.array(v[0] if r.random() < .2 else v)
        keep = a.copy()
        return self.add(Nd("constant", [], lambda: keep.copy(), tuple(keep.shape), -math.inf, math.inf, desc=f"constant{keep.tolist()}"), self.model.constant(a))

    def count(self, low, high):
        """A number of states."""
        return self.r.randint(10, 13) if self.many and self.r.random() < .6 else self.r.randint(low, high)

    def assign(self, i, only=None):
        """Set random decision values in state i; returns {node: value}."""
        out = {}
        for d in self.decs:
            if only is None or d in only:
                v = d.dec.random(self.r)
                d.sym.set_state(i, v)
                out[d] = v
        return out

    def dec_value(self, d, i):
        if d.array:
            return d.sym.state(i)
        return [n.sym.state(i) for n in self.nodes if n.pre == [d] and n.op in ("bitset", "dlist")]

    def read(self, i, order=None):
        """{node: state} of every array symbol."""
        return {n: n.sym.state(i) for n in (order or self.nodes) if n.array and n.sym is not None}

    def check_values(self, vals, ctx, given=None):
        """Compare each value with the operation applied to the values of its inputs."""
        for n, v in vals.items():
            ctx.count("mon:value")
            if not isinstance(v, np.ndarray) or v.dtype != np.float64:
                ctx.viol("value", n.op, f"the state of {n.desc} is not a float64 array: {type(v)} {getattr(v, 'dtype', '')}")
                continue
            if n.shape is not None:
                want = n.shape
                ok = v.ndim == len(want) and all(a == b or a == -1 for a, b in zip(want, v.shape))
                if not ok:
                    ctx.viol("value", n.op, f"{n.desc} has the shape {v.shape} instead of {want}")
                    continue
            if n.sym is not None:
                size = n.sym.state_size()
                ctx.count("mon:state_size")
                if size < v.nbytes or (not n.dyn and size != v.nbytes):
                    ctx.viol("bounds", n.op, f"{n.desc} has the state size {size} but holds {v.nbytes} bytes")
            if n.dec is not None:
                ctx.count("mon:domain")
                if not n.dec.legal(v):
                    ctx.viol("domain", n.op, f"{n.desc} holds the illegal value {v.tolist()}")
                if given and n in given and not same(v, given[n]):
                    ctx.viol("value", n.op, f"{n.desc} was set to {np.asarray(given[n]).tolist()} but reads {v.tolist()}")
                continue
            if n.op in ("bitset", "dlist"):
                if given and n.pre[0] in given and not same(v, given[n.pre[0]][n.aux]):
                    ctx.viol("value", n.op, f"part {n.aux} of {n.pre[0].desc} was set to {given[n.pre[0]][n.aux]} but reads {v.tolist()}")
                continue
            if n.fn is None:
                continue
            pv = [vals[p] for p in n.pre]
            want = np.asarray(n.fn(*pv), dtype=float)
            scale = max([1.0] + [float(np.abs(p).max()) for p in pv + [want] if p.size])
            if want.shape != v.shape or not np.allclose(want, v, rtol=1e-9, atol=1e-9 * scale, equal_nan=True):
                ctx.viol("value", n.op, f"{n.desc} of {[p.tolist() for p in pv]} is {v.tolist()} but should be {want.tolist()}")
        # partitions as a whole
        for d in self.nodes:
            if d.dec is not None and not d.array:
                parts = [vals[n] for n in self.nodes if n.pre == [d] and n.op in ("bitset", "dlist") and n in vals]
                if len(parts) == d.dec.k:
                    ctx.count("mon:domain")
                    if not d.dec.legal(parts):
                        ctx.viol("domain", d.op, f"{d.desc} holds the illegal value {[p.tolist() for p in parts]}")

    def describe(self):
        idx = {n: i for i, n in enumerate(self.nodes)}
        return "; ".join(f"#{i} {n.desc}" + (str([f'#{idx.get(p)}' for p in n.pre]) if n.pre else "") for i, n in enumerate(self.nodes)) + \
            (f"; minimize #{idx[self.objective]}" if self.objective else "") + (f"; constraints {[idx[c] for c in self.constraints]}" if self.constraints else "")
