"""Operations that have to be refused: an exception is raised, and the model and its values are as before."""
import numpy as np
from dwave.optimization import Model
from dwave.optimization import mathematical as M
from dwave.optimization import symbols as S
from pm import PM, same, prod

ORDINARY = (ValueError, TypeError, IndexError, OverflowError, RuntimeError, KeyError, AttributeError, NotImplementedError, MemoryError)


def graph(m):
    """Everything reported about the graph, in the order reported."""
    return ([(s.id(), type(s).__name__, [q.id() for q in s.iter_predecessors()], [q.id() for q in s.iter_successors()],
              s.topological_index(), s.shape() if hasattr(s, "shape") else None) for s in m.iter_symbols()],
            None if m.objective is None else m.objective.id(), [c.id() for c in m.iter_constraints()], [d.id() for d in m.iter_decisions()],
            m.num_edges(), m.num_symbols(), m.is_locked(), len(m.states))


class Tries:
    """Requests that must be refused, by name."""

    def __init__(self, p, other, r):
        self.p, self.o, self.r, self.m = p, other, r, p.model
        self.held = []

    def two(self, pred):
        p, r = self.p, self.r
        c = [(a, b) for a in p.arrays() for b in p.arrays() if pred(a, b)]
        return r.choice(c) if c else (None, None)

    BIN = [("add", lambda x, y: x + y), ("sub", lambda x, y: x - y), ("mul", lambda x, y: x * y), ("mod", lambda x, y: x % y), ("eq", lambda x, y: x == y),
           ("le", lambda x, y: x <= y), ("maximum", M.maximum), ("minimum", M.minimum), ("and", M.logical_and), ("or", M.logical_or), ("xor", M.logical_xor),
           ("m.add", M.add), ("m.multiply", M.multiply), ("m.mod", M.mod), ("S.Add", S.Add), ("S.Subtract", S.Subtract), ("S.Multiply", S.Multiply),
           ("S.Equal", S.Equal), ("S.LessEqual", S.LessEqual), ("S.Maximum", S.Maximum), ("S.Minimum", S.Minimum), ("S.And", S.And), ("S.Or", S.Or), ("S.Modulus", S.Modulus),
           ("iadd", lambda x, y: x.__iadd__(y)), ("imul", lambda x, y: x.__imul__(y))]

    # ------------------------------------------------------------------ shapes
    def binary_shapes(self):
        a, b = self.two(lambda a, b: a.shape != b.shape and a.mx != 1 and b.mx != 1 and a.shape != () and b.shape != ())
        if a is None:
            return None
        n, f = self.r.choice(self.BIN)
        if n in ("iadd", "imul") and (a.dyn or b.dyn):
            return None
        return f"{n} of shapes {a.shape} and {b.shape}", lambda: f(a.sym, b.sym)

    def binary_dynamic(self):
        """Two arrays of independently changing sizes."""
        a, b = self.two(lambda a, b: a.dyn and b.dyn and a.op == b.op == "set" and a is not b)
        if a is None:
            return None
        n, f = self.r.choice(self.BIN[:11])
        return f"{n} of two sets", lambda: f(a.sym, b.sym)

    def nary_shapes(self):
        a, b = self.two(lambda a, b: a.shape != b.shape and a.mx != 1 and b.mx != 1 and a.shape != () and b.shape != () and not a.dyn)
        if a is None:
            return None
        n, f = self.r.choice([("add", M.add), ("multiply", M.multiply), ("maximum", M.maximum), ("minimum", M.minimum), ("NaryAdd", S.NaryAdd), ("NaryMaximum", S.NaryMaximum),
                              ("NaryMinimum", S.NaryMinimum), ("NaryMultiply", S.NaryMultiply)])
        k = self.r.randint(1, 3)
        return f"{n} of {k} arrays of shape {a.shape} and one of {b.shape}", lambda: f(*[a.sym] * k, b.sym, *[a.sym] * self.r.randint(1, 2))

    def where_shapes(self):
        c = self.p.pick()
        a, b = self.two(lambda a, b: a.shape != b.shape and not (a.dyn and b.dyn))
        if a is None:
            return None
        return f"where of {a.shape} and {b.shape}", lambda: M.where(c.sym, a.sym, b.sym)

    def where_condition(self):
        c, a = self.two(lambda c, a: c.shape != a.shape and not a.dyn and c.shape != () and c.mx != 1)
        if c is None:
            return None
        return f"where with a condition of {c.shape} of {a.shape}", lambda: M.where(c.sym, a.sym, a.sym)

    def concat_shapes(self):
        a, b = self.two(lambda a, b: not a.dyn and not b.dyn and len(a.shape) >= 1)
        if a is None:
            return None
        ax = self.r.randrange(len(a.shape))
        if len(a.shape) == len(b.shape) and all(i == ax or p == q for i, (p, q) in enumerate(zip(a.shape, b.shape))):
            return None
        args = [a.sym] * self.r.randint(1, 2) + [b.sym]
        return f"concatenate(axis={ax}) of {a.shape} and {b.shape}", lambda: M.concatenate(args, axis=ax)

    def concat_axis(self):
        a = self.p.pick(lambda n: not n.dyn)
        if a is None:
            return None
        ax = self.r.choice([len(a.shape), len(a.shape) + 1, -len(a.shape) - 1, 10 ** 6])
        return f"concatenate(axis={ax}) of {a.shape}", lambda: M.concatenate([a.sym, a.sym], axis=ax)

    def concat_dynamic(self):
        a = self.p.pick(lambda n: n.dyn)
        if a is None:
            return None
        return "concatenate of dynamic arrays", lambda: M.concatenate([a.sym, a.sym])

    def concat_none(self):
        return "concatenate of nothing", lambda: M.concatenate([])

    def reshape_size(self):
        a = self.p.pick(lambda n: not n.dyn)
        if a is None:
            return None
        s = self.r.choice([(a.mx + 1,), (a.mx, 2) if a.mx else (2, 1), (2,) * 3 if a.mx != 8 else (3,), (-a.mx - 2, -1), (-5,), (1 << 62, 4), (1 << 33, 1 << 31)])
        if prod(s) == a.mx and min(s) >= 0:
            return None
        return f"reshape of {a.shape} to {s}", lambda: a.sym.reshape(s)

    def reshape_dynamic(self):
        a = self.p.pick(lambda n: n.dyn)
        return None if a is None else ("reshape of a dynamic array", lambda: a.sym.reshape((1, 1)))

    # ------------------------------------------------------------------ indices
    def index_range(self):
        a = self.p.pick(lambda n: len(n.shape) >= 1 and not n.dyn)
        if a is None:
            return None
        k = self.r.randrange(len(a.shape))
        i = self.r.choice([a.shape[k], -a.shape[k] - 1, a.shape[k] + 7, 1 << 62, -(1 << 62), -(1 << 63), (1 << 63) - 1, 1 << 64])
        ix = (slice(None),) * k + (i,)
        return f"index {ix} of {a.shape}", lambda: a.sym[ix]

    def index_many(self):
        a = self.p.pick(lambda n: not n.dyn)
        if a is None:
            return None
        ix = (self.r.choice([0, slice(None)]),) * (len(a.shape) + self.r.randint(1, 3))
        return f"index {ix} of {a.shape}", lambda: a.sym[ix]

    def index_type(self):
        a = self.p.pick(lambda n: len(n.shape) >= 1)
        i = self.r.choice([1.0, "a", None, 2j, [0], (0.5,), Ellipsis, {}, np.float64(0), slice("a", None), slice(0, 1, 0), slice(None, 0.5)])
        if a is None:
            return None
        return f"index {i!r}", lambda: a.sym[i]

    def index_dynamic(self):
        a = self.p.pick(lambda n: n.dyn)
        return None if a is None else ("an integer index of a dynamic dimension", lambda: a.sym[0])

    def advanced_range(self):
        a, i = self.two(lambda a, i: len(a.shape) >= 1 and not a.dyn and a.contig and (i.op in ("list", "integer", "binary", "set", "constant", "bitset") and i.integral and len(i.shape) <= 1)
                        and (i.hi >= a.shape[0] or i.lo < 0) and i.mx != 0)
        if a is None:
            return None
        ix = (i.sym,) + (slice(None),) * (len(a.shape) - 1)
        return f"index of {a.shape} by {i.desc} in [{i.lo},{i.hi}]", lambda: a.sym[ix] if self.r.random() < .5 else S.AdvancedIndexing(a.sym, *ix)

    def combined_advanced(self):
        """An integer or a slice next to an array that is out of range."""
        a, i = self.two(lambda a, i: len(a.shape) >= 2 and not a.dyn and a.contig and i.op in ("list", "integer", "constant") and i.integral and len(i.shape) <= 1 and a.shape[0] > 0
                        and (i.hi >= a.shape[-1] or i.lo < 0) and i.mx != 0)
        if a is None:
            return None
        ix = (self.r.choice([0, slice(1, None)]),) + (slice(None),) * (len(a.shape) - 2) + (i.sym,)
        return f"index of {a.shape} by {ix[:-1]} and {i.desc} in [{i.lo},{i.hi}]", lambda: a.sym[ix]

    def combined_range(self):
        """Integers, at least one of them out of range, next to an array that is within range."""
        a = self.p.pick(lambda n: len(n.shape) >= 2 and not n.dyn and n.contig)
        if a is None:
            return None
        r, d = self.r, a.shape
        k = r.randrange(len(d))
        i = self.p.index_for(d[k])
        if i is None or i.dyn:
            return None
        ix = [i.sym if q == k else r.choice([slice(None), r.randint(-n, n - 1) if n else slice(None)]) for q, n in enumerate(d)]
        q = r.choice([q for q in range(len(d)) if q != k])
        ix[q] = r.choice([d[q], d[q] + r.randint(1, 5), -d[q] - 1, -d[q] - r.randint(2, 5), 2 ** 62, -2 ** 62, 2 ** 70])
        return f"index of {a.shape} by {['x' if x is i.sym else x for x in ix]}", lambda: a.sym[tuple(ix)]

    def advanced_fraction(self):
        a = self.p.pick(lambda n: len(n.shape) >= 1 and not n.dyn and n.contig and n.shape[0] > 1)
        i = self.p.pick(lambda n: n.op == "constant" and not n.integral)
        if a is None or i is None:
            return None
        ix = (i.sym,) + (slice(None),) * (len(a.shape) - 1)
        return f"index by fractions", lambda: a.sym[ix]

    def advanced_shapes(self):
        a = self.p.pick(lambda n: len(n.shape) >= 2 and not n.dyn and n.contig)
        if a is None:
            return None
        i = self.p.index_for(a.shape[0])
        js = [n for n in self.p.arrays() if n.op in ("list", "integer", "binary", "constant") and len(n.shape) == 1 and n.integral and n.lo >= 0 and n.hi < a.shape[1] and i is not None and n.shape != i.shape
              and n.shape != (1,)]
        if i is None or not js or i.mx == 1 or i.dyn:
            return None
        j = self.r.choice(js)
        ix = (i.sym, j.sym) + (slice(None),) * (len(a.shape) - 2)
        return f"index by arrays of {i.shape} and {j.shape}", lambda: S.AdvancedIndexing(a.sym, *ix) if self.r.random() < .5 else a.sym[ix]

    # ------------------------------------------------------------------ reductions
    def axis(self):
        a = self.p.pick()
        ax = self.r.choice([len(a.shape), -1, 7, 1.0, "0", 1 << 40, (0,), [0]])
        return f"sum(axis={ax!r}) of {a.shape}", lambda: a.sym.sum(axis=ax)

    def axis_dynamic(self):
        a = self.p.pick(lambda n: n.dyn)
        return None if a is None else ("partial sum of a dynamic array", lambda: a.sym.sum(axis=0))

    def empty_extreme(self):
        a = self.p.pick(lambda n: n.mx == 0 or (n.dyn and n.op == "set" and n.dec.mn == 0))
        if a is None:
            return None
        w = self.r.choice(["max", "min"])
        return f"{w} of what can be empty", lambda: getattr(a.sym, w)()

    # ------------------------------------------------------------------ values
    def zero_division(self):
        a = self.p.pick(lambda n: n.op in ("constant", "integer", "binary", "list", "set") and n.lo <= 0 <= n.hi and n.mx != 0 and (n.op != "constant" or (n.aux == 0).any()))
        b = None if a is None else self.p.pick(lambda n: n.shape == a.shape and not n.dyn)
        if b is None or a.dyn or (a.dec is not None and a.lo * a.hi > 0):
            return None
        return f"division by {a.desc}", lambda: self.r.choice([lambda: b.sym / a.sym, lambda: M.divide(b.sym, a.sym), lambda: S.Divide(b.sym, a.sym)])()

    def negative_root(self):
        a = self.p.pick(lambda n: n.op in ("constant", "integer") and n.lo < 0 and n.mx > 0)
        return None if a is None else (f"square root of {a.desc}", lambda: self.r.choice([M.sqrt, S.SquareRoot])(a.sym))

    def power(self):
        a = self.p.pick(lambda n: n.op != "constant")
        if a is None:
            return None
        e = self.r.choice([0, -1, .5, 2.5, "2", None, 1j, a.sym, float("nan"), float("inf"), [2]])
        return f"** {e if e is not a.sym else 'symbol'!r}", lambda: a.sym ** e

    def operand(self):
        a = self.p.pick(lambda n: n.op != "constant")
        if a is None:
            return None
        x = self.r.choice([None, object(), [1, 2], 2j, np.zeros(3), {}, self.m])
        n, f = self.r.choice([b for b in self.BIN if b[0] not in ("iadd", "imul", "eq")])
        if self.r.random() < .5 and not isinstance(x, np.ndarray):
            return f"{n} of {type(x).__name__} and a symbol", lambda: f(x, a.sym)
        if isinstance(x, np.ndarray):
            return None
        return f"{n} of a symbol and {type(x).__name__}", lambda: f(a.sym, x)

    def construct(self):
        a = self.p.pick()
        x = self.r.choice([None, "a", object(), 3, [1]])
        cls = self.r.choice([S.Absolute, S.All, S.Any, S.Negative, S.Not, S.Prod, S.Size, S.Square, S.SquareRoot, S.Sum, S.Max, S.Min, S.Logical, S.Reshape, S.PartialSum,
                             S.BasicIndexing, S.AdvancedIndexing, S.Permutation, S.Where, S.Concatenate, S.QuadraticModel, S.DisjointList, S.DisjointBitSet, S.NaryAdd, S.NaryMaximum, S.BinaryVariable,
                             S.IntegerVariable, S.ListVariable, S.SetVariable, S.Constant, S.DisjointLists, S.DisjointBitSets])
        return f"{cls.__name__}({type(x).__name__})", lambda: cls(*([x] * self.r.choice([1, 1, 2, 3])))

    # ------------------------------------------------------------------ goals
    def objective(self):
        a = self.p.pick(lambda n: n.dyn or n.mx != 1)
        return None if a is None else (f"minimize {a.shape}", lambda: self.m.minimize(a.sym))

    def goal_type(self):
        x = self.r.choice([None, 3, "a", [], self.m])
        return f"a goal of type {type(x).__name__}", lambda: self.r.choice([self.m.minimize, self.m.add_constraint])(x)

    def constraint(self):
        a = self.p.pick(lambda n: n.op in ("integer", "list", "set", "constant") and not (n.integral and n.lo >= 0 and n.hi <= 1))
        return None if a is None else (f"{a.desc} as a constraint", lambda: self.m.add_constraint(a.sym))

    # ------------------------------------------------------------------ other models
    def foreign(self):
        p, o, r, m = self.p, self.o, self.r, self.m
        a, b = p.pick(), o.pick()
        if a is None or b is None:
            return None
        x, y = (a.sym, b.sym)
        n, f = r.choice(self.BIN)
        k = r.randrange(8)
        if k == 0:
            return "minimizing a symbol of another model", lambda: m.minimize(y)
        if k == 1:
            return "a constraint of another model", lambda: m.add_constraint(y)
        if k == 2:
            return "where with another model", lambda: M.where(*r.choice([(x, x, y), (x, y, x), (y, x, x), (y, y, x)]))
        if k == 3:
            return "nary with another model", lambda: r.choice([M.add, M.multiply, M.maximum, M.minimum, S.NaryAdd, S.NaryMultiply])(x, x, y)
        if k == 4:
            return "concatenate with another model", lambda: M.concatenate(r.choice([(x, y), (x, x, y), (y, x)]))
        if k == 5:
            if not len(a.shape) or a.dyn:
                return None
            return "an index of another model", lambda: x[(y,) + (slice(None),) * (len(a.shape) - 1)]
        if k == 6:
            i = p.pick(lambda n: n.op == "list" and n.mx > 0)
            q = o.pick(lambda n: n.op == "list" and i is not None and n.shape == i.shape)
            if q is None:
                return None
            c = m.constant(np.zeros((i.mx, i.mx)))
            rows = c[i.sym, :]
            self.extra = True
            return "a permutation by another model", lambda: r.choice([lambda: rows[:, q.sym], lambda: S.Permutation(c, q.sym)])()
        return f"{n} with another model", lambda: f(*r.choice([(x, y), (y, x)]))

    def extend(self):
        """In-place operations on a symbol that can be extended in place."""
        p, o, r, m = self.p, self.o, self.r, self.m
        a = p.pick(lambda n: not n.dyn)
        if a is None:
            return None
        cls = r.choice([S.NaryAdd, S.NaryMultiply])
        f = (lambda x, y: x.__iadd__(y)) if cls is S.NaryAdd else (lambda x, y: x.__imul__(y))
        k = r.randrange(3)
        if k == 0:
            ys = [n for n in o.arrays() if n.shape == a.shape] or o.arrays(lambda n: not n.dyn)
        elif k == 1:
            ys = [n for n in p.arrays() if n.shape != a.shape and n.mx != 1 and a.mx != 1 and a.shape != ()]
        else:
            ys = p.arrays(lambda n: n.shape == a.shape)
            self.lock = True
        if not ys:
            return None
        y = r.choice(ys)
        x = cls(a.sym, a.sym)
        self.held.append(x)
        self.extra = True
        return f"{cls.__name__} of shape {a.shape} in place with {['another model', 'the shape ' + str(y.shape), 'a locked model'][k]}", lambda: f(x, y.sym)

    def convert(self):
        """Constants as Python values."""
        r = self.r
        a = self.p.pick(lambda n: n.op == "constant" and n.mx != 1)
        if a is None:
            return None
        n, f = r.choice([("bool", bool), ("int", int), ("index", lambda x: range(10)[x])])
        return f"{n} of a constant of shape {a.shape}", lambda: f(a.sym)

    # ------------------------------------------------------------------ decisions, constants
    def decision(self):
        m, r = self.m, self.r
        H = 1 << 62
        c = [("binary(-1)", lambda: m.binary(-1)), ("binary((2,-1))", lambda: m.binary((2, -1))), ("binary('a')", lambda: m.binary("a")), ("binary(2.5)", lambda: m.binary(2.5)),
             ("integer((3,-2))", lambda: m.integer((3, -2))), ("integer lb>ub", lambda: m.integer(3, lower_bound=3, upper_bound=2)),
             ("integer no integer between", lambda: m.integer(3, lower_bound=.2, upper_bound=.8)),
             ("integer lb 1.5", lambda: m.integer(3, lower_bound=1.5, upper_bound=8)), ("integer ub -.5", lambda: m.integer(3, lower_bound=-3, upper_bound=-.5)), ("integer ub 2.5", lambda: m.integer(upper_bound=2.5)), ("integer ub<0", lambda: m.integer(2, upper_bound=-1)),
             ("integer beyond", lambda: m.integer(2, lower_bound=-1e300, upper_bound=5)), ("integer ub beyond", lambda: m.integer(2, upper_bound=1e300)),
             ("integer ub nan", lambda: m.integer(2, upper_bound=float("nan"))), ("integer lb 'a'", lambda: m.integer(2, lower_bound="a")),
             ("list(-1)", lambda: m.list(-1)), ("list(1.5)", lambda: m.list(1.5)), ("list(None)", lambda: m.list(None)), ("list('a')", lambda: m.list("a")),
             ("set(-1)", lambda: m.set(-1)), ("set min>max", lambda: m.set(5, 3, 2)), ("set max>n", lambda: m.set(5, 0, 6)), ("set min<0", lambda: m.set(5, -1, 3)), ("set min>n", lambda: m.set(5, 6)),
             ("disjoint_lists(-1)", lambda: m.disjoint_lists(-1, 2)), ("disjoint_lists(3,-1)", lambda: m.disjoint_lists(3, -1)), ("disjoint_bit_sets(-1)", lambda: m.disjoint_bit_sets(-1, 2)),
             ("disjoint_bit_sets(3,-1)", lambda: m.disjoint_bit_sets(3, -1)), ("disjoint_bit_sets('a')", lambda: m.disjoint_bit_sets("a", 2)),
             ("binary overflow", lambda: m.binary((H, 8))), ("integer overflow", lambda: m.integer((1 << 32, 1 << 32))), ("bitsets overflow", lambda: m.disjoint_bit_sets(1 << 40, 1 << 40))]
        return r.choice(c)

    def constant(self):
        m, r = self.m, self.r
        c = [("constant('a')", lambda: m.constant("a")), ("constant(complex)", lambda: m.constant([1j])), ("constant(ragged)", lambda: m.constant([[1], [1, 2]])),
             ("constant(object)", lambda: m.constant(np.array([object()]))), ("constant(dict)", lambda: m.constant({})),
             ("constant(symbol list)", lambda: m.constant(["1", "b"])), ("constant of big ints", lambda: m.constant([1 << 70, object()]))]
        return r.choice(c)

    def parts(self):
        d = [n for n in self.p.decs if not n.array and n.sym is not None]
        if not d:
            return None
        d = self.r.choice(d)
        i = self.r.choice([d.dec.k, -1, 99, "a", None, 1 << 62])
        cls = S.DisjointBitSet if d.dec.kind == "bitsets" else S.DisjointList
        if self.r.random() < .2:
            cls = S.DisjointList if d.dec.kind == "bitsets" else S.DisjointBitSet
        return f"{cls.__name__}({d.desc}, {i})", lambda: cls(d.sym, i)

    def quadratic(self):
        m, r = self.m, self.r
        a = self.p.pick(lambda n: len(n.shape) == 1 and not n.dyn)
        if a is None:
            return None
        n, x = a.shape[0], a.sym
        big = 1 << 40
        c = [("index n", lambda: m.quadratic_model(x, {(n, 0): 1.})), ("index -1", lambda: m.quadratic_model(x, {(0, -1): 1.})), ("linear n", lambda: m.quadratic_model(x, {}, {n: 1.})),
             ("linear -1", lambda: m.quadratic_model(x, {}, {-1: 1.})), ("key of 1", lambda: m.quadratic_model(x, {(0,): 1.})), ("a string", lambda: m.quadratic_model(x, {(0, 0): "a"})),
             ("coordinates n", lambda: m.quadratic_model(x, (np.array([1.]), (np.array([n]), np.array([0]))))), ("coordinates -1", lambda: m.quadratic_model(x, (np.array([1.]), (np.array([-1]), np.array([0]))))),
             ("lengths", lambda: m.quadratic_model(x, (np.array([1., 2.]), (np.array([0]), np.array([0]))))), ("lengths 2", lambda: m.quadratic_model(x, (np.array([1.]), (np.array([0, 0]), np.array([0]))))),
             ("long linear", lambda: m.quadratic_model(x, {}, [1.] * (n + 1))), ("huge", lambda: m.quadratic_model(x, {(big, big): 1.})), ("None", lambda: m.quadratic_model(x, None)),
             ("x None", lambda: m.quadratic_model(None, {(0, 0): 1.}))]
        return r.choice(c)

    def quadratic_shape(self):
        a = self.p.pick(lambda n: n.dyn or len(n.shape) != 1)
        return None if a is None else (f"quadratic model over {a.shape}", lambda: self.m.quadratic_model(a.sym, {}))

    # ------------------------------------------------------------------ states
    def states(self):
        p, r, m = self.p, self.r, self.m
        n = len(m.states)
        d = r.choice(p.decs)
        v = d.dec.random(r)
        i = r.choice([n, n + 3, -1 if n == 0 else -n - 1, 1 << 62])
        c = [("set_state out of range", lambda: d.sym.set_state(i, v)), ("resize(-1)", lambda: m.states.resize(-1)), ("resize('a')", lambda: m.states.resize("a")),
             ("reset_state out of range", lambda: d.sym.reset_state(i)), ("has_state out of range", lambda: d.sym.has_state(i)),
             ("set_state without a state", lambda: d.sym.set_state(0, "abc")), ("set_state None", lambda: d.sym.set_state(0, None))]
        if d.array:
            c.append(("state out of range", lambda: d.sym.state(i)))
        a = p.pick(lambda n: n.dec is None and n.op != "constant")
        if a is not None and not m.is_locked():
            c += [("state of an intermediate of an unlocked model", lambda: a.sym.state(0)), ("has_state of an intermediate of an unlocked model", lambda: a.sym.has_state(0)),
                  ("initialize of an unlocked model", lambda: m.states.initialize())]
        return r.choice(c)


NAMES = [n for n in vars(Tries) if not n.startswith("_") and n not in ("two", "BIN")]


def case(ctx, r):
    p = PM(r, ctx).build().goals()
    o = PM(r).build(nops=3)
    m = p.model
    m.states.resize(1)
    o.model.states.resize(1)
    given = p.assign(0)
    t = Tries(p, o, r)
    base = p.describe()
    ctx.saw(base)
    for _ in range(r.randint(10, 25)):
        name = r.choice(NAMES)
        t.extra = t.lock = False
        q = getattr(t, name)()
        if q is None:
            continue
        if t.extra:
            p.foreign()
        what, f = q
        ctx.text = f"{what} | {base}"
        lock = t.lock or (r.random() < .1 and name != "states")
        if lock:
            m.lock()
        before, obefore = graph(m), graph(o.model)
        ctx.count("mon:refusals")
        ctx.count("try:" + name)
        try:
            got = f()
            ctx.viol("accepted", name, f"{what} was accepted and gave {got!r}")
        except ORDINARY as e:
            ctx.count("raised:" + type(e).__name__)
            if not str(e) and not isinstance(e, MemoryError):
                ctx.count("no_message")
        except Exception as e:
            ctx.viol("accepted", name, f"{what} raised {type(e).__name__}: {e}")
        after, oafter = graph(m), graph(o.model)
        if before != after or obefore != oafter:
            b, a = (before, after) if before != after else (obefore, oafter)
            new = {x[0] for x in a[0]} - {x[0] for x in b[0]}
            rest = [(i, c, pr, [q for q in su if q not in new], t, sh) for i, c, pr, su, t, sh in a[0] if i not in new]
            edges = sum(len(x[2]) for x in a[0] if x[0] in new)
            if new and rest == b[0] and a[1:4] == b[1:4] and a[4] - edges == b[4] and a[5] - len(new) == b[5] and a[6:] == b[6:]:
                ctx.viol("changed", name, f"{what} left {[x[1] for x in a[0] if x[0] in new]} behind and nothing else")
            else:
                d = [(x, y) for x, y in zip(b[0], a[0]) if x != y][:2]
                ctx.viol("changed", name, f"{what} changed the model: {len(b[0])} to {len(a[0])} symbols ({[x[1] for x in a[0] if x[0] in new]}), {d}, {b[1:]} to {a[1:]}")
            if lock:
                m.unlock()
            if name != "combined_advanced" or len(b[0]) > len(a[0]):
                return
            p.foreign()
        if lock:
            m.unlock()
    ctx.text = base
    with m.lock():
        vals = p.read(0)
        p.check_values(vals, ctx, given)
    # the model can still be extended
    ok = ctx.stats["mon:value"]
    p.build(ndec=1, nconst=1, nops=3)
    with m.lock():
        m.states.resize(2)
        given = p.assign(1)
        p.check_values(p.read(1), ctx, given)
    if ctx.case % 500 == 0:
        ctx.sample(ctx.text)
