"""The graph reported is the graph that was built; locks, removal of unused symbols."""
import collections, gc
import numpy as np
from dwave.optimization import Model
from dwave.optimization import mathematical as M
from dwave.optimization import symbols as S
from pm import PM, Nd, same, prod

gc.freeze()
FIXED = {"BinaryVariable", "IntegerVariable", "ListVariable", "SetVariable", "DisjointBitSets", "DisjointLists", "DisjointBitSet", "DisjointList"}
DECS = {"BinaryVariable", "IntegerVariable", "ListVariable", "SetVariable", "DisjointBitSets", "DisjointLists"}


class Machine:
    def __init__(self, ctx, r):
        self.ctx, self.r = ctx, r
        self.p = PM(r, ctx)
        self.m = self.p.model
        self.depth = 0
        self.preds = self.p.preds
        self.managers = []
        self.values = {}       # decision id -> {state: value}
        self.trace = []

    # ------------------------------------------------------------------ the model as it should be
    def note(self):
        """Take the inputs of symbols the library composed on its own as first reported."""
        for n in self.p.nodes:
            if n.edges is None and n.id not in self.preds:
                if n.sym is None:
                    continue
                self.preds[n.id] = [q.id() for q in n.sym.iter_predecessors()]

    def edges(self, n):
        return self.preds[n.id] if n.edges is None else [q.id for q in n.edges]

    def check(self, what):
        ctx, p, m = self.ctx, self.p, self.m
        self.note()
        nodes = {n.id: n for n in p.nodes}
        v = lambda kind, node, msg: ctx.viol(kind, node, f"after {what}: {msg}")
        ctx.count("mon:graph")
        syms = list(m.iter_symbols())
        ids = [s.id() for s in syms]
        if len(set(ids)) != len(ids):
            v("graph", "iter_symbols", "a symbol is reported twice")
        if set(ids) != set(nodes):
            v("graph", "iter_symbols", f"{len(set(ids) - set(nodes))} symbols that should not exist, {[nodes[i].desc for i in set(nodes) - set(ids)]} are missing")
            return False
        if m.num_symbols() != len(nodes) or m.num_nodes() != len(nodes):
            v("graph", "num_symbols", f"{m.num_symbols()}/{m.num_nodes()} instead of {len(nodes)}")
        want = [n.id for n in p.nodes if n.cls in DECS]
        if [s.id() for s in m.iter_decisions()] != want or m.num_decisions() != len(want):
            v("graph", "iter_decisions", "not the decisions in the order of their creation")
        want = [c.id for c in p.constraints]
        if [s.id() for s in m.iter_constraints()] != want or m.num_constraints() != len(want):
            v("graph", "iter_constraints", "not the constraints in the order they were added")
        if (m.objective is None) != (p.objective is None) or (m.objective is not None and m.objective.id() != p.objective.id):
            v("graph", "objective", "not the symbol that was set")
        total = 0
        succ = collections.Counter()
        for s in syms:
            n = nodes[s.id()]
            if type(s).__name__ != n.cls:
                v("graph", n.op, f"{n.desc} is a {type(s).__name__} instead of a {n.cls}")
            got = [q.id() for q in s.iter_predecessors()]
            want = self.edges(n)
            total += len(want)
            ctx.count("mon:edges", len(want))
            if got != want:
                name = lambda l: [nodes[i].desc if i in nodes else "?" for i in l]
                v("graph", n.op, f"{n.desc} has the predecessors {name(got)} instead of {name(want)}")
            for q in got:
                succ[q, s.id()] += 1
            if n.array and n.op not in ("combined",):
                if s.shape() != n.shape or s.ndim() != len(n.shape):
                    v("graph", n.op, f"{n.desc} has the shape {s.shape()} instead of {n.shape}")
                if not n.dyn and s.size() != prod(n.shape):
                    v("graph", n.op, f"{n.desc} has the size {s.size()}")
            if n.cls == "IntegerVariable" and n.dec is not None and (s.lower_bound(), s.upper_bound()) != (n.dec.lo, n.dec.hi):
                v("graph", n.op, f"{n.desc} has the bounds {s.lower_bound()}, {s.upper_bound()}")
            for what, has in (("axis", ("concat",)), ("axes", ("partial_sum",)), ("set_index", ("bitset",)), ("list_index", ("dlist",)),
                              ("num_disjoint_sets", ("bitsets",)), ("num_disjoint_lists", ("lists",))):
                if n.op in has and hasattr(s, what):
                    got = getattr(s, what)()
                    want = n.dec.k if n.dec is not None else n.aux
                    if got != ((want,) if what == "axes" else want):
                        v("graph", n.op, f"{what} of {n.desc} is {got} instead of {want}")
                    ctx.count("mon:parameter")
            if n.sym is not None and (n.sym.id() != s.id() or not n.sym.shares_memory(s) or not n.sym.equals(s) or n.sym.expired()):
                v("graph", n.op, f"two handles of {n.desc} are told apart")
        back = collections.Counter()
        for s in syms:
            for q in s.iter_successors():
                back[s.id(), q.id()] += 1
        if back != succ:
            d = [(nodes[a].desc if a in nodes else "?", nodes[b].desc if b in nodes else "?", back[a, b], succ[a, b]) for a, b in set(back) | set(succ) if back[a, b] != succ[a, b]]
            v("graph", "iter_successors", f"(symbol, successor, reported, depends) {d}")
        if m.num_edges() != total:
            v("graph", "num_edges", f"{m.num_edges()} instead of {total}")
        if m.is_locked() != (self.depth > 0):
            v("lock", "is_locked", f"{m.is_locked()} after {self.depth} unreleased locks")
        if self.depth:
            ctx.count("mon:order")
            pos = {}
            for k, s in enumerate(syms):
                if s.topological_index() != k:
                    v("lock", nodes[s.id()].op, f"symbol {k} has the topological index {s.topological_index()}")
                pos[s.id()] = k
            nd = m.num_decisions()
            if [s.id() for s in syms[:nd]] != [n.id for n in p.nodes if n.cls in DECS]:
                v("lock", "order", "the decisions don't come first, in the order of their creation")
            for s in syms:
                for q in s.iter_predecessors():
                    if pos[q.id()] >= pos[s.id()]:
                        v("lock", nodes[s.id()].op, f"{nodes[s.id()].desc} is ordered before {nodes[q.id()].desc}")
        else:
            for s in syms:
                n = nodes[s.id()]
                ti = s.topological_index()
                if (ti is not None) != (n.cls in DECS):
                    v("lock", n.op, f"{n.desc} has the topological index {ti} in an unlocked model")
        # the states of decisions
        for n in p.nodes:
            if n.sym is None:
                continue
            if n.cls in DECS:
                for i in range(len(m.states)):
                    had = self.values.get(n.id, {}).get(i)
                    if n.sym.has_state(i) != (had is not None):
                        v("lock", n.op, f"{n.desc} {'has no' if had is not None else 'has a'} value in state {i}")
                    elif had is not None and n.array:
                        ctx.count("mon:kept")
                        if not same(n.sym.state(i), had):
                            v("lock", n.op, f"{n.desc} reads {n.sym.state(i)} but was set to {had}")
            elif not self.depth:
                if len(m.states):
                    try:
                        n.sym.has_state(0)
                        v("lock", n.op, f"the state of {n.desc} is accessible in an unlocked model")
                    except TypeError:
                        pass
        return True

    def networkx(self):
        ctx, p, m = self.ctx, self.p, self.m
        self.note()
        G = m.to_networkx()
        ctx.count("mon:networkx")
        name = {s.id(): repr(s) for s in m.iter_symbols()}
        want = set(name.values()) | ({"minimize"} if p.objective is not None else set()) | ({"constraint(s)"} if p.constraints else set())
        if not G.is_directed() or not G.is_multigraph() or set(G.nodes) != want or list(G.nodes)[:len(name)] != list(name.values()):
            ctx.viol("graph", "to_networkx", f"nodes {list(G.nodes)} instead of {want}")
        E = collections.Counter()
        for n in p.nodes:
            for q in self.edges(n):
                E[name[q], name[n.id]] += 1
        if p.objective is not None:
            E[name[p.objective.id], "minimize"] += 1
        for c in p.constraints:
            E[name[c.id], "constraint(s)"] += 1
        got = collections.Counter((a, b) for a, b in G.edges())
        if got != E:
            ctx.viol("graph", "to_networkx", f"edges {got} instead of {E}")

    # ------------------------------------------------------------------ steps
    def grow(self):
        p, r = self.p, self.r
        for _ in range(r.randint(1, 5)):
            if r.random() < .25 or not p.nodes:
                p.decision()
            else:
                p.op()
        for _ in range(r.choice([0, 0, 1])):
            c = p.pick(lambda n: n.shape == () and n.op in ("binary", "eq", "le", "and", "or", "xor", "not", "logical", "all", "any"))
            if c is not None:
                got = self.m.add_constraint(c.sym)
                if got.id() != c.id:
                    self.ctx.viol("graph", "add_constraint", "returned another symbol")
                p.constraints.append(c)
        if r.random() < .2:
            c = p.pick(lambda n: prod(n.shape) == 1)
            if c is not None and (c.shape == () or c.mx == 1):
                p.objective = c
                self.m.minimize(c.sym)
        return "building"

    def lock(self):
        if self.r.random() < .5:
            self.m.lock()
        else:
            self.managers.append((self.m.lock(), self.depth))
            self.managers[-1][0].__enter__()
        self.depth += 1
        return "lock"

    def unlock(self):
        r = self.r
        if self.managers and self.managers[-1][1] == self.depth - 1:
            cm, _ = self.managers.pop()
            if r.random() < .5:
                cm.__exit__(None, None, None)
            else:
                # the context is left by an exception
                e = KeyError("x")
                if cm.__exit__(KeyError, e, None):
                    self.ctx.viol("lock", "with", "an exception was swallowed")
        else:
            self.m.unlock()
        if self.depth == 0:
            self.ctx.count("mon:extra_unlock")
            return "an unlock too many"
        self.depth -= 1
        if self.depth == 0:
            self.ctx.count("mon:released")
        return "unlock"

    def states(self):
        p, r, m = self.p, self.r, self.m
        k = r.randrange(4)
        if k == 0 or not len(m.states):
            n = r.randint(0, 3)
            m.states.resize(n)
            for d in self.values.values():
                for i in [i for i in d if i >= n]:
                    del d[i]
            return f"resize({n})"
        i = r.randrange(len(m.states))
        if k < 3:
            for d in p.decs:
                if d.sym is not None and r.random() < .6:
                    v = d.dec.random(r)
                    d.sym.set_state(i, v)
                    self.values.setdefault(d.id, {})[i] = v
            return f"setting state {i}"
        if self.depth and all(n.sym is not None for n in p.nodes):
            # this fills in what is missing
            vals = p.read(i)
            p.check_values(vals, self.ctx)
            for d in p.decs:
                if d.array:
                    self.values.setdefault(d.id, {})[i] = vals[d]
                elif d.sym.has_state(i):
                    parts = [vals[n] for n in p.nodes if n.pre == [d] and n.op in ("bitset", "dlist")]
                    self.values.setdefault(d.id, {})[i] = parts
            return f"reading state {i}"
        return "nothing"

    def forbidden(self):
        """Additions and removals in a locked model."""
        p, r, m = self.p, self.r, self.m
        a = p.pick()
        x = None if a is None else a.sym
        want = RuntimeError
        ops = [lambda: m.binary(3), lambda: m.integer(2), lambda: m.list(3), lambda: m.set(3), lambda: m.constant([1, 2]), lambda: m.disjoint_lists(4, 2),
               lambda: m.disjoint_bit_sets(4, 2), lambda: m.constant(np.zeros((2, 2)))]
        if a is not None:
            ops += [lambda: -x, lambda: abs(x), lambda: x.sum(), lambda: x.prod(), lambda: x.all(), lambda: x.any(), lambda: x + x, lambda: x * x, lambda: x - x,
                    lambda: x == x, lambda: x <= x, lambda: M.add(x, x, x), lambda: M.multiply(x, x, x), lambda: M.maximum(x, x), lambda: M.logical(x), lambda: M.logical_or(x, x), lambda: S.Square(x)]
            if not a.dyn:
                ops += [lambda: x ** 2, lambda: x ** 3, lambda: M.logical_xor(x, x)]
            if a.dyn:
                ops += [lambda: x.size(), lambda: x[:1]]
            elif len(a.shape) >= 1 and a.contig:
                ops += [lambda: x[:1], lambda: x[...] if False else x[::2], lambda: M.concatenate((x, x)), lambda: x.reshape(prod(a.shape)), lambda: x.sum(axis=0)]
                i = p.index_for(a.shape[0])
                if i is not None and not i.dyn:
                    ops += [lambda: x[i.sym]] * 2
            q = p.pick(lambda n: not n.dyn and len(n.shape) == 1 and n.shape[0] >= 1)
            if q is not None:
                ops += [lambda: m.quadratic_model(q.sym, {(0, 0): 1.})]
            na = p.pick(lambda n: n.op in ("nary_add", "iadd"))
            if na is not None:
                y = na.sym
                ops += [lambda: S.NaryAdd(y, y), lambda: y.__iadd__(y)] * 2
        ops.append(m.remove_unused_symbols)
        f = r.choice(ops)
        self.ctx.count("mon:forbidden")
        try:
            f()
            self.ctx.viol("lock", "locked", f"operation {ops.index(f)} of {'' if a is None else a.desc} was accepted by a locked model")
        except (RuntimeError, ValueError) as e:
            if f == m.remove_unused_symbols and not isinstance(e, ValueError):
                self.ctx.viol("lock", "locked", f"remove_unused_symbols raised {e!r}")
            self.ctx.count("refused:" + type(e).__name__)
        return "a forbidden change"

    def drop(self):
        """Give up references and remove what is unused."""
        ctx, p, r, m = self.ctx, self.p, self.r, self.m
        self.note()
        share = r.choice([0, .2, .6, 1])
        for n in p.nodes:
            if r.random() < share:
                n.sym = None
        by = {n.id: n for n in p.nodes}
        keep = set()
        stack = [n.id for n in p.nodes if n.sym is not None or n.cls in FIXED] + [c.id for c in p.constraints] + ([p.objective.id] if p.objective is not None else [])
        while stack:
            i = stack.pop()
            if i not in keep:
                keep.add(i)
                stack += self.edges(by[i])
        gc.collect()
        n0 = len(p.nodes)
        got = m.remove_unused_symbols()
        ctx.count("mon:removal")
        ctx.count("removed", got)
        if got != n0 - len(keep):
            ctx.viol("removal", "remove_unused_symbols", f"reported {got} removed symbols instead of {n0 - len(keep)}")
        ids = {s.id() for s in m.iter_symbols()}
        for n in p.nodes:
            if n.id in keep and n.id not in ids:
                ctx.viol("removal", n.op, f"{n.desc} was removed although it is in use")
            if n.id not in keep and n.id in ids:
                ctx.viol("removal", n.op, f"{n.desc} was kept although nothing uses it")
        gone = [n for n in p.nodes if n.id not in keep]
        for n in gone:
            self.preds.pop(n.id, None)
        p.nodes = [n for n in p.nodes if n.id in keep]
        have = set(p.nodes)
        for n in p.nodes:
            if n.fn is not None and not have.issuperset(n.pre):
                n.fn = None     # the library does not need the intermediate symbols the oracle knows
        new = {s.id(): s for s in m.iter_symbols()}
        for n in p.nodes:
            if n.sym is None:
                n.sym = new.get(n.id)
        if any(n.sym is None for n in p.nodes):
            return None
        if gone and m.remove_unused_symbols() != 0:
            ctx.viol("removal", "remove_unused_symbols", "removed something that is referenced")
        return "a removal"

    def equality(self):
        """equals() is symmetric, agrees with maybe_equals() and implies equal values."""
        ctx, p, r, m = self.ctx, self.p, self.r, self.m
        ns = [n for n in p.nodes if n.sym is not None]
        with m.lock():
            had = len(m.states)
            m.states.resize(had + 1)
            for d in p.decs:
                if d.sym is not None:
                    d.sym.set_state(had, d.dec.random(r))
            for _ in range(12):
                if not ns:
                    break
                a = r.choice(ns)
                same_cls = [n for n in ns if n.cls == a.cls]
                b = r.choice(same_cls if r.random() < .8 else ns)
                ctx.count("mon:equals")
                e, f = a.sym.equals(b.sym), b.sym.equals(a.sym)
                q = a.sym.maybe_equals(b.sym)
                what = f"{a.desc} and {b.desc}"
                if e is not f and e != f:
                    ctx.viol("graph", "equals", f"{what}: not symmetric")
                if (q == 0 and e) or (q == 2 and not e):
                    ctx.viol("graph", "equals", f"{what}: maybe_equals is {q} but equals is {e}")
                one = a.id == b.id
                if (a.sym.id() == b.sym.id()) != one or a.sym.shares_memory(b.sym) != one or (one and not e):
                    ctx.viol("graph", "identity", f"{what}: id or shares_memory are wrong")
                if e and not one:
                    ctx.count("mon:equal_pairs")
                if e and a.array and b.array:
                    va, vb = a.sym.state(had), b.sym.state(had)
                    if not same(va, vb):
                        ctx.viol("graph", "equals", f"{what} are equal but evaluate to {va.tolist()} and {vb.tolist()}")
                elif e and not one and "hidden" not in (a.op, b.op):
                    ctx.viol("graph", "equals", f"{what} are different decisions of one model but equal")
            m.states.resize(had)
        # a release of the last lock discards derived states only
        return "comparing"

    def evaluate(self):
        ctx, p, r, m = self.ctx, self.p, self.r, self.m
        if any(n.sym is None for n in p.nodes):
            return
        with m.lock():
            had = len(m.states)
            m.states.resize(had + 1)
            given = p.assign(had)
            p.check_values(p.read(had), ctx, given)
            m.states.resize(had)


def case(ctx, r):
    k = Machine(ctx, r)
    k.grow()
    k.grow()
    for step in range(r.randint(8, 20)):
        if k.depth == 0:
            f = r.choice([k.grow, k.grow, k.grow, k.lock, k.lock, k.states, k.drop, k.drop, k.equality, k.unlock])
        else:
            f = r.choice([k.forbidden] * 4 + [k.lock, k.unlock, k.unlock, k.unlock, k.states, k.states, k.equality])
        what = f()
        k.trace.append(what)
        ctx.text = " > ".join(map(str, k.trace[-12:])) + " | " + k.p.describe()
        if what is None or not k.check(what):
            return
        if r.random() < .15:
            k.networkx()
    while k.depth:
        k.unlock()
    k.check("the last unlock")
    k.evaluate()
    ctx.saw(ctx.text)
    if ctx.case % 500 == 0:
        ctx.sample(ctx.text)
