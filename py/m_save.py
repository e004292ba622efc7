"""Saving and loading of models and of states."""
import io, os, tempfile
import numpy as np
from dwave.optimization import Model
from pm import PM, Nd, Dom, same


SCRATCH = tempfile.TemporaryDirectory(prefix="vf_save")


def snapshot(m):
    """Everything observable about the structure of a locked model, by position."""
    syms = list(m.iter_symbols())
    pos = {s.id(): i for i, s in enumerate(syms)}
    out = []
    for s in syms:
        d = [type(s).__name__, tuple(pos[q.id()] for q in s.iter_predecessors())]
        if hasattr(s, "shape"):
            d += [s.shape(), s.ndim()]
        if type(s).__name__ == "IntegerVariable":
            d += [s.lower_bound(), s.upper_bound()]
        for what in ("axis", "axes", "set_index", "list_index", "num_disjoint_sets", "num_disjoint_lists"):
            if hasattr(s, what):
                d.append((what, getattr(s, what)()))
        if type(s).__name__ == "Constant":
            d.append(np.asarray(s).tolist())
        if type(s).__name__ == "QuadraticModel":
            k = s.num_variables()
            d.append([[s.get_linear(i)] + [s.get_quadratic(i, j) for j in range(k)] for i in range(k)])
        d.append(s.state_size())
        out.append(tuple(map(str, d)))
    return dict(symbols=out, objective=None if m.objective is None else pos[m.objective.id()],
                constraints=[pos[c.id()] for c in m.iter_constraints()], decisions=m.num_decisions(), edges=m.num_edges(),
                nodes=m.num_nodes(), nc=m.num_constraints())


def differ(a, b):
    for k in a:
        if a[k] != b[k]:
            if k == "symbols":
                for i, (x, y) in enumerate(zip(a[k], b[k])):
                    if x != y:
                        return f"symbol {i} is {y} instead of {x}"
            return f"{k}: {b[k]} instead of {a[k]}"
    return None


def save(ctx, r, m, scratch, **kw):
    """One of the ways of writing a model; returns a way of reading it."""
    k = r.randrange(4)
    ctx.count(f"save:{k}")
    if k == 0:
        f = m.to_file(**kw)
        data = f.read()
        f.close()
    elif k == 1:
        f = io.BytesIO()
        m.into_file(f, **kw)
        data = f.getvalue()
    elif k == 2:
        name = os.path.join(scratch, "a.nl")
        m.into_file(name, **kw)
        data = open(name, "rb").read()
    else:
        name = os.path.join(scratch, "b.nl")
        with open(name, "w+b") as f:
            m.into_file(f, **kw)
        data = open(name, "rb").read()
    return data


def load(ctx, r, data, scratch, how=Model.from_file):
    k = r.randrange(3)
    ctx.count(f"load:{k}")
    if k == 0:
        return how(io.BytesIO(data))
    name = os.path.join(scratch, "c.nl")
    open(name, "wb").write(data)
    if k == 1:
        return how(name)
    with open(name, "rb") as f:
        return how(f)


def dec_symbols(m):
    return list(m.iter_decisions())


def dec_state(s, i):
    """The value of a decision, also of a partition."""
    if hasattr(s, "state"):
        return s.state(i)
    return [q.state(i) for q in s.iter_successors() if type(q).__name__ in ("DisjointBitSet", "DisjointList")]


def eq_state(a, b):
    if isinstance(a, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return same(a, b)


def states_of(m, ns):
    """{(decision position, state): value or None}; the model has to be locked to see the parts of partitions."""
    out = {}
    for k, s in enumerate(dec_symbols(m)):
        for i in range(ns):
            out[k, i] = dec_state(s, i) if s.has_state(i) else None
    return out


def compare_states(ctx, want, got, what, kind="states"):
    for key, v in want.items():
        ctx.count("mon:states")
        g = got.get(key)
        if (v is None) != (g is None):
            ctx.viol(kind, what, f"decision {key[0]} in state {key[1]} is {'unset' if g is None else 'set to ' + str(g)} but was {'unset' if v is None else 'set to ' + str(v)}")
        elif v is not None and not eq_state(v, g):
            ctx.viol(kind, what, f"decision {key[0]} in state {key[1]} reads {g} but was {v}")


def case(ctx, r):
    scratch = SCRATCH.name
    p = PM(r, ctx).build().goals()
    if r.random() < .2:
        p.wild()
    elif r.random() < .3:
        p.model.remove_unused_symbols()   # everything is still referenced, so only order may change
    m = p.model
    ctx.text = p.describe()
    ns = p.count(0, 3)
    m.states.resize(ns)
    given = []
    for i in range(ns):
        given.append(p.assign(i, None if r.random() < .5 else [d for d in p.decs if r.random() < .6]))
    ctx.saw(ctx.text, ns, [sorted(n.desc for n in g) for g in given])
    locked = r.random() < .5
    if locked:
        m.lock()
    limit = r.choice([0, ns, ns + 2, max(ns - 1, 0), None])
    kw = {} if limit is None else dict(max_num_states=limit)
    data = save(ctx, r, m, scratch, **kw)
    if m.is_locked() != locked:
        ctx.viol("roundtrip", "lock", f"saving left the model {'locked' if m.is_locked() else 'unlocked'}")
    m2 = load(ctx, r, data, scratch)
    if m2.is_locked():
        ctx.viol("roundtrip", "lock", "a model was loaded locked")
    keep = min(ns, limit or 0)
    if len(m2.states) != keep:
        ctx.viol("states", "number", f"{len(m2.states)} states were loaded instead of {keep} (of {ns}, limit {limit})")
        return
    m3 = load(ctx, r, save(ctx, r, m2, scratch, max_num_states=keep), scratch)
    structure(ctx, r, p, m, m2, m3)
    # the states
    with m.lock(), m2.lock(), m3.lock():
        want = states_of(m, keep)
        for d, g in zip(p.decs, dec_symbols(m)):
            if d.id != g.id():
                ctx.viol("roundtrip", "decisions", "the decisions are not in order of creation")
        for k, d in enumerate(p.decs):
            for i in range(keep):
                if (d in given[i]) != (want[k, i] is not None) or (d in given[i] and not eq_state([np.asarray(x) for x in given[i][d]] if not d.array else given[i][d], want[k, i])):
                    ctx.viol("states", d.op, f"saving changed the state {i} of {d.desc}")
        compare_states(ctx, want, states_of(m2, keep), "model")
        compare_states(ctx, want, states_of(m3, keep), "model saved twice")
        equal_values(ctx, r, p, m, [m2, m3])
    while m.is_locked():
        m.unlock()
    decisions_only(ctx, r, p, m, given, ns, keep)
    if ctx.case % 300 == 0:
        ctx.sample(f"{ctx.text} | {ns} states, limit {limit}, {len(data)} bytes")
    only_states(ctx, r, p, m, given, ns, scratch)


def decisions_only(ctx, r, p, m, given, ns, keep):
    """A file with the decisions alone is a model of its own."""
    m.states.clear()
    m.states.resize(ns)
    for i, g in enumerate(given):
        for d, v in g.items():
            d.sym.set_state(i, v)
    f = io.BytesIO()
    m.into_file(f, only_decision=True, max_num_states=keep)
    f.seek(0)
    q = Model.from_file(f)
    if q.num_symbols() != len(p.decs) or q.num_decisions() != len(p.decs) or q.num_constraints() not in range(m.num_constraints() + 1):
        ctx.viol("roundtrip", "decisions only", f"{q.num_symbols()} symbols were loaded instead of {len(p.decs)}")
        return
    for a, b in zip(p.decs, q.iter_decisions()):
        if type(b).__name__ != a.cls or (a.array and b.shape() != a.sym.shape()) or not b.equals(a.sym):
            ctx.viol("roundtrip", "decisions only", f"{a.desc} was loaded as {type(b).__name__} {b.shape() if a.array else ''}")
    # they are the same states once more in a model like the first
    f = io.BytesIO()
    q.into_file(f, max_num_states=keep)
    f.seek(0)
    m.states.from_file(f)
    ctx.count("mon:decisions_only")
    with m.lock():
        compare_states(ctx, {(k, i): given[i].get(d) for k, d in enumerate(p.decs) for i in range(keep)}, states_of(m, keep), "decisions only")
    if m.states.size() != keep:
        ctx.viol("states", "decisions only", f"{m.states.size()} states instead of {keep}")


def structure(ctx, r, p, m, m2, m3):
    with m.lock(), m2.lock(), m3.lock():
        a, b, c = snapshot(m), snapshot(m2), snapshot(m3)
        ctx.count("mon:roundtrip")
        for x, what in ((b, "loaded model"), (c, "model saved and loaded twice")):
            d = differ(a, x)
            if d:
                ctx.viol("roundtrip", "structure", f"{what}: {d}")
        # against what was built
        pos = {s.id(): i for i, s in enumerate(m.iter_symbols())}
        for n in p.nodes:
            if n.edges is not None and n.op != "hidden" and n.id in pos:
                want = str(tuple(pos[q.id] for q in n.edges))
                if b["symbols"][pos[n.id]][1] != want:
                    ctx.viol("roundtrip", n.op, f"{n.desc} has the predecessors {b['symbols'][pos[n.id]][1]} after loading instead of {want}")
        if p.objective is not None and b["objective"] != pos[p.objective.id]:
            ctx.viol("roundtrip", "objective", f"symbol {b['objective']} instead of {pos[p.objective.id]}")
        if b["constraints"] != [pos[q.id] for q in p.constraints]:
            ctx.viol("roundtrip", "constraints", f"{b['constraints']} instead of {[pos[q.id] for q in p.constraints]}")


def equal_values(ctx, r, p, m, others):
    """Equal decisions give equal values of all symbols."""
    for q in [m] + others:
        q.states.resize(1)
    for _ in range(2):
        vals = [d.dec.random(r) for d in p.decs]
        for q in [m] + others:
            for s, v in zip(dec_symbols(q), vals):
                s.set_state(0, v)
        base = [s.state(0) if hasattr(s, "state") else None for s in m.iter_symbols()]
        for q in others:
            for i, (s, v) in enumerate(zip(q.iter_symbols(), base)):
                if v is not None:
                    ctx.count("mon:loaded_value")
                    got = s.state(0)
                    if not same(got, v):
                        ctx.viol("roundtrip", type(s).__name__, f"symbol {i} ({type(s).__name__}) is {got.tolist()} in the loaded model and {v.tolist()} in the original")


def make(m, d):
    if d.kind == "binary":
        return m.binary(d.shape)
    if d.kind == "integer":
        return m.integer(d.shape, d.lo, d.hi)
    if d.kind == "list":
        return m.list(d.n)
    if d.kind == "set":
        return m.set(d.n, d.mn, d.mx)
    if d.kind == "bitsets":
        return m.disjoint_bit_sets(d.n, d.k)[0]
    return m.disjoint_lists(d.n, d.k)[0]


def vary(r, d):
    """A decision that is not the same."""
    e = Dom(d.kind, **{k: v for k, v in d.__dict__.items() if k != "kind"})
    if d.kind in ("binary", "integer"):
        k = r.randrange(4)
        if k == 0:
            e.shape = tuple(d.shape) + (1,)
        elif k == 1 and d.shape:
            e.shape = (d.shape[0] + 1,) + tuple(d.shape[1:])
        elif d.kind == "integer" and k == 2:
            e.hi = d.hi + 1
        elif d.kind == "integer":
            e.lo = d.lo - 1
        else:
            e = Dom("integer", shape=d.shape, lo=0, hi=1)
    elif d.kind == "list":
        if r.random() < .3:
            e = Dom("set", n=d.n, mn=d.n, mx=d.n)
        else:
            e.n += 1
    elif d.kind == "set":
        k = r.randrange(3)
        if k == 0 or (d.mn == 0 and d.mx == d.n):
            e.n += 1
            if r.random() < .5:
                e.mx += 1
        elif k == 1 and d.mx < d.n:
            e.mx += 1
        elif d.mn > 0:
            e.mn -= 1
        else:
            e.n += 1
    else:
        k = r.randrange(3)
        if k == 0:
            e.n += 1
        elif k == 1:
            e.k += 1
        else:
            e.kind = "lists" if d.kind == "bitsets" else "bitsets"
    return e


def same_dom(a, b):
    return a.__dict__ == b.__dict__


def only_states(ctx, r, p, m, given, ns, scratch):
    """States by themselves, into a model with the same decisions and into others."""
    # the model's states were reduced to one above
    m.states.clear()
    m.states.resize(ns)
    for i, g in enumerate(given):
        for d, v in g.items():
            d.sym.set_state(i, v)
    locked = r.random() < .5
    if locked:
        m.lock()
    k = r.randrange(4)
    if k == 0:
        f = m.states.to_file()
        data = f.read()
    elif k == 1:
        f = io.BytesIO()
        m.states.into_file(f)
        data = f.getvalue()
    elif k == 2:
        name = os.path.join(scratch, "s.nl")
        m.states.into_file(name)
        data = open(name, "rb").read()
    else:
        data = save(ctx, r, m, scratch, max_num_states=ns)
    with m.lock():
        want = states_of(m, ns)
    while m.is_locked():
        m.unlock()

    def fresh(doms, extra=True):
        q = Model()
        for d in doms:
            make(q, d)
            if extra and r.random() < .3:
                q.constant(r.randrange(5))
        return q
    # 1. the same decisions in a model of its own
    q = fresh([d.dec for d in p.decs])
    q.states.resize(r.randrange(3))
    if r.random() < .5:
        for i in range(len(q.states)):
            for s, d in zip(dec_symbols(q), p.decs):
                s.set_state(i, d.dec.random(r))
    try:
        load(ctx, r, data, scratch, how=q.states.from_file)
    except ValueError as e:
        ctx.viol("states", "matching", f"states were refused by a model with the same decisions: {e}")
        return
    if len(q.states) != ns:
        ctx.viol("states", "number", f"{len(q.states)} states were loaded instead of {ns}")
        return
    with q.lock():
        compare_states(ctx, want, states_of(q, ns), "states only")
    ctx.count("mon:states_only")
    # 2. different decisions
    doms = [d.dec for d in p.decs]
    how = r.randrange(4)
    if how == 0:
        i = r.randrange(len(doms))
        doms[i] = vary(r, doms[i])
    elif how == 1:
        doms.pop(r.randrange(len(doms)))
    elif how == 2:
        doms.insert(r.randrange(len(doms) + 1), r.choice([Dom("binary", shape=(2,), lo=0, hi=1), Dom("list", n=3), r.choice(doms)]))
    else:
        r.shuffle(doms)
    if len(doms) == len(p.decs) and all(same_dom(a, b.dec) for a, b in zip(doms, p.decs)):
        return
    q = fresh(doms)
    nq = r.randrange(3)
    q.states.resize(nq)
    for i in range(nq):
        for s, d in zip(dec_symbols(q), doms):
            if r.random() < .8:
                s.set_state(i, d.random(r))
    with q.lock():
        before = states_of(q, nq)
    ctx.count("mon:mismatch")
    try:
        load(ctx, r, data, scratch, how=q.states.from_file)
        ctx.viol("states", "mismatch", f"the states of {[d.desc for d in p.decs]} were loaded into a model with {[d.__dict__ for d in doms]}")
        return
    except ValueError:
        pass
    if len(q.states) != nq:
        ctx.viol("states", "mismatch", f"refused states changed the number of states from {nq} to {len(q.states)}")
        return
    with q.lock():
        compare_states(ctx, before, states_of(q, nq), "after refused states")
