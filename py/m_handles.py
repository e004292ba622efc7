"""Handles, arrays and buffers obtained from a model stay valid and unchanged while the rest of it is used or discarded."""
import gc, io, operator, weakref
import numpy as np
from dwave.optimization import Model
from dwave.optimization import symbols as S
from dwave.optimization.states import StateView
from pm import PM, same, prod

gc.freeze()


def churn(r):
    """Reuse freed memory."""
    return [np.full(r.randint(1, 64), 777.) for _ in range(40)]


class Held:
    def __init__(self, ctx):
        self.ctx, self.items = ctx, []

    def keep(self, what, arr):
        """An array and its contents as of now."""
        self.items.append((what, arr, np.array(arr, copy=True), arr.shape, arr.strides))
        self.ctx.count("held")

    def check(self, when):
        for what, arr, was, shape, strides in self.items:
            self.ctx.count("mon:held")
            if arr.shape != shape or arr.strides != strides or not same(arr, was):
                self.ctx.viol("handle", what, f"{what} was {was.tolist()} and reads {arr.tolist()} after {when}")


def buffers(ctx, r, p, i, held):
    """The exposed buffers agree with the states."""
    for n in p.nodes:
        if not n.array or n.sym is None or r.random() < .4:
            continue
        want = n.sym.state(i)
        if not (want.flags.owndata and want.flags.writeable or want.base is None and want.flags.writeable):
            ctx.viol("buffer", n.op, f"state() of {n.desc} is not an independent array")
        mv = memoryview(StateView(n.sym, i))
        ctx.count("mon:buffer")
        if not mv.readonly:
            ctx.viol("buffer", n.op, f"the buffer of {n.desc} is writeable")
        if mv.ndim != want.ndim or tuple(mv.shape or ()) != want.shape or mv.itemsize != 8 or mv.format != "d" or mv.nbytes != want.nbytes:
            ctx.viol("buffer", n.op, f"the buffer of {n.desc} has the shape {mv.shape}, item size {mv.itemsize}, format {mv.format} and {mv.nbytes} bytes instead of {want.shape}")
            continue
        if tuple(mv.strides or ()) != n.sym.strides():
            ctx.viol("buffer", n.op, f"the buffer of {n.desc} has the strides {mv.strides} but the symbol reports {n.sym.strides()}")
        a = np.asarray(mv)
        if not same(a, want):
            ctx.viol("buffer", n.op, f"the buffer of {n.desc} reads {a.tolist()} but the state is {want.tolist()}")
        if a.size and a.flags.writeable:
            ctx.viol("buffer", n.op, f"the buffer of {n.desc} can be written")
        del a, mv
        # changing what was returned changes nothing else
        if want.size:
            want2 = want.copy()
            want[...] = 1e6
            if not same(n.sym.state(i), want2):
                ctx.viol("buffer", n.op, f"the state of {n.desc} changed when a returned array was changed")
            want[...] = want2
        held.keep("state of " + n.desc, want)


def constants(ctx, r, p, held):
    for n in p.nodes:
        if n.op == "constant" and n.sym is not None:
            mv = memoryview(n.sym)
            ctx.count("mon:constant")
            a = np.asarray(n.sym)
            if not mv.readonly or (a.size and a.flags.writeable):
                ctx.viol("buffer", "constant", f"the data of {n.desc} can be written")
            if a.dtype != np.float64 or not same(a, n.aux):
                ctx.viol("buffer", "constant", f"{n.desc} was given {n.aux.tolist()} but reads {a.tolist()}")
            if tuple(mv.shape or ()) != n.shape or tuple(mv.strides or ()) != n.sym.strides() or mv.format != "d":
                ctx.viol("buffer", "constant", f"the buffer of {n.desc} has the shape {mv.shape} and strides {mv.strides}")
            held.keep("data of " + n.desc, a)
            held.keep("view of " + n.desc, np.asarray(mv))
            v = r.choice([0, 1, -.25, float(n.hi)])
            f = r.choice([operator.eq, operator.ne, operator.lt, operator.le, operator.gt, operator.ge])
            if not same(f(n.sym, v), f(n.aux, v)):
                ctx.viol("buffer", "constant", f"{n.desc} holds {n.aux.tolist()} but {f.__name__} of it and {v} is {f(n.sym, v)}")
            if n.shape == () and bool(n.sym) != bool(n.aux):
                ctx.viol("buffer", "constant", f"{n.desc} holds {n.aux} but is taken as {bool(n.sym)}")
            if n.shape == () and float(n.aux).is_integer() and (int(n.sym) != int(n.aux) or float(n.sym) != float(n.aux)):
                ctx.viol("buffer", "constant", f"{n.desc} holds {n.aux} but converts to {int(n.sym)}")


def temporary_constant(r, m):
    """A constant made from data that the caller gives up; the data is kept, not the caller's name for it."""
    shape = tuple(r.randint(1, 4) for _ in range(r.randint(1, 2)))
    want = np.array([r.randint(-99, 99) / 2 for _ in range(prod(shape))]).reshape(shape)
    k = r.randrange(5)
    if k == 0:
        c = m.constant(want.copy())
    elif k == 1:
        c = m.constant((want * 2).astype(np.int16))
        want = (want * 2)
    elif k == 2:
        c = m.constant(want.copy().T)
        want = want.T.copy()
    elif k == 3:
        c = m.constant(np.stack([want, want + 1])[0])
    else:
        c = m.constant(bytearray_array(want))
    return c, want


def bytearray_array(a):
    b = bytearray(a.tobytes())
    return np.frombuffer(b, dtype=np.float64).reshape(a.shape)


def case(ctx, r):
    p = PM(r, ctx).build().goals()
    m = p.model
    ctx.text = p.describe()
    held = Held(ctx)
    temps = [temporary_constant(r, m) for _ in range(r.randint(1, 3))]
    for c, want in temps:
        n_ = len(p.nodes)
    p.foreign()
    junk = churn(r)
    ns = p.count(1, 3)
    cm = m.lock()
    m.states.resize(ns)
    given = p.assign(0)
    vals = p.read(0)
    p.check_values(vals, ctx, given)
    for n, v in vals.items():
        held.keep("state of " + n.desc, v)
    buffers(ctx, r, p, 0, held)
    constants(ctx, r, p, held)
    for c, want in temps:
        if not same(np.asarray(c), want):
            ctx.viol("handle", "constant", f"a constant made of temporary data {want.tolist()} reads {np.asarray(c).tolist()}")
        held.keep("a constant made of temporary data", np.asarray(c))
    # the model is used further
    for step in range(r.randint(2, 6)):
        k = r.randrange(8)
        what = None
        if k == 0:
            p.assign(r.randrange(ns))
            what = "setting states"
        elif k == 1:
            for d in p.decs:
                d.sym.reset_state(r.randrange(ns))
            what = "resetting states"
        elif k == 2:
            while m.is_locked():
                m.unlock()
            p.op()
            what = "unlocking"
        elif k == 3:
            m.states.clear()
            m.states.resize(ns)
            what = "clearing the states"
        elif k == 4:
            m.states.resize(r.randint(0, ns))
            m.states.resize(ns)
            what = "resizing the states"
        elif k == 5:
            m.lock()
            p.read(r.randrange(ns))
            what = "locking"
        elif k == 6:
            while m.is_locked():
                m.unlock()
            f = m.to_file(max_num_states=ns)
            m2 = Model.from_file(f)
            f.close()
            for s in m2.iter_symbols():
                if type(s).__name__ == "Constant":
                    held.keep("data of a loaded constant", np.asarray(s))
            del m2, s
            what = "saving and loading"
        else:
            while m.is_locked():
                m.unlock()
            walk(ctx, r, p)
            what = "changing the model while iterating over it"
        junk = churn(r)
        held.check(what)
        ctx.count("mon:used_on")
    # give up everything but one thing
    while m.is_locked():
        m.unlock()
    m.lock()
    m.states.resize(1)
    given = p.assign(0)
    vals = p.read(0)
    keep = r.choice([n for n in p.nodes if n.array and n.sym is not None])
    k = r.randrange(6)
    ref = weakref.ref(m)
    num, want = m.num_symbols(), vals[keep]
    sym = keep.sym
    states = m.states
    it = m.iter_symbols()
    first = next(it).id()
    nodes_total = m.num_nodes()
    objective = m.objective
    for n in p.nodes:
        n.sym = None
    p.model = m = None
    vals = given = temps = cm = c = None
    ctx.count(f"alone:{k}")
    if k == 0:      # a symbol
        it = states = objective = None
        gc.collect()
        junk = churn(r)
        if ref() is None or sym.model is not ref():
            ctx.viol("handle", keep.op, "a symbol does not keep its model alive")
        elif not same(sym.state(0), want) or sym.model.num_symbols() != num:
            ctx.viol("handle", keep.op, f"{keep.desc} reads {sym.state(0).tolist()} instead of {want.tolist()} after everything else was given up")
    elif k == 1:    # an iterator
        sym = states = objective = None
        gc.collect()
        junk = churn(r)
        if 1 + sum(1 for _ in it) != num:
            ctx.viol("handle", "iterator", "an iterator lost symbols after everything else was given up")
    elif k == 2:    # predecessors and successors of a symbol
        it = states = objective = None
        a, b = sym.iter_predecessors(), sym.iter_successors()
        sym = None
        gc.collect()
        junk = churn(r)
        x = [s.id() for s in a] + [s.id() for s in b]
        y = [s for s in list(ref().iter_symbols())] if ref() else []
        a = b = y = None
    elif k == 3:    # a context manager
        cm = sym.model.lock()
        sym = it = states = objective = None
        with cm:
            gc.collect()
            if ref() is None or not ref().is_locked():
                ctx.viol("handle", "lock", "the context of a lock does not keep the model alive")
        cm = None
    elif k == 4:    # its states
        sym = it = objective = None
        gc.collect()
        junk = churn(r)
        if ref() is None:
            for f in (states.size, lambda: len(states), lambda: states.resize(3), lambda: states.clear(), lambda: states.resolve(), lambda: states.to_file(), lambda: states.initialize(),
                      lambda: states.into_file(io.BytesIO()), lambda: states.from_file(io.BytesIO()), lambda: states._reset_intermediate_states()):
                try:
                    f()
                except (ReferenceError, ValueError, TypeError, OSError, Exception) as e:
                    ctx.count("orphan:" + type(e).__name__)
    else:           # a view of a state
        view = np.asarray(StateView(sym, 0))
        sym = it = states = objective = None
        gc.collect()
        junk = churn(r)
        if not same(view, want):
            ctx.viol("handle", "view", f"a view of {keep.desc} reads {view.tolist()} instead of {want.tolist()} after everything else was given up")
        view = None
    held.check("giving up everything else")
    ctx.count("mon:alone")
    # nothing is left when everything is given up
    sym = it = states = objective = None
    held.items = []
    junk = None
    gc.collect()
    if ref() is not None:
        ctx.viol("handle", "model", f"the model is still alive after everything was given up, referenced by {[type(x).__name__ for x in gc.get_referrers(ref())]}")
    ctx.count("mon:collected")
    ctx.saw(ctx.text, k)
    if ctx.case % 200 == 0:
        ctx.sample(ctx.text)


def walk(ctx, r, p):
    """Change the model while iterating over it; every symbol seen is one of the model."""
    m = p.model
    its = [m.iter_symbols, m.iter_decisions, m.iter_constraints]
    n = p.pick()
    if n is not None:
        its += [n.sym.iter_predecessors, n.sym.iter_successors]
    it = r.choice(its)()
    seen = []
    for k, s in enumerate(it):
        seen.append(s)
        x = r.randrange(5)
        if x == 0:
            p.decision()
        elif x == 1 and n is not None:
            p.make_quiet = n.sym.sum()
            for _ in range(20):
                -n.sym
            p.foreign()
        elif x == 2:
            c = p.pick(lambda n: n.op == "binary" and n.shape == ())
            if c is not None:
                for _ in range(10):
                    m.add_constraint(c.sym)
                    p.constraints.append(c)
        elif x == 3:
            p.make_quiet = None
            keep = {q.id for q in p.nodes if q.sym is not None}
            m.remove_unused_symbols()
        if k > 12:
            break
    ids = {s.id() for s in m.iter_symbols()}
    ctx.count("mon:walk")
    for s in seen:
        if s.expired() or s.id() not in ids:
            ctx.viol("handle", "iterator", "a symbol obtained by iterating is not in the model any more")
    p.make_quiet = None
    p.foreign()
