"""States that are filled from a pending computation."""
import concurrent.futures, io, threading, time
import numpy as np
from dwave.optimization import Model
from dwave.optimization.states import StateView
from pm import PM, same
from m_save import dec_state, eq_state, states_of


class Oops(Exception):
    pass


class Stop(BaseException):
    pass


class Pending:
    """A computation, the hook that fetches its result and what is known about the calls."""
    def __init__(self, ctx, r, p, given, data, tag):
        self.ctx, self.r, self.p, self.given, self.data, self.tag = ctx, r, p, given, data, tag
        self.calls, self.active, self.error, self.left = 0, False, None, given
        self.next = None
        self.how = r.choice(["file", "hand", "file look", "look hand", "locked"])
        self.fail = r.choice([None] * 5 + ["before", "after", "partly"])
        self.exc = r.choice([ValueError, RuntimeError, AttributeError, IndexError, TypeError, OSError, ReferenceError, KeyError, NotImplementedError, Oops, Stop])
        k = r.randrange(3)
        if k == 0:
            self.future = object()
        else:
            self.future = concurrent.futures.Future()
            if k == 1:
                self.future.set_result(data)
            else:
                self.thread = threading.Thread(target=self.finish)
                self.delay = r.choice([0, 0, .0005, .002])
        self.kind = k

    def finish(self):
        time.sleep(self.delay)
        self.future.set_result(self.data)

    def start(self):
        if self.kind == 2:
            self.thread.start()

    def join(self):
        if self.kind == 2:
            self.thread.join()

    def fillup(self, model, upto):
        for i in range(upto):
            for d, v in self.given[i].items():
                d.sym.set_state(i, v)

    def look(self, model):
        """What the hook sees of the states."""
        r, p = self.r, self.p
        n = len(model.states)
        for d in p.decs:
            for i in range(n):
                d.sym.has_state(i)
        model.states.resolve()

    def __call__(self, model, future):
        self.calls += 1
        ctx = self.ctx
        ctx.count("mon:hook")
        if self.calls > 1:
            ctx.viol("future", "hook", f"the result was fetched {self.calls} times, last by {self.op}")
            return
        if self.active is False:
            ctx.viol("future", "hook", f"the result was fetched by {self.op}, which does not need it")
        if model is not self.p.model or future is not self.future:
            ctx.viol("future", "hook", f"the hook was given the model {model} and the future {future}")
            return
        if model.states.size() != 0:
            ctx.viol("future", "hook", f"{model.states.size()} earlier states are there while the result is fetched by {self.op}")
        if self.kind:
            self.future.result(10)
        if self.fail == "before":
            self.left = []
            self.raise_()
        if "look" in self.how:
            self.look(model)
        if "hand" in self.how:
            model.states.resize(len(self.given))
            for d in self.p.decs:
                for i in range(len(self.given)):
                    if d.sym.has_state(i):
                        ctx.viol("future", "hook", f"{d.desc} has a state right after resizing in the hook")
            upto = len(self.given) if self.fail != "partly" else self.r.randint(0, len(self.given))
            self.fillup(model, upto)
            self.left = self.given[:upto] + [{}] * (len(self.given) - upto)
            if self.fail == "partly":
                self.raise_()
        elif self.how == "locked":
            with model.lock():
                model.states.from_file(io.BytesIO(self.data))
                if model.objective is not None and len(self.given):
                    i = self.r.randrange(len(self.given))
                    model.objective.state(i)
                    # looking at the objective sets the decisions it depends on
                    model.states.from_file(io.BytesIO(self.data))
        else:
            model.states.from_file(io.BytesIO(self.data))
        if "look" in self.how:
            self.look(model)
        if self.fail:
            self.raise_()
        if self.next is not None:
            # the result of a chain of jobs: this one only tells where the next one is
            model.states.from_future(self.next.future, self.next)

    def raise_(self):
        self.error = self.exc(f"the computation {self.tag} failed")
        raise self.error


def give(r, p, n, m):
    """n states, set on the model and saved; returns them and the file, and clears them."""
    m.states.clear()
    m.states.resize(n)
    given = [p.assign(i, None if r.random() < .5 else [d for d in p.decs if r.random() < .6]) for i in range(n)]
    f = m.states.to_file()
    data = f.read()
    f.close()
    m.states.clear()
    return given, data


def idle(ctx, r, p):
    """Something that does not concern the states."""
    m = p.model
    k = r.randrange(10)
    if k == 0:
        m.num_symbols(), m.num_nodes(), m.num_decisions(), m.num_constraints(), m.num_edges()
    elif k == 1:
        list(m.iter_symbols()), list(m.iter_decisions()), list(m.iter_constraints())
    elif k == 2:
        m.lock()
    elif k == 3:
        p.foreign()
    elif k == 4 and not m.is_locked():
        p.op()
    elif k == 5 and not m.is_locked():
        p.constant()
    elif k == 6:
        n = p.pick()
        if n is not None:
            n.sym.shape(), n.sym.equals(n.sym), repr(n.sym), n.sym.topological_index(), list(n.sym.iter_predecessors())
    elif k == 7:
        m.state_size(), m.decision_state_size()
    elif k == 8:
        m.is_locked(), repr(m), m.objective, m.states
    elif k == 9:
        if not m.is_locked():
            c = p.pick(lambda n: n.op in ("binary", "all", "any") and n.shape == ())
            if c is not None:
                m.add_constraint(c.sym)
                p.constraints.append(c)
    return f"idle {k}"


def ops(r, p, cur):
    """The name, the call and the effect on the expected states of an operation that needs the states."""
    m = p.model
    n = len(cur)
    i = r.randrange(n) if n else 0
    d = r.choice(p.decs)
    v = d.dec.random(r)
    out = [("size", lambda: m.states.size(), lambda x: (cur, x == n)),
           ("len", lambda: len(m.states), lambda x: (cur, x == n)),
           ("resolve", lambda: m.states.resolve(), lambda x: (cur, True)),
           ("clear", lambda: m.states.clear(), lambda x: ([], True)),
           ("states.to_file", lambda: m.states.to_file().read(), lambda x: (cur, saved(p, x, cur))),
           ("states.into_file", lambda: into(m.states.into_file), lambda x: (cur, saved(p, x, cur))),
           ("model.to_file", lambda: m.to_file(max_num_states=n, only_decision=True).read(), lambda x: (cur, saved(p, x, cur))),
           ("model.into_file", lambda: into(m.into_file, max_num_states=n + 3), lambda x: (cur, saved(p, x, cur))),
           ("reset intermediate", lambda: m.states._reset_intermediate_states(), lambda x: (cur, True))]
    k = r.choice([0, n, n + 1, max(n - 1, 0)])
    out.append(("resize", lambda: m.states.resize(k), lambda x: (cur[:k] + [{}] * (k - n), True)))
    other, odata = p.other
    out.append(("from_file", lambda: m.states.from_file(io.BytesIO(odata)), lambda x: (other, True)))
    if n:
        out.append(("set_state", lambda: d.sym.set_state(i, v), lambda x: (cur[:i] + [{**cur[i], d: v}] + cur[i + 1:], True)))
        out.append(("reset_state", lambda: d.sym.reset_state(i), lambda x: (cur[:i] + [{a: b for a, b in cur[i].items() if a is not d}] + cur[i + 1:], True)))
        out.append(("has_state", lambda: d.sym.has_state(i), lambda x: (cur, x == (d in cur[i]))))
        e = [a for a in p.decs if a in cur[i] and a.array]
        if e:
            a1 = r.choice(e)
            out.append(("state", lambda: a1.sym.state(i), lambda x: (cur, same(x, cur[i][a1]))))
            out.append(("state from the end", lambda: a1.sym.state(i - n), lambda x: (cur, same(x, cur[i][a1]))))
            out.append(("view", lambda: np.array(StateView(a1.sym, i)), lambda x: (cur, same(x, cur[i][a1]))))
        # decisions that have no state get one when they are looked at, so only where all have one
        if m.is_locked() and len(cur[i]) == len(p.decs):
            t = [a for a in p.nodes if a.sym is not None and a.array and a.op != "constant"]
            if t:
                a = r.choice(t)
                out += [("state of " + a.op, lambda: {a: a.sym.state(i)}, lambda x: (cur, ("values", i, x)))] * 4
            if p.constraints or r.random() < .1:
                out.append(("feasible", lambda: m.feasible(i), lambda x: (cur, ("feasible", i, x)) if p.constraints else (cur, True)))
        if m.is_locked() and all(len(c) == len(p.decs) for c in cur):
            out.append(("initialize", lambda: m.states.initialize(), lambda x: (cur, True)))
    if m.is_locked():
        def unlock():
            while m.is_locked():
                m.unlock()
        out += [("unlock", unlock, lambda x: (cur, not m.is_locked()))] * 2
    return out


def into(f, **kw):
    b = io.BytesIO()
    f(b, **kw)
    return b.getvalue()


def saved(p, data, cur):
    """Whether a file has these states."""
    q = Model.from_file(io.BytesIO(data))
    if len(q.states) != len(cur):
        return False
    ds = list(q.iter_decisions())
    for i, c in enumerate(cur):
        for d, s in zip(p.decs, ds):
            if s.has_state(i) != (d in c):
                return False
            if d.array and d in c and not same(s.state(i), c[d]):
                return False
    return True


def matches(ctx, p, cur, when):
    m = p.model
    ctx.count("mon:after")
    if len(m.states) != len(cur):
        ctx.viol("future", when, f"there are {len(m.states)} states instead of {len(cur)} after {when}")
        return False
    with m.lock():
        got = states_of(m, len(cur))
    for (k, i), v in got.items():
        d = p.decs[k]
        w = cur[i].get(d)
        if w is not None and not d.array:
            w = [np.asarray(x) for x in w]
        if (v is None) != (w is None) or (v is not None and not eq_state(w, v)):
            ctx.viol("future", when, f"{d.desc} reads {v} in state {i} instead of {w} after {when}")
            return False
    return True


def case(ctx, r):
    p = PM(r, ctx).build().goals()
    m = p.model
    ctx.text = p.describe()
    for d in p.decs:
        ctx.count("decision:" + d.op)
    p.other = give(r, p, r.randrange(3), m)
    # states from before
    cur = []
    if r.random() < .7:
        m.states.resize(r.randint(1, 3))
        cur = [p.assign(i) for i in range(len(m.states))]
        if r.random() < .5:
            m.lock()
            if p.objective is not None and r.random() < .7:
                m.objective.state(0)
    trace = []
    for round_ in range(r.randint(1, 3)):
        if m.is_locked():
            # the file is saved from the model's own states
            pass
        keep = cur
        given, data = give(r, p, r.choice([0, 1, 1, 2, 3]), m)
        # give() has dropped the states
        if r.random() < .7:
            m.states.resize(r.randint(1, 2))
            old = [p.assign(i) for i in range(len(m.states))]
            if m.is_locked() and r.random() < .5 and p.objective is not None:
                m.objective.state(0)
        f = Pending(ctx, r, p, given, data, round_)
        f.op = "from_future"
        m.states.from_future(f.future, f)
        f.start()
        trace.append(f"from_future({f.kind} {f.how} {f.fail} n={len(given)})")
        ctx.text = p.describe() + " | " + "; ".join(trace)
        # a second one before the first has been looked at
        chained = None
        for _ in range(r.randint(0, 4)):
            f.op = idle(ctx, r, p)
            ctx.count("mon:idle")
            trace.append(f.op)
        if f.calls:
            ctx.viol("future", "early", f"the result was fetched by {f.op}")
            return
        f.active = True
        if r.random() < .2:
            given2, data2 = given[::-1], None
            chained = Pending(ctx, r, p, p.other[0], p.other[1], "second")
            chained.fail = None
            f.op = chained.op = "a second from_future"
            trace.append(f"from_future({chained.how})")
            ctx.text = p.describe() + " | " + "; ".join(trace)
            try:
                m.states.from_future(chained.future, chained)
            except BaseException as e:
                if e is not f.error:
                    raise
                if f.calls != 1:
                    ctx.viol("future", "calls", f"the result was fetched {f.calls} times")
                f.join()
                ctx.count("mon:failed")
                # the states are as the hook left them or gone, and the next from_future starts over
                m.states.clear()
                cur = []
                continue
            if f.error is not None:
                ctx.viol("future", "failure", f"{f.op} hid that the result could not be fetched: {f.error!r}")
                return
            if f.calls != 1 or chained.calls:
                ctx.viol("future", "calls", f"the results were fetched {f.calls} and {chained.calls} times after {f.op}")
                return
            f.join()
            chained.start()
            f = chained
            f.active = True
            ctx.count("mon:chained")
        if f.fail is None and r.random() < .12:
            # a hook that attaches the next computation
            last = f
            for k in range(r.randint(1, 2)):
                last.next = Pending(ctx, r, p, p.other[0], p.other[1], f"follower {k}")
                last = last.next
                last.fail, last.active, last.op = None, True, "resolve of a follower"
                last.start()
            chain, q = [], f
            while q is not None:
                chain.append(q)
                q.op = "resolve of a chain"
                q = q.next
            trace.append(f"chain of {len(chain)}")
            ctx.text = p.describe() + " | " + "; ".join(trace)
            for _ in range(len(chain) + 1):
                m.states.resolve()
            for q in chain:
                q.join()
            ctx.count("mon:chain in the hook")
            if [q.calls for q in chain] != [1] * len(chain):
                ctx.viol("future", "chain", f"the results of a chain were fetched {[q.calls for q in chain]} times")
                return
            if not matches(ctx, p, last.given, "a chain"):
                return
            cur = last.given
            continue
        locked = m.is_locked()
        name, call, effect = r.choice(ops(r, p, f.given))
        f.op = name
        trace.append(name)
        ctx.text = p.describe() + " | " + "; ".join(trace)
        ctx.count("op:" + name.split(" of ")[0])
        try:
            x = call()
        except BaseException as e:
            if f.error is None:
                raise
            if e is not f.error and e.__context__ is not f.error and e.__cause__ is not f.error:
                ctx.viol("future", "failure", f"{name} raised {e!r} when the result could not be fetched: {f.error!r}")
                return
            ctx.count("mon:failed")
            if f.calls != 1:
                ctx.viol("future", "calls", f"the result was fetched {f.calls} times by {name}")
            f.join()
            f.op += " and later"
            if name == "unlock" and m.is_locked():
                ctx.count("locked after failure")
            if not matches(ctx, p, f.left, f"failing {name}"):
                return
            cur = f.left
        else:
            f.join()
            if f.calls != 1:
                if not (name == "feasible" and not p.constraints):
                    ctx.viol("future", "calls", f"the result was fetched {f.calls} times by {name}")
                    return
                try:
                    m.states.resolve()
                except BaseException as e:
                    if e is not f.error:
                        raise
                    return
            if f.error is not None:
                ctx.viol("future", "failure", f"{name} hid that the result could not be fetched: {f.error!r}")
                return
            ctx.count("mon:fetched")
            cur, ok = effect(x)
            f.op += " and later"
            if isinstance(ok, tuple):
                what, i, x = ok
                with m.lock():
                    for a in p.nodes:
                        pass
                    vals = p.read(i)
                    p.check_values(vals, ctx, {**cur[i]})
                    if what == "values":
                        for a, v in x.items():
                            if not same(v, vals[a]):
                                ctx.viol("future", name, f"{a.desc} was {v.tolist()} first and {vals[a].tolist()} later")
                    else:
                        want = all(bool(c.sym.state(i)) for c in p.constraints)
                        if x != want:
                            ctx.viol("future", name, f"feasible was {x} instead of {want}")
            elif not ok:
                ctx.viol("future", name, f"{name} gave {str(x)[:100]} with {len(f.given)} states pending")
            if not matches(ctx, p, cur, name):
                return
        # more of them; nothing is fetched again
        for _ in range(r.randint(0, 3)):
            name, call, effect = r.choice(ops(r, p, cur))
            trace.append(name)
            ctx.text = p.describe() + " | " + "; ".join(trace)
            f.op = name
            cur, ok = effect(call())
            if not matches(ctx, p, cur, name):
                return
        if f.calls != 1:
            ctx.viol("future", "calls", f"the result was fetched {f.calls} times")
            return
    ctx.saw(ctx.text)
    ctx.count("mon:future")
    if ctx.case % 200 == 0:
        ctx.sample(ctx.text)
