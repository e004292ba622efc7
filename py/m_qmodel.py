"""Quadratic models through the Python interface: ways of giving coefficients, values, and what is left of them after saving."""
import io
import numpy as np
from dwave.optimization import Model
from pm import Dom, same


def inputs(r, m):
    """(decision, its random values, symbol with one dimension, whether that holds only 0 and 1)"""
    n = r.choice([1, 2, 3, 3, 4, 5, 6, 8, 12])
    k = r.randrange(7)
    if k == 0:
        d = m.binary(n)
        return d, (lambda: [r.randint(0, 1) for _ in range(n)]), d, True
    if k == 1:
        lo = r.randint(-5, 3)
        d = m.integer(n, lo, lo + r.randint(0, 6))
        return d, (lambda: [r.randint(int(d.lower_bound()), int(d.upper_bound())) for _ in range(n)]), d, d.lower_bound() >= 0 and d.upper_bound() <= 1
    if k == 2:
        d = m.list(n)
        return d, (lambda: r.sample(range(n), n)), d, n <= 2
    if k == 3:
        # a column: not contiguous
        c = r.randint(1, 3)
        j = r.randrange(c)
        d = m.integer((n, c), -3, 3)
        return d, (lambda: [[r.randint(-3, 3) for _ in range(c)] for _ in range(n)]), d[:, j], False
    if k == 4:
        # something that is computed
        d = m.integer(n, -2, 2)
        return d, (lambda: [r.randint(-2, 2) for _ in range(n)]), d + d * d, False
    if k == 5:
        d = m.integer(n, -2, 2)
        return d, (lambda: [r.randint(-2, 2) for _ in range(n)]), d <= m.constant([0] * n), True
    d = m.binary((2, n))
    return d, (lambda: [[r.randint(0, 1) for _ in range(n)] for _ in range(2)]), d[r.randrange(2):2][0], True


def number(r):
    return r.choice([r.randint(-8, 8) / 2, r.randint(-100, 100) / 4, float(r.randint(-10**6, 10**6)), 0., 1., -1.])


def vector(r, xs):
    """The numbers as a list or in some array."""
    k = r.randrange(6)
    if k == 0:
        return list(xs)
    if k == 1:
        return tuple(xs)
    a = np.array(xs, dtype=float)
    if k == 2:
        return np.repeat(a, 2)[::2]
    if k == 3:
        return a[::-1].copy()[::-1]
    if k == 4:
        for t in ([np.int8, np.int16, np.int64, np.float32, np.float16] if len(xs) else []):
            with np.errstate(all="ignore"):
                b = a.astype(t)
            if (b.astype(float) == a).all():
                return b
    a.flags.writeable = False
    return a


def coords(r, us, vs):
    k = r.randrange(8)
    if k == 0:
        return us, vs
    if k == 1:
        return [us, vs]
    if k == 2:
        return np.asfortranarray(np.array([us, vs]))
    if k == 3:
        return np.array(list(zip(us, vs))).T
    if k == 4:
        return np.array(us, dtype=np.uint8), np.array(vs, dtype=np.uint8)
    if k == 5:
        return np.array(us, dtype=np.int64), np.array(vs, dtype=np.int32)
    if k == 6:
        return np.array([us, vs], dtype=float)
    return np.repeat(np.array([us, vs], dtype=np.intc), 2, axis=1)[:, ::2]


def give(r, m, x, n):
    """A quadratic model and the coefficients it was given."""
    L, Q, pairs = np.zeros(n), np.zeros((n, n)), set()
    style = r.randrange(5)
    terms = []
    for _ in range(r.choice([1, 1, 2, n, 2 * n, n * n])):
        u, v = r.randrange(n), r.randrange(n)
        if style == 0:
            v = u
        elif style == 1 and n > 1:
            v = (u + r.randrange(1, n)) % n
        elif style == 2:
            u = 0
        terms.append((u, v, number(r)))
    lin = {}
    if r.random() < .5:
        quad = {(int(u), int(v)): b for u, v, b in terms}
        terms = [(u, v, b) for (u, v), b in quad.items()]
        if r.random() < .3:
            quad = {(np.int64(u), np.int32(v)): np.float64(b) for (u, v), b in quad.items()}
        if r.random() < .7:
            lin = {r.randrange(n): number(r) for _ in range(r.randint(0, n))}
            args = (quad, lin)
        else:
            args = r.choice([(quad,), (quad, None)])
    else:
        lv = [number(r) for _ in range(r.choice([0, n, r.randint(0, n)]))]
        lin = dict(enumerate(lv))
        q = vector(r, [b for u, v, b in terms]), coords(r, [u for u, v, b in terms], [v for u, v, b in terms])
        args = (q, vector(r, lv)) if lv or r.random() < .5 else r.choice([(q,), (q, None)])
    for u, v, b in terms:
        Q[min(u, v), max(u, v)] += b
        if u != v:
            pairs.add((min(u, v), max(u, v)))
    for i, b in lin.items():
        L[i] += b
    how = r.randrange(2)
    s = m.quadratic_model(x, *args) if how else type_(m, x, *args)
    return s, L, Q, pairs, args


def type_(m, x, *args):
    from dwave.optimization.symbols import QuadraticModel
    return QuadraticModel(x, *args)


def check(ctx, s, L, Q, pairs, logical, what):
    n = len(L)
    ctx.count("mon:coefficients")
    if s.num_variables() != n:
        ctx.viol("qm", what, f"{s.num_variables()} variables instead of {n}")
        return
    need = sum(1 for u, v in pairs if Q[u, v])
    if not need <= s.num_interactions() <= len(pairs):
        ctx.viol("qm", what, f"{s.num_interactions()} interactions instead of {need} to {len(pairs)}")
    for u in range(n):
        want = (L[u] + Q[u, u], 0) if logical else (L[u], Q[u, u])
        got = s.get_linear(u), s.get_quadratic(u, u)
        if got != want and not (logical and sum(got) == sum(want)):
            ctx.viol("qm", what, f"the linear and the square coefficient of {u} are {got} instead of {want}")
        for v in range(u + 1, n):
            got = s.get_quadratic(u, v), s.get_quadratic(v, u)
            if got != (Q[u, v],) * 2:
                ctx.viol("qm", what, f"the coefficient of ({u},{v}) is {got} instead of {Q[u, v]}")


def case(ctx, r):
    m = Model()
    made = []
    for _ in range(r.randint(1, 2)):
        d, draw, x, logical = inputs(r, m)
        n = x.shape()[0]
        for _ in range(r.randint(1, 3)):
            s, L, Q, pairs, args = give(r, m, x, n)
            made.append([d, draw, x, s, L, Q, pairs, logical, args])
            check(ctx, s, L, Q, pairs, logical, "new")
    ctx.text = "; ".join(f"{type(a[2]).__name__}({len(a[4])}): {a[8]!r}" for a in made)[:1500]
    ctx.saw(ctx.text)
    m.minimize(made[-1][3])
    models = [m]
    f = io.BytesIO()
    m.into_file(f)
    f.seek(0)
    models.append(Model.from_file(f))
    if r.random() < .4:
        f = io.BytesIO()
        models[-1].into_file(f)
        f.seek(0)
        models.append(Model.from_file(f))
    ids = {s.id(): i for i, s in enumerate(m.iter_symbols())}
    for q in models[1:]:
        syms = list(q.iter_symbols())
        for a in made:
            t = syms[ids[a[3].id()]]
            check(ctx, t, *a[4:8], "loaded")
            ctx.count("mon:loaded")
            if not (t.equals(a[3]) and a[3].equals(t)):
                ctx.viol("qm", "equals", "a loaded quadratic model is not equal to the one that was saved")
    # another one with one coefficient changed is another model
    a = r.choice(made)
    L, Q = a[4].copy(), a[5].copy()
    n = len(L)
    u, v = sorted((r.randrange(n), r.randrange(n)))
    if r.random() < .5:
        L[u] += 1
    else:
        Q[u, v] += 1
    us, vs = np.triu_indices(n)
    t = m.quadratic_model(a[2], (Q[us, vs], (us, vs)), L)
    check(ctx, t, L, Q, set((i, j) for i in range(n) for j in range(i + 1, n)), a[7], "changed")
    if t.equals(a[3]) or a[3].equals(t):
        ctx.viol("qm", "equals", "a quadratic model with another coefficient is equal")
    # values
    ctx.count("mon:models", len(models))
    for q in models:
        q.lock()
    states = r.randint(1, 3)
    for q in models:
        q.states.resize(states)
    decs = [list(q.iter_decisions()) for q in models]
    pos = {d.id(): i for i, d in enumerate(decs[0])}
    for _ in range(r.randint(1, 4)):
        i = r.randrange(states)
        for a in made:
            if r.random() < .8:
                val = a[1]()
                for q, ds in zip(models, decs):
                    ds[pos[a[0].id()]].set_state(i, val)
        for k, q in enumerate(models):
            syms = list(q.iter_symbols())
            for a in made:
                x, s = (a[2], a[3]) if k == 0 else (syms[ids[a[2].id()]], syms[ids[a[3].id()]])
                ctx.count("mon:qm_value")
                xv = x.state(i)
                want = float(xv @ a[5] @ xv + a[4] @ xv)
                got = s.state(i)
                if got.shape != () or float(got) != want:
                    ctx.viol("qm_value", "loaded" if k else "qm", f"the value at {xv.tolist()} is {got} instead of {want}")
    if ctx.case % 300 == 0:
        ctx.sample(ctx.text)

