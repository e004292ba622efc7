"""Values, domains, independence of states, objective and feasibility through the Python API."""
import numpy as np
from pm import PM, same


def case(ctx, r):
    p = PM(r, ctx).build().goals()
    m = p.model
    ctx.text = p.describe()
    ns = p.count(1, 3)
    with m.lock():
        m.states.resize(ns)
        given = [{} for _ in range(ns)]
        for i in range(ns):
            only = None if r.random() < .7 else [d for d in p.decs if r.random() < .5]
            given[i] = p.assign(i, only)
        ctx.saw(ctx.text, [sorted((n.desc, np.concatenate([np.ravel(x) for x in v]).tolist() if isinstance(v, list) else v.tolist()) for n, v in g.items()) for g in given])
        seen = [None] * ns
        for step in range(r.randint(ns, ns + 4)):
            i = step if step < ns else r.randrange(ns)
            if step >= ns:
                # change something in state i only
                k = r.randrange(4)
                d = r.choice(p.decs)
                if k < 2:
                    given[i].update(p.assign(i, [d]))
                elif k == 2:
                    had = {n for n in p.nodes if n.sym.has_state(r.choice([i, i - ns]))}
                    d.sym.reset_state(i)
                    given[i].pop(d, None)
                    deps = depends(p, d)
                    for n in p.nodes:
                        if n.sym is None or n.op == "hidden":
                            continue
                        has = n.sym.has_state(r.choice([i, i - ns]))
                        if n in deps and has:
                            ctx.viol("isolation", n.op, f"{n.desc} still has a state after resetting {d.desc}")
                        if n not in deps and not has and n in had:
                            ctx.viol("isolation", n.op, f"{n.desc} lost its state when {d.desc}, on which it does not depend, was reset")
                    ctx.count("mon:reset")
                else:
                    bad, why = d.dec.illegal(r)
                    before = p.read(i)
                    try:
                        d.sym.set_state(i, bad)
                        ctx.viol("domain", d.op, f"{d.desc} accepted {np.asarray(bad, dtype=object).tolist()} ({why})")
                        continue
                    except (ValueError, TypeError, OverflowError):
                        ctx.count("mon:state_refused")
                    after = p.read(i)
                    for n in before:
                        if not same(before[n], after[n]):
                            ctx.viol("changed", n.op, f"{n.desc} changed from {before[n].tolist()} to {after[n].tolist()} when setting {d.desc} to an illegal value was refused")
            order = list(p.nodes)
            r.shuffle(order)
            if r.random() < .3:
                # read only some of them first
                for n in order[:3]:
                    if n.array:
                        n.sym.state(i - ns if r.random() < .3 else i)
            old = seen[i]
            vals = p.read(i, order)
            p.check_values(vals, ctx, given[i])
            if step >= ns and k == 2 and old is not None:
                # resetting one decision: nothing else changes
                deps = depends(p, d)
                for n, v in vals.items():
                    if n not in deps and not same(v, old[n]):
                        ctx.viol("isolation", n.op, f"{n.desc} changed from {old[n].tolist()} to {v.tolist()} when {d.desc} was reset")
            elif step >= ns and k < 2 and old is not None:
                deps = depends(p, d)
                for n, v in vals.items():
                    if n not in deps and not same(v, old[n]):
                        ctx.viol("isolation", n.op, f"{n.desc} changed from {old[n].tolist()} to {v.tolist()} when {d.desc} was set")
            seen[i] = vals
            # the others are as they were
            for j in range(ns):
                if j != i and seen[j] is not None:
                    now = p.read(j)
                    ctx.count("mon:isolation")
                    for n, v in now.items():
                        if not same(v, seen[j][n]):
                            ctx.viol("isolation", n.op, f"{n.desc} in state {j} changed from {seen[j][n].tolist()} to {v.tolist()} when state {i} was touched")
        # reading again gives the same
        for i in range(ns):
            again = p.read(i)
            for n, v in again.items():
                if not same(v, seen[i][n]):
                    ctx.viol("isolation", n.op, f"{n.desc} reads {v.tolist()} after having read {seen[i][n].tolist()}")
            # objective and feasibility
            if p.objective is not None:
                ctx.count("mon:energy")
                if m.objective.id() != p.objective.id:
                    ctx.viol("energy", "objective", "the objective is not the symbol that was set")
                elif not same(m.objective.state(i), seen[i][p.objective]):
                    ctx.viol("energy", "objective", f"{m.objective.state(i)} instead of {seen[i][p.objective]}")
            elif m.objective is not None:
                ctx.viol("energy", "objective", "an objective that was not set")
            want = all(bool(seen[i][c] != 0) for c in p.constraints)
            got = m.feasible(i)
            ctx.count("mon:feasible_" + str(want).lower())
            if bool(got) != want:
                ctx.viol("feasible", "feasible", f"feasible({i}) is {got} but the constraints are {[float(seen[i][c]) for c in p.constraints]}")
        # quadratic models report what they were given
        for n in p.nodes:
            if n.op == "qm":
                qm(ctx, n)
        # resizing keeps the first ones
        keep = r.randint(0, ns)
        m.states.resize(keep)
        m.states.resize(ns)
        for i in range(ns):
            for n in p.nodes:
                if i >= keep and n.sym.has_state(r.choice([i, i - ns])):
                    ctx.viol("isolation", n.op, f"{n.desc} has a state in a state that was just added")
            if i < keep:
                for n, v in p.read(i).items():
                    if not same(v, seen[i][n]):
                        ctx.viol("isolation", n.op, f"{n.desc} in state {i} changed when the states were resized")
        ctx.count("mon:resize")
        if r.random() < .5:
            # initialize() gives every symbol a state in every state, whatever was there before, and keeps what was there
            part = r.choice(list(range(keep, ns)) + [None])
            if part is not None:
                for n in r.sample(p.nodes, min(len(p.nodes), r.randint(1, 3))):
                    if n.array:
                        n.sym.state(part)
            had = [{n: n.sym.state(i).copy() for n in p.nodes if n.array and n.sym.has_state(i)} for i in range(ns)]
            m.states.initialize()
            ctx.count("mon:initialize")
            for i in range(ns):
                for sym in m.iter_symbols():
                    if not sym.has_state(i):
                        ctx.viol("isolation", "initialize", f"{sym!r} has no state in state {i} after the states were initialized")
                now = p.read(i)
                for n, v in had[i].items():
                    if not same(v, now[n]):
                        ctx.viol("isolation", n.op, f"{n.desc} changed from {v.tolist()} to {now[n].tolist()} when the states were initialized")
                p.check_values(now, ctx, given[i] if i < keep else {})
    if ctx.case % 200 == 0:
        ctx.sample(ctx.text + " | " + str({n.desc: v.tolist() for n, v in (seen[0] or {}).items()})[:800])


def depends(p, d):
    # (an operation extended in place can depend on symbols created after it)
    deps, k = {d}, 0
    while len(deps) != k:
        k = len(deps)
        deps.update(n for n in p.nodes if any(q in deps for q in n.pre))
    return deps


def qm(ctx, n):
    L, Q = n.aux
    ctx.count("mon:coefficients")
    s = n.sym
    k = len(L)
    if s.num_variables() != k:
        ctx.viol("qm", "qm", f"{s.num_variables()} variables instead of {k}")
        return
    binary = n.pre[0].op in ("binary", "bitset")
    for u in range(k):
        for v in range(u, k):
            if u == v:
                # on binaries squares are linear terms, the sum is what counts
                got, want = s.get_linear(u) + s.get_quadratic(u, u), L[u] + Q[u, u]
                if not binary and s.get_linear(u) + s.get_quadratic(u, u) != want:
                    ctx.viol("qm", "qm", f"linear and square coefficients of {u} are {s.get_linear(u)} and {s.get_quadratic(u, u)} instead of {L[u]} and {Q[u, u]}")
                if got != want:
                    ctx.viol("qm", "qm", f"coefficients of {u} sum to {got} instead of {want}")
            else:
                for a, b in ((u, v), (v, u)):
                    if s.get_quadratic(a, b) != Q[u, v]:
                        ctx.viol("qm", "qm", f"coefficient of ({a},{b}) is {s.get_quadratic(a, b)} instead of {Q[u, v]}")
