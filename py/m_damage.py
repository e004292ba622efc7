"""Damaged files: each is refused with an exception or loads as a well-formed model."""
import io, json, struct, warnings, zipfile
import numpy as np
from dwave.optimization import Model
from pm import PM, same
import m_save

warnings.simplefilter("ignore")
BIG = 1 << 22   # models whose states take more than this are not evaluated



def number(r, v):
    k = r.randrange(14)
    return [v + 1, v - 1, -v, 0, 1, -1, v + r.randint(-5, 5), r.randint(-10, 10), v + .5 if abs(v) < 1e300 else 0.5, str(v), None, [v],
            bool(v), r.choice([2 ** 62, 2 ** 63 - 1, 2 ** 63, 2 ** 64, -2 ** 63, 10 ** 30, 1e300, float("nan"), float("inf")])][k]


def mutate_json(r, v, depth=0):
    if isinstance(v, dict) and v and r.random() < .9:
        k = r.choice(list(v))
        q = r.random()
        if q < .15:
            return {a: b for a, b in v.items() if a != k}
        if q < .25:
            return {**v, r.choice(["x", "lb", "shape", k + "_"]): r.randint(-3, 3)}
        return {**v, k: mutate_json(r, v[k], depth + 1)}
    if isinstance(v, list) and r.random() < .9:
        v = list(v)
        q = r.random()
        if not v or q < .1:
            v.insert(r.randint(0, len(v)), r.choice([0, 1, -1, 5, None, [0, 0, 0], "a"]))
        elif q < .2:
            v.pop(r.randrange(len(v)))
        elif q < .3:
            r.shuffle(v)
        elif q < .35:
            v.append(r.choice(v))
        else:
            i = r.randrange(len(v))
            v[i] = mutate_json(r, v[i], depth + 1)
        return v
    if isinstance(v, (int, float)) and not isinstance(v, bool):
        return number(r, v)
    return r.choice([0, 1, -1, None, [], {}, "a", True, 2.5, [v], {"a": v}])


def mutate_npy(r, data):
    try:
        a = np.load(io.BytesIO(data), allow_pickle=False)
    except Exception:   # damaged before
        return data[::-1]
    k = r.randrange(9)
    if k == 0 and a.size:
        a = a.copy()
        i = r.randrange(a.size)
        a.flat[i] = r.choice([-1, 0, 1, 2, 7, 100, a.flat[r.randrange(a.size)]])
    elif k == 1 and a.size and a.dtype.kind == "f":
        a = a.copy()
        a.flat[r.randrange(a.size)] = r.choice([np.nan, np.inf, -np.inf, .5, 1e300, -1e-300, 2.0 ** 63])
    elif k == 2:
        a = a.astype(r.choice(["f4", "i4", "u1", "i1", "?", "c16", "U5", "i8", ">f8", ">i4", "f2"]))
    elif k == 3:
        a = a.reshape(-1)[:-1] if a.size else np.zeros(1)
    elif k == 4:
        a = np.append(a.reshape(-1), r.choice([0, 1, 2, 99]))
    elif k == 5:
        a = a.reshape((1,) + a.shape) if r.random() < .5 else a.T
    elif k == 6:
        a = np.asfortranarray(a) if a.ndim > 1 else a[::-1] if a.ndim else a
    elif k == 7:
        b = bytearray(data)
        b[r.randrange(len(b))] ^= 1 << r.randrange(8)
        return bytes(b)
    else:
        return data[:r.randrange(len(data))]
    f = io.BytesIO()
    np.save(f, a, allow_pickle=False)
    return f.getvalue()


CLASSES = None


def classes():
    global CLASSES
    if CLASSES is None:
        import dwave.optimization.symbols as S
        CLASSES = sorted(k for k, v in vars(S).items() if isinstance(v, type))
        CLASSES += ["np", "json", "ArraySymbol", "Symbol", "", "Nothing", "__name__", "_register", "os"]
    return CLASSES


def mutate_lines(r, data, name, n):
    lines = data.split(b"\n")
    while lines and lines[-1] == b"":
        lines.pop()
    if not lines:
        return r.choice([b"0\n", b"Constant\n", b"\n", b"\xff\xfe"])
    i = r.randrange(len(lines))
    k = r.randrange(8)
    if k == 0:
        lines.pop(i)
    elif k == 1:
        lines.insert(i, lines[r.randrange(len(lines))])
    elif k == 2:
        lines[i], lines[-1] = lines[-1], lines[i]
    elif name == "nodetypes.txt":
        if k == 3:
            lines[i] = r.choice([b"\xff", b"", lines[i] + b"\r", lines[i] + b" "])
        else:
            lines[i] = r.choice(classes()).encode()
    else:
        t = lines[i].split(b" ")
        q = r.randrange(6)
        some = str(r.choice([-1, 0, 1, i - 1, i, i + 1, n - 1, n, r.randint(0, max(n, 1)), 10 ** 20])).encode()
        if q == 0 or len(t) == 1:
            t.append(some)
        elif q == 1:
            t.pop(r.randrange(1, len(t)))
        elif q == 2:
            s = t[1:]
            r.shuffle(s)
            t[1:] = s
        elif q == 3:
            t[0] = some
        elif q == 4:
            t[r.randrange(1, len(t))] = some
        else:
            t[r.randrange(len(t))] = r.choice([b"x", b"", b"1.5", b"0x1", b"\xff", b"1_0"])
        lines[i] = b" ".join(t)
    return b"\n".join(lines) + b"\n"


def split(data):
    n = struct.unpack("<I", data[6:10])[0]
    head = json.loads(data[10:10 + n])
    with zipfile.ZipFile(io.BytesIO(data[10 + n:])) as zf:
        return data[:6], head, [(i.filename, zf.read(i)) for i in zf.infolist()]


def join(prefix, head, members):
    h = head if isinstance(head, bytes) else json.dumps(head).encode()
    f = io.BytesIO()
    f.write(prefix + struct.pack("<I", len(h)) + h)
    with zipfile.ZipFile(f, "w") as zf:
        for k, v in members:
            zf.writestr(k, v)
    return f.getvalue()


def members_damage(r, data, what):
    prefix, head, mem = split(data)
    n = head["num_nodes"]
    i = r.randrange(len(mem))
    if r.random() < .4:   # the ones that make up the graph
        i = r.choice([j for j, (k, _) in enumerate(mem) if not k.startswith("nodes/")])
    name, content = mem[i]
    k = r.randrange(20)
    what.append(f"{name}:{k}")
    if k == 0:
        mem.pop(i)
    elif k == 1:
        j = r.randrange(len(mem))
        mem[i], mem[j] = (mem[i][0], mem[j][1]), (mem[j][0], mem[i][1])
    elif k == 2:
        mem[i] = (name, content[:r.randrange(len(content) + 1)])
    elif k == 3 and content:
        b = bytearray(content)
        for _ in range(r.choice([1, 1, 4])):
            b[r.randrange(len(b))] = r.randrange(256)
        mem[i] = (name, bytes(b))
    elif name.endswith(".json"):
        try:
            mem[i] = (name, json.dumps(mutate_json(r, json.loads(content))).encode())
        except ValueError:
            mem[i] = (name, json.dumps(r.choice([0, 1, -1, n, 10 ** 20, [0], "0", None, True, 0.0])).encode())
    elif name.endswith((".npy", ".npz")) or "/states/" in name:
        mem[i] = (name, mutate_npy(r, content))
    elif name in ("nodetypes.txt", "adj.adjlist"):
        mem[i] = (name, mutate_lines(r, content, name, n))
        if r.random() < .3:
            j = next((j for j, (q, _) in enumerate(mem) if q in ("nodetypes.txt", "adj.adjlist") and q != name), i)
            mem[j] = (mem[j][0], mutate_lines(r, mem[j][1], mem[j][0], n))
    else:
        mem[i] = (name, content + b"1")
    return prefix, head, mem


CLAIM = "the header is wrong about "


def damage(ctx, r, data):
    k = r.randrange(10)
    if k == 0:
        ctx.count("damage:truncated")
        n = r.randrange(len(data)) if r.random() < .7 else r.randrange(min(len(data), 200))
        return data[:n], f"truncated to {n}"
    if k == 1:
        ctx.count("damage:bytes")
        b = bytearray(data)
        pos = [r.randrange(len(b)) if r.random() < .6 else r.randrange(min(len(b), 300)) for _ in range(r.choice([1, 1, 2, 8]))]
        for p in pos:
            b[p] = r.choice([b[p] ^ (1 << r.randrange(8)), r.randrange(256)])
        return bytes(b), f"bytes {pos}"
    if k == 2:
        ctx.count("damage:blocks")
        a, b = sorted(r.randrange(len(data) + 1) for _ in range(2))
        q = r.randrange(3)
        return [data[:a] + data[b:], data[:b] + data[a:b] + data[b:], data[:a] + bytes(b - a) + data[b:]][q], f"block {a}:{b} {q}"
    if k == 3:
        ctx.count("damage:header")
        prefix, head, mem = split(data)
        h = mutate_json(r, head)
        return join(prefix, h if r.random() < .8 else json.dumps(h).encode()[:-r.randrange(1, 5)], mem), "header"
    if k == 4:
        # a header that claims something else than what follows
        ctx.count("damage:claim")
        prefix, head, mem = split(data)
        key = r.choice(sorted(head))
        head = dict(head)
        head[key] = r.choice([head[key] + r.choice([-1, 1, 8, 100]), -head[key] - 1, None, "x", [head[key]]])
        return join(prefix, head, mem), CLAIM + key
    ctx.count("damage:members")
    what = []
    prefix, head, mem = members_damage(r, data, what)
    if r.random() < .2:
        prefix, head, mem = members_damage(r, join(prefix, head, mem), what)
    return join(prefix, head, mem), " ".join(what)


def legal(sym, i, ctx):
    name = type(sym).__name__
    if not sym.has_state(i):
        return
    if name == "DisjointBitSets":
        parts = [q.state(i) for q in sym.iter_successors()]
        # some of the parts may not be in the model
        if len(parts) == sym.num_disjoint_sets():
            t = np.sum(parts, axis=0) if parts else np.ones(0)
            if not (t == 1).all() or not all(np.isin(q, (0, 1)).all() for q in parts):
                ctx.viol("damage", name, f"was given the partition {[q.tolist() for q in parts]}")
        return
    if name == "DisjointLists":
        parts = [q.state(i) for q in sym.iter_successors()]
        if len(parts) == sym.num_disjoint_lists():
            t = sorted(np.concatenate(parts)) if parts else []
            if t != list(range(sym.primary_set_size() if hasattr(sym, "primary_set_size") else len(t))):
                ctx.viol("damage", name, f"was given the lists {[q.tolist() for q in parts]}")
        return
    v = sym.state(i)
    if name == "BinaryVariable" and not np.isin(v, (0, 1)).all():
        ctx.viol("damage", name, f"was given {v.tolist()}")
    if name == "IntegerVariable" and not ((v >= sym.lower_bound()) & (v <= sym.upper_bound()) & (v == np.floor(v))).all():
        ctx.viol("damage", name, f"[{sym.lower_bound()},{sym.upper_bound()}] was given {v.tolist()}")
    if name == "ListVariable" and sorted(v.tolist()) != list(range(v.size)):
        ctx.viol("damage", name, f"was given {v.tolist()}")
    if name == "SetVariable" and (len(set(v.tolist())) != v.size or not ((v >= 0) & (v == np.floor(v))).all()):
        ctx.viol("damage", name, f"was given {v.tolist()}")


def wellformed(ctx, r, m):
    """A model that was loaded can be used as any other."""
    syms = list(m.iter_symbols())
    ids = {s.id(): i for i, s in enumerate(syms)}
    if len(ids) != len(syms) or len(syms) != m.num_symbols():
        ctx.viol("damage", "symbols", f"{len(ids)} distinct symbols of {m.num_symbols()}")
    ns = m.states.size()
    with m.lock():
        for i, s in enumerate(m.iter_symbols()):
            for q in s.iter_predecessors():
                if q.topological_index() >= s.topological_index():
                    ctx.viol("damage", type(s).__name__, "comes before one of its predecessors")
            if s.topological_index() != i:
                ctx.viol("damage", type(s).__name__, f"has topological index {s.topological_index()} at position {i}")
        if m.objective is not None and m.objective.id() not in ids:
            ctx.viol("damage", "objective", "is not a symbol of the model")
        for c in m.iter_constraints():
            if c.id() not in ids:
                ctx.viol("damage", "constraint", "is not a symbol of the model")
        if ns == 0 or ns > 50:
            m.states.resize(1)
            ns = 1
        total = m.state_size()
        if total > BIG:
            ctx.count("too_big")
            return
        for i in range(min(ns, 3)):
            for s in m.iter_decisions():
                legal(s, i, ctx)
            for s in m.iter_symbols():
                if hasattr(s, "state"):
                    try:
                        v = s.state(i)
                    except (MemoryError, RuntimeError, ValueError) as e:
                        # a decision so large that there is no space for it
                        if isinstance(e, MemoryError) or "vector::" in str(e) or "array is too big" in str(e):
                            ctx.count("too_big")
                            return
                        raise
                    ctx.count("mon:evaluated")
                    shape = s.shape()
                    if len(shape) != v.ndim or any(a != b for a, b in zip(shape, v.shape) if a >= 0):
                        ctx.viol("damage", type(s).__name__, f"has shape {shape} but its state has shape {v.shape}")
            for s in m.iter_decisions():
                legal(s, i, ctx)
        a = m_save.snapshot(m)
        f = io.BytesIO()
        m.into_file(f, max_num_states=ns)
    f.seek(0)
    q = Model.from_file(f)
    with q.lock():
        d = m_save.differ(a, m_save.snapshot(q))
        if d and "nan" not in d:
            ctx.viol("damage", "saved", f"the loaded model saves as another one: {d}")


def case(ctx, r):
    p = PM(r, ctx).build(nops=r.choice([3, 6, 12])).goals() if r.random() < .9 else None
    m = p.model if p else Model()
    ctx.text = p.describe() if p else "empty model"
    ns = r.choice([0, 1, 1, 2])
    m.states.resize(ns)
    if p:
        for i in range(ns):
            p.assign(i, None if r.random() < .7 else [d for d in p.decs if r.random() < .7])
    states_only = r.random() < .25
    f = io.BytesIO()
    if states_only:
        m.states.into_file(f)
    else:
        m.into_file(f, max_num_states=ns)
    data = f.getvalue()
    with m.lock():
        before = m_save.snapshot(m)
        held = m_save.states_of(m, ns)
    base = ctx.text
    for _ in range(6):
        bad, what = damage(ctx, r, data)
        ctx.text = f"{what} | {base}"
        ctx.saw(bad)
        ctx.count("mon:damaged")
        header = r.random() < .5
        claim = header and what.startswith(CLAIM)
        if states_only or r.random() < .25:
            # into the model, which must stay as it is
            try:
                m.states.from_file(io.BytesIO(bad), check_header=header)
                ctx.count("into:accepted")
                if claim:
                    ctx.viol("damage", "claim", f"states were loaded from a file although {what}")
                ok = True
            except Exception as e:
                ctx.count("into:" + type(e).__name__)
                ok = False
            with m.lock():
                d = m_save.differ(before, m_save.snapshot(m))
                if d:
                    ctx.viol("damage", "model", f"reading states changed the model: {d}")
                if not ok:
                    if m.states.size() != ns:
                        ctx.viol("damage", "states", f"there are {m.states.size()} states instead of {ns} after a refused file")
                    else:
                        m_save.compare_states(ctx, held, m_save.states_of(m, ns), "after a refused file", kind="damage")
                elif m.states.size() < 50 and m.state_size() < BIG:
                    for i in range(m.states.size()):
                        for s in m.iter_decisions():
                            legal(s, i, ctx)
                        for s in m.iter_symbols():
                            if hasattr(s, "state"):
                                s.state(i)
            if ok:
                m.states.clear()
                m.states.resize(ns)
                for (k, i), v in held.items():
                    if v is not None:
                        m_save.dec_symbols(m)[k].set_state(i, v)
            continue
        try:
            q = Model.from_file(io.BytesIO(bad), check_header=header)
        except Exception as e:
            ctx.count("refused:" + type(e).__name__)
            ctx.count("mon:refused")
            continue
        ctx.count("mon:loaded")
        if claim:
            ctx.viol("damage", "claim", f"a model was loaded from a file although {what}")
        wellformed(ctx, r, q)
    if ctx.case % 200 == 0:
        ctx.sample(f"{ctx.text}")
