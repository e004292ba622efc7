"""drive.py MODE SEED FIRST COUNT PROG [v]: runs cases of one workload; see check.py for the protocol."""
import collections, gc, hashlib, json, os, random, struct, sys, traceback


class Ctx:
    def __init__(self, mode, seed, prog, verbose):
        self.mode, self.seed, self.prog, self.verbose = mode, seed, prog, verbose
        k = os.environ.get("VF_KINDS", "")
        self.kinds = None if not k else set(k.split(","))
        self.stats = collections.Counter()
        self.hashes = set()
        self.case = None
        self.sampled = 0
        self.reported = collections.Counter()
        self.text = ""

    def count(self, name, n=1):
        self.stats[name] += n

    def viol(self, kind, node, msg):
        if self.kinds is not None and kind not in self.kinds and kind != "exception":
            self.stats["other:" + kind] += 1
            return
        self.reported[kind, str(node)] += 1
        if self.reported[kind, str(node)] <= 6:
            print("VIOL " + json.dumps(dict(case=self.case, kind=kind, node=str(node), msg=f"{node}: {msg} | {self.text}"[:2500])), flush=True)

    def saw(self, *what):
        self.hashes.add(struct.unpack("<Q", hashlib.blake2b(repr(what).encode(), digest_size=8).digest())[0])

    def sample(self, text):
        if self.sampled < 2:
            self.sampled += 1
            print("SAMPLE " + json.dumps(text[:2500]), flush=True)


def main():
    mode, seed, first, count, prog = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4]), sys.argv[5]
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    import importlib
    mod = importlib.import_module("m_" + mode.split(":")[0])
    ctx = Ctx(mode, seed, prog, len(sys.argv) > 6)

    def progress(i):
        fd = os.open(prog + ".tmp", os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644)
        os.write(fd, f"{i}\n".encode())
        os.close(fd)
        os.replace(prog + ".tmp", prog)
    for i in range(first, first + count):
        progress(i)
        ctx.case, ctx.text = i, ""
        r = random.Random(f"{seed}:{mode}:{i}")
        try:
            mod.case(ctx, r)
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            ctx.viol("exception", type(e).__name__, f"{e} at " + " <- ".join(f"{os.path.basename(f.filename)}:{f.lineno}" for f in reversed(tb[-6:])))
            if ctx.verbose:
                traceback.print_exc()
        ctx.count("cases")
    if hasattr(mod, "finish"):
        mod.finish(ctx)
    gc.collect()
    progress(-1)
    with open(prog + ".seen", "wb") as f:
        f.write(b"".join(struct.pack("<Q", h) for h in ctx.hashes))
    print("STATS " + json.dumps(ctx.stats), flush=True)


main()
