#!/usr/bin/env python3
"""check.py P01            decide one property on /repo's working tree (VERIF_SEED, VERIF_TIER)
   check.py --replay FILE  run one recorded case again, verbosely

Builds the instrumented harnesses from /repo's current sources in a scratch directory, runs the
workloads in parallel shards under the monitors, maps every violation, sanitizer report, crash or
hang to the case that was running, and writes evidence/<property>.json.
"""
import collections, json, os, re, shutil, struct, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("REPO", "/repo")
VENV = "/opt/dwo-venv/bin"
sys.path.insert(0, HERE)
from config import PROPS  # noqa: E402

SHARDS = 8
ALWAYS = {"sanitizer", "exception", "hang", "crash"}


def log(*a):
    print(*a, flush=True)


# ------------------------------------------------------------------------------------------ builds
def build_cpp(kind, out):
    p = subprocess.run(["bash", f"{HERE}/tools/buildcpp.sh", out, kind], capture_output=True, text=True,
                       env=dict(os.environ, REPO=REPO))
    if p.returncode:
        log(p.stdout[-3000:], p.stderr[-6000:])
        raise SystemExit(f"the {kind} harness does not build from {REPO}")
    return f"{out}/vf"


def build_py(kind, out):
    p = subprocess.run(["bash", f"{HERE}/tools/buildpy.sh", out, kind], capture_output=True, text=True,
                       env=dict(os.environ, REPO=REPO))
    if p.returncode:
        log(p.stdout[-3000:], p.stderr[-6000:])
        raise SystemExit(f"the Python package ({kind}) does not build from {REPO}")
    return f"{out}/i"


# ------------------------------------------------------------------------------------------ running
def command(comp, built, seed, first, count, prog):
    """The command line and environment of one shard."""
    env = dict(os.environ)
    env["VF_KINDS"] = ",".join(sorted(comp["kinds"])) if comp.get("kinds") else ""
    if comp.get("kinds") is not None and not comp["kinds"]:
        env["VF_KINDS"] = "none"
    leaks = 1 if comp.get("leaks") and not comp.get("no_leaks") else 0
    env["ASAN_OPTIONS"] = f"detect_leaks={leaks}:exitcode=77:allocator_may_return_null=1:handle_abort=1:detect_stack_use_after_return=1"
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=77"
    env["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66"
    env["LSAN_OPTIONS"] = "exitcode=78"
    if comp["type"] == "cpp":
        pre = []
        if comp.get("build") == "memcheck":
            pre = ["valgrind", "--tool=memcheck", "-q", "--error-exitcode=99", "--exit-on-first-error=yes", "--leak-check=no", "--num-callers=8"]
        return pre + [built, comp["mode"], str(seed), str(first), str(count), prog], env
    env["PYTHONPATH"] = f"{built}:{HERE}/py"
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env["PYTHONHASHSEED"] = "0"
    env["OPENBLAS_NUM_THREADS"] = "1"
    env["OMP_NUM_THREADS"] = "1"
    if comp.get("build", "plain") == "asan":
        env["PYTHONMALLOC"] = "malloc"
        env["ASAN_OPTIONS"] += ":detect_odr_violation=0:verify_asan_link_order=0"
        pre = [subprocess.run(["gcc", f"-print-file-name={n}"], capture_output=True, text=True).stdout.strip()
               for n in ("libasan.so", "libubsan.so", "libstdc++.so")]
        env["LD_PRELOAD"] = " ".join(os.path.realpath(p) for p in pre)
    return [f"{VENV}/python", "-X", "faulthandler", f"{HERE}/py/drive.py", comp["mode"], str(seed), str(first), str(count), prog], env


def signature(err):
    """Kind and place of a sanitizer report."""
    head = re.findall(r"runtime error: [^\n]*|AddressSanitizer: [\w-]+|ThreadSanitizer: [\w -]+|LeakSanitizer: [\w -]+|Conditional jump or move depends on uninitialised[^\n]*|Use of uninitialised[^\n]*|Invalid (?:read|write) of size \d+|"
                      r""
                      r"Assertion[^\n]*|Fatal Python error: [^\n]*|terminate called[^\n]*", err)
    fn = re.findall(r"in ((?:dwave::|__pyx_)[^\n]*?)\([^\n]*?(?:/repo/|\.\./)?(dwave/optimization/[\w./-]+:\d+|[\w.-]+\.pyx?[\w.]*:\d+)", err)
    where = " <- ".join(f"{a[-70:]} {b}" for a, b in fn[:4])
    if not where:
        where = " | ".join(l.strip() for l in err.splitlines() if re.match(r"\s*#[0-5] ", l))[:500]
    return (head[0][:120] if head else "abnormal end"), where


class Run:
    def __init__(self, comp, built, seed, total, scratch):
        self.comp, self.built, self.seed, self.total, self.scratch = comp, built, seed, total, scratch
        self.viol, self.stats, self.seen, self.samples, self.notes = [], collections.Counter(), set(), [], set()
        self.lock = threading.Lock()

    def once(self, first, count, prog):
        cmd, env = command(self.comp, self.built, self.seed, first, count, prog)
        for f in (prog, prog + ".seen"):
            if os.path.exists(f):
                os.remove(f)
        cwd = tempfile.mkdtemp(dir=self.scratch)
        env["TMPDIR"] = cwd
        with open(prog + ".out", "wb") as fo, open(prog + ".err", "wb") as fe:
            p = subprocess.Popen(cmd, stdout=fo, stderr=fe, env=env, cwd=cwd, start_new_session=True)
            last, since, hang = None, time.time(), False
            while True:
                try:
                    p.wait(timeout=1)
                    break
                except subprocess.TimeoutExpired:
                    pass
                cur = read_prog(prog)
                if cur != last:
                    last, since = cur, time.time()
                elif time.time() - since > self.comp.get("hang", 150):
                    hang = True
                    try:
                        os.killpg(p.pid, 9)
                    except ProcessLookupError:
                        pass
                    p.wait()
                    break
        shutil.rmtree(cwd, ignore_errors=True)
        out = open(prog + ".out", errors="replace").read()
        err = open(prog + ".err", errors="replace").read()
        return p.returncode, out, err, hang

    def shard(self, k):
        per = self.total // SHARDS
        first, end = k * per, (k + 1) * per
        prog = f"{self.scratch}/{self.comp['name']}.prog{k}"
        crashes = 0
        while first < end and crashes < 3:
            rc, out, err, hang = self.once(first, end - first, prog)
            with self.lock:
                for l in out.splitlines():
                    if l.startswith("VIOL "):
                        try:
                            self.viol.append(json.loads(l[5:]))
                        except ValueError:
                            pass
                    elif l.startswith("STATS "):
                        s = json.loads(l[6:])
                        s.pop("violations", None)
                        s.pop("distinct_states", None)
                        self.stats.update(s)
                    elif l.startswith("SAMPLE ") and len(self.samples) < 3:
                        self.samples.append(json.loads(l[7:]))
                if os.path.exists(prog + ".seen"):
                    b = open(prog + ".seen", "rb").read()
                    self.seen.update(struct.unpack(f"<{len(b) // 8}Q", b[:len(b) // 8 * 8]))
            case = read_prog(prog)
            if rc == 0 and not hang:
                break
            if case is None:
                log(out[-2000:], err[-4000:])
                raise SystemExit(f"a workload did not start ({self.comp['name']}, exit {rc})")
            if case == -1:
                # all the cases are done; the end of the process complains
                if "LeakSanitizer has encountered a fatal error" in err:
                    self.notes.add("LeakSanitizer could not run in this environment")
                    break
                head, where = signature(err)
                with self.lock:
                    self.viol.append(dict(case=first, count=end - first, kind="sanitizer", node=head, msg=head + ": " + where + "\n" + err[:1500]))
                break
            crashes += 1
            head, where = ("no progress", "") if hang else signature(err)
            with self.lock:
                self.viol.append(dict(case=case, kind="hang" if hang else "sanitizer", node=head,
                                      msg=f"{head}: {where} (exit {rc})\n" + err[-2500:]))
                self.stats["cases"] += case - first
            first = case + 1

    def go(self):
        with ThreadPoolExecutor(SHARDS) as ex:
            for f in [ex.submit(self.shard, k) for k in range(SHARDS)]:
                f.result()


def read_prog(p):
    try:
        return int(open(p).read().split()[0])
    except (OSError, ValueError, IndexError):
        return None


# ------------------------------------------------------------------------------------------ findings
def known(pid):
    """Listed findings: 'known: property=<id> match=<regex> :: what fails' (fixed: lines suppress nothing)."""
    out = []
    f = f"{HERE}/known_findings.txt"
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"known: property=(\S+) match=(.*?) :: (.*)", l.strip())
            if m and m.group(1) == pid:
                out.append((re.compile(m.group(2)), m.group(3)))
    return out


def run_components(comps, seed, tier, scratch):
    builds = {}
    need = []
    for c in comps:
        key = (c["type"], c.get("build", "asan" if c["type"] == "cpp" else "plain"))
        if key not in need:
            need.append(key)

    def one(key):
        d = f"{scratch}/build_{key[0]}_{key[1]}"
        return (build_cpp if key[0] == "cpp" else build_py)(key[1], d)

    with ThreadPoolExecutor(4) as ex:
        fs = {k: ex.submit(one, k) for k in need}
        for k, f in fs.items():
            builds[k] = f.result()
    runs = []
    for c in comps:
        key = (c["type"], c.get("build", "asan" if c["type"] == "cpp" else "plain"))
        n = c["n"][1 if tier == "thorough" else 0]
        r = Run(c, builds[key], seed, n - n % SHARDS, scratch)
        t = time.time()
        r.go()
        r.wall = time.time() - t
        runs.append(r)
    return runs


def main():
    if sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    prop = PROPS[pid]
    t0 = time.time()
    os.makedirs(f"{HERE}/.build", exist_ok=True)
    scratch = tempfile.mkdtemp(prefix=f"{pid}.", dir=f"{HERE}/.build")
    try:
        runs = run_components(prop["components"], seed, tier, scratch)
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(scratch, ignore_errors=True)

    listed = known(pid)
    hits, new = set(), []
    for r in runs:
        for v in r.viol:
            k = [w for rx, w in listed if rx.search(v["kind"] + " " + v.get("node", "") + " " + v["msg"])]
            if k:
                hits.update(k)
            else:
                new.append((r, v))
    for w in sorted(hits):
        log(f"KNOWN-FINDING: property={pid} {w}")

    mons = collections.Counter()
    for r in runs:
        for k, v in r.stats.items():
            mons[f"{r.comp['name']}:{k}"] += v
    ev = dict(property=pid, tier=tier, seed=seed, level="exploration", wall_s=round(time.time() - t0, 1), violations=len(new),
              assumptions=prop.get("assumptions", []) + sorted({n for r in runs for n in r.notes}),
              coverage=dict(
                  evaluations=int(sum(r.stats["cases"] for r in runs)),
                  distinct_nontrivial=len(set().union(*[{(i, h) for h in r.seen} for i, r in enumerate(runs)])),
                  rule=" / ".join(f"{r.comp['name']}: {r.comp['rule']}" for r in runs),
                  samples=[s[:3000] for r in runs for s in r.samples[:2]] or ["none"],
                  observed={k: v for k, v in sorted(mons.items()) if v},
                  components=[dict(name=r.comp["name"], cases=int(r.stats["cases"]), distinct=len(r.seen), wall_s=round(r.wall, 1))
                              for r in runs]))
    os.makedirs(f"{HERE}/evidence", exist_ok=True)
    with open(f"{HERE}/evidence/{pid}.json", "w") as f:
        json.dump(ev, f, indent=1)

    if new:
        os.makedirs(f"{HERE}/replay", exist_ok=True)
        shown = set()
        for r, v in new:
            key = (r.comp["name"], v["kind"], v.get("node"))
            if key in shown or len(shown) >= 8:
                continue
            shown.add(key)
            path = f"{HERE}/replay/{pid}-{r.comp['name']}-{v['case']}-{len(shown)}.json"
            with open(path, "w") as f:
                json.dump(dict(property=pid, component=r.comp["name"], seed=seed, tier=tier, **v), f, indent=1)
            log(f"VIOLATION property={pid} replay={path}")
            log(f"  {r.comp['name']} case {v['case']}: [{v['kind']}] {v['msg'][:1200]}")
        log(f"{pid}: {len(new)} violations")
        return 1
    # the monitors must have seen something
    for r in runs:
        for k in r.comp.get("must_see", []):
            if not r.stats[k]:
                log(f"{pid}: the monitor {r.comp['name']}:{k} observed nothing")
                return 2
    c = ev["coverage"]
    log(f"{pid}: held on {c['evaluations']} executions, {c['distinct_nontrivial']} distinct; {ev['wall_s']} s")
    return 0


def replay(path):
    d = json.load(open(path))
    comp = next(c for c in PROPS[d["property"]]["components"] if c["name"] == d["component"])
    os.makedirs(f"{HERE}/.build", exist_ok=True)
    scratch = tempfile.mkdtemp(prefix="replay.", dir=f"{HERE}/.build")
    try:
        key = comp.get("build", "asan" if comp["type"] == "cpp" else "plain")
        built = (build_cpp if comp["type"] == "cpp" else build_py)(key, f"{scratch}/b")
        cmd, env = command(comp, built, d["seed"], d["case"], d.get("count", 1), f"{scratch}/prog")
        p = subprocess.run(cmd + ["v"], env=env, cwd=scratch, capture_output=True, text=True, errors="replace")
        out = "\n".join(l for l in p.stdout.splitlines() if not l.startswith(("STATS", "SAMPLE")))
        log(out, p.stderr[-6000:])
        bad = p.returncode != 0 or "VIOL " in p.stdout
        log("reproduced" if bad else "not reproduced")
        return 1 if bad else 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except SystemExit as e:
        if isinstance(e.code, str):
            log("ERROR:", e.code)
            sys.exit(2)
        raise
