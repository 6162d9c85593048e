"""Shared machinery of the checks: TLC runs, behaviours out of TLC, replay, trace validation, verdicts, evidence."""
import collections, json, os, pathlib, random, re, shutil, signal, subprocess, sys, tempfile, threading, time

VERIF = pathlib.Path(__file__).resolve().parent.parent
SPEC = VERIF / "spec"
sys.path.insert(0, str(VERIF / "harness"))
import fmqbuild  # noqa: E402

TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class CheckError(Exception):
    """The machinery failed: neither held nor violated."""


class Violation(Exception):
    def __init__(self, what, data=None):
        super().__init__(what)
        self.what = what
        self.data = data


class TlcResult:
    pass


class Ctx:
    def __init__(self, pid, level="model_checking"):
        self.pid = pid
        self.level = level
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.tier = os.environ.get("VERIF_TIER", "quick") or "quick"
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.rng = random.Random("%s/%s" % (self.seed, pid))
        self.t0 = time.time()
        base = VERIF / "build" / "work"
        base.mkdir(parents=True, exist_ok=True)
        self.work = pathlib.Path(tempfile.mkdtemp(prefix=pid + "_", dir=str(base)))
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.notes = []
        self.assumptions = []
        self.extra = {}
        self.known = []

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def log(self, *a):
        print("[%s %6.1fs]" % (self.pid, time.time() - self.t0), *a, flush=True)

    # ---------------------------------------------------------------- build
    def build(self, *drivers, san=None):
        t = time.time()
        try:
            exes = fmqbuild.build(list(drivers), san)
        except RuntimeError as e:
            raise CheckError(str(e))
        self.log("built %s in %.1fs" % (",".join(drivers), time.time() - t))
        return exes

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, cfg_text, workers=4, edges=False, env=None, extra=(), timeout=600, expect_ok=True, heap="4g",
            props=(), count=True):
        """Model checks spec/<module>.tla with the given configuration.
        edges: collect the records printed by an action constraint as EDGE lines."""
        d = pathlib.Path(tempfile.mkdtemp(prefix="tlc_", dir=str(self.work)))
        cfg = d / (module + ".cfg")
        cfg.write_text(cfg_text)
        cmd = ["java", "-Xmx" + heap, "-XX:+UseParallelGC", "-DTLA-Library=" + str(SPEC)] + list(props) + [
            "-cp", TLA_CP, "tlc2.TLC", "-workers", str(1 if edges else workers), "-metadir", str(d / "states"),
            "-noGenerateSpecTE", "-config", str(cfg)] + list(extra) + [str(SPEC / (module + ".tla"))]
        e = dict(os.environ)
        e.update(env or {})
        t = time.time()
        try:
            r = subprocess.run(cmd, cwd=str(d), env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               timeout=timeout, errors="replace")
        except subprocess.TimeoutExpired:
            raise CheckError("TLC timed out on %s" % module)
        res = TlcResult()
        res.out = r.stdout
        res.rc = r.returncode
        res.wall = time.time() - t
        res.prints = []
        res.edges = []
        for line in r.stdout.splitlines():
            if line.startswith('"EDGE '):
                try:
                    res.edges.append(json.loads(json.loads(line)[5:]))
                except ValueError:
                    raise CheckError("unparsable edge line: " + line[:300])
            elif line.startswith('"OUT '):
                res.prints.append(json.loads(json.loads(line)[4:]))
        m = None
        for m in re.finditer(r"(\d+) states generated, (\d+) distinct states found", r.stdout):
            pass
        res.generated = int(m.group(1)) if m else 0
        res.distinct = int(m.group(2)) if m else 0
        if not m:
            m2 = re.search(r"The number of states generated: (\d+)", r.stdout)
            if m2:
                res.generated = int(m2.group(1))
        res.ok = r.returncode == 0
        if count:
            self.states += res.distinct
            self.transitions += res.generated
        if expect_ok and not res.ok:
            raise CheckError("TLC rejects the specification %s (rc %d):\n%s" % (module, r.returncode, tail(r.stdout)))
        shutil.rmtree(str(d / "states"), ignore_errors=True)
        return res

    # ---------------------------------------------------------------- verdict
    def replay_file(self, data, name="violation"):
        d = VERIF / "evidence" / "replay"
        d.mkdir(parents=True, exist_ok=True)
        p = d / ("%s-%s-%d.json" % (self.pid, name, self.seed))
        p.write_text(json.dumps(data, indent=1, default=str))
        return p

    def write_evidence(self, violations):
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level,
                  coverage=dict(states=self.states, transitions=self.transitions,
                                traces_validated_against_impl=self.traces,
                                samples=self.samples[:6] if self.samples else ["(none)"]),
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=violations)
        ev["coverage"].update(self.extra)
        if self.notes:
            ev["coverage"]["explanation"] = " ".join(self.notes)
        (VERIF / "evidence").mkdir(exist_ok=True)
        (VERIF / "evidence" / (self.pid + ".json")).write_text(json.dumps(ev, indent=1, default=str))


def tail(s, n=3000):
    return s[-n:]


def main(pid, fn, level="model_checking"):
    """Runs a check function. fn(ctx) raises Violation, CheckError or returns."""
    ctx = Ctx(pid, level)
    rc = 0
    try:
        fn(ctx)
        for k in ctx.known:
            print("KNOWN-FINDING: property=%s %s" % (pid, k))
        ctx.write_evidence(0)
        ctx.log("held: %d states, %d transitions, %d traces/behaviours against the implementation" % (ctx.states, ctx.transitions, ctx.traces))
    except Violation as v:
        p = ctx.replay_file(dict(property=pid, what=v.what, data=v.data, seed=ctx.seed, tier=ctx.tier))
        ctx.write_evidence(1)
        print("what: " + str(v.what)[:3000])
        print("VIOLATION property=%s replay=%s" % (pid, p), flush=True)
        rc = 1
    except CheckError as e:
        print("CHECK ERROR (%s): %s" % (pid, e), flush=True)
        rc = 3
    finally:
        shutil.rmtree(str(ctx.work), ignore_errors=True)
    sys.exit(rc)


# -------------------------------------------------------------------- behaviours from edges
def key(x):
    return json.dumps(x, sort_keys=True)


class Graph:
    """State graph made of edges {"f": state, "a": label, "t": state}."""

    def __init__(self, edges, init):
        self.out = collections.OrderedDict()
        self.nedges = 0
        self.label = {}
        seen = set()
        for e in edges:
            f, t, a = key(e["f"]), key(e["t"]), key(e["a"])
            if (f, a, t) in seen:
                continue
            seen.add((f, a, t))
            self.out.setdefault(f, []).append((a, t))
            self.out.setdefault(t, [])
            self.nedges += 1
        self.init = key(init)
        if self.init not in self.out:
            raise CheckError("initial state not in graph")

    def states(self):
        return len(self.out)

    def walks_covering(self, rng, maxlen=60, limit=None, select=None):
        """Walks from the initial state that together take every edge (greedy, bounded length each)."""
        unc = {}
        for f, l in self.out.items():
            for i, (a, t) in enumerate(l):
                if select is None or select(json.loads(a)):
                    unc.setdefault(f, set()).add(i)
        total = sum(len(v) for v in unc.values())
        walks = []
        # distance-guided: BFS from the current state to the closest state with an uncovered edge
        dist0 = self._bfs(self.init)
        while unc and (limit is None or len(walks) < limit):
            cur, w = self.init, []
            progressed = False
            while len(w) < maxlen:
                if cur in unc:
                    i = rng.choice(sorted(unc[cur]))
                    unc[cur].discard(i)
                    if not unc[cur]:
                        del unc[cur]
                    a, t = self.out[cur][i]
                    w.append((a, t))
                    cur = t
                    progressed = True
                    continue
                path = self._path_to(cur, unc, maxlen - len(w))
                if path is None:
                    break
                for (f, i) in path:
                    a, t = self.out[f][i]
                    w.append((a, t))
                    cur = t
            if not progressed:
                # the rest is farther than maxlen from the initial state: take one long walk
                path = self._path_to(self.init, unc, 10 ** 9)
                if path is None:
                    break
                cur, w = self.init, []
                for (f, i) in path:
                    a, t = self.out[f][i]
                    w.append((a, t))
                    cur = t
                maxlen = len(w) + 1
                i = sorted(unc[cur])[0]
                unc[cur].discard(i)
                if not unc[cur]:
                    del unc[cur]
                w.append(self.out[cur][i])
            walks.append([(json.loads(a), json.loads(t)) for a, t in w])
        left = sum(len(v) for v in unc.values())
        return walks, total - left, total

    def _bfs(self, src):
        d = {src: 0}
        q = collections.deque([src])
        while q:
            s = q.popleft()
            for a, t in self.out[s]:
                if t not in d:
                    d[t] = d[s] + 1
                    q.append(t)
        return d

    def _path_to(self, src, targets, maxd):
        prev = {src: None}
        q = collections.deque([(src, 0)])
        while q:
            s, d = q.popleft()
            if s in targets and s != src or (s in targets and d == 0):
                path = []
                while prev[s] is not None:
                    path.append(prev[s])
                    s = prev[s][0]
                return path[::-1]
            if d >= maxd:
                continue
            for i, (a, t) in enumerate(self.out[s]):
                if t not in prev:
                    prev[t] = (s, i)
                    q.append((t, d + 1))
        return None

    def random_walks(self, rng, n, length, weight=None):
        walks = []
        for _ in range(n):
            cur, w = self.init, []
            for _ in range(length):
                l = self.out[cur]
                if not l:
                    break
                if weight:
                    ws = [weight(json.loads(a)) for a, t in l]
                    if not any(ws):
                        break
                    a, t = rng.choices(l, ws)[0]
                else:
                    a, t = rng.choice(l)
                w.append((json.loads(a), json.loads(t)))
                cur = t
            walks.append(w)
        return walks


# -------------------------------------------------------------------- processes
def run(cmd, input=None, timeout=60, env=None, cwd=None):
    """Runs a driver in its own process group. Returns (rc, out, err); rc is 'timeout' when killed."""
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace",
                         env=e, cwd=cwd, start_new_session=True)
    try:
        out, err = p.communicate(input, timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        killpg(p)
        out, err = p.communicate()
        rc = "timeout"
    killpg(p)
    return rc, out, err


def killpg(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass


def json_lines(s):
    r = []
    for line in s.splitlines():
        line = line.strip()
        if line.startswith("{"):
            try:
                r.append(json.loads(line))
            except ValueError:
                pass
    return r


def parallel(jobs, fn, n=8):
    """fn(job) for every job on n threads, results in order; exceptions propagate."""
    res = [None] * len(jobs)
    errs = []
    it = iter(range(len(jobs)))
    lock = threading.Lock()

    def work():
        while not errs:
            with lock:
                i = next(it, None)
            if i is None:
                return
            try:
                res[i] = fn(jobs[i])
            except BaseException as e:  # noqa: B902
                errs.append(e)
                return
    ts = [threading.Thread(target=work) for _ in range(min(n, max(1, len(jobs))))]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if errs:
        raise errs[0]
    return res
