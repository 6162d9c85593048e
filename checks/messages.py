"""C08, C10, C11, C23: messages, buffers, transfers (spec/Messages.tla)."""
from vlib import *
from replay import replay
import trace as T

MC = "SPECIFICATION MSpec\nCONSTANTS Procs={P1,P2}\n P1=P1\n P2=P2\n Slots={%s}\n %s\n Transports={%s}\n Sizes={%s}\n Used={%s}\n Kinds={%s}\n MaxBufs=%d\n MaxQ=%d\n MaxParts=%d\n Multi=%s\nINVARIANTS ReleasedOnce CalledOnce CountRight Fits FlightFits NoDangling Conserved\nPROPERTIES Untouched\nVIEW MView\nSYMMETRY Sym\nCHECK_DEADLOCK FALSE\n"
SHM, ZMQ, BOTH = '"shmem"', '"zeromq"', '"shmem","zeromq"'
GEN = "SPECIFICATION GSpec\nCONSTANTS Procs={1,2}\n Slots={1,2,3,4}\n Transports={%s}\n Steps=%d\n Mix=\"%s\"\n RegionHome=%d\nACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n"
OVERHEAD = 320


def mc(ctx, slots, transports, sizes, used, kinds, bufs, q, parts, multi, timeout=900):
    cfg = MC % (",".join("S%d" % i for i in range(1, slots + 1)), "\n ".join("S%d=S%d" % (i, i) for i in range(1, slots + 1)), transports, sizes, used,
                ",".join('"%s"' % k for k in kinds.split()), bufs, q, parts, "TRUE" if multi else "FALSE")
    r = ctx.tlc("MC_Messages", cfg, workers=8, timeout=timeout)
    ctx.log("Messages (%s; %s; %d slots, %d buffers, %d under way, %d parts): %d distinct states, %.1fs" % (transports, kinds, slots, bufs, q, parts, r.distinct, r.wall))


def histories(ctx, transports, mix, home, num, steps, seed):
    r = ctx.tlc("Messages_Gen", GEN % (transports, steps, mix, home), edges=True, extra=["-simulate", "num=%d" % num, "-depth", str(steps + 2), "-seed", str(seed)], timeout=600)
    walks, cur = [], None
    for e in r.edges:
        if e["n"] == 1:
            cur = []
            walks.append(cur)
        cur.append((e["a"], e["t"]))
    return walks


def prepare(walk, kind):
    """Adds to every label what the step is to be called with and what is to be observed."""
    prev = dict(slots=[[dict(st="none", len=0, t="none", tag=0)] * 4] * 2, bufs=[])
    for a, t in walk:
        for l in t["slots"]:
            for x in l:
                if isinstance(x["tag"], list):
                    x["tag"], x["b"], x["al"] = x["tag"]
    orig, read, shrunk = {}, set(), set()
    out = []
    end = dict(op="clear", p=1, ss=[], t="")
    last = walk[-1][1]
    endstate = json.loads(json.dumps(last))
    for b in endstate["bufs"]:
        b["st"] = "gone"
        if b["k"] != "alloc":
            b["calls"] = 1
    endstate["slots"] = [[dict(st="none", len=0, t="none", tag=0)] * 4] * 2
    end["flying"] = last["flying"]
    endstate["stats"] = None
    for a, t in walk + [(end, endstate)]:
        for i, b in enumerate(t["bufs"]):
            orig.setdefault(i, b["size"])
            if b["st"] == "read":
                read.add(i)
            if a["op"] in ("send", "msend") and i >= len(prev["bufs"]):
                read.add(i)
        # messages sent over zeromq are read by the transport for a while
        if a["op"] in ("send", "msend"):
            for i, b in enumerate(t["bufs"]):
                if b["st"] != "live" and i < len(prev["bufs"]) and prev["bufs"][i]["st"] == "live":
                    read.add(i)
        a["id"] = len(prev["bufs"]) + 1
        old = [prev["slots"][a["p"] - 1][s - 1] for s in a["ss"]]
        if a["op"] == "used":
            a["ret"] = 1 if a["size"] <= old[0]["len"] else 0
            if a["size"] < old[0]["len"]:
                shrunk.add(old[0]["b"])   # which of the sizes of a block is acknowledged is left open
        elif a["op"] in ("send", "msend"):
            a["ret"] = sum(x["len"] for x in old)
        elif a["op"] in ("recv", "mrecv"):
            a["ret"] = sum(t["slots"][a["p"] - 1][s - 1]["len"] for s in a["ss"])
        else:
            a["ret"] = 0
        settle = a["op"] in ("flush", "clear")
        lo = hi = 0
        for i, b in enumerate(t["bufs"]):
            if b["t"] != "shmem":
                continue
            if b["k"] == "region":
                if kind & 2 and (b["st"] != "gone" or not settle):
                    hi += 64
                continue
            if b["st"] == "live":
                lo += b["size"]
                hi += orig[i] + b["al"] + OVERHEAD
            elif b["st"] == "read" or (i in read and not settle):
                hi += orig[i] + b["al"] + OVERHEAD
        a["used"] = (lo, hi)
        a["wait"] = ""
        if settle:
            a["wait"] = "%d;%d;%d" % (hi, sum(1 for b in t["bufs"] if b["k"] == "region" and b["calls"]),
                                      sum(1 for b in t["bufs"] if b["k"] == "user" and b["calls"] and b["st"] != "read"))
        a["shr"] = sorted(shrunk)
        prev = t
        out.append((a, t))
    return out


def expect(t):
    return ["".join("%d:%d:%d:%d;" % (i + 1, s["len"], s["tag"], s["al"]) for i, s in enumerate(t["slots"][p]) if s["st"] == "live") for p in (0, 1)]


def encode(a, t):
    op, ss = a["op"], a["ss"]
    e = expect(t)
    if op == "new":
        f = ["new", ss[0], a["t"], a["kind"], a["size"], a["al"], a["tag"], a["blk"], a["id"]]
    elif op == "rebuild":
        f = ["rebuild", ss[0], a["kind"], a["size"], a["al"], a["tag"], a["id"]]
    elif op == "write":
        f = ["write", ss[0], a["tag"]]
    elif op == "destroy":
        f = ["destroy", ss[0]]
    elif op == "used":
        f = ["used", ss[0], a["size"], a["al"]]
    elif op == "copy":
        f = ["copy", ss[0], ss[1], a["t"]]
    elif op in ("send", "msend", "recv", "mrecv"):
        f = [op, a["t"], ",".join(map(str, ss))]
    elif op == "flush":
        f = ["flush"]
    else:
        fl = []
        for p in (0, 1):
            l = ["%s:%s" % (k, "".join("m" if m else "s" for m in v)) for k, v in sorted(a["flying"][p].items())]
            fl += (l + ["", ""])[:2]
        f = ["clear2"] + fl
    return "|".join(map(str, ["step", a["p"], e[0], e[1], a["wait"]] + f))


def compare(a, t, o):
    if a["op"] == "end":
        return "objects left behind after the last user has gone: %s" % o["endobs"] if o["endobs"] else None
    r = o["r"]
    if r["err"]:
        return r["err"]
    if a["op"] in ("used", "send", "msend", "recv", "mrecv") and r["ret"] != a["ret"]:
        return "returns %d instead of %d" % (r["ret"], a["ret"])
    settle = a["op"] in ("flush", "clear")
    for p in (0, 1):
        c = o["c"][p]
        if c["bad"]:
            return "process %d: %s" % (p + 1, "; ".join(c["bad"][:3]))
        seen = {}
        for id, off, size in c["acks"]:
            if id in seen:
                return "block with hint %d acknowledged twice" % id
            seen[id] = (off, size)
            b = t["bufs"][id - 1] if 0 < id <= len(t["bufs"]) else None
            if not b or b["k"] != "region" or b["home"] != p + 1:
                return "made-up acknowledgement with hint %d" % id
            if off != b["blk"] * 8192:
                return "acknowledgement of hint %d for another address (offset %d)" % (id, off)
            if size != b["size"] and not (id in a["shr"] and size <= b["size"]):
                return "acknowledgement of hint %d with size %d instead of %d" % (id, size, b["size"])
            if not b["calls"]:
                return "block with hint %d acknowledged while still in use" % id
        for i, b in enumerate(t["bufs"]):
            if b["home"] != p + 1:
                continue
            if b["k"] == "region" and b["calls"] and settle and i + 1 not in seen:
                return "no acknowledgement for the block with hint %d" % (i + 1)
            if b["k"] == "user":
                n = c["calls"].get(str(i + 1))
                if n is None or n > b["calls"]:
                    return "free function of buffer %d called %s times, %s allowed" % (i + 1, n, b["calls"])
                if n < b["calls"] and (settle and b["st"] != "read" or b["t"] == "shmem"):
                    return "free function of buffer %d not called" % (i + 1)
        if t["stats"]:
            for k, s in t["stats"][p].items():
                if c["stats"][k] != [s["mtx"], s["btx"], s["mrx"], s["brx"]]:
                    return "process %d, %s: statistics %s instead of %s" % (p + 1, k, c["stats"][k], s)
    lo, hi = a["used"]
    if not lo <= o["used"] <= hi:
        return "%d bytes of shared memory in use, expected %d to %d" % (o["used"], lo, hi)
    return None


def run_histories(ctx, plan, what):
    """plan: (transports, mix, number, steps)"""
    exe = ctx.build("messages")["messages"]
    walks, heads = [], []
    for i, (tr, mix, num, steps) in enumerate(plan):
        home = 1 + (i + ctx.seed) % 2
        ws = histories(ctx, tr, mix, home, num, steps, ctx.seed * 100 + i)
        for w in ws:
            kind = ctx.rng.randint(0, 3)
            w = prepare(w, kind)
            walks.append(w)
            addr = ctx.rng.choice(["ipc://@fmqv", "ipc://%s/" % ctx.work])
            heads.append("walk|%d|%s|%s|%d|%d|%s|%d|%d" % (len(heads), tr.replace('"', ""), addr, home, kind, ctx.rng.choice(["rbtree_best_fit"] * 3 + ["simple_seq_fit"]),
                                                          ctx.rng.choice([0, 0, 100, 2048]), ctx.rng.randint(0, 1)))
    replay(ctx, exe, walks, lambda i: heads[i], encode, compare, what=what, timeout=800, procs=8)


def c23(ctx):
    mc(ctx, 2, ZMQ, "2", "0,1", "alloc user", 2, 1, 1, False)
    mc(ctx, 2, SHM, "2", "0,1", "alloc region", 2, 1, 1, False)
    if ctx.thorough:
        mc(ctx, 2, BOTH, "0,2", "0,1", "alloc user", 2, 1, 1, False)
    n = ctx.pick(60, 1200)
    run_histories(ctx, [(SHM, "attr", n * 2, 40), (ZMQ, "attr", n, 40), (BOTH, "attr", n, 50)], "message history")


def storm(ctx, n, transports, threads, rounds):
    """Recorded executions of two processes using messages freely, against MessageStorm_Trace."""
    exe = ctx.build("msgstorm")["msgstorm"]

    def one(k):
        tr = transports[k % len(transports)]
        seed = ctx.seed * 1000 + k
        d = pathlib.Path(tempfile.mkdtemp(prefix="st_", dir=str(ctx.work)))
        kind = k // len(transports) % 8
        rc, out, err = run([exe, str(d), "s%d_%d" % (os.getpid(), seed), str(seed), str(threads), tr, str(rounds), str(kind), str([3, 1000, 20][k % 3])], timeout=150)
        recs = []
        for f in d.glob("log*"):
            for line in f.read_text().splitlines():
                x = line.split(" ", 6)
                recs.append((int(x[0]), dict(e=x[1], s=int(x[2]), t=int(x[3]), b=int(x[4]), g=int(x[5]), what=x[6] if len(x) > 6 else "")))
        ev = [r for _, r in sorted(recs, key=lambda r: r[0])]
        shutil.rmtree(str(d), ignore_errors=True)
        tailev = json_lines(out)
        where = "%s, seed %d, kind %d" % (tr, seed, kind)
        for e in tailev:
            if e["e"] == "bad":
                raise Violation("free use of messages (%s): %s" % (where, e["what"]), ev[-50:])
        if rc != 0 or not tailev:
            raise Violation("free use of messages (%s): the driver ends with %s %s" % (where, rc, tail(err, 400)), ev[-50:])
        for e in ev:
            if e["e"] == "!":
                raise Violation("free use of messages (%s): %s" % (where, e["what"]), ev[-50:])
        ev += [tailev[-1]]
        for e in ev:
            e.pop("what", None)
        ok, m, r = T.validate(ctx, "MessageStorm_Trace", "SPECIFICATION TraceSpec\nCONSTANT Moves = %s\nCONSTRAINT Progress\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\n" % ("TRUE" if tr == "shmem" else "FALSE"), ev, timeout=300)
        if not ok:
            b = ev[m].get("b")
            raise Violation("recorded execution (%s) is not a behaviour of the specification at event %d %s" % (where, m + 1, ev[m]), [e for e in ev[:m + 1] if e.get("b") == b][-200:])
        return len(ev)
    lens = parallel(list(range(n)), one, 3)
    ctx.traces += n
    ctx.log("validated %d concurrent executions of two processes, %d events" % (n, sum(lens)))


def c08(ctx):
    mc(ctx, 2, BOTH, "2", "1", "alloc", 2, 2, 2, True)
    if ctx.thorough:
        mc(ctx, 2, BOTH, "2", "1", "alloc user", 2, 2, 2, True, 2000)
        mc(ctx, 2, SHM, "0,2", "0,1", "alloc region", 2, 2, 2, True, 2000)
    n = ctx.pick(50, 800)
    run_histories(ctx, [(BOTH, "xfer", n, 60), (SHM, "xfer", n, 60), (ZMQ, "xfer", n, 60)], "transfer history")
    storm(ctx, ctx.pick(6, 60), ["zeromq", "shmem"], 3, ctx.pick(300, 600))


def c10(ctx):
    mc(ctx, 2, SHM, "2", "1", "alloc region", 2, 2, 2, True)
    if ctx.thorough:
        mc(ctx, 2, SHM, "2", "1", "alloc region", 3, 2, 2, True, 3000)
    run_histories(ctx, [(SHM, "life", ctx.pick(150, 3000), 60)], "message history")
    storm(ctx, ctx.pick(6, 80), ["shmem"], 3, ctx.pick(300, 600))


def c11(ctx):
    mc(ctx, 2, SHM, "2", "1", "region", 2, 2, 2, True)
    if ctx.thorough:
        mc(ctx, 2, SHM, "2", "1", "alloc region", 3, 2, 2, True, 3000)
    run_histories(ctx, [(SHM, "region", ctx.pick(90, 2000), 60), (ZMQ, "region", ctx.pick(30, 500), 60)], "region history")
    storm(ctx, ctx.pick(6, 80), ["shmem"], 3, ctx.pick(300, 600))
