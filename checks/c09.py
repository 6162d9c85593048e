"""C09: transfers with time limits, interruption and signals, against spec/Transfers.tla."""
from vlib import *
from replay import *
import trace as T

CONNS = {   # name -> (Cap0, Cap, MayFill, [(transport-independent) type, sender binds, address, hwm])
    "in-bound": (0, 2, True, [("push", 1, "inproc://c", 1), ("pair", 1, "inproc://c", 1), ("dealer", 1, "inproc://c", 1)]),
    "in-connected": (1, 2, True, [("push", 0, "inproc://c", 1), ("pair", 0, "inproc://c", 1)]),
    "ipc-bound": (0, 3, False, [("push", 1, "ipc://@fmqvt", 1000), ("pair", 1, "ipc://@fmqvt", 1000)]),
    "ipc-connected": (1, 3, False, [("push", 0, "ipc://@fmqvt", 1)]),
}
DEF = {"0": (0,), "t": (40, 110), "inf": (-1, -2), "l": (60000,)}


def compare(a, t, o):
    if a["op"] == "end":
        if o["err"]:
            return "at the end: " + o["err"]
        return None if not t or o["left"] == t["q"] else "left on the way: %s, specification says %s" % (o["left"], t["q"])
    want = a["res"]
    ok = (o["res"] == want) or (want == "interrupted" and a["lim"] == "0" and o["res"] == "timeout")
    if not ok:
        return "%s is %s, specification says %s" % (a["op"], o["res"], want)
    for w, n in (("s", "blocked send"), ("r", "blocked receive")):
        if o[w] != a[w]:
            return "%s: %s, specification says %s" % (n, o[w] or "still blocked", a[w] or "still blocked")
    return None


def c09(ctx):
    for cap0, cap, slc in ((0, 1, 2), (1, 2, 1)):
        r = ctx.tlc("Transfers", "SPECIFICATION Spec\nCONSTANTS Cap0 = %d\n Cap = %d\n Slice = %d\n Limits = {0,1,3,99}\n MaxMsgs = 3\n MaxOps = %d\nINVARIANTS NothingLostOrInvented NeverEarly NonBlocking\nPROPERTIES EndsWhenItCan FailureHasNoEffect\nCHECK_DEADLOCK FALSE\n" % (cap0, cap, slc, ctx.pick(6, 8)))
        ctx.log("Transfers (room %d/%d, slices of %d): %d distinct states, %.1fs" % (cap0, cap, slc, r.distinct, r.wall))
    exe = ctx.build("transfers")["transfers"]
    cov = tot = 0
    combos = []
    for name in CONNS:
        combos.append((name, "inf", "inf"))
    combos += [("in-bound", "0", "t"), ("in-bound", "t", "0"), ("in-connected", "l", "l"), ("in-connected", "t", "t")]
    graphs = {}

    def mk(c):
        name, ds, dr = c
        cap0, cap, fill, _ = CONNS[name]
        return gen_graph(ctx, "Transfers_Gen", "SPECIFICATION GSpec\nCONSTANTS Cap0 = %d\n Cap = %d\n MayFill = %s\n DefS = \"%s\"\n DefR = \"%s\"\nVIEW GView\nACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n"
                         % (cap0, cap, "TRUE" if fill else "FALSE", ds, dr),
                         {"q": [], "att": False, "intr": False, "cur": "no", "ws": "no", "wr": "no"})
    gs = parallel(combos, mk, 4)
    walks, heads = [], []
    for c, g in zip(combos, gs):
        name, ds, dr = c
        full, cv, tt = g.walks_covering(ctx.rng, maxlen=40)
        ws = full if ctx.tier != "quick" or name == "in-bound" and ds == "inf" else []
        cov += cv if ws else 0
        tot += tt
        ws = ws + g.random_walks(ctx.rng, ctx.pick(24, 200), 30)
        for w in ws:
            for tr in (("zeromq", "shmem") if ctx.tier != "quick" else (("zeromq", "shmem")[len(walks) % 2],)):
                ty, sb, addr, hwm = ctx.rng.choice(CONNS[name][3])
                i = len(walks)
                a = addr + ("" if addr.startswith("inproc") else "%d_%d" % (os.getpid(), i))
                heads.append("walk|%d|%s|%s|%d|%s%d|%d|%d|%d" % (i, tr, ty, sb, a, i, hwm, ctx.rng.choice(DEF[ds]), ctx.rng.choice(DEF[dr])))
                walks.append(w)
    replay(ctx, exe, walks, lambda i: heads[i], lambda a, t: "%s|%s|%s|%d|%s|%s|%s" % (a["op"], a["k"], a["lim"], a["sig"], a["res"], a["s"], a["r"]), compare,
           what="transfer history", procs=24, timeout=800)
    ctx.extra["transition_coverage"] = "%d/%d" % (cov, tot)
    n = ctx.pick(12, 120)
    cfg = "SPECIFICATION TraceSpec\nCONSTRAINT Progress\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\n"

    def one(k):
        big = k % 4 == 3
        why = None
        for attempt in range(2):
            rc, out, err = run([exe, str(ctx.seed * 1000 + k), ("zeromq", "shmem")[k % 2 if not big else 0], "40" if big else "60", "3000" if big else "0"], timeout=200)
            ev = json_lines(out)
            if rc != 0 or not ev or "stuck" in ev[-1]:
                why = ("free-running transfers: driver exit %s %s %s" % (rc, ev[-1:], tail(err, 300)), ev)
                continue
            ok, m, r = T.validate(ctx, "Transfers_Trace", cfg, ev)
            if ok:
                return ev
            why = ("recorded execution is not a behaviour of the specification at event %d %s" % (m + 1, ev[m:m + 1]), ev)
            break
        raise Violation(*why)
    recs = parallel(list(range(n)), one, 4)
    ctx.traces += n
    ctx.samples.append(dict(kind="recorded free-running transfers", steps=recs[0][:10]))
    ctx.log("validated %d free-running executions, %d events" % (n, sum(map(len, recs))))
