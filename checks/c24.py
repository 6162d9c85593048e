"""C24: state queues against spec/StateQueue.tla."""
from vlib import *
from replay import *
import trace as T

STATES = ["IDLE", "INITIALIZING DEVICE", "INITIALIZED", "BINDING", "BOUND", "CONNECTING", "DEVICE READY", "INITIALIZING TASK",
          "READY", "RUNNING", "RESETTING TASK", "RESETTING DEVICE", "EXITING"]


def compare(a, t, o):
    if a["op"] == "end":
        if t and o["waited"] == 0 and o["left"] != t["q"][:(t["q"].index("ERROR") + 1) if "ERROR" in t["q"] else None]:
            return "left in the queue: %s, specification says %s" % (o["left"], t["q"])
        return None
    if sorted(a["res"]) != sorted(o["res"]):
        return "waits ended with %s, specification says %s" % (o["res"], a["res"])
    if o["waiting"] != t["n"]:
        return "%d waits are blocked, specification says %d" % (o["waiting"], t["n"])
    return None


def c24(ctx):
    for n, q, ops, props in ((2, 2, ctx.pick(4, 5), True), (2, 3, ctx.pick(6, 7), False)):
        cfg = "SPECIFICATION Spec\nCONSTANTS Consumers = {%s}\n MaxQ = %d\n MaxOps = %d\nINVARIANT ExactlyOnceInOrder\n%sCHECK_DEADLOCK FALSE\n" % (
            ",".join(str(i + 1) for i in range(n)), q, ops, "PROPERTIES NoLostWakeUp ErrorReachesAll\n" if props else "")
        r = ctx.tlc("StateQueue", cfg)
        ctx.log("StateQueue (%d consumers, %d operations): %d distinct states, %.1fs" % (n, ops, r.distinct, r.wall))
    exe = ctx.build("statequeue")["statequeue"]
    g = gen_graph(ctx, "StateQueue_Gen", "SPECIFICATION GSpec\nCONSTANTS Consumers = {1}\n MaxQ = 3\n MaxOps = 1\n MaxN = 3\nVIEW GView\nACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n",
                  {"q": [], "flag": False, "wk": {"k": "idle", "s": ""}, "n": 0})
    walks, cov, tot = g.walks_covering(ctx.rng, maxlen=60)
    walks += g.random_walks(ctx.rng, ctx.pick(150, 2500), 40)
    heads = []
    for i in range(len(walks)):
        a, b = ctx.rng.sample(STATES, 2)
        heads.append("walk|%d|%s|%s|%d" % (i, a, b, i % 2))
    replay(ctx, exe, walks, lambda i: heads[i], lambda a, t: "%s|%s|%d|%d" % (a["op"], a["arg"], a["flag"], len(a["res"])), compare, what="queue history", procs=12)
    ctx.extra["transition_coverage"] = "%d/%d" % (cov, tot)
    n = ctx.pick(24, 300)
    cfg = "SPECIFICATION TraceSpec\nCONSTANTS Consumers = {0,1,2,3}\n MaxQ = 100\n MaxOps = 100\nCONSTRAINT Progress\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\n"

    def one(k):
        why = None
        for settle in (25, 150, 1000):
            rc, out, err = run([exe, str(ctx.seed * 1000 + k), str(1 + k % 3), str(2 + k % 3), "6", str(settle)], timeout=120)
            ev = json_lines(out)
            if rc != 0 or not ev or ev[-1].get("e") != "quiet":
                why = ("free-running producers and consumers: driver exit %s %s" % (rc, tail(err, 300)), ev)
                continue
            ok, m, r = T.validate(ctx, "StateQueue_Trace", cfg, ev)
            if ok:
                return ev
            why = ("recorded execution is not a behaviour of the specification at event %d %s" % (m + 1, ev[m:m + 1]), ev)
            if m < len(ev) and ev[m].get("e") != "quiet":
                break       # not a matter of how long to wait
        raise Violation(*why)
    recs = parallel(list(range(n)), one, 8)
    ctx.traces += n
    ctx.samples.append(dict(kind="recorded concurrent execution", steps=recs[0][:10]))
    ctx.log("validated %d concurrent executions" % n)
