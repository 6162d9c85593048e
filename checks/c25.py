"""C25: semaphores against spec/Semaphore.tla."""
from vlib import *
from replay import *
import trace as T


def compare(a, t, o):
    if o["n"] != a["n"]:
        return "%d waits completed, specification says %d" % (o["n"], a["n"])
    if o["count"] != t["count"]:
        return "the count is %d, specification says %d" % (o["count"], t["count"])
    if o["waiting"] != t["waiting"]:
        return "%d waits are blocked, specification says %d" % (o["waiting"], t["waiting"])
    return None


def c25(ctx):
    for init in (0, 1, 2):
        cfg = "SPECIFICATION Spec\nCONSTANTS Threads = {1,2,3}\n InitCount = %d\n MaxOps = %d\nINVARIANTS NeverTooMany CountIsRight\nPROPERTIES NoLostWakeUp\nCHECK_DEADLOCK FALSE\n" % (init, ctx.pick(6, 9))
        r = ctx.tlc("Semaphore", cfg)
    ctx.log("Semaphore: %d distinct states" % r.distinct)
    exe = ctx.build("semaphore")["semaphore"]
    for init in (0, 2):
        g = gen_graph(ctx, "Semaphore_Gen", "SPECIFICATION GSpec\nCONSTANTS Threads = {1,2,3,4}\n InitCount = %d\n MaxOps = 1\nVIEW GView\nACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n" % init,
                      {"count": init, "waiting": 0})
        walks, cov, tot = g.walks_covering(ctx.rng, maxlen=40)
        walks += g.random_walks(ctx.rng, ctx.pick(60, 800), 60)
        for kind in ("plain", "shared"):
            replay(ctx, [exe, kind], walks, lambda i: "walk|%d|%d" % (i, init), lambda a, t: "%s|%d|%d" % (a["op"], a["n"], a["arg"]), compare, what="semaphore history")
    n = ctx.pick(8, 80)

    def record(k):
        for attempt in range(2):
            rc, out, err = run([exe, ("plain", "shared")[k % 2], str(ctx.seed * 100 + k), str(k % 3), "4", "12"], timeout=60)
            ev = json_lines(out)
            if rc == 0 and ev and "stuck" not in ev[-1]:
                return ev
        raise Violation("free-running waits and signals: %s (rc %s)" % (ev[-1:], rc), ev)
    recs = parallel(list(range(n)), record, 4)

    def check(k):
        cfg = "SPECIFICATION TraceSpec\nCONSTANTS InitCount = %d\nCONSTRAINT Progress\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\n" % (k % 3)
        ok, m, r = T.validate(ctx, "Semaphore_Trace", cfg, recs[k])
        if not ok:
            raise Violation("recorded execution is not a behaviour of the specification at event %d %s" % (m + 1, recs[k][m:m + 1]), recs[k])
    parallel(list(range(n)), check, 6)
    ctx.traces += n
    ctx.log("validated %d concurrent executions" % n)
