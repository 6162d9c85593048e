"""C03/C04/C05: the life of a device, against spec/DeviceLife.tla."""
from vlib import *
from replay import *
import trace as T

KINDS = ["recv", "recvparts", "send", "sendparts", "wait", "both", "alloc"]


def compare(a, t, o):
    if a["op"] == "end":
        return "at the end: " + o["err"] if o["err"] else None
    if o["err"]:
        return o["err"]
    if o["ann"] != a["ann"]:
        return "announced %s, specification says %s" % (o["ann"], a["ann"])
    must, may, got = list(a["hooks"]), list(a["opt"]), []
    for h in o["hooks"]:
        if h in may and h not in must:
            while may and may.pop(0) != h:
                pass
            if h == "ConditionalRun":
                may.insert(0, h)
        else:
            got.append(h)
    if got != must:
        return "hooks %s, specification says %s%s" % (o["hooks"], a["hooks"], " and perhaps %s" % a["opt"] if a["opt"] else "")
    if o["end"] != a["end"]:
        return "the call running the device %s, specification says %s" % (o["end"] or "goes on", a["end"] or "it goes on")
    if o["cur"] != t["s"]:
        return "state %s, specification says %s" % (o["cur"], t["s"])
    if o["still"] != (t["blk"] != ""):
        return "the hook is %sblocked" % ("" if o["still"] else "not ")
    return None


def model(ctx):
    r = ctx.tlc("DeviceLife", "SPECIFICATION Spec\nCONSTANTS Configs = {0,1}\nINVARIANTS ChannelsInTime Ordered\nPROPERTIES ErrorIsFinal ConfigSticks\nCONSTRAINT Bound\nCHECK_DEADLOCK FALSE\n", timeout=600, heap="8g")
    ctx.log("DeviceLife: %d distinct states, %.1fs" % (r.distinct, r.wall))


def graph(ctx, kinds, faults):
    init = {"s": "IDLE", "conf": 0, "chan": 99, "blk": ""}
    return gen_graph(ctx, "DeviceLife_Gen", "SPECIFICATION GSpec\nCONSTANTS Configs = {0,1,2}\n Kinds = {%s}\n Faults = %s\nVIEW GView\nACTION_CONSTRAINTS Emit\nCHECK_DEADLOCK FALSE\n" %
                     (",".join('"%s"' % k for k in kinds), "TRUE" if faults else "FALSE"), init)


def drive(ctx, g, walks, what, procs=24):
    exe = ctx.build("devlife")["devlife"]
    replay(ctx, exe, walks, lambda i: "walk|%d|%d" % (i, ctx.seed * 100000 + i), lambda a, t: "%s|%s|%s|%d|%s" % (a["op"], a["how"], a["at"], len(a["ann"]), a["end"]),
           compare, what=what, procs=procs, timeout=850)


def free(ctx, n, steps=60):
    exe = ctx.build("devlife")["devlife"]

    def one(k):
        for attempt in range(2):
            rc, out, err = run([exe, str(ctx.seed * 1000 + k), str(steps)], timeout=120)
            ev = json_lines(out)
            if rc == 0 and ev and ev[-1].get("e") == "end":
                break
        else:
            raise Violation("a device under requests from several threads: driver exit %s %s %s" % (rc, ev[-1:], tail(err, 300)), ev)
        ok, m, r = T.validate(ctx, "DeviceLife_Trace", "SPECIFICATION TraceSpec\nCONSTRAINT Progress\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\n", ev)
        if not ok:
            raise Violation("recorded life of a device is not a behaviour of the specification at event %d %s" % (m + 1, ev[m:m + 1]), ev)
        return ev
    recs = parallel(list(range(n)), one, 6)
    ctx.traces += n
    ctx.samples.append(dict(kind="recorded life of a device", steps=recs[0][:12]))
    ctx.log("validated %d free-running devices, %d events" % (n, sum(len(r) for r in recs)))


def c05(ctx):
    model(ctx)
    g = graph(ctx, [], False)
    full, cov, tot = g.walks_covering(ctx.rng, maxlen=30)
    drive(ctx, g, full + g.random_walks(ctx.rng, ctx.pick(800, 8000), 40), "life cycle", 24)
    ctx.extra["transition_coverage"] = "%d/%d" % (cov, tot)
    free(ctx, ctx.pick(16, 200))


def c04(ctx):
    model(ctx)
    g = graph(ctx, KINDS, False)
    full, cov, tot = g.walks_covering(ctx.rng, maxlen=30)
    drive(ctx, g, full + g.random_walks(ctx.rng, ctx.pick(800, 8000), 40), "interrupted life cycle")
    ctx.extra["transition_coverage"] = "%d/%d" % (cov, tot)
    free(ctx, ctx.pick(16, 200))


def c03(ctx):
    model(ctx)
    g = graph(ctx, ctx.pick(["recv", "wait"], KINDS), True)
    full, cov, tot = g.walks_covering(ctx.rng, maxlen=40)
    drive(ctx, g, full + g.random_walks(ctx.rng, ctx.pick(800, 8000), 60), "failing life cycle")
    ctx.extra["transition_coverage"] = "%d/%d" % (cov, tot)
    free(ctx, ctx.pick(16, 200))
