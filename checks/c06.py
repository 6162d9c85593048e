"""C06: the control role of plugin services against spec/DeviceControl.tla."""
from vlib import *
from replay import *
import trace as T


def compare(a, t, o):
    if a["op"] == "end":
        return None
    if o["res"] != a["res"]:
        return "%s by %s: %s, specification says %s" % (a["op"], a["who"], o["res"], a["res"])
    if o["ctrl"] != t["ctrl"]:
        return "%s is in control, specification says %s" % (o["ctrl"], t["ctrl"])
    if o["dev"] != t["dev"]:
        return "the device is in %s, specification says %s" % (o["dev"], t["dev"])
    # RESET DEVICE is followed by the automatic transition out of the resetting state
    want = 0 if a["op"] != "change" or a["res"] != "ok" else 2 if a["tr"] == "RESET DEVICE" else 1
    if o["passed"] != want:
        return "%d requests were passed to the device, specification says %d" % (o["passed"], want)
    if o["freed"] != a["freed"]:
        return "%d waits for the release returned, specification says %d" % (o["freed"], a["freed"])
    if o["blocked"] != t["blocked"]:
        return "%d waits for the release are blocked, specification says %d" % (o["blocked"], t["blocked"])
    return None


def c06(ctx):
    r = ctx.tlc("DeviceControl", 'SPECIFICATION Spec\nCONSTANTS Clients = {"p","q"%s}\n Waiters = {1,2%s}\nINVARIANTS TypeOK NoMissedRelease\nPROPERTIES OnlyController NoQuietTakeover\nCHECK_DEADLOCK FALSE\n' % (ctx.pick("", ',"r"'), ctx.pick("", ",3")))
    ctx.log("DeviceControl: %d distinct states" % r.distinct)
    exe = ctx.build("control")["control"]
    g = gen_graph(ctx, "DeviceControl_Gen", 'SPECIFICATION GSpec\nCONSTANTS Clients = {"p","q"}\n Waiters = {}\n MaxWaiting = 3\nVIEW GView\nACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n',
                  {"ctrl": "none", "dev": "IDLE", "blocked": 0})
    walks, cov, tot = g.walks_covering(ctx.rng, maxlen=60)
    ctx.extra["transition_coverage"] = "%d/%d" % (cov, tot)
    walks += g.random_walks(ctx.rng, ctx.pick(60, 1500), 60, weight=lambda a: {"wait": 8, "release": 3, "change": 2, "take": 1, "steal": 1}[a["op"]])
    replay(ctx, exe, walks, lambda i: "walk|%d" % i, lambda a, t: "|".join([a["op"], a["who"], a["tr"], t["dev"], str(a["freed"])]), compare, what="control history", timeout=600)

    def one(k):
        rc, out, err = run([exe, str(ctx.seed * 1000 + k), "6", str(2 + k % 3), str(1 + k % 3), "12"], timeout=200)
        ev = json_lines(out)
        if rc != 0 or not ev or "stuck" in ev[-1]:
            raise Violation("free-running clients: %s (driver exit %s) %s" % (ev[-1:], rc, tail(err, 300)), ev)
        cfg = "SPECIFICATION TraceSpec\nCONSTRAINT Progress\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\n"
        ok, m, r = T.validate(ctx, "DeviceControl_Trace", cfg, ev)
        if not ok:
            first = max([i for i in range(m + 1) if i < len(ev) and ev[i]["e"] == "reset"])
            raise Violation("recorded execution is not a behaviour of the specification at event %d %s" % (m + 1 - first, ev[m:m + 1]), ev[first:m + 1])
        return ev
    n = ctx.pick(12, 150)
    recs = parallel(list(range(n)), one, 8)
    ctx.traces += 6 * n
    ctx.samples.append(dict(kind="recorded concurrent execution", steps=recs[0][:10]))
    ctx.log("validated %d concurrent executions" % (6 * n))
