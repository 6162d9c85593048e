"""C01, C02: the device state machine against spec/DeviceFSM.tla."""
from vlib import *
from replay import *
import trace as T

INIT = {"cur": "IDLE", "pend": "NONE", "w": "start", "ss": [], "ts": []}


def gencfg(subs, tsubs, gates, throws):
    s = lambda x: "{" + ", ".join('"%s"' % i for i in x) + "}"
    return """SPECIFICATION GSpec
CONSTANTS Subs = %s
          TSubs = %s
          MaxLog = 0
          Gates = %s
          Throws = %s
VIEW GView
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
""" % (s(subs), s(tsubs), s(gates), "TRUE" if throws else "FALSE")


def mc(ctx, props, invs, subs, maxlog):
    cfg = """SPECIFICATION Spec
CONSTANTS Subs = {%s}
          TSubs = {}
          MaxLog = %d
CONSTRAINT Bounded
INVARIANTS TypeOK %s
PROPERTIES %s
CHECK_DEADLOCK FALSE
""" % (", ".join('"%s"' % s for s in subs), maxlog, invs, props)
    r = ctx.tlc("DeviceFSM", cfg, workers=8)
    ctx.log("DeviceFSM (%s; %s): %d distinct states, %d generated" % (subs, props, r.distinct, r.generated))


def encode(a, t):
    return "%s|%s|%s|%d" % (a["op"], a["at"], a.get("arg", ""), len(a.get("told", [])))


def cmp_c01(a, t, o):
    if a["op"] == "req" and a["res"] != "any" and o["res"] != a["res"]:
        return "request %s answered %s, specification says %s" % (a["arg"], o["res"], a["res"])
    if o["cur"] != t["cur"]:
        return "the device is in %s, specification says %s" % (o["cur"], t["cur"])
    if t["w"] != "stopped" and t["cur"] not in ("ERROR", "EXITING"):
        if o["pending"] != (t["pend"] != "NONE") or o["pending2"] != o["pending"]:
            return "a request is %s waiting, specification says %s" % ("" if o["pending"] else "not", t["pend"])
    return None


def cmp_c02(a, t, o):
    want = sorted("%s:%s" % (k, a["toldstate"]) for k in a.get("told", []))
    got = sorted(o["told"])
    if a["op"] == "throw":
        # the visit that failed may or may not have been told before the failure
        got = [x for x in got if x.endswith(":ERROR")]
    if got != want:
        return "subscribers told %s, specification says %s" % (got, want)
    if a["op"] == "req" and a["res"] != "any":
        if sorted(o["nt"]) != sorted("%s:%s" % (k, a["arg"]) for k in a["nt"]):
            return "transition subscribers told %s, specification says %s" % (o["nt"], a["nt"])
    elif a["op"] in ("adv", "sub", "unsub", "tsub", "tunsub", "begin") and o["nt"] and t["w"] != "stopped":
        return "transition subscribers told %s without a request" % o["nt"]
    if a["at"] not in ("same", "wait") and o["at"] != a["at"]:
        return "the worker is in phase %s of the visit, specification says %s" % (o["at"], a["at"])
    return None


def concurrent(ctx, exe, n, threads, reqs, subs, cfgname):
    """Free-running threads; the recorded events must be a behaviour of DeviceFSM."""
    def record(k):
        seed = ctx.seed * 1000 + k
        for attempt in range(2):
            rc, out, err = run([exe, "conc", str(seed), str(threads), str(reqs), "1" if subs else "0"], timeout=120)
            ev = json_lines(out)
            if ev and "stuck" not in ev[-1] and rc == 0:
                return ev, None
        return ev, "the state machine hangs or crashes under concurrent requests (rc %s): %s" % (rc, ev[-1:])
    recs = parallel(list(range(n)), record, 4)
    for ev, bad in recs:
        if bad:
            raise Violation(bad, ev)
    cfg = "SPECIFICATION TraceSpec\nCONSTANTS Subs = {\"a\", \"b\"}\n TSubs = {}\n MaxLog = 0\n CheckSubs = %s\n CheckReq = %s\nCHECK_DEADLOCK FALSE\nCONSTRAINT Progress\nPOSTCONDITION TraceAccepted\n" % (
        "TRUE" if subs else "FALSE", "FALSE" if subs else "TRUE")

    def check(ev):
        return T.validate(ctx, "DeviceFSM_Trace", cfg, ev, timeout=300)
    if not subs:
        recs = [([e for e in ev if e["e"] != "told"], b) for ev, b in recs]
    res = parallel([r[0] for r in recs], check, 6)
    for (ok, m, r), (ev, _) in zip(res, recs):
        if not ok:
            ok2, m2, _ = check(ev)
            if ok2:
                raise CheckError("TLC is not deterministic on a trace")
            raise Violation("recorded execution is not a behaviour of the specification: event %d %s" % (m + 1, ev[m:m + 1]),
                            dict(matched=ev[max(0, m - 40):m], rejected=ev[m:m + 1]))
    ctx.traces += n
    ctx.samples.append(dict(kind="validated trace", events=recs[0][0][:14]))
    ctx.log("validated %d concurrent executions, %d events" % (n, sum(len(r[0]) for r in recs)))


def c01(ctx):
    ctx.assumptions += ["the state machine is stepped at the gates inside its user callbacks; the window between acceptance and "
                        "application while the worker is idle is covered by the free-running executions"]
    mc(ctx, "OnlyDocumented ErrorIsFinal CarriedOut ErrorStops", "PendingIsLegal", [], 1)
    exe = ctx.build("fsm")["fsm"]
    g = gen_graph(ctx, "DeviceFSM_Gen", gencfg([], [], ["handle"], True), INIT)
    walks, cov, tot = g.walks_covering(ctx.rng, maxlen=120)
    ctx.extra["edges_covered"] = "%d of %d" % (cov, tot)
    walks += g.random_walks(ctx.rng, ctx.pick(150, 3000), ctx.pick(60, 150))
    replay(ctx, exe, walks, lambda i: "walk|%d|handle" % i, encode, cmp_c01, what="request history")
    concurrent(ctx, exe, ctx.pick(6, 60), 3, ctx.pick(70, 150), False, "c01")


def c02(ctx):
    mc(ctx, "NothingAfterUnsub", "Told TellBeforeWork", ctx.pick(["a"], ["a", "b"]), 3)
    exe = ctx.build("fsm")["fsm"]
    g = gen_graph(ctx, "DeviceFSM_Gen", gencfg(["a", "b"], ["x"], ["prep", "notify", "handle"], True), INIT)
    walks, cov, tot = g.walks_covering(ctx.rng, maxlen=150, limit=ctx.pick(400, None),
                                       select=lambda a: a["op"] != "req" or a["res"] == "true" or ctx.thorough)
    ctx.extra["edges_covered"] = "%d of %d" % (cov, tot)
    # random histories that rather move on than ask for impossible things
    wt = lambda a: {"req": 8 if a.get("res") == "true" else 0.3, "adv": 8, "throw": 0.2}.get(a["op"], 1.5)
    walks += g.random_walks(ctx.rng, ctx.pick(200, 3000), 100, weight=wt)
    replay(ctx, exe, walks, lambda i: "walk|%d|prep,notify,handle" % i, encode, cmp_c02, what="notification history")
    concurrent(ctx, exe, ctx.pick(6, 60), 3, ctx.pick(70, 150), True, "c02")
