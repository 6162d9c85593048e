"""C12: regions and those who hear of them, against spec/RegionEvents.tla."""
from vlib import *
from replay import *
import trace as T


def compare(a, t, o):
    if a["op"] == "end":
        return "at the end: " + o["err"] if o["err"] else None
    if a["res"] != o["res"]:
        return "%s %s %s: %s, specification says %s" % (a["op"], a["i"], a["how"], o["res"], a["res"])
    for w in "ab":
        want, got = sorted(a[w]), o[w]
        if a["opt"] and not got:
            continue
        if sorted(got) != want:
            return "%s %s %s: %s %s %s, specification says %s" % (a["op"], a["i"], a["how"], w.upper(), "lists" if a["op"] == "list" else "hears", got, want)
        if a["op"] == "quick" and got and got[0][0] != "c":
            return "quick %s: %s hears %s" % (a["i"], w.upper(), got)
    return o["err"] or None


def c12(ctx):
    r = ctx.tlc("RegionEvents", "SPECIFICATION Spec\nCONSTANTS Regions = {r1,r2%s}\n Subs = {s1,s2}\nINVARIANTS HintSound NothingOld NothingInvented\nPROPERTIES Heard AllHeard\nCHECK_DEADLOCK FALSE\n" % ctx.pick("", ",r3"), timeout=800, heap="8g")
    ctx.log("RegionEvents: %d distinct states, %.1fs" % (r.distinct, r.wall))
    exe = ctx.build("regions")["regions"]
    init = {"reg": [], "on": [], "up": True, "segs": [0]}
    gs = parallel([("shmem", "TRUE"), ("zeromq", "FALSE")], lambda c: (c[0], gen_graph(ctx, "RegionEvents_Gen", "SPECIFICATION GSpec\nCONSTANTS Shared = %s\n MaxRegions = %d\nVIEW GView\nACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n" % (c[1], ctx.pick(3, 4)), init)), 2)
    walks, heads, cov, tot = [], [], 0, 0
    for tr, g in gs:
        full, cv, tt = g.walks_covering(ctx.rng, maxlen=25)
        tot += tt
        if ctx.tier != "quick":
            ws = full
            cov += cv
        else:
            ws = ctx.rng.sample(full, min(len(full), 40))
        ws = ws + g.random_walks(ctx.rng, ctx.pick(60, 600), 20)
        for w in ws:
            heads.append("walk|%d|%s" % (len(walks), tr))
            walks.append(w)
    replay(ctx, exe, walks, lambda i: heads[i], lambda a, t: "%s|%s|%s|%d|%d|%d" % (a["op"], a["i"], a["how"], a["r"], len(a["a"]), len(a["b"])), compare,
           what="region history", procs=ctx.pick(32, 48), timeout=850)
    ctx.extra["transition_coverage"] = "%d/%d" % (cov, tot) if cov else "sample of covering walks"
    n = ctx.pick(12, 120)

    def one(k):
        tr = "shmem" if k % 3 else "zeromq"
        for attempt in range(2):
            rc, out, err = run([exe, str(ctx.seed * 1000 + k), tr, "6"], timeout=120)
            ev = json_lines(out)
            if rc == 0 and ev and ev[-1].get("e") == "end":
                break
        else:
            raise Violation("regions created and destroyed freely: driver exit %s %s %s" % (rc, ev[-1:], tail(err, 300)), ev)
        cfg = "SPECIFICATION TraceSpec\nCONSTANT Polling = %s\nCONSTRAINT Progress\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\n" % ("TRUE" if tr == "shmem" else "FALSE")
        ok, m, r = T.validate(ctx, "RegionEvents_Trace", cfg, ev)
        if not ok:
            raise Violation("recorded execution is not a behaviour of the specification at event %d %s" % (m + 1, ev[m:m + 1]), ev)
        return ev
    recs = parallel(list(range(n)), one, 6)
    ctx.traces += n
    ctx.samples.append(dict(kind="recorded regions and subscriptions", steps=recs[0][:12]))
    ctx.log("validated %d free-running executions" % n)
