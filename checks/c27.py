"""C27: the event manager against spec/EventBus.tla."""
from vlib import *
from replay import *
import trace as T


def compare(a, t, o):
    if o["bad"]:
        return o["bad"]
    if o["exc"] and not (a["op"] == "unsub" and not a["known"]):
        return "throws " + o["exc"]
    want = sorted([x["s"], x["c"], x["g"]] for x in a["calls"] for _ in range(x["n"]))
    if sorted(o["calls"]) != want:
        return "callbacks called [subscriber, channel, generation]: %s, specification says %s" % (sorted(o["calls"]), want)
    return None


def c27(ctx):
    cfg = "SPECIFICATION Spec\nCONSTANTS Subs = {1,2}\n Chans = {1,2}\n Emitters = {1,2}\n MaxTag = 3\n MaxEm = %d\nINVARIANTS NoDuplicateCall Reaches OneTagOneKey\nCHECK_DEADLOCK FALSE\n" % ctx.pick(3, 4)
    r = ctx.tlc("EventBus", cfg)
    ctx.log("EventBus: %d distinct states" % r.distinct)
    exe = ctx.build("eventbus")["eventbus"]
    none = {"m": "none", "g": 0}
    g = gen_graph(ctx, "EventBus_Gen", 'SPECIFICATION GSpec\nCONSTANTS Subs = {1,2}\n Modes1 = {"plain","once","relay"}\n Modes2 = {"plain","once"}\nVIEW GView\nACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n',
                  [[none, none], [none, none]])
    walks, cov, tot = g.walks_covering(ctx.rng, maxlen=200)
    walks += g.random_walks(ctx.rng, ctx.pick(400, 6000), 60)
    pairs = [(a, b) for a in range(8) for b in range(8) if a != b]
    ctx.rng.shuffle(pairs)
    replay(ctx, exe, walks, lambda i: "walk|%d|%d|%d" % ((i,) + pairs[i % len(pairs)]),
           lambda a, t: "%s|%d|%d|%s|%d" % (a["op"], a["s"], a["c"], a["m"], a["g"]), compare, what="subscription history")
    ctx.extra["transition_coverage"] = "%d/%d" % (cov, tot)
    n = ctx.pick(24, 300)

    def one(k):
        rc, out, err = run([exe, str(ctx.seed * 1000 + k), "3", "12"], timeout=60)
        ev = json_lines(out)
        if rc != 0 or not ev:
            raise Violation("free-running use of the event manager: driver exit %s %s" % (rc, tail(err, 300)), ev)
        if ev[-1].get("e") == "bad":
            raise Violation(ev[-1]["what"], ev)
        tags = max([e.get("t", 0) for e in ev] + [1])
        cfg = "SPECIFICATION TraceSpec\nCONSTANTS Subs = {1,2}\n Chans = {1,2}\n Emitters = {0,1,2}\n MaxTag = %d\n MaxEm = 1000\nCONSTRAINT Progress\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\n" % tags
        ok, m, r = T.validate(ctx, "EventBus_Trace", cfg, ev)
        if not ok:
            raise Violation("recorded execution is not a behaviour of the specification at event %d %s" % (m + 1, ev[m:m + 1]), ev)
        return ev
    recs = parallel(list(range(n)), one, 8)
    ctx.traces += n
    ctx.samples.append(dict(kind="recorded concurrent execution", steps=recs[0][:10]))
    ctx.log("validated %d concurrent executions" % n)
