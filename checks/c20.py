"""C20: data callbacks, against spec/DataCallbacks.tla."""
from vlib import *
from replay import gen_graph
import trace as T


def c20(ctx):
    for spec, props, n in (("Spec", "INVARIANTS OneAtATime NothingMadeUp NothingAfterFalse", ctx.pick(2, 3)), ("FairSpec", "PROPERTIES EndsAfterFalse", 2), ("Steady", "PROPERTIES AllGiven", ctx.pick(2, 3))):
        r = ctx.tlc("MC_DataCallbacks", 'SPECIFICATION %s\nCONSTANTS Chans = {"a","b","c"}\n Of <- MCOf\n Max = %d\n%s\nCHECK_DEADLOCK FALSE\n' % (spec, n, props), timeout=600, heap="6g")
        ctx.log("DataCallbacks %s: %d distinct states, %.1fs" % (spec, r.distinct, r.wall))
    exe = ctx.build("callbacks")["callbacks"]
    layouts = range(1, 9)
    g = gen_graph(ctx, "DataCallbacks_Gen", "SPECIFICATION GSpec\nCONSTANT Layouts = {%s}\nVIEW GView\nACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n" % ",".join(map(str, layouts)), {"lay": 0, "have": 0, "dead": True})
    full, cov, tot = g.walks_covering(ctx.rng, maxlen=12)
    walks = full if ctx.tier != "quick" else ctx.rng.sample(full, min(len(full), 60))
    walks = walks + g.random_walks(ctx.rng, ctx.pick(40, 800), 14)
    ctx.extra["transition_coverage"] = "%d/%d" % (cov, tot) if ctx.tier != "quick" else "sample"

    def one(k):
        script = "".join("%s|%s|%d\n" % (a["op"], a["how"], a["n"]) for a, t in walks[k])
        for attempt in range(2):
            rc, out, err = run([exe, str(ctx.seed * 10000 + k)], script, timeout=300)
            ev = json_lines(out)
            if rc == 0 and ev and "done" in ev[-1]:
                break
        else:
            raise Violation("a device with data callbacks: driver exit %s %s %s" % (rc, ev[-1:], tail(err, 300)), dict(script=script.splitlines(), events=ev))
        ev = ev[:-1]
        if not ev:
            return []
        ok, m, r = T.validate(ctx, "DataCallbacks_Trace", "SPECIFICATION TraceSpec\nCONSTRAINT Progress\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\n", ev)
        if not ok:
            raise Violation("recorded execution is not a behaviour of the specification at event %d %s" % (m + 1, ev[m:m + 1]), dict(script=script.splitlines(), events=ev))
        return ev
    recs = parallel(list(range(len(walks))), one, 8)
    ctx.traces += len(walks)
    ctx.samples.append(dict(kind="recorded data callbacks", steps=recs[0][:14]))
    ctx.log("validated %d executions, %d events, %d callbacks" % (len(walks), sum(len(r) for r in recs), sum(1 for r in recs for e in r if e["e"] == "cb")))
