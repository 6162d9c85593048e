"""C26: running out of shared memory, against spec/OutOfMemory.tla."""
from vlib import *
from replay import *
import trace as T


def res_ok(want, got):
    if not want.startswith("refused"):
        return got == want
    if not got.startswith("refused:"):
        return False
    n = float(got[8:])      # how many intervals it took
    if want == "refused1":
        return n < 0.5
    if want == "refused3":
        return 1.98 <= n < 2.98
    return True


def compare(a, t, o):
    if a["op"] == "end":
        return "at the end: " + o["err"] if o["err"] else None
    if not res_ok(a["res"], o["res"]):
        return "%s %s: %s, specification says %s" % (a["op"], a["u"], o["res"], a["res"])
    if a["w"] != o["w"]:
        return "the waiting allocation: %s, specification says %s" % (o["w"] or "still waits", a["w"] or "still waits")
    return o["err"] or None


def c26(ctx):
    for pa, pb in ((0, 3), (1, 2)):
        r = ctx.tlc("MC_OutOfMemory", "SPECIFICATION Spec\nCONSTANTS Users = {\"A\",\"B\"}\n Total = 3\n Sizes = {1,2,3,4}\n PA = %d\n PB = %d\n Policy <- MCPolicy\n MaxOps = %d\nINVARIANTS NeverTooMuch ExactlyTheAttempts NeverMore\nPROPERTIES NobodyElseAffected EndsInTheEnd\nCHECK_DEADLOCK FALSE\n" % (pa, pb, ctx.pick(5, 8)))
        ctx.log("OutOfMemory (attempts %d, %d): %d distinct states, %.1fs" % (pa, pb, r.distinct, r.wall))
    exe = ctx.build("outofmem")["outofmem"]
    combos = [("one", "inf"), ("three", "many"), ("inf", "three"), ("many", "one")]
    gs = parallel(combos, lambda c: gen_graph(ctx, "OutOfMemory_Gen", "SPECIFICATION GSpec\nCONSTANTS PA = \"%s\"\n PB = \"%s\"\n K = 4\nVIEW GView\nACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n" % c,
                                          {"s": {"A": 0, "B": 0}, "b": "", "wt": {"u": "", "k": "", "how": ""}, "intr": {"A": False, "B": False}}), 4)
    walks, heads, cov, tot = [], [], 0, 0
    for c, g in zip(combos, gs):
        full, cv, tt = g.walks_covering(ctx.rng, maxlen=40)
        tot += tt
        if ctx.tier != "quick":
            ws = full * 2
            cov += cv
        else:
            ws = ctx.rng.sample(full, min(len(full), 30))
        ws = ws + g.random_walks(ctx.rng, ctx.pick(25, 200), 30)
        for w in ws:
            heads.append("walk|%d|%s|%s|%s|%d" % (len(walks), ctx.rng.choice(("rbtree_best_fit", "simple_seq_fit")), c[0], c[1], ctx.rng.choice((0, 0, 64, 1024, 4096))))
            walks.append(w)
    replay(ctx, exe, walks, lambda i: heads[i], lambda a, t: "%s|%s|%s|%s|%d|%s|%s" % (a["op"], a["u"], a["k"], a["x"], a["at"], a["res"], a["w"]), compare,
           what="allocation history", procs=24, timeout=800)
    ctx.extra["transition_coverage"] = "%d/%d" % (cov, tot) if cov else "sample of covering walks"
    n = ctx.pick(8, 80)
    cfg = "SPECIFICATION TraceSpec\nCONSTANT Total = 2000000\nCONSTRAINT Progress\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\n"

    def one(k):
        for attempt in range(2):
            rc, out, err = run([exe, str(ctx.seed * 1000 + k), str(4 + 2 * (k % 4)), "40"], timeout=120)
            ev = json_lines(out)
            if rc == 0 and ev and ev[-1].get("e") == "end":
                break
        else:
            raise Violation("allocating freely: driver exit %s %s %s" % (rc, ev[-1:], tail(err, 300)), ev)
        ok, m, r = T.validate(ctx, "OutOfMemory_Trace", cfg, ev)
        if not ok:
            raise Violation("recorded execution is not a behaviour of the specification at event %d %s" % (m + 1, ev[m:m + 1]), ev)
        return ev
    recs = parallel(list(range(n)), one, 4)
    ctx.traces += n
    ctx.samples.append(dict(kind="recorded free-running allocations", steps=recs[0][:10]))
    ctx.log("validated %d free-running executions" % n)
