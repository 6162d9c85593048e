"""C15 (atomic property store) and C16 (notifications) against spec/Config.tla."""
from vlib import *
from replay import *
import trace as T

NT = 16     # types in the driver
ABSENT = {"t": "none", "v": 0}


def vals(m, k):
    x = m.get(k, ABSENT)
    return "-" if x["t"] == "none" else x["t"] + str(x["v"])


def encode(a, t):
    sub = a["sub"] or ["", ""]
    return "|".join([a["op"], a["key"]] + [vals(a["m"], k) for k in ("k1", "k2", "k3")] + list(sub))


def cmp_store(a, t, o):
    if o["bad"]:
        return o["bad"]
    want = {k: t["store"].get(k, ABSENT) for k in ("k1", "k2", "k3")}
    if o["store"] != want:
        return "the store holds %s, specification says %s" % (o["store"], want)
    if o["exc"] and a["op"] not in ("sub", "unsub"):
        return "throws " + o["exc"]
    if o["ok"] != a["ok"]:
        return "reports %s, specification says %s" % (o["ok"], a["ok"])
    return None


def cmp_told(a, t, o):
    if o["exc"] and not (a["op"] == "unsub" and not a["known"]):
        return "throws " + o["exc"]
    want = []
    for sid, ty, key, v in a["told"]:
        want.append("%s:%s:%s:%s" % (sid, ty, key, o["texts"][2 * (v["t"] == "b") + v["v"]] if ty == "str" else v["v"]))
    if sorted(want) != sorted(o["heard"]):
        return "subscribers heard %s, specification says %s" % (sorted(o["heard"]), sorted(want))
    return None


def model(ctx, keys, extra=""):
    cfg = ('SPECIFICATION Spec\nCONSTANTS Keys = {"k1","k2"}\n Types = {"a","b"}\n Vals = {0}\n Writers = {1,2}\n Subscriptions = {<<"s1","a">>,<<"s2","str">>}\n'
           ' MaxOps = %d\nINVARIANTS TypeOK HeardIsWritten UpdateCreatesNothing UpdateAllOrNothing\nCHECK_DEADLOCK FALSE\n' % keys)
    r = ctx.tlc("MC_Config", cfg.replace('Subscriptions = {<<"s1","a">>,<<"s2","str">>}', 'Subscriptions <- SmallSubs'))
    ctx.log("Config: %d distinct states, %.1fs" % (r.distinct, r.wall))


def traces(ctx, exe, n, what):
    def one(k):
        rc, out, err = run([exe, str(ctx.seed * 10000 + k * 100), "5", str(2 + k % 3), "14"], timeout=120)
        ev = [e for e in json_lines(out) if "e" in e]
        if rc != 0 or not ev:
            raise Violation("free-running use of the property store: driver exit %s %s" % (rc, tail(err, 300)), ev)
        cfg = "SPECIFICATION TraceSpec\nCONSTANTS WithStore = %s\n WithTold = %s\nCONSTRAINT Progress\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\n" % (
            ("TRUE", "FALSE") if what == "store" else ("FALSE", "TRUE"))
        ok, m, r = T.validate(ctx, "Config_Trace", cfg, ev)
        if not ok:
            first = max([i for i in range(m + 1) if i < len(ev) and ev[i]["e"] == "reset"])
            raise Violation("recorded execution is not a behaviour of the specification at event %d %s" % (m + 1 - first, ev[m:m + 1]), ev[first:m + 1])
        return ev
    recs = parallel(list(range(n)), one, 8)
    ctx.traces += 5 * n
    ctx.samples.append(dict(kind="recorded concurrent execution", steps=recs[0][:10]))
    ctx.log("validated %d concurrent executions" % (5 * n))


def c15(ctx):
    model(ctx, 3)
    exe = ctx.build("config")["config"]
    g = gen_graph(ctx, "MC_Config_Gen", 'SPECIFICATION GSpec\nCONSTANTS Keys = {"k1","k2","k3"}\n Types = {"a","b"}\n Vals = {0,1}\n Writers = {}\n Subscriptions <- NoSubs\n MaxOps = 1\n AllMaps = TRUE\nVIEW GView\nACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n',
                  {"store": {k: ABSENT for k in ("k1", "k2", "k3")}, "subs": []})
    if ctx.thorough:
        walks, cov, tot = g.walks_covering(ctx.rng, maxlen=300)
        ctx.extra["transition_coverage"] = "%d/%d" % (cov, tot)
        walks += g.random_walks(ctx.rng, 1500, 80)
    else:
        # all single-property operations in all states, multi-property operations by chance
        walks, cov, tot = g.walks_covering(ctx.rng, maxlen=300, select=lambda a: a["op"] in ("set", "update", "del"))
        walks += g.random_walks(ctx.rng, 200, 50, weight=lambda a: {"set": 5, "update": 5, "del": 20, "setm": 1, "updatem": 2}[a["op"]])
    heads = ["walk|%d|%d|%d|%d" % ((i,) + tuple(ctx.rng.sample(range(NT), 2)) + (i % 3,)) for i in range(len(walks))]
    replay(ctx, exe, walks, lambda i: heads[i], encode, cmp_store, what="store history", timeout=600)
    traces(ctx, exe, ctx.pick(10, 120), "store")


def c16(ctx):
    model(ctx, ctx.pick(3, 4))
    exe = ctx.build("config")["config"]
    g = gen_graph(ctx, "MC_Config_Gen", 'SPECIFICATION GSpec\nCONSTANTS Keys = {"k1","k2"}\n Types = {"a","b"}\n Vals = {0,1}\n Writers = {}\n Subscriptions <- SomeSubs\n MaxOps = 1\n AllMaps = TRUE\nVIEW GView\nACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n',
                  {"store": {k: ABSENT for k in ("k1", "k2")}, "subs": []})
    if ctx.thorough:
        walks, cov, tot = g.walks_covering(ctx.rng, maxlen=300)
        ctx.extra["transition_coverage"] = "%d/%d" % (cov, tot)
    else:
        walks = []
    walks += g.random_walks(ctx.rng, ctx.pick(400, 1000), 60, weight=lambda a: {"set": 5, "update": 5, "del": 12, "setm": 2, "updatem": 3, "sub": 6, "unsub": 4}[a["op"]])
    heads = ["walk|%d|%d|%d|%d" % ((i,) + tuple(ctx.rng.sample(range(NT), 2)) + (i % 3,)) for i in range(len(walks))]
    replay(ctx, exe, walks, lambda i: heads[i], encode, cmp_told, what="notification history", timeout=600, env={"CONFIG_QUIET": "1"})
    traces(ctx, exe, ctx.pick(10, 120), "told")
