"""C17: the meaning of channel configurations, against spec/ChannelConfig.tla."""
import json
from vlib import *
from replay import *

FIELDS = ["type", "method", "address", "transport", "sndBufSize", "rcvBufSize", "sndKernelSize", "rcvKernelSize", "sndTimeoutMs", "rcvTimeoutMs",
          "linger", "rateLogging", "portRangeMin", "portRangeMax", "autoBind"]
DEFAULT = dict(zip(FIELDS, ["unspecified", "unspecified", "unspecified", "default", "1000", "1000", "0", "0", "-1", "-1", "500", "1", "22000", "23000", "true"]))
NAMES = {"A": ["data", "out-put", "a"], "B": ["data2", "B_1", "ab"], "C": ["ctrl", "Data", "#c"]}
SEP = "\x1f"


def concrete(rng):
    """Values standing for x and y in one behaviour."""
    m = {}
    ints = ["0", "-1", "1", "1000", "500", "22000", "2147483647", "-2147483648", "7", "64", "12345", "23000"]
    for f in FIELDS[4:14]:
        m[f] = dict(zip("xy", rng.sample([i for i in ints if i != DEFAULT[f]], 2)))
    m["type"] = dict(zip("xy", rng.sample(["push", "pull", "pub", "sub", "req", "rep", "pair", "dealer"], 2)))
    m["method"] = dict(zip("xy", rng.sample(["bind", "connect"], 2)))
    m["address"] = dict(zip("xy", rng.sample(["tcp://*:1", "tcp://localhost:5555", "ipc://some.where", "inproc://x", "@tcp://127.0.0.1:12345", ">ipc://a;@ipc://b", "tcp://[::1]:5"], 2)))
    m["transport"] = dict(zip("xy", rng.sample(["zeromq", "shmem"], 2)))
    m["autoBind"] = dict(zip("xy", rng.sample(["true", "false"], 2)))
    return m


class Names:
    def __init__(self, rng):
        self.n = {k: rng.choice(v) for k, v in NAMES.items()}
        self.v = concrete(rng)

    def val(self, f, t):
        return None if t == "unset" else DEFAULT[f] if t == "dflt" else self.v[f][t]


def jfields(nm, s, rng, pfx):
    r = []
    for f in FIELDS:
        v = nm.val(f, s[f])
        if v is None:
            continue
        if f in FIELDS[:4] or rng.random() < 0.3:
            r.append('%s: %s' % (json.dumps(f), json.dumps(v)))
        else:
            r.append('%s: %s' % (json.dumps(f), v))
    rng.shuffle(r)
    return r


def jchan(nm, c, rng, name=True):
    r = jfields(nm, c["common"], rng, "")
    if name:
        r.append('"name": %s' % json.dumps(nm.n[c["name"]]))
    if c["num"]:
        r.append('"numSockets": %d' % c["num"])
    if c["socks"]:
        socks = []
        for s in c["socks"]:
            x = jfields(nm, s, rng, "")
            if rng.random() < 0.2 or not x:
                x.append('"comment": "nothing"')
            socks.append("{" + ", ".join(x) + "}")
        r.append('"sockets": [%s]' % ",\n ".join(socks))
    if rng.random() < 0.2:
        r.append('"unknown": 5')
    rng.shuffle(r)
    return "{" + ",\n".join(r) + "}"


def jdoc(nm, doc, rng, nameless=None):
    devs = []
    for d in doc:
        x = ['"id": "other", "key": "%s"' % d["id"] if d["key"] else '"id": "%s"' % d["id"]]
        cs = [jchan(nm, c, rng) for c in d["chans"]]
        if nameless == d["id"]:
            cs.insert(rng.randint(0, len(cs)), jchan(nm, dict(name="A", common=dict.fromkeys(FIELDS, "x"), num=0, socks=[]), rng, name=False))
        if cs or rng.random() < 0.5:
            x.append('"channels": [%s]' % ",\n".join(cs))
        rng.shuffle(x)
        devs.append("{" + ",\n".join(x) + "}")
    return '{"fairMQOptions": {"devices": [%s]}}' % ",\n".join(devs)


def carg(nm, c, rng, name=True):
    r = ["%s=%s" % (f, nm.val(f, c["common"][f])) for f in FIELDS if nm.val(f, c["common"][f]) is not None]
    if c["num"]:
        r.append("numSockets=%d" % c["num"])
    rng.shuffle(r)
    pos = 0
    for s in c["socks"]:     # the order of the addresses matters
        pos = rng.randint(pos, len(r))
        r.insert(pos, "address=" + nm.val("address", s["address"]))
        pos += 1
    if not name:
        return ",".join(r or ["type=push"])
    if rng.random() < 0.4:
        return nm.n[c["name"]] + ":" + ",".join(r)
    r.insert(rng.randint(0, len(r)), "name=" + nm.n[c["name"]])
    return ",".join(r)


def encode(nm, a, rng, path):
    op = a["op"]
    if op == "prop":
        f = a["field"]
        k = "chans.%s.%d.%s" % (nm.n[a["name"]], a["idx"] - 1, f)
        return SEP.join(["prop", k, "s" if f in FIELDS[:4] else "b" if f == "autoBind" else "i", nm.val(f, a["val"])])
    if op == "object":
        return SEP.join(["object", nm.n[a["name"]], str(rng.randint(0, 29))] + [nm.val(f, a["settings"][f]) or "\x02" for f in FIELDS])
    if op == "device":
        return "device"
    way = rng.choice(["set", "set", "set", "plugin"])
    if op in ("json", "badjson"):
        id, kind = a["id"], a.get("kind", -1)
        text = jdoc(nm, a["doc"], rng, nameless=a["id"] if kind in (3, 4) else None)
        if kind == 0:
            text = text[:rng.randint(1, len(text) - 1)]
        elif kind == 1:
            id = ""
        elif kind == 2:
            text = text.replace("fairMQOptions", "fairMqOptions")
        elif kind in (3, 4) and not any(d["id"] == a["id"] for d in a["doc"]):
            text = text[:-1]
        p = path
        if kind == 5:
            p += ".missing"
        else:
            pathlib.Path(p).write_text(text)
        return SEP.join(["json", id, way if id else "set", p])
    chans = a["doc"][0]["chans"]
    args = [carg(nm, c, rng) for c in chans]
    id, kind = a["id"], a.get("kind", -1)
    if op == "badcmd":
        if kind == 0:
            id = ""
        elif kind == 1:
            args.insert(rng.randint(0, len(args)), "type=push,name,method=bind")
        elif kind == 2:
            args.insert(rng.randint(0, len(args)), "name=%s,type=push,address" % nm.n["A"])
        else:
            args.insert(rng.randint(0, len(args)), carg(nm, dict(name="A", common=dict.fromkeys(FIELDS, "y"), num=0, socks=[]), rng, name=False))
    return SEP.join(["cmd", id, way if id else "set"] + args)


def expected(nm, conf):
    props, chans = {}, {}
    for n, subs in conf.items():
        for i, s in enumerate(subs):
            for f in FIELDS:
                v = nm.val(f, s[f])
                if v is not None:
                    props["chans.%s.%d.%s" % (nm.n[n], i, f)] = ("" if f in FIELDS[:4] else "b:" if f == "autoBind" else "i:") + v
            chans.setdefault(nm.n[n], []).append([nm.val(f, s[f]) or DEFAULT[f] for f in FIELDS])
    return props, chans


def compare(nm, a, t, o):
    props, chans = expected(nm, t)
    bad_op = a["op"].startswith("bad")
    if o["bad"]:
        return o["bad"]
    if o["props"] != props:
        d = {k: (props.get(k), o["props"].get(k)) for k in set(props) | set(o["props"]) if props.get(k) != o["props"].get(k)}
        return "the configuration differs from the description (described, found): %s" % dict(list(d.items())[:6])
    if o["info"] != {k: len(v) for k, v in chans.items()}:
        return "channel info %s, described %s" % (o["info"], {k: len(v) for k, v in chans.items()})
    if o["chans"] != chans:
        return "channels differ from the description"
    if "state" in o and a["op"] in ("json", "cmd", "device"):
        # a sub-channel without method cannot be set up, unless its address has the method in it
        ok = all(c[1] in ("bind", "connect") or any(x in c[2] for x in "@+>") for l in chans.values() for c in l)
        want = "INITIALIZED" if ok else "ERROR"
        if o["state"] != want:
            return "a device with this configuration reaches %s instead of %s" % (o["state"], want)
        if ok and a["op"] == "device":
            dev = json.loads(json.dumps(o["dev"]))
            want = json.loads(json.dumps(chans))
            for l in list(want.values()):
                for c in l:
                    if c[3] == "default":
                        c[3] = "zeromq"
            for n in set(dev) & set(want):
                for i in range(min(len(dev[n]), len(want[n]))):
                    if want[n][i][1] == "bind" and want[n][i][2] == "unspecified":
                        want[n][i][2] = dev[n][i][2] = "(found out)"
            if dev != want:
                return "the channels of the initialised device differ from the description: %s instead of %s" % (dev, want)
    if "state" not in o:
        if bad_op and not o["exc"]:
            return "a malformed description is accepted"
        if not bad_op and o["exc"]:
            return "throws " + o["exc"]
    return None


def c17(ctx):
    r = ctx.tlc("MC_ChannelConfig", "SPECIFICATION MSpec\nCONSTANTS Fields = {\"type\",\"linger\"}\n Vals = {%s}\n Names = {\"A\",\"B\"}\n Ids = {\"d1\",\"d2\"}\n MaxSocks = 1\n"
                "INVARIANTS RightChannels Precedence SourcesAgree Idempotent\nCHECK_DEADLOCK FALSE\n" % ('"x"'), timeout=800)
    ctx.log("ChannelConfig: %d documents, %.1fs" % (r.distinct, r.wall))
    exe = ctx.build("chanconf")["chanconf"]
    n, steps = ctx.pick(500, 4000), 14
    r = ctx.tlc("ChannelConfig_Gen", "SPECIFICATION GSpec\nCONSTANTS Fields = {%s}\n Vals = {\"x\",\"y\"}\n Names = {\"A\",\"B\",\"C\"}\n Ids = {\"d1\",\"d2\"}\n MaxSocks = 3\n Steps = %d\nACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n" % (
        ",".join('"%s"' % f for f in FIELDS), steps), edges=True, extra=["-simulate", "num=%d" % n, "-depth", str(steps + 2), "-seed", str(ctx.seed)], timeout=600)
    walks, cur = [], None
    for e in r.edges:
        if e["n"] == 1:
            cur = []
            walks.append(cur)
        cur.append((e["a"], e["t"]))
    ctx.log("%d histories of %d documents, properties and objects" % (len(walks), steps))
    names = [Names(ctx.rng) for w in walks]
    lines, ws, nm = {}, [], {}
    for i, w in enumerate(walks):
        out = []
        for k, (a, t) in enumerate(w):
            out.append((a, t))
            if k in (4, 9, 13):
                out.append(({"op": "device"}, t))
        ws.append(out)
        for k, (a, t) in enumerate(out):
            lines[id(out[k])] = encode(names[i], a, ctx.rng, str(ctx.work / ("d%d_%d.json" % (i, k))))
            nm[id(out[k])] = names[i]
    # encode and compare are called with the parts of the very tuples above
    line = {id(a): lines[id(p)] for w in ws for p in w for a in [p[0]]}
    nms = {id(a): nm[id(p)] for w in ws for p in w for a in [p[0]]}
    replay(ctx, exe, ws, lambda i: "walk" + SEP + str(i), lambda a, t: line[id(a)], lambda a, t, o: compare(nms[id(a)], a, t, o), what="configuration history", timeout=600)
