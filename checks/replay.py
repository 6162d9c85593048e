"""Replays behaviours generated from a specification in a driver, comparing what is observed after every step."""
import json
from vlib import *


def gen_graph(ctx, module, cfg, init, timeout=300, heap="4g"):
    r = ctx.tlc(module, cfg, edges=True, timeout=timeout, heap=heap)
    g = Graph(r.edges, init)
    ctx.log("%s: %d states, %d distinct labelled transitions, %d generated, TLC %.1fs" % (module, g.states(), g.nedges, r.generated, r.wall))
    return g


def replay(ctx, exe, walks, header, encode, compare, procs=8, timeout=300, env=None, what="behaviour", sample=None):
    """header(i) -> line starting walk i; encode(label, state) -> op line; compare(label, state, obs) -> None or text.
    A mismatch is reported only if replaying that behaviour alone shows a mismatch again."""
    nw = len(walks)
    if not nw:
        raise CheckError("no behaviours to replay")
    chunks = [list(range(i, nw, procs)) for i in range(min(procs, nw))]

    def script(idx):
        lines = []
        for i in idx:
            lines.append(header(i))
            for a, t in walks[i]:
                lines.append(encode(a, t))
        return "\n".join(lines) + "\n"

    def one(idx, tmo):
        rc, out, err = run([exe] if isinstance(exe, str) else exe, script(idx), timeout=tmo, env=env)
        obs = json_lines(out)
        p = 0
        for i in idx:
            if p >= len(obs) or "walk" not in obs[p]:
                return i, -1, "the driver ended (rc %s) before this behaviour: %s %s" % (rc, tail(err, 500), obs[p:p + 1])
            p += 1
            for n, (a, t) in enumerate(walks[i]):
                if p >= len(obs) or "walk" in obs[p] or "done" in obs[p]:
                    return i, n, "the implementation did not survive this step (driver exit %s) %s" % (rc, tail(err, 700))
                o = obs[p]
                p += 1
                if "stuck" in o:
                    return i, n, "the implementation hangs: " + str(o["stuck"])
                bad = compare(a, t, o)
                if bad:
                    return i, n, "%s; observed %s" % (bad, json.dumps(o))
            if p < len(obs) and "stuck" in obs[p]:
                return i, len(walks[i]), "the implementation hangs at the end: " + str(obs[p]["stuck"])
            if p < len(obs) and "endobs" in obs[p]:
                bad = compare({"op": "end"}, walks[i][-1][1] if walks[i] else {}, obs[p])
                p += 1
                if bad:
                    return i, len(walks[i]), bad
        if not (p < len(obs) and "done" in obs[p]):
            return idx[-1], len(walks[idx[-1]]), "the implementation did not survive the end of this behaviour (driver exit %s) %s" % (rc, tail(err, 700))
        if rc not in (0,):
            return idx[-1], len(walks[idx[-1]]), "driver exit %s after the last behaviour %s" % (rc, tail(err, 700))
        return None

    res = parallel(chunks, lambda c: one(c, timeout), procs)
    for r in res:
        if r is None:
            continue
        i, n, why = r
        confirmed = None
        for attempt in range(3):
            r2 = one([i], timeout)
            if r2 is not None:
                confirmed = r2
                break
        if confirmed is None:
            # not reproducible alone: re-run the chunk it came from
            c = [c for c in chunks if i in c][0]
            r2 = one(c, timeout)
            if r2 is None:
                ctx.log("a mismatch did not repeat (ignored): " + why)
                ctx.extra.setdefault("unrepeated_mismatches", []).append(why[:300])
                continue
            confirmed = r2
        i, n, why = confirmed
        steps = [a for a, t in walks[i][:n + 1]]
        raise Violation("%s not allowed by the specification at step %d (%s): %s" % (what, n, json.dumps(steps[-1] if steps and n >= 0 else "end"), why),
                        dict(steps=steps, expected_state=walks[i][n][1] if 0 <= n < len(walks[i]) else None, mismatch=why, script=script([i]).splitlines()))
    ctx.traces += nw
    nsteps = sum(len(w) for w in walks)
    ctx.extra["replayed_steps"] = ctx.extra.get("replayed_steps", 0) + nsteps
    if walks:
        ctx.samples.append(dict(kind="replayed " + what, steps=[(a.get("op"), a.get("arg", "")) if isinstance(a, dict) else a for a, t in walks[0][:12]]))
    ctx.log("replayed %d %ss, %d steps" % (nw, what, nsteps))
