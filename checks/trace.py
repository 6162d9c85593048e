"""Validates traces recorded from the implementation against a trace specification with TLC."""
import json
from vlib import *


def validate(ctx, module, cfg, trace, timeout=200, dfs=False, env=None):
    """trace: list of records. True if the specification has a behaviour matching the whole trace;
    otherwise (False, number of records matched). The trace spec must print 'OUT <n>' records with
    the number of matched records (largest counts)."""
    p = pathlib.Path(tempfile.mkdtemp(prefix="tr_", dir=str(ctx.work))) / "trace.ndjson"
    p.write_text("".join(json.dumps(x) + "\n" for x in trace))
    e = {"TRACE": str(p)}
    e.update(env or {})
    props = ["-Dtlc2.tool.queue.IStateQueue=StateDeque"] if dfs else []
    r = ctx.tlc(module, cfg, workers=1, env=e, expect_ok=False, timeout=timeout, props=props + ["-Xss32m"])
    n = max([x for x in r.prints if isinstance(x, int)], default=0)
    if r.ok:
        return True, len(trace), r
    # the postcondition fails: rejected. Anything else is an error of ours.
    if "TraceAccepted" in r.out or "Postcondition" in r.out or "is violated" in r.out or "PostCondition" in r.out:
        return False, n, r
    raise CheckError("TLC failed on a trace of %s (rc %s):\n%s" % (module, r.rc, "\n".join(x for x in r.out.splitlines() if ("rror" in x or len(x) > 60) and "Parsing" not in x and "Semantic" not in x and ":>" not in x)[:1500]))
