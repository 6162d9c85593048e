#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table of checks."""
import json, pathlib, sys
sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent))
from run import MODULES
from notes import TECH, NOTE, NA
V = pathlib.Path(__file__).resolve().parent.parent
props = [json.loads(l)["id"] for l in open(V / "properties.jsonl")]
m = dict(version=1, setup_cmd="mkdir -p build evidence && python3 checks/run.py --setup",
         hooks=dict(guard="none", enable="no hooks: every check drives and observes FairMQ through its public interface", source_commits=[]),
         checks=[dict(property=p, quick_cmd="VERIF_TIER=quick python3 checks/run.py " + p, thorough_cmd="VERIF_TIER=thorough python3 checks/run.py " + p,
                      evidence_file="evidence/%s.json" % p, technique=TECH.get(p, "TLA+ specification model checked with TLC; behaviours of the specification replayed in the real code and recorded executions validated against it"),
                      level="model_checking", level_note=NOTE[p]) for p in props if p in MODULES],
         not_applicable=[dict(property=p, reason=NA.get(p, "no check yet: under construction")) for p in props if p not in MODULES],
         notes="See DESIGN.md. All checks build what they need from /repo's working tree (harness/fmqbuild.py); FairLogger and PicoSHA2 are replaced by stand-ins in harness/shim.")
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
except ImportError:
    pass
