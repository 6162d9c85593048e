#!/usr/bin/env python3
"""Keeps a planted change: newseed.py ID PROPERTY WORKTREE DEMO.cxx 'sources' 'needs' 'what it breaks'
Writes /verif/seeded/ID from the difference of WORKTREE to its HEAD. sources: FairMQ sources without .cxx, or ALL."""
import json, pathlib, shutil, subprocess, sys
V = pathlib.Path(__file__).resolve().parent.parent
sid, prop, wt, demo, srcs, needs, breaks = sys.argv[1:8]
d = V / "seeded" / sid
d.mkdir(parents=True, exist_ok=True)
diff = subprocess.run(["git", "-C", wt, "diff"], stdout=subprocess.PIPE, text=True, check=True).stdout
assert diff.strip()
(d / "patch.diff").write_text(diff)
if pathlib.Path(demo).resolve() != (d / "demo.cxx").resolve():
    shutil.copy(demo, d / "demo.cxx")
if (d / "shim").exists():
    shutil.rmtree(str(d / "shim"))
shutil.copytree(V / "harness" / "shim", d / "shim")
sys.path.insert(0, str(V / "harness"))
import fmqbuild
lst = " ".join(fmqbuild.LIB_SRC if srcs == "ALL" else srcs.split())
(d / "demo.sh").write_text("""#!/bin/bash
# exit 0: the property held in this scenario. Runs in the root of the FairMQ sources.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
SRCS="%s"
FLAGS="-std=c++17 -O0 -pthread -w -DFAIRMQ_HAS_STD_FILESYSTEM=1 -DFAIRMQ_HAS_STD_PMR=1 -DBOOST_ERROR_CODE_HEADER_ONLY -DBOOST_ASIO_HAS_HAS_STD_CHRONO -I$PWD -I$PWD/fairmq -I$here/shim"
export FLAGS tmp
{ for s in $SRCS; do echo "$PWD/fairmq/$s.cxx $tmp/$(echo $s | tr / _).o"; done; echo "$here/demo.cxx $tmp/demo.o"; } |
  xargs -P 8 -L 1 sh -c 'clang++ $FLAGS -c $0 -o $1' || exit 3
clang++ -fuse-ld=lld -rdynamic -o "$tmp/demo" "$tmp"/*.o -lboost_program_options -lboost_filesystem -lboost_regex -lboost_date_time -lboost_container -lzmq -ldl -lrt -pthread || exit 3
cd "$tmp" && timeout 100 ./demo
""" % lst)
(d / "demo.sh").chmod(0o755)
(d / "meta.json").write_text(json.dumps({"property": prop, "needs": needs, "what_it_breaks": breaks}, indent=1) + "\n")
print("kept", d)
