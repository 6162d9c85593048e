#!/usr/bin/env python3
"""Builds the conformance drivers of /verif/harness/drivers straight from /repo's working tree.

Usage: fmqbuild.py [--san address|thread] driver...
Every driver links the FairMQ sources it needs, compiled from /repo with the same
defines as FairMQ's own build; FairLogger and PicoSHA2 (not installed here) are
replaced by the small stand-ins in harness/shim.
Ninja tracks header dependencies, so a rebuild after a change in /repo is exact.
"""
import os, subprocess, sys, pathlib

VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path(os.environ.get("FMQ_REPO", "/repo"))
LIB_SRC = """Properties StateMachine TransportFactory ProgOptions Channel Device DeviceRunner EventManager JSONParser
MemoryResources Plugin PluginManager PluginServices States SuboptParser plugins/config/Config
plugins/control/Control shmem/Manager shmem/Monitor shmem/Common tools/Network tools/Process tools/Semaphore tools/Unique""".split()
TRANSPORT = """TransportFactory Channel States MemoryResources shmem/Manager shmem/Monitor shmem/Common
tools/Process tools/Unique tools/Network Properties""".split()
# driver -> FairMQ sources (None: all of them)
LIGHT = {
    "fsm": ["StateMachine", "States"],
    "statequeue": ["States"],
    "semaphore": ["tools/Semaphore"],
    "eventbus": ["EventManager"],
}

CXX = "clang++"
CXXFLAGS = ["-std=c++17", "-O0", "-fPIC", "-pthread", "-w",
            "-DFAIRMQ_HAS_STD_FILESYSTEM=1", "-DFAIRMQ_HAS_STD_PMR=1",
            "-DBOOST_ERROR_CODE_HEADER_ONLY", "-DBOOST_ASIO_HAS_HAS_STD_CHRONO"]
LIBS = "-lboost_program_options -lboost_filesystem -lboost_regex -lboost_date_time -lboost_container -lzmq -ldl -lrt -pthread".split()


def build(drivers, san=None, quiet=True):
    """Returns {driver: executable path}. Raises RuntimeError when something does not compile."""
    flavor = san or "plain"
    bdir = VERIF / "build" / flavor
    bdir.mkdir(parents=True, exist_ok=True)
    flags = list(CXXFLAGS)
    ld = ["-fuse-ld=lld"]
    if san:
        flags += ["-fsanitize=" + san, "-g1", "-fno-omit-frame-pointer"]
        ld += ["-fsanitize=" + san]
    inc = ["-I" + str(REPO), "-I" + str(REPO / "fairmq"), "-I" + str(VERIF / "harness" / "shim"), "-I" + str(VERIF / "harness")]
    out = ["builddir = " + str(bdir),
           "rule cxx\n  command = %s %s %s -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc" % (CXX, " ".join(flags), " ".join(inc)),
           "rule link\n  command = %s %s -rdynamic -o $out $in %s" % (CXX, " ".join(ld), " ".join(LIBS))]
    used = []
    for d in drivers:
        for s in LIGHT.get(d, LIB_SRC):
            if s not in used:
                used.append(s)
    # slow translation units first
    used.sort(key=lambda s: LIB_SRC.index(s))
    for s in used:
        out.append("build %s: cxx %s" % (bdir / "lib" / (s.replace("/", "_") + ".o"), REPO / "fairmq" / (s + ".cxx")))
    exes = {}
    for d in drivers:
        src = VERIF / "harness" / "drivers" / (d + ".cxx")
        obj = bdir / (d + ".o")
        exe = bdir / d
        out.append("build %s: cxx %s" % (obj, src))
        libs = " ".join(str(bdir / "lib" / (s.replace("/", "_") + ".o")) for s in LIGHT.get(d, LIB_SRC))
        out.append("build %s: link %s %s" % (exe, obj, libs))
        exes[d] = str(exe)
    nf = bdir / ("build_%s.ninja" % "_".join(sorted(drivers)))
    text = "\n".join(out) + "\n"
    if not nf.exists() or nf.read_text() != text:
        nf.write_text(text)
    r = subprocess.run(["ninja", "-f", str(nf)] + list(exes.values()), cwd=str(bdir),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise RuntimeError("build failed:\n" + r.stdout[-6000:])
    if not quiet:
        print(r.stdout)
    return exes


if __name__ == "__main__":
    a = sys.argv[1:]
    san = None
    if a and a[0] == "--san":
        san = a[1]
        a = a[2:]
    for k, v in build(a, san, quiet=False).items():
        print(k, v)
