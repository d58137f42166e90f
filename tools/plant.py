#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from a description:

    plant.py ID PROPERTY NEEDS WHAT DEMO.cc "sources" "libs" FILE OLD NEW [FILE OLD NEW ...]

The patch is made in a scratch clone of /repo."""
import json, os, shutil, subprocess, sys, tempfile

DIRS = ("builder", "builder/data", "pre_processors", "common", "registrators", "descriptor", "back_end")
SO = "".join(" -Wl,-rpath,/repo/_build/" + d for d in DIRS) + " -Wl,--unresolved-symbols=ignore-all -Wl,-z,lazy " + \
    " ".join("/repo/_build/%s/libstatic_mapping_%s.so" % (d, {"builder/data": "builder_data", "back_end": "backend"}.get(d, d))
             for d in DIRS) + " /repo/_build/third_parties/libpugixml.a -Wl,--no-as-needed -lgtsam -Wl,--as-needed"


SH = '''#!/bin/bash
set -e
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
g++ -std=gnu++14 -O1 -w -fopenmp -DENABLE_PROFILING -I/repo/third_parties -I/repo -I/repo/builder \\
  -isystem /usr/include/eigen3 -isystem /usr/include/pcl-1.14 -isystem /usr/include/gtsam/3rdparty/Eigen \\
  "$d/demo.cc" %s -o "$t/demo" -Wl,--as-needed %s
cd "$t"
timeout 60 "$t/demo"
'''


def main():
    bid, prop, needs, what, demo, srcs, libs = sys.argv[1:8]
    edits = sys.argv[8:]
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded", bid)
    tmp = tempfile.mkdtemp()
    try:
        r = tmp + "/r"
        subprocess.run(["git", "clone", "-q", "/repo", r], check=True)
        for i in range(0, len(edits), 3):
            p = os.path.join(r, edits[i])
            s = open(p, newline="").read()
            if s.count(edits[i + 1]) != 1:
                sys.exit("%s: text occurs %d times" % (edits[i], s.count(edits[i + 1])))
            open(p, "w", newline="").write(s.replace(edits[i + 1], edits[i + 2]))
        d = subprocess.run(["git", "-C", r, "diff"], check=True, stdout=subprocess.PIPE).stdout
        os.makedirs(out, exist_ok=True)
        open(out + "/patch.diff", "wb").write(d)
        if os.path.abspath(demo) != out + "/demo.cc":
            shutil.copy(demo, out + "/demo.cc")
        open(out + "/demo.sh", "w").write(SH % (" ".join("/repo/" + x for x in srcs.split()), libs.replace("REPO", SO)))
        json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(out + "/meta.json", "w"), indent=1)
    finally:
        shutil.rmtree(tmp)


main()
