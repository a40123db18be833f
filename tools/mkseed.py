#!/usr/bin/env python3
"""mkseed.py SPEC.py: SPEC defines seeds = [dict(id, property, file, old, new, needs, breaks, demo (C++ text or None), cxx, sh)];
writes seeded/<id>/{patch.diff,demo.sh,demo.cpp,meta.json} from an edit of /repo (undone straight afterwards)"""
import sys, os, json, subprocess
d = {}; exec(open(sys.argv[1]).read(), d)
for s in d["seeds"]:
    D = "/verif/seeded/" + s["id"]; os.makedirs(D, exist_ok=True)
    edits = s.get("edits") or [(s["file"], s["old"], s["new"])]
    for f, a, b in edits:
        p = "/repo/" + f; t = open(p).read()
        assert t.count(a) == s.get("count", 1), (s["id"], t.count(a))
        open(p, "w").write(t.replace(a, b))
    open(D + "/patch.diff", "w").write(subprocess.check_output(["git", "-C", "/repo", "diff"], text=True))
    subprocess.check_call(["git", "-C", "/repo", "checkout", "-q", "--", "."])
    json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(D + "/meta.json", "w"), indent=1)
    ext = s.get("ext", "cpp")
    open(D + "/demo." + ext, "w").write(s["demo"].lstrip())
    cxx = s.get("cxx", "g++ -std=c++17 -O1 -w")
    open(D + "/demo.sh", "w").write("""#!/bin/bash
# run with cwd = the repository; exit 0 when the property holds
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 0
trap 'rm -rf "$t"' EXIT
%s %s "$here/demo.%s" %s -o "$t/demo" || exit 0
timeout 120 "$t/demo"
""" % (cxx, " ".join("-I\"$PWD/%s\"" % i for i in s["inc"]), ext, s.get("libs", "")))
    print(s["id"])
