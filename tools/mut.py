#!/usr/bin/env python3
"""mutation test of one check on a scratch copy: mut.py ID SPEC.py  (SPEC: muts=[(file, old, new, unit-rx or None)])"""
import sys, os, subprocess, shutil, runpy, tempfile
pid, spec = sys.argv[1], sys.argv[2]
muts = runpy.run_path(spec)["muts"]
d = tempfile.mkdtemp(prefix="mut_", dir="/tmp"); r = d + "/repo"
shutil.copytree("/repo", r, symlinks=True, ignore=shutil.ignore_patterns("_build", ".git", "build"))
try:
    for k, (f, old, new, rx) in enumerate(muts):
        p = os.path.join(r, f); s = open(p).read()
        if s.count(old) != 1: print(k, "SPEC: %d matches for %r" % (s.count(old), old[:60])); continue
        open(p, "w").write(s.replace(old, new))
        a = ["python3", "/verif/tools/vp.py", "check", pid, "-j", os.environ.get("J", "6")] + (["--unit", rx] if rx else [])
        o = subprocess.run(a, capture_output=True, text=True, env=dict(os.environ, VP_REPO=r)).stdout
        v = [l.split("replay=")[1].split("/")[-1] for l in o.splitlines() if l.startswith("VIOLATION")]
        print(k, "CAUGHT" if v else "MISSED", old[:50].replace("\n", " "), "->", new[:50].replace("\n", " "), v[:4], flush=True)
        open(p, "w").write(s)
finally:
    shutil.rmtree(d)
