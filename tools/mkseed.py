#!/usr/bin/env python3
"""mkseed.py SPEC.py - helper used to author planted bugs: SPEC defines ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)],
FILES={name: content}, DEMO (demo.sh body).  Writes seeded/ID from a clean /repo."""
import json, os, subprocess, sys, runpy
s = runpy.run_path(sys.argv[1])
assert not subprocess.run(["git", "-C", "/repo", "status", "--porcelain"], capture_output=True, text=True).stdout.strip()
d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded", s["ID"])
os.makedirs(d, exist_ok=True)
for f, old, new in s.get("EDITS", []):
    p = os.path.join("/repo", f); t = open(p).read()
    n = t.count(old)
    if n != 1:
        subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."]); sys.exit("%s: %d matches of %r" % (f, n, old[:80]))
    open(p, "w").write(t.replace(old, new))
for f, anchor, old, new in s.get("AFTER", []):        # the first `old` after the first `anchor`
    p = os.path.join("/repo", f); t = open(p).read(); i = t.index(old, t.index(anchor))
    open(p, "w").write(t[:i] + new + t[i + len(old):])
for f, old, new in s.get("REPLACE_ALL", []):
    p = os.path.join("/repo", f); t = open(p).read(); assert old in t, old
    open(p, "w").write(t.replace(old, new))
open(os.path.join(d, "patch.diff"), "w").write(subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True, text=True).stdout)
subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
for n, c in s.get("FILES", {}).items():
    open(os.path.join(d, n), "w").write(c)
HEAD = """#!/bin/bash
# run with cwd /repo after the build; exit 0 when the property holds, nonzero when it is broken
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 9
trap 'rm -rf "$t"' EXIT
L=$(ls _build/lib/libfaz_ecc_avx2.a) || exit 9
"""
open(os.path.join(d, "demo.sh"), "w").write(HEAD + s["DEMO"])
json.dump({"property": s["PROPERTY"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
