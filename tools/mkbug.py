#!/usr/bin/env python3
"""mkbug.py ID PROP FILE: reads from stdin sections separated by lines '====': old text, new text, [more old/new pairs as FILE2 ...], needs, breaks, demo.cpp body"""
import sys, os, json, subprocess, tempfile, shutil
def make(id, prop, edits, needs, breaks, demo):
    d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded", id); os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix="mkbug"); patch = ""
    for f in sorted({e[0] for e in edits}):
        a = os.path.join("/repo", f); s = open(a).read()
        for ff, o, n in edits:
            if ff != f: continue
            assert s.count(o) == 1, (id, f, s.count(o), o)
            s = s.replace(o, n)
        b = os.path.join(w, "x"); open(b, "w").write(s)
        r = subprocess.run(["diff", "-u", "--label", "a/" + f, "--label", "b/" + f, a, b], stdout=subprocess.PIPE, text=True).stdout
        patch += "diff --git a/%s b/%s\n" % (f, f) + r
    shutil.rmtree(w)
    open(d + "/patch.diff", "w").write(patch)
    open(d + "/demo.cpp", "w").write(demo.lstrip("\n"))
    open(d + "/demo.sh", "w").write('''#!/bin/bash
# run with cwd /repo (or a copy): builds the demonstration against this tree's headers in a scratch directory and runs it
h=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d)
g++ -std=c++14 -O0 -w -Iinclude "$h/demo.cpp" src/PerTypeStorage.cpp src/OpaqueTickCounter.cpp src/TimerCalibrator.cpp -o "$t/demo" && timeout 100 "$t/demo"; rc=$?
rm -rf "$t"; exit $rc
''')
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    print("made", id)
