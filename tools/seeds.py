#!/usr/bin/env python3
"""Applies every planted change of seeded/ to a scratch copy of /repo, runs the check of its property there and writes
a table (id, property, what it needs, detecting scenario). Works in /tmp only; not part of any check."""
import json, os, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
only = sys.argv[1:]
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
W = "/tmp/seeds-%d" % os.getpid(); os.makedirs(W); R = W + "/repo"; C = W + "/verif"
sh("cp -a /repo %s; rm -rf %s/_build; mkdir %s; cd %s && cp -a check.py harnesses.py mc h known_findings.txt tools properties.jsonl %s" % (R, R, C, V, C))
for d in sorted(os.listdir(V + "/seeded")):
    if only and d not in only: continue
    m = json.load(open("%s/seeded/%s/meta.json" % (V, d)))
    if sh("git -C %s apply %s/seeded/%s/patch.diff" % (R, V, d)).returncode: print("| %s | does not apply |" % d); continue
    r = sh("cd %s && VERIF_REPO=%s timeout 900 python3 check.py %s --tier quick" % (C, R, m["property"]))
    x = re.search(r"counterexample in (\S+): (.*)", r.stdout)
    print("| %s | %s | %s | %s | `%s`: %s |" % (d, m["property"], m["needs"], "yes" if r.returncode == 1 and "VIOLATION property=" + m["property"] in r.stdout else "**no** (%d)" % r.returncode, x.group(1) if x else "", (x.group(2) if x else "")[:90].replace("|", "/")), flush=True)
    sh("git -C %s checkout -- ." % R)
shutil.rmtree(W)
