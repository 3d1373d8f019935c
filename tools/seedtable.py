#!/usr/bin/env python3
"""seedtable.py [ids]: apply each planted change to a scratch copy and run the checks of its property (VERIF_REPO)"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for b in sorted(sys.argv[1:] or os.listdir(V + "/seeded")):
    d = os.path.join(V, "seeded", b)
    m = json.load(open(d + "/meta.json"))
    t = tempfile.mkdtemp()
    os.makedirs(t + "/mpopt")
    shutil.copy("/repo/mpopt/mpopt.py", t + "/mpopt/mpopt.py")
    subprocess.run(["git", "init", "-q", t], check=True)
    r = subprocess.run(["git", "-C", t, "apply", d + "/patch.diff"])
    if r.returncode:
        print(b, "patch does not apply")
        continue
    r = subprocess.run([sys.executable, V + "/check.py", m["property"]], env=dict(os.environ, VERIF_REPO=t),
                       stdout=subprocess.PIPE, text=True)
    first = [x for x in r.stdout.splitlines() if x.startswith("  ")][:1]
    print("| %s | %s | %s | %s | %s |" % (b, m["property"], m["what_it_breaks"], m["needs"],
                                       {1: "caught: " + (first or [""])[0].strip().split(":")[0], 0: "missed"}.get(
                                           r.returncode, "error")), flush=True)
    shutil.rmtree(t)
