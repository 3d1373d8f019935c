#!/usr/bin/env python3
"""mkbug.py SPEC.py [names]: make and confirm seeded bugs.
SPEC.py defines BUGS = [(id, property, [(old, new[, count])], needs, breaks, demo_python_source)].
Each change is applied in a scratch copy of /repo; the stable tests must pass and the demo must
fail with it and pass without it.  Kept under /verif/seeded/<id>/."""
import json, os, subprocess, sys, tempfile, shutil, textwrap
SEED = "/verif/seeded"
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
PRE = ns.get("PRE", "")


def sh(cmd, cwd=None, env=None, timeout=600):
    return subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                          timeout=timeout)


for bug in ns["BUGS"]:
    bid, prop, reps, needs, breaks, demo = bug
    if only and bid not in only:
        continue
    w = tempfile.mkdtemp(prefix="bug_", dir="/tmp")
    repo = os.path.join(w, "repo")
    sh(["cp", "-a", "/repo", repo])
    f = os.path.join(repo, "mpopt/mpopt.py")
    s = open(f).read()
    bad = False
    for r in reps:
        n = r[2] if len(r) > 2 else 1
        if s.count(r[0]) != n:
            print(bid, "pattern count", s.count(r[0]), repr(r[0][:60]))
            bad = True
        s = s.replace(r[0], r[1])
    d = os.path.join(SEED, bid)
    if not bad:
        dd = os.path.join(w, "demo")
        os.makedirs(dd)
        open(os.path.join(dd, "demo.py"), "w").write(PRE + textwrap.dedent(demo))
        open(os.path.join(dd, "demo.sh"), "w").write(
            "#!/bin/bash\n# exit 0 when the property holds\nexport MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1\n"
            "D=$(cd \"$(dirname \"$0\")\" && pwd)\nPYTHONPATH=\"$PWD\" exec /opt/venv/bin/python \"$D/demo.py\"\n")
        os.chmod(os.path.join(dd, "demo.sh"), 0o755)
        r0 = sh(["bash", os.path.join(dd, "demo.sh")], cwd=repo, timeout=300)
        open(f, "w").write(s)
        r1 = sh(["bash", os.path.join(dd, "demo.sh")], cwd=repo, timeout=300)
        t = sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"], cwd=repo,
               env=dict(os.environ, MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=repo)) if not ns.get("NOTEST") else None
        okt = t is None or t.returncode == 0
        diff = sh(["git", "-C", repo, "diff"]).stdout
        ok = r0.returncode == 0 and r1.returncode != 0 and okt
        print(bid, prop, "ok" if ok else "BAD", "demo clean=%d bug=%d tests=%s" % (
            r0.returncode, r1.returncode, okt))
        if r0.returncode != 0:
            print(r0.stdout[-1500:])
        if r1.returncode == 0 or not ok:
            print(r1.stdout[-600:])
            if not okt:
                print(t.stdout[-800:])
        else:
            print("    ", r1.stdout.strip().splitlines()[-1:] )
        if ok:
            shutil.rmtree(d, ignore_errors=True)
            shutil.copytree(dd, d)
            open(os.path.join(d, "patch.diff"), "w").write(diff)
            json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks},
                      open(os.path.join(d, "meta.json"), "w"), indent=1)
    shutil.rmtree(w)
