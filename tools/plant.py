#!/usr/bin/env python3
"""plant.py ID PROPERTY FILE <<json {"old","new","needs","breaks","demo"}: make /verif/seeded/ID, confirm the
demo passes on /repo and fails on a scratch copy with the patch (stable tests: --tests)."""
import sys, json, os, subprocess, shutil, tempfile
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(c, cwd, **k):
    return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, **k)


def make(i, prop, edits, needs, breaks, demo, tests=False):
    d = os.path.join(R, "seeded", i)
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(dir="/tmp")
    sh("cp -a /repo %s/repo" % t, "/")
    w = t + "/repo"
    try:
        for f, a, b in edits:
            p = os.path.join(w, f)
            s = open(p).read()
            assert s.count(a) == 1, (f, a, s.count(a))
            open(p, "w").write(s.replace(a, b))
        open(d + "/patch.diff", "w").write(sh("git diff", w).stdout)
        open(d + "/demo.py", "w").write(demo)
        open(d + "/demo.sh", "w").write('#!/bin/bash\nexec env PYTHONPATH="$PWD" /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(d + "/demo.sh", 0o755)
        json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
        r0 = sh("bash %s/demo.sh" % d, "/repo", timeout=300)
        if any(f.endswith((".cpp", ".hpp", ".pyx")) for f, _, _ in edits):
            b = sh("/opt/venv/bin/python setup.py build_ext --inplace", w)
            print("build", b.returncode, b.stderr[-300:] if b.returncode else "")
        r1 = sh("bash %s/demo.sh" % d, w, timeout=300)
        print(i, "clean", r0.returncode, r0.stderr[-400:] if r0.returncode else "", "patched", r1.returncode, r1.stderr[-200:])
        if tests:
            pass
        return r0.returncode == 0 and r1.returncode != 0
    finally:
        shutil.rmtree(t)
