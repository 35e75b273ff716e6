#!/usr/bin/env python3
"""Development helper for planted bugs (no check uses it).
  seed.py new FILE     FILE: python, SEEDS = [dict(id, property, needs, breaks, edits=[(file, old, new)], demo=python text)]
  seed.py try ID [CHECK ...]             scratch copy: patch, build, stable tests, demo, then the named checks (default: its property)
"""
import json, os, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                          errors="replace", **kw)


def new(sid, prop, needs, breaks, edits):
    d = os.path.join(HERE, "seeded", sid)
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix="seedw.")
    try:
        sh("git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q && git add -A && git -c user.name=x -c user.email=x commit -qm x" % (w, w))
        for f, old, nw in edits:
            p = os.path.join(w, f)
            s = open(p).read()
            assert s.count(old) == 1, "%s: %d occurrences of %r" % (f, s.count(old), old)
            open(p, "w").write(s.replace(old, nw))
        open(os.path.join(d, "patch.diff"), "w").write(sh("git -C %s diff" % w).stdout)
    finally:
        shutil.rmtree(w)
    shutil.copy(os.path.join(HERE, "tools", "demolib.py"), d)
    open(d + "/demo.sh", "w").write('#!/bin/bash\nexec python3 "$(dirname "$0")/demo.py"\n')
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)


def orig_lines(sid):
    """Removed lines of the patch must be lines of the base commit, not ones of our fixes."""
    base = sh("git -C /repo rev-list --max-parents=0 HEAD").stdout.strip()
    return base


def trial(sid, checks, tests=True):
    d = os.path.join(HERE, "seeded", sid)
    prop = json.load(open(d + "/meta.json"))["property"]
    w = tempfile.mkdtemp(prefix="seedt.")
    out = {}
    try:
        r = os.path.join(w, "repo")
        sh("cp -a /repo %s" % r)
        bs = open("/opt/vp/build.sh").read().replace("/repo", r)
        ts = open("/opt/vp/test.sh").read().replace("/repo", r).replace("/opt/vp/build.sh", w + "/build.sh")
        open(w + "/build.sh", "w").write(bs)
        open(w + "/test.sh", "w").write(ts)
        shutil.copytree(d, w + "/demo")
        env = {k: v for k, v in os.environ.items() if not k.startswith("VERIF")}
        b = sh("bash %s/build.sh" % w)
        dm = sh("bash %s/demo/demo.sh" % w, cwd=r, env=env)
        out["demo clean"] = dm.returncode
        if dm.returncode:
            print(dm.stdout[-1500:])
        a = sh("git -C %s apply %s/patch.diff" % (r, d))
        if a.returncode:
            print(a.stdout)
            return {"apply": a.returncode}
        b = sh("bash %s/build.sh" % w)
        out["build"] = b.returncode
        if b.returncode:
            print(b.stdout[-2000:])
            return out
        if tests:
            t = sh("bash %s/test.sh %s/o.json" % (w, w))
            j = json.load(open(w + "/o.json"))
            out["tests"] = "%d passed, failed %s" % (len(j["passed"]), j["failed"])
        dm = sh("bash %s/demo/demo.sh" % w, cwd=r, env=env)
        out["demo bug"] = dm.returncode
        out["demo says"] = dm.stdout[-300:]
        for c in checks or [prop]:
            t0 = time.time()
            k = sh("python3 checks/%s.py" % c, cwd=HERE, env=dict(os.environ, MX_REPO=r, MX_EVID=w + "/ev"))
            v = [l for l in k.stdout.splitlines() if "VIOLATION" in l or l.startswith("  case")]
            out["check " + c] = (k.returncode, round(time.time() - t0), v[1:2] or k.stdout[-300:])
    finally:
        shutil.rmtree(w, ignore_errors=True)
    return out


if __name__ == "__main__":
    if sys.argv[1] == "new":        # one file: python dict(id, property, needs, breaks, edits, demo)
        for f in sys.argv[2:]:
            g = {}
            exec(open(f).read(), g)
            for x in g["SEEDS"]:
                new(x["id"], x["property"], x["needs"], x["breaks"], x["edits"])
                open(os.path.join(HERE, "seeded", x["id"], "demo.py"), "w").write(
                    "import sys\nsys.dont_write_bytecode = True\nfrom demolib import *\n" + x["demo"].lstrip())
    else:
        ids = sys.argv[2].split(",")
        nt = os.environ.get("NOTESTS")
        for i in ids:
            print(i, json.dumps(trial(i, sys.argv[3:], not nt), indent=1), flush=True)
