"""Confirm a planted bug in a scratch copy of /repo and run the check of its property on it.

usage: python3 tools/seed.py [--fast] ID...   (--fast: no repository tests)
"""
import json
import os
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = ". /opt/vp/env.sh; export PYTHONPATH=%s/src; cd %s; "


def sh(cmd, **kw):
    return subprocess.run(["bash", "-c", cmd], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def confirm(i, fast=False, checks=None):
    d = os.path.join(HERE, "seeded", i)
    meta = json.load(open(os.path.join(d, "meta.json")))
    w = "/tmp/seedrepo-%s" % i
    shutil.rmtree(w, ignore_errors=True)
    shutil.copytree("/repo", w, symlinks=True)
    lay = w + "-demo"
    shutil.rmtree(lay, ignore_errors=True)
    shutil.copytree(d, lay, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
    out = []
    try:
        env = ENV % (w, w)
        r = sh(env + "bash %s/demo.sh" % lay, timeout=300)
        out.append("demo0=%d" % r.returncode)
        if r.returncode:
            out.append(r.stdout[-600:])
        a = sh("cd %s && git apply %s/patch.diff" % (w, d))
        if a.returncode:
            return "apply failed: " + a.stdout
        base = {}
        for line in sh("cd %s && git diff -U0" % w).stdout.splitlines():
            if line.startswith("+++ "):
                f = line[6:]
                base = set(sh("cd /repo && git show 532be04:%s" % f).stdout.splitlines())
            elif line.startswith("-") and not line.startswith("---") and line[1:].strip() and line[1:] not in base:
                out.append("NOT-ORIGINAL:%r" % line)
        r = sh(env + "bash %s/demo.sh" % lay, timeout=300)
        out.append("demo1=%d" % r.returncode)
        if r.returncode == 0:
            out.append("DEMO-PASSES")
        else:
            out.append(r.stdout.strip().splitlines()[-1][:120] if r.stdout.strip() else "")
        if not fast:
            r = sh(env + "mkdir -p %s-cwd; cd %s-cwd; python -m pytest -q -p no:cacheprovider --rootdir=%s --timeout=300 -p no:xdist "
                   "--randomly-seed=1 --randomly-dont-reorganize %s/tests" % (w, w, w, w))
            last = r.stdout.strip().splitlines()[-1]
            out.append(last if "failed" not in last and "error" not in last else "TESTS " + " ".join(
                x for x in r.stdout.splitlines() if x.startswith("FAILED"))[:300])
        for c in checks or [meta["property"]]:
            t = time.time()
            r = sh("cd %s && NAIMA_REPO=%s bin/check %s" % (HERE, w, c))
            v = [x for x in r.stdout.splitlines() if x.startswith("VIOLATION")]
            out.append("%s rc=%d n=%d %.0fs %s" % (c, r.returncode, len(v), time.time() - t,
                                                    "CAUGHT" if r.returncode == 1 and v else "MISSED " + r.stdout[-300:]))
    finally:
        for x in (w, lay, w + "-cwd"):
            shutil.rmtree(x, ignore_errors=True)
    return " | ".join(out)


if __name__ == "__main__":
    args = sys.argv[1:]
    fast = "--fast" in args
    ids = [a for a in args if not a.startswith("-")]
    for i in ids or sorted(os.listdir(os.path.join(HERE, "seeded"))):
        print(i, confirm(i, fast), flush=True)
