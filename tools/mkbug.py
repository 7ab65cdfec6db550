#!/usr/bin/env python3
"""Plant bugs: mkbug.py SPEC.py [id ...].  SPEC defines BUGS = {id: dict(property, edits=[(file, old, new), ...],
demo=python source, needs, what)}.  Builds a scratch copy, confirms tests pass and the demo discriminates, runs the
property's check on the scratch copy, writes seeded/<id>/."""
import json, os, shutil, subprocess, sys, tempfile, textwrap
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
spec = {}
exec(open(sys.argv[1]).read(), spec)
want = sys.argv[2:] or list(spec['BUGS'])
for bid in want:
    b = spec['BUGS'][bid]
    out = os.path.join(V, "seeded", bid)
    tmp = tempfile.mkdtemp(prefix="mkbug-", dir="/tmp")
    wt = os.path.join(tmp, "repo")
    try:
        shutil.copytree("/repo", wt, symlinks=True, ignore=shutil.ignore_patterns('__pycache__', '.pytest_cache'))
        for f, old, new in b['edits']:
            p = os.path.join(wt, f)
            s = open(p, newline='').read()
            if '\r\n' in s:
                old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
            if s.count(old) != 1:
                print(bid, "EDIT matches", s.count(old), "times in", f, repr(old[:60]))
                raise SystemExit(1)
            open(p, "w", newline='').write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", wt, "diff", "--no-color"], capture_output=True).stdout
        dd = os.path.join(tmp, "demo")
        os.makedirs(dd)
        open(os.path.join(dd, "demo.py"), "w").write("import os, sys\nsys.path.insert(0, os.getcwd())\nsys.dont_write_bytecode = True\n" + textwrap.dedent(b['demo']))
        open(os.path.join(dd, "demo.sh"), "w").write('#!/bin/sh\nexec %s -W ignore "$(dirname "$0")/demo.py"\n' % PY)
        os.chmod(os.path.join(dd, "demo.sh"), 0o755)
        r0 = subprocess.run(["sh", os.path.join(dd, "demo.sh")], cwd="/repo", capture_output=True, text=True, timeout=280)
        r1 = subprocess.run(["sh", os.path.join(dd, "demo.sh")], cwd=wt, capture_output=True, text=True, timeout=280)
        if r0.returncode != 0 or r1.returncode == 0:
            print(bid, "DEMO BAD clean=%d patched=%d" % (r0.returncode, r1.returncode), r0.stderr[-600:], r1.stdout[-300:])
            continue
        print(bid, "demo ok:", (r1.stderr.strip().splitlines() or ['?'])[-1][:140])
        if not os.environ.get("NOTEST"):
            t = subprocess.run(["bash", os.path.join(V, "tools", "qt.sh"), wt], capture_output=True, text=True)
            tail = [l for l in t.stdout.splitlines() if ' passed' in l or 'FAILED' in l]
            ok = len(tail) == 2 and '847 passed, 14 skipped, 1 error' in tail[0] and '64 passed' in tail[1]
            print(bid, "tests", "ok" if ok else "FAIL " + str(tail[-6:]))
            if not ok:
                continue
        c = subprocess.run([sys.executable, "run.py", b['property']], cwd=V, capture_output=True, text=True,
                           env=dict(os.environ, VERIF_REPO=wt, VERIF_SEED="1", VERIF_TIER="quick"))
        line = [l for l in c.stdout.splitlines() if 'VIOLATION' in l]
        print(bid, "check exit", c.returncode, "CAUGHT" if c.returncode == 1 and line else "MISSED", (c.stdout.strip().splitlines() or [''])[0][:200])
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(dd, out)
        open(os.path.join(out, "patch.diff"), "wb").write(diff)
        ap = subprocess.run(["git", "-C", "/repo", "apply", "--check", os.path.join(out, "patch.diff")], capture_output=True, text=True)
        if ap.returncode:
            print(bid, "PATCH DOES NOT APPLY", ap.stderr[:200])
        json.dump({"property": b['property'], "needs": b['needs'], "what_it_breaks": b['what']},
                  open(os.path.join(out, "meta.json"), "w"), indent=1)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
