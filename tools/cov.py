#!/usr/bin/env python3
"""Development aid: cov.py OUTDIR [ID ...] -- which lines of mdp each quick check executes (sys.monitoring)."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if os.environ.get("COV_CHILD"):
    sys.path.insert(0, V)
    out, pid = os.environ["COV_CHILD"], sys.argv[1]
    repo = os.environ.get("VERIF_REPO", "/repo") + "/"
    lines = set()
    M = sys.monitoring

    def hit(code, line):
        f = code.co_filename
        if f.startswith(repo) and '/test/' not in f:
            lines.add((f[len(repo):], line))
        return M.DISABLE
    M.use_tool_id(M.COVERAGE_ID, "cov")
    M.register_callback(M.COVERAGE_ID, M.events.LINE, hit)
    M.set_events(M.COVERAGE_ID, M.events.LINE)
    from lib import harness
    imported = set(lines)
    run = harness._Unit.run

    def wrapped(self):
        lines.clear()
        M.restart_events()
        try:
            return run(self)
        finally:
            with open("%s/%s.%d.part" % (out, pid, os.getpid()), "w") as f:
                json.dump(sorted(lines), f)
    harness._Unit.run = wrapped
    with open("%s/import.json" % out, "w") as f:
        json.dump(sorted(imported), f)
    sys.exit(harness.main(sys.argv[1:]))
sys.path.insert(0, V)
out = sys.argv[1]
os.makedirs(out, exist_ok=True)
import glob
ids = sys.argv[2:] or sorted(os.path.basename(p)[:-3] for p in glob.glob(V + "/checks/P*.py"))
env = dict(os.environ, COV_CHILD=out, VERIF_RUN="1", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1")
for p in ids:
    subprocess.run(["/opt/venv/bin/python", "-W", "ignore", __file__, p], env=env, cwd=V, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    s = set()
    for f in glob.glob("%s/%s.*.part" % (out, p)):
        s |= set(map(tuple, json.load(open(f))))
        os.remove(f)
    json.dump(sorted(s), open("%s/%s.json" % (out, p), "w"))
    print(p, len(s), flush=True)
