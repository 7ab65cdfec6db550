#!/usr/bin/env python3
"""Development aid: run many cases of a check, do not stop at failures, print them grouped."""
import os, sys, collections, json, multiprocessing, traceback, time
if os.environ.get("VERIF_RUN") != "1":
    os.environ.update({"PYTHONDONTWRITEBYTECODE": "1", "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "VERIF_RUN": "1"})
    os.execv("/opt/venv/bin/python", ["/opt/venv/bin/python", "-W", "ignore"] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import harness as H
import tempfile, re


def work(a):
    pid, name, n, seed = a
    H.SCRATCH[0] = tempfile.mkdtemp(prefix="survey-", dir="/tmp")
    tempfile.tempdir = H.SCRATCH[0]
    s = {x.name: x for x in (H._REG or H.load_check(pid))}[name]
    out = []
    cnt = [0, 0, 0., collections.Counter()]
    devnull = os.open(os.devnull, os.O_RDWR); os.dup2(devnull, 1)

    @H.hseed(seed)
    @H.settings(max_examples=n, database=None, deadline=None, suppress_health_check=list(H.HealthCheck),
                phases=(H.Phase.generate,))
    @H.given(s.strategy)
    def t(case):
        cnt[0] += 1
        t0 = time.time()
        try:
            c = H.run_case(s, case)
            cnt[1] += c.is_nontrivial
            cnt[3].update(set(c.labels))
        except H.hypothesis.errors.UnsatisfiedAssumption:
            raise
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            fr = [f for f in tb if '/verif/lib/harness' not in f.filename][-1]
            out.append((case, "%s: %s" % (type(e).__name__, str(e)[:300]), "%s:%d" % (os.path.basename(fr.filename), fr.lineno)))
        if time.time() - t0 > float(os.environ.get('SLOW', '20')):
            print('SLOW %.1f %s %s' % (time.time() - t0, name, json.dumps(case)), file=sys.stderr, flush=True)
        cnt[2] = max(cnt[2], time.time() - t0)
    try:
        t()
    except Exception:
        out.append(({}, "HYP " + traceback.format_exc()[-600:], ""))
    import shutil
    shutil.rmtree(H.SCRATCH[0], ignore_errors=True)
    return name, out, cnt


if __name__ == '__main__':
    pid = sys.argv[1]
    scale = float(sys.argv[2]) if len(sys.argv) > 2 else 1.0
    only = sys.argv[3].split(',') if len(sys.argv) > 3 and sys.argv[3] != '-' else None
    seed0 = int(sys.argv[4]) if len(sys.argv) > 4 else 1
    subs = H.load_check(pid)
    jobs = []
    for s in subs:
        if only and s.name not in only:
            continue
        n = max(1, int(s.quick * scale))
        for k in range(4):
            jobs.append((pid, s.name, max(1, n // 4), seed0 * 1000 + k))
    t0 = time.time()
    groups = collections.OrderedDict()
    counts = collections.Counter(); nt = collections.Counter(); mx = {}; labels = collections.defaultdict(collections.Counter)
    with multiprocessing.Pool(8) as p:
        for name, out, c in p.imap_unordered(work, jobs, chunksize=1):
            counts[name] += c[0]; nt[name] += c[1]; labels[name].update(c[3]); mx[name] = max(mx.get(name, 0), c[2])
            for case, msg, loc in out:
                key = (name, case.get('node', case.get('cls', case.get('kind', ''))) if isinstance(case, dict) else '', re.sub(r'[-+0-9.e\[\]\s]+', '#', msg)[:100], loc)
                groups.setdefault(str(key), []).append((case, msg))
    for k, v in sorted(groups.items(), key=lambda kv: -len(kv[1]))[:int(os.environ.get('TOP', '14'))]:
        c, m = min(v, key=lambda cm: len(json.dumps(cm[0])))
        print(len(v), k); print("     ", m[:int(os.environ.get('CW', '260'))]); print("     ", json.dumps(c)[:int(os.environ.get('CW', '300'))])
    for n in counts:
        print("%-28s %d cases %d nontrivial max %.2fs" % (n, counts[n], nt[n], mx[n]))
        if labels[n]:
            print('      ', ', '.join('%s: %d' % kv for kv in labels[n].most_common(12)))
    print("%.1f s" % (time.time() - t0))
