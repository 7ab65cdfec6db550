"""Property-based testing harness: case generation (Hypothesis), parallel units,
shrinking, replay files, evidence.  See DESIGN.md."""
import argparse
import hashlib
import importlib
import json
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings
import zlib

warnings.simplefilter("ignore")

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
HYP = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"

sys.path.insert(0, REPO)
import numpy as np  # noqa: E402
if os.environ.get("VERIF_NUMX") == "scipy":
    # development aid: the other numerical backend (recent versions lack one module)
    import scipy
    scipy.random = sys.modules["scipy.random"] = np.random
import mdp  # noqa: E402
assert os.path.realpath(mdp.__file__).startswith(os.path.realpath(REPO)), mdp.__file__
import bimdp  # noqa: E402,F401
sys.path.append(HYP)
import hypothesis  # noqa: E402
from hypothesis import strategies as st, settings, seed as hseed, given, HealthCheck, Phase  # noqa: E402
import hypothesis.strategies  # noqa: E402,F401
sys.path.remove(HYP)
np.seterr(all="ignore")

NPROC = int(os.environ.get("VERIF_NPROC", "8"))


class Violation(AssertionError):
    """The code under test broke the property."""


class CaseTimeout(BaseException):
    """A case did not terminate."""


class HarnessError(Exception):
    """The check itself is wrong; never reported as a violation."""


def check(cond, msg="property violated", *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def _short(a):
    s = np.array2string(np.asarray(a), precision=6, threshold=24, edgeitems=3)
    return s if len(s) < 400 else s[:400] + "..."


def close(a, b, tol=1e-8, msg="arrays differ", scale=None):
    """max |a-b| <= tol * scale, same shape, both finite where b is finite."""
    a = np.asarray(a)
    b = np.asarray(b)
    if a.shape != b.shape:
        raise Violation("%s: shape %s instead of %s" % (msg, a.shape, b.shape))
    if a.size == 0:
        return
    if a.dtype == object or b.dtype == object:
        if not all(x == y for x, y in zip(a.ravel(), b.ravel())):
            raise Violation("%s: got %s expected %s" % (msg, _short(a), _short(b)))
        return
    fin = np.isfinite(b)
    if not np.array_equal(np.isfinite(a), fin):
        raise Violation("%s: non-finite values: got %s expected %s" % (msg, _short(a), _short(b)))
    if not fin.all():
        nf = ~fin
        if not np.array_equal(np.nan_to_num(a[nf], nan=7.), np.nan_to_num(b[nf], nan=7.)):
            raise Violation("%s: got %s expected %s" % (msg, _short(a), _short(b)))
        a = a[fin]
        b = b[fin]
        if a.size == 0:
            return
    wide = np.complex128 if (a.dtype.kind == 'c' or b.dtype.kind == 'c') else np.float64
    d = np.abs(a.astype(wide) - b.astype(wide))
    if scale is None:
        scale = max(1.0, float(np.abs(b).max()))
    if not (d.max() <= tol * scale):
        raise Violation("%s: max deviation %.3g (allowed %.3g): got %s expected %s"
                        % (msg, d.max(), tol * scale, _short(a), _short(b)))


def raises(exc, f, msg="expected exception"):
    """f() must raise exc (class or tuple)."""
    try:
        r = f()
    except exc as e:
        return e
    except Exception as e:
        raise Violation("%s: raised %s: %s instead of %s"
                        % (msg, type(e).__name__, str(e)[:200], exc))
    raise Violation("%s: nothing raised (returned %s), expected %s" % (msg, str(r)[:100], exc))


class Sub(object):
    def __init__(self, name, strategy, fn, quick, thorough, rule, shards, timeout, tshards):
        self.name, self.strategy, self.fn = name, strategy, fn
        self.quick, self.thorough, self.rule = quick, thorough, rule
        self.shards, self.tshards = shards, tshards
        self.timeout = timeout


_REG = []


def sub(strategy, quick=100, thorough=None, rule="", shards=1, timeout=60, tshards=None, name=None):
    """Register a sub-property: fn(case, ctx).  `quick`/`thorough` are numbers of
    examples in total over the shards."""
    def deco(fn):
        _REG.append(Sub(name or fn.__name__, strategy, fn, quick,
                        thorough or quick * 20, rule, shards, timeout,
                        tshards or max(4, shards)))
        return fn
    return deco


class Ctx(object):
    def __init__(self):
        self.is_nontrivial = False
        self.labels = []
        self._tmp = []

    def nontrivial(self, cond=True):
        if cond:
            self.is_nontrivial = True

    def label(self, text):
        self.labels.append(str(text))

    def tmpdir(self):
        d = tempfile.mkdtemp(prefix="verif-", dir=SCRATCH[0])
        self._tmp.append(d)
        return d

    def close(self):
        for d in self._tmp:
            shutil.rmtree(d, ignore_errors=True)


SCRATCH = [None]


def canon(case):
    return json.dumps(case, sort_keys=True)


def _alarm(signum, frame):
    raise CaseTimeout("case did not terminate in time")


def run_case(s, case, timeout=None):
    """Run one case.  Returns ctx; raises on violation."""
    case = json.loads(json.dumps(case))
    ctx = Ctx()
    np.random.seed(zlib.crc32(canon(case).encode()) & 0xffffffff)
    random.seed(zlib.crc32(canon(case).encode()))
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, timeout or s.timeout)
    cwd = os.getcwd()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            s.fn(case, ctx)
    except CaseTimeout:
        tb = traceback.format_exc()
        raise Violation("no termination within %s s\n%s" % (timeout or s.timeout, tb[-1500:]))
    except (SystemExit, GeneratorExit) as e:
        raise Violation("%s raised\n%s" % (type(e).__name__, traceback.format_exc()[-1500:]))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
        os.chdir(cwd)
        ctx.close()
        _cleanup_state()
    return ctx


def _cleanup_state():
    """Undo global state a failing case may leave behind."""
    try:
        act = mdp.get_active_extensions()
        if act:
            mdp.deactivate_extensions(act)
    except Exception:
        pass


class _Unit(object):
    def __init__(self, s, shard, n, seed, budget, corpus):
        self.s, self.shard, self.n, self.seed = s, shard, n, seed
        self.budget = budget
        self.corpus = corpus

    def run(self):
        """Executed in a forked child; returns a JSON-able report."""
        s = self.s
        t0 = time.time()
        rep = {"sub": s.name, "evaluations": 0, "nontrivial": [], "labels": {},
               "samples": [], "failures": [], "error": None, "skipped": 0}
        seen = set()
        best = {}
        shrink_start = [None]

        def one(case):
            now = time.time()
            if shrink_start[0] is None:
                if now - t0 > self.budget:
                    rep["skipped"] += 1
                    return
            elif now - shrink_start[0] > SHRINK_S[0]:
                return
            try:
                ctx = run_case(s, case)
            except HarnessError:
                raise
            except hypothesis.errors.UnsatisfiedAssumption:
                raise
            except Exception as e:
                if shrink_start[0] is None:
                    shrink_start[0] = time.time()
                key = canon(case)
                cur = best.get("key")
                if cur is None or (len(key), key) < (len(cur), cur):
                    best.update(key=key, msg="%s: %s" % (type(e).__name__, e),
                                tb=traceback.format_exc())
                raise
            if shrink_start[0] is None:
                rep["evaluations"] += 1
                for l in ctx.labels:
                    rep["labels"][l] = rep["labels"].get(l, 0) + 1
                if ctx.is_nontrivial:
                    h = hashlib.sha1(canon(case).encode()).hexdigest()[:14]
                    if h not in seen:
                        seen.add(h)
                        if len(rep["samples"]) < 2 or (len(seen) % 97 == 0 and len(rep["samples"]) < 4):
                            rep["samples"].append(case)

        try:
            for c in self.corpus:
                one(c)
            if self.n > 0:
                @hseed(self.seed)
                @settings(max_examples=self.n, database=None, deadline=None,
                          suppress_health_check=list(HealthCheck), print_blob=False,
                          phases=(Phase.generate, Phase.shrink), report_multiple_bugs=False)
                @given(s.strategy)
                def test(case):
                    one(case)
                test()
        except HarnessError:
            rep["error"] = traceback.format_exc()
        except BaseException as e:
            if not best:
                rep["error"] = traceback.format_exc()
        if best:
            rep["failures"].append({"case": json.loads(best["key"]), "msg": best["msg"],
                                    "tb": best["tb"]})
        rep["nontrivial"] = sorted(seen)
        rep["wall"] = time.time() - t0
        return rep


SHRINK_S = [float(os.environ.get("VERIF_SHRINK_S", "25"))]


def _child(unit, out):
    os.setsid()
    devnull = os.open(os.devnull, os.O_RDWR)
    os.dup2(devnull, 0)
    os.dup2(devnull, 1)
    if not os.environ.get("VERIF_DEBUG"):
        os.dup2(devnull, 2)
    SCRATCH[0] = tempfile.mkdtemp(prefix="unit-", dir=SCRATCH[0])
    tempfile.tempdir = SCRATCH[0]
    try:
        rep = unit.run()
    except BaseException:
        rep = {"sub": unit.s.name, "error": traceback.format_exc()}
    with open(out + ".tmp", "w") as f:
        json.dump(rep, f)
    os.rename(out + ".tmp", out)
    os._exit(0)


# quick budgets of the checks are multiplied by these factors, so that every
# quick check uses about 20 s of an idle machine
QSCALE = {"P01": 3, "P02": 5, "P03": 4, "P04": 5, "P05": 5, "P06": 4, "P07": 3, "P08": 3.5, "P09": 2, "P10": 4,
          "P11": 2, "P12": 5, "P13": 5, "P14": 2.5, "P15": 2, "P16": 5, "P17": 6, "P18": 3, "P19": 5, "P20": 2,
          "P23": 3, "P24": 6, "P25": 6, "P26": 3, "P27": 3, "P28": 5, "P29": 2, "P30": 1.5, "P33": 2,
          "P37": 5}


def run_units(units, hard_limit):
    """Run units in forked children, NPROC at a time."""
    reports = []
    pending = list(units)
    running = {}
    k = 0
    stop = False
    while pending or running:
        while pending and len(running) < NPROC and not stop:
            u = pending.pop(0)
            out = os.path.join(SCRATCH[0], "rep%d.json" % k)
            k += 1
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                try:
                    _child(u, out)
                finally:
                    os._exit(3)
            running[pid] = (u, out, time.time())
        if stop:
            pending = []
        done = []
        for pid, (u, out, t) in running.items():
            r, status = os.waitpid(pid, os.WNOHANG)
            if r:
                done.append(pid)
                try:
                    os.killpg(pid, signal.SIGKILL)
                except OSError:
                    pass
                if os.path.exists(out):
                    with open(out) as f:
                        rep = json.load(f)
                else:
                    rep = {"sub": u.s.name, "error": "unit died, wait status %d" % status}
                reports.append(rep)
                if rep.get("failures"):
                    stop = True
            elif time.time() - t > hard_limit or (stop and time.time() - t > 60 and
                                                 time.time() - stop_t[0] > 45):
                try:
                    os.killpg(pid, signal.SIGKILL)
                except OSError:
                    pass
                os.waitpid(pid, 0)
                done.append(pid)
                if not stop:
                    reports.append({"sub": u.s.name, "error": "unit exceeded its hard time limit"})
            elif stop and not stop_t[0]:
                stop_t[0] = time.time()
        for pid in done:
            del running[pid]
        time.sleep(0.01)
    return reports


stop_t = [0]


def load_check(pid):
    del _REG[:]
    importlib.import_module("checks." + pid)
    return list(_REG)


def load_corpus(pid):
    path = os.path.join(VERIF, "corpus", pid + ".json")
    if os.path.exists(path):
        with open(path) as f:
            return json.load(f)
    return []


def load_findings(pid):
    path = os.path.join(VERIF, "known_findings.txt")
    res = []
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line.startswith("finding:") and ("property=%s " % pid) in line:
                    res.append(line)
    return res


def write_replay(pid, s, f):
    d = os.environ.get("VERIF_REPLAYS") or os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha1((s + canon(f["case"])).encode()).hexdigest()[:8]
    path = os.path.join(d, "%s-%s-%s.json" % (pid, s, h))
    with open(path, "w") as fh:
        json.dump({"property": pid, "sub": s, "case": f["case"], "message": f["msg"],
                   "traceback": f.get("tb", ""),
                   "rerun": "python3 run.py %s --replay %s" % (pid, path)}, fh, indent=1)
    return path


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--replay")
    ap.add_argument("--sub")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--verbose", action="store_true")
    a = ap.parse_args(argv)
    pid, tier = a.id, a.tier
    if tier not in ("quick", "thorough"):
        tier = "quick"
    SCRATCH[0] = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    try:
        return _main(a, pid, tier)
    finally:
        shutil.rmtree(SCRATCH[0], ignore_errors=True)


def _main(a, pid, tier):
    t0 = time.time()
    try:
        subs = load_check(pid)
    except Exception:
        traceback.print_exc()
        print("ERROR: cannot load check %s" % pid)
        return 2
    byname = {s.name: s for s in subs}
    if a.replay:
        with open(a.replay) as f:
            r = json.load(f)
        s = byname[r["sub"]]
        try:
            run_case(s, r["case"])
        except Exception:
            traceback.print_exc()
            print("VIOLATION property=%s replay=%s" % (pid, a.replay))
            return 1
        print("replay passes")
        return 0
    corpus = load_corpus(pid)
    units = []
    budget = 70.0 if tier == "quick" else 1500.0
    for s in subs:
        if a.sub and s.name not in a.sub.split(","):
            continue
        n = s.quick * QSCALE.get(pid, 1) if tier == "quick" else s.thorough
        n = max(1, int(n * a.scale))
        sh = s.shards if tier == "quick" else s.tshards
        for k in range(sh):
            ke = n // sh + (1 if k < n % sh else 0)
            sd = zlib.crc32(("%d|%s|%s|%d" % (a.seed, pid, s.name, k)).encode())
            corp = [c["case"] for c in corpus if c["sub"] == s.name] if k == 0 else []
            units.append(_Unit(s, k, ke, sd, budget, corp))
    # long units first would be nice; keep declaration order, shards interleaved
    reports = run_units(units, hard_limit=budget + 180)
    errors = [r for r in reports if r.get("error")]
    fails = [(r["sub"], f) for r in reports for f in r.get("failures", [])]
    ev = {}
    hashes = set()
    labels = {}
    samples = []
    n_eval = 0
    for r in reports:
        if "evaluations" not in r:
            continue
        n_eval += r["evaluations"]
        e = ev.setdefault(r["sub"], {"evaluations": 0, "nontrivial": set(), "labels": {}, "skipped_for_time": 0,
                                     "wall_s": 0.})
        e["evaluations"] += r["evaluations"]
        e["skipped_for_time"] += r["skipped"]
        e["nontrivial"].update(r["nontrivial"])
        e["wall_s"] = round(e["wall_s"] + r.get("wall", 0.), 2)
        for l, c in r["labels"].items():
            e["labels"][l] = e["labels"].get(l, 0) + c
        hashes.update(r["sub"] + h for h in r["nontrivial"])
        if len([x for x in samples if x["sub"] == r["sub"]]) < 2:
            for c in r["samples"][:1]:
                samples.append({"sub": r["sub"], "case": c})
    replays = []
    for sname, f in fails:
        path = write_replay(pid, sname, f)
        replays.append({"replay": path, "sub": sname, "message": f["msg"][:1000]})
        print("---- %s/%s: %s" % (pid, sname, f["msg"][:1500]))
        if a.verbose:
            print(f["tb"])
        print("VIOLATION property=%s replay=%s" % (pid, path))
    if a.verbose or a.sub:
        for k, e in ev.items():
            print("%-28s eval=%d nontrivial=%d skipped=%d wall=%.1f %s"
                  % (k, e["evaluations"], len(e["nontrivial"]), e["skipped_for_time"], e["wall_s"],
                     dict(sorted(e["labels"].items(), key=lambda x: -x[1])[:12])))
    rule = "; ".join("%s: %s" % (s.name, s.rule) for s in subs)
    evidence = {
        "property": pid, "tier": tier, "seed": a.seed, "level": "exploration",
        "coverage": {
            "evaluations": n_eval, "distinct_nontrivial": len(hashes), "rule": rule,
            "samples": samples[:20],
            "per_sub": {k: {"evaluations": e["evaluations"], "distinct_nontrivial": len(e["nontrivial"]),
                            "skipped_for_time": e["skipped_for_time"], "wall_s": e["wall_s"],
                            "labels": e["labels"]} for k, e in ev.items()},
        },
        "assumptions": ["generated-input search: no claim beyond the explored cases",
                        "numpy backend as installed; reference results computed with numpy/scipy"],
        "wall_s": round(time.time() - t0, 2),
        "violations": replays,
        "errors": [{"sub": r["sub"], "error": r["error"][-2000:]} for r in errors],
    }
    for line in load_findings(pid):
        print("KNOWN-FINDING: " + line[len("finding:"):].strip())
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
    if fails:
        return 1
    if errors:
        for r in errors:
            print("ERROR in %s: %s" % (r["sub"], r["error"][-3000:]))
        return 2
    print("%s ok: %d cases, %d distinct non-trivial, %.1f s" % (pid, n_eval, len(hashes), time.time() - t0))
    return 0
