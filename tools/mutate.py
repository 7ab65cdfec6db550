#!/usr/bin/env -S python3 -W ignore
"""Development aid (mutation testing of the checks): mutate.py COVDIR OUT.jsonl N SEED [file-substring ...]
Samples N small source mutations of lines some check executes, runs the checks that execute the line (fewest-lines check
first) on a scratch copy until one reports a violation, and appends {file,line,old,new,killed_by|survived} to OUT.
Survivors of the checks are then run against the repository's own tests (tests: pass/fail)."""
import ast, glob, json, os, random, shutil, signal, subprocess, sys, tempfile, threading, queue
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ.get("MUT_BASE", "/repo") + "/"
cov, outf, n, seed = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
subs = sys.argv[5:]
SKIP = ('temporarydir', 'pp_s', 'configuration', 'shogun', '_ordered_dict', 'repo_revision', '__init__', 'slideshow', '/test/', 'helper_funcs')
by = {}
size = {}
for f in glob.glob(cov + "/P*.json"):
    p = os.path.basename(f)[:-5]
    L = json.load(open(f))
    size[p] = len(L)
    for a, l in L:
        by.setdefault((a, l), set()).add(p)
CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.Is: 'is not', ast.IsNot: 'is', ast.In: 'not in', ast.NotIn: 'in'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.FloorDiv: '/', ast.Mod: '*', ast.Pow: '*'}


def seg(src, n):
    return ast.get_source_segment(src, n)


def mutants(path):
    src = open(R + path, newline='').read().replace('\r\n', '\n')
    t = ast.parse(src)
    L = src.split('\n')
    res = []

    def put(node, new):
        if node.lineno != node.end_lineno:
            return
        line = L[node.lineno - 1].encode()
        new = (line[:node.col_offset] + new.encode() + line[node.end_col_offset:]).decode()
        if new != L[node.lineno - 1]:
            res.append((path, node.lineno, new))

    def visit(node, infn, doc):
        for ch in ast.iter_child_nodes(node):
            fn = infn or isinstance(ch, (ast.FunctionDef, ast.Lambda))
            if infn:
                one(ch, node)
            if isinstance(ch, ast.Expr) and isinstance(ch.value, ast.Constant):
                continue
            if isinstance(ch, ast.Call) and getattr(ch.func, 'id', '') == 'print':
                continue
            if isinstance(ch, ast.Raise):
                continue
            visit(ch, fn, doc)

    def one(c, parent):
        s = lambda x: seg(src, x)
        if isinstance(c, ast.Compare) and len(c.ops) == 1:
            put(c, "%s %s %s" % (s(c.left), CMP[type(c.ops[0])], s(c.comparators[0])))
        elif isinstance(c, ast.BinOp) and type(c.op) in BIN and not isinstance(c.left, ast.Constant):
            put(c, "%s %s %s" % (s(c.left), BIN[type(c.op)], s(c.right)))
        elif isinstance(c, ast.BoolOp):
            op = ' or ' if isinstance(c.op, ast.And) else ' and '
            put(c, '(' + op.join('(%s)' % s(v) for v in c.values) + ')')
            put(c, s(c.values[0]))
            put(c, s(c.values[-1]))
        elif isinstance(c, ast.UnaryOp) and isinstance(c.op, ast.Not):
            put(c, '(%s)' % s(c.operand))
        elif isinstance(c, ast.UnaryOp) and isinstance(c.op, ast.USub):
            put(c, '(%s)' % s(c.operand))
        elif isinstance(c, ast.Constant) and not isinstance(parent, (ast.JoinedStr, ast.FormattedValue)):
            if c.value is True or c.value is False:
                put(c, str(not c.value))
            elif isinstance(c.value, int):
                put(c, str(c.value + 1))
                if c.value:
                    put(c, str(c.value - 1))
            elif isinstance(c.value, float):
                put(c, repr(c.value * 2 if c.value else 1.))
        elif isinstance(c, ast.Call):
            if isinstance(c.func, ast.Attribute) and c.func.attr in ('copy', 'ravel', 'conj', 'flatten', 'sort') and not c.args:
                put(c, s(c.func.value))
            if len(c.args) >= 2 and not c.keywords and s(c.args[0]) != s(c.args[1]):
                a = [s(x) for x in c.args]
                a[0], a[1] = a[1], a[0]
                put(c, "%s(%s)" % (s(c.func), ', '.join(a)))
            if c.keywords and c.keywords[-1].arg and c.lineno == c.end_lineno:
                a = [s(x) for x in c.args] + ["%s=%s" % (k.arg, s(k.value)) if k.arg else "**" + s(k.value) for k in c.keywords[:-1]]
                put(c, "%s(%s)" % (s(c.func), ', '.join(a)))
        elif isinstance(c, ast.AugAssign):
            put(c, "%s = %s" % (s(c.target), s(c.value)))
            put(c, "pass")
        elif isinstance(c, (ast.Assign, ast.Expr)) and isinstance(parent, (ast.FunctionDef, ast.If, ast.For, ast.While, ast.Try, ast.With)):
            if isinstance(c, ast.Expr) and isinstance(c.value, (ast.Constant, ast.Yield)):
                return
            put(c, "pass")
        elif isinstance(c, (ast.If, ast.While)):
            put(c.test, "True")
            put(c.test, "False")
        elif isinstance(c, ast.Subscript) and isinstance(c.slice, ast.Slice):
            sl = c.slice
            if sl.lower is not None:
                put(c, "%s[:%s]" % (s(c.value), s(sl.upper) if sl.upper else ''))
            if sl.upper is not None:
                put(c, "%s[%s:]" % (s(c.value), s(sl.lower) if sl.lower else ''))
        elif isinstance(c, (ast.Continue, ast.Break)):
            put(c, "pass")
    visit(t, False, None)
    return src, res


files = sorted(set(a for a, l in by))
allm = []
srcs = {}
for f in files:
    if any(k in '/' + f for k in SKIP) or subs and not any(k in f for k in subs):
        continue
    srcs[f], ms = mutants(f)
    for m in ms:
        if (f, m[1]) in by and 'verbose' not in srcs[f].split('\n')[m[1] - 1] and 'warn' not in m[2]:
            try:
                L = srcs[f].split('\n')
                L[m[1] - 1] = m[2]
                compile('\n'.join(L), f, 'exec')
                allm.append(m)
            except SyntaxError:
                pass
allm = sorted(set(allm))
rnd = random.Random(seed)
# same number for each file weight ~ sqrt of its mutants
rnd.shuffle(allm)
done = set()
if os.path.exists(outf):
    for l in open(outf):
        d = json.loads(l)
        done.add((d['file'], d['line'], d['new']))
cnt = {}
for m in allm:
    cnt[m[0]] = cnt.get(m[0], 0) + 1
key = lambda m: rnd.random() ** (cnt[m[0]] ** 0.4)
allm = sorted(allm, key=key, reverse=True)
todo = [m for m in allm if m not in done][:n]
print(len(allm), "mutants,", len(todo), "to run", flush=True)
q = queue.Queue()
for m in todo:
    q.put(m)
lock = threading.Lock()
W = int(os.environ.get("MUT_WORKERS", "4"))


def call(cmd, wt, env, limit):
    p = subprocess.Popen(["bash", "-c", "ulimit -v 8000000; exec " + cmd], cwd=V, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env, start_new_session=True, text=True)
    try:
        out, _ = p.communicate(timeout=limit)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        return None, ''
    finally:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass


def worker(k):
    base = tempfile.mkdtemp(prefix="mut%d-" % k, dir="/tmp")
    wt = base + "/repo"
    shutil.copytree(R, wt, symlinks=True, ignore=shutil.ignore_patterns('__pycache__', '.pytest_cache', '.git'))
    env = dict(os.environ, VERIF_REPO=wt, VERIF_SHRINK_S="0", VERIF_NPROC=str(max(1, 8 // W)), VERIF_SEED="1", VERIF_TIER="quick", PYTHONDONTWRITEBYTECODE="1", VERIF_REPLAYS=base)
    try:
        while True:
            try:
                f, line, new = q.get_nowait()
            except queue.Empty:
                return
            orig = open(os.path.join(R, f), newline='').read()
            L = srcs[f].split('\n')
            old = L[line - 1]
            L[line - 1] = new
            open(os.path.join(wt, f), 'w').write('\n'.join(L))
            rec = dict(file=f, line=line, old=old.strip(), new=new)
            checks = sorted(by[f, line], key=lambda p: size[p])
            rec['checks'] = checks
            for p in checks:
                rc, out = call("python3 run.py " + p, wt, env, 400)
                if rc == 1 and 'VIOLATION property=%s ' % p in out:
                    rec['killed_by'] = p
                    break
                elif rc != 0:
                    rec.setdefault('odd', []).append([p, rc])
            if 'killed_by' not in rec:
                rc, out = call("bash tools/qt1.sh " + wt, wt, env, 1200)
                rec['tests'] = out.strip()[-300:]
            open(os.path.join(wt, f), 'w', newline='').write(orig)
            with lock:
                open(outf, 'a').write(json.dumps(rec) + '\n')
                print(f, line, rec.get('killed_by', 'SURVIVED ' + rec.get('tests', '')[-60:]), flush=True)
    finally:
        shutil.rmtree(base, ignore_errors=True)


ts = [threading.Thread(target=worker, args=(k,)) for k in range(W)]
for t in ts:
    t.start()
for t in ts:
    t.join()
