import sys, json
sys.path.insert(0,'/verif')
from lib import harness
ORACLE = {
'P01': "model of the life cycle (open phase list, dims/dtype set or not) over a table of all nodes (lib/nodetab.py); `model_node` scripts a node of its own whose methods count calls; expected exception class or result shape/dtype predicted by the model; after a rejected call, behaviour equals a twin that never saw it. Tests never offer wrong data in the middle of a phase.",
'P02': "byte snapshots of every argument before/after; buffers poisoned after each call and compared with a twin fed private copies; repeated and interleaved execution, read-only arrays.",
'P03': "metamorphic: any partition (and, where time plays no role, permutation) of the data against one-shot training, sign-canonicalised model comparison; boundary statistics against sums over kept samples and steps.",
'P04': "metamorphic: subset/permutation/repetition/split/memory layout/dtype of rows.",
'P05': "eigh/svd of the exact sample covariance; optimality, normalisation, reconstruction identities.",
'P06': "generalised eigenproblem solved in a whitened basis; slowness lower bound; explicit finite differences.",
'P07': "edge-by-edge brute-force graph as reference for every closed form and fast mode; window ends, mirrored windows, mixed modes, compact classes.",
'P08': "normal equations, numerical gradient of the likelihood, generalised eigenproblem, EM step recomputed.",
'P09': "unmixing identities (white outputs, inverse, projection), contrast not beaten by plane rotations, fixed-point equation residuals, recovery of generated sources, reference telescope and xSFA.",
'P10': "naive implementations of every decision rule; consistency among label/prob/rank/execute; ties accepted in any documented way.",
'P11': "itertools monomials, scipy/numpy polynomial families, direct Gaussian formulas.",
'P12': "index arithmetic sample by sample; brute-force extrema; direct convolution sums; histogram recount.",
'P13': "enumeration of all configurations of small machines; reference contrastive-divergence update driven by the same random stream.",
'P14': "reference growing/fixed neural gas; structural invariants after every chunk; stops at rounding ties.",
'P15': "numpy definitions on the concatenated data; defining equations for the eigen-solvers; full recount.",
'P16': "random and projected-gradient points never beat reported extrema; second derivatives along great circles.",
'P17': "hand-unrolled flow interpreter, scripted sources (one-shot iterators, wrong kinds, empty).",
'P18': "plain Python list + dimension model; fault-injecting nodes and files; checkpoints at random points.",
'P19': "twin continuation after copy/pickle/save at a random point of life; mutual independence.",
'P20': "model of class attribute resolution; random activation histories with failing hooks; library extensions together.",
'P21': "task logs (who/when/how many at a time) behind barriers; ordered results; failing tasks; a per-case alarm turns dead-locks into failures; random sleeps and gated tasks perturb the schedule.",
'P22': "fork/join over random assignments versus serial training; parallel flow versus flow with every scheduler.",
'P23': "unrolled computation with private copies of inner nodes.",
'P24': "geometry recomputed by brute force from the documented description.",
'P25': "per-sample reference interpreter of online flows and circular flows.",
'P26': "published update rules, one sample at a time; batch solution as limit.",
'P27': "twin without cache over random histories in a scratch directory.",
'P28': "reference message parser; generated bi-nodes against the original nodes.",
'P29': "reference jump interpreter over scripted bi-nodes (lib/bitrees.py), including layers, flow-nodes, clone layers and joined chunks.",
'P30': "the same scripted trees run by parallel flows (random-order scheduler, threads, processes) against the serial flow; log of what every fork saw.",
'P31': "Richardson-extrapolated central differences of execute.",
'P32': "set-of-edges model of directed graphs; brute-force reachability.",
'P33': "traced vs untraced twin; attribute snapshots; slides compared with the calls that happened; reference template expansion; scratch-directory containment checked by listing.",
'P34': "differential against the estimator / LIBSVM used directly on the complete data.",
'P35': "eigenproblem rebuilt from brute-force neighbours with numpy.",
'P36': "twin with the option off (same random state), exact equality where the order of summation is the same.",
'P37': "round trips over every invertible node of the table and compositions; linear nodes on arbitrary output vectors.",
'P38': "sub-processes with dependencies hidden/too old/disabled, compared with a model of the configuration; numpy vs scipy backend run of the same generated cases (lib/backend_server.py).",
}
out=[]
for l in open('/verif/properties.jsonl'):
    d=json.loads(l); pid=d['id']
    subs=harness.load_check(pid)
    out.append('### %s %s\n\nOracle: %s\n' % (pid, d['title'], ORACLE[pid]))
    f=harness.QSCALE.get(pid,1)
    out.append('Sub-properties (quick/thorough cases; what makes a case non-trivial): '+
      '; '.join('`%s` %d/%d %s'%(s.name,int(s.quick*f),s.thorough,s.rule) for s in subs)+'.\n')
open('/tmp/design_props.md','w').write('\n'.join(out))
