"""Runs nodes with the scipy backend: reads a line {"node", "seed", "n"}, writes the pickled outputs.  (Recent versions of
scipy lack the alias scipy.random, which is all that keeps the backend from being chosen.)"""
import base64
import json
import os
import pickle
import sys
import warnings
warnings.simplefilter("ignore")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.environ["VERIF_REPO_PATH"], HERE]
out = os.fdopen(os.dup(1), "w")
os.dup2(2, 1)
import numpy as np  # noqa: E402
import scipy  # noqa: E402
scipy.random = sys.modules["scipy.random"] = np.random
import mdp  # noqa: E402
from lib.nodetab import TAB  # noqa: E402
from lib import gen, backend_funcs  # noqa: E402
np.seterr(all="ignore")


def run(q):
    if 'f' in q:
        return backend_funcs.run(q)
    e = TAB[q["node"]]
    cfg = e.cfg(q["seed"])
    nd = cfg.new()
    x = cfg.data(e.n, 0)
    gen.reseed(5)
    if e.trainable:
        if e.online:
            nd.train(x)
        else:
            e.train(nd, cfg, x)
    z = cfg.data(e.rows(q["n"]), 1)
    gen.reseed(6)
    return [np.asarray(r) for r in cfg.outputs(nd, z, 1)]


if __name__ == "__main__":
    out.write(mdp.numx_description + "\n")
    out.flush()
    for line in sys.stdin:
        try:
            r = ("ok", run(json.loads(line)))
        except Exception as ex:
            r = ("error", "%s: %s" % (type(ex).__name__, ex))
        out.write(base64.b64encode(pickle.dumps(r)).decode() + "\n")
        out.flush()
