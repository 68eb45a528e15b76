"""C16 evaluation of grids and combined solutions"""
from vf import *
LEVEL = "model_checking"
def run(c):
    c.build(["h_eval"])
    c.model("MCEval", "MCEval.cfg")
    c.model("MCEval", "MCEval_2d.cfg")
    if c.thorough: c.model("MCEval", "MCEval_big.cfg", timeout=2000)
    c.assumptions += ["coordinates are dyadic so that all arithmetic is exact", "the two norm is only required not to depend on the distribution and to be one of the two usual normalisations"]
    k = 10 if c.thorough else 1
    for n in (8, 6, 3, 1):
        if not c.replay(n, "h_eval", dict(seed=c.seed * 10 + n, n=150 * k), "TrEval", "evaluation of grids on %d processes" % n, label="grids, %d processes" % n, timeout=120 * k): return
    for n in (8, 6, 3):
        if not c.replay(n, "h_eval", dict(seed=c.seed * 10 + n, n=40 * k, mode="combi"), "TrEvalC", "evaluation of combined solutions on %d processes" % n, label="combinations, %d processes" % n, timeout=150 * k): return
