"""C19 reported extreme coefficients"""
from vf import *
LEVEL = "model_checking"
def run(c):
    c.build(["h_extreme"])
    c.model("MCExtreme", "MCExtreme.cfg", need_actions=("Collect", "Send", "Forward", "Report"))
    if c.thorough: c.model("MCExtreme", "MCExtreme_big.cfg", timeout=2000)
    c.assumptions += ["with the chunked variant, values are collected during the combination before they are reported", "coefficients with at most six digits (the report's precision)"]
    k = 10 if c.thorough else 1
    for n, mg in ((4, 0), (5, 1), (6, 0), (7, 1), (3, 0), (1, 0)):
        if not c.replay(n, "h_extreme", dict(seed=c.seed * 10 + n, n=40 * k, managed=mg), "TrExtreme", "extreme coefficients on %d processes%s" % (n, ", managed" if mg else ""), label="%d processes" % n, timeout=100 * k): return
