"""C18 load models and rescheduling decisions"""
from vf import *
LEVEL = "model_checking"
def run(c):
    c.build(["h_load"])
    c.model("MCLoad", "MCLoad.cfg", need_actions=("Move", "Measure"))
    c.model("MCLoad", "MCLoad_noise.cfg")
    if c.thorough:
        c.model("MCLoad", "MCLoad_thr.cfg", timeout=1500)
        c.model("MCLoad", "MCLoad_big.cfg", timeout=3000)
    c.assumptions += ["every level asked about was announced to the load model", "every level with a duration has a placement"]
    for i in range(20 if c.thorough else 3):
        if not c.replay(1, "h_load", dict(seed=c.seed * 100 + i, n=1200), "TrLoad", "load models and rescheduling", label="histories %d" % i, timeout=300): return
