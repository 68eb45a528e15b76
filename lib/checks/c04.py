"""C04 index maps and decompositions of distributed grids"""
from vf import *
LEVEL = "model_checking"
def run(c):
    c.build(["h_grid"])
    c.model("MCGrids", "MCGrids.cfg", need_actions=("PickGrid", "Prescribe", "UseDefault", "Claim"))
    c.model("MCGrids", "MCGrids_1d.cfg")
    if c.thorough: c.model("MCGrids", "MCGrids_big.cfg", timeout=3000)
    n = 2000 if c.thorough else 320
    def rec(seed, n, np=8):
        def f():
            rc, out, d = c.mpirun(np, c.exe("h_grid"), ["seed=%d" % seed, "n=%d" % n, "nbig=%d" % (n // 3), "out=trace.ndjson"], timeout=300)
            if rc != 0: raise Rejected("grid harness ended with %s: %s" % (rc, out[-800:]))
            c.validate("TrGrids", "TrGrids.cfg", d + "/trace.ndjson", label="grids")
        return f
    c.attempt(rec(c.seed, n), "index maps of distributed grids")
