"""C17 coefficients after lost grids"""
from vf import *
LEVEL = "model_checking"
def run(c):
    c.build(["h_fault"])
    c.model("MCFault", "MCFault.cfg", need_actions=("Lose", "NoLoss", "Decide", "Recompute", "Combine", "Restore"))
    c.model("MCFault", "MCFault_1.cfg")
    if c.thorough: c.model("MCFault", "MCFault_big.cfg", timeout=2500)
    c.assumptions += ["schemes with equally many levels in every refined dimension (as the optimisation states)", "one process per group; the coefficients are the same for any number of processes"]
    for i in range(30 if c.thorough else 5):
        if not c.replay(2, "h_fault", dict(seed=c.seed * 100 + i, n=400), "TrFault", "coefficients after lost grids", label="faults %d" % i, timeout=300): return
