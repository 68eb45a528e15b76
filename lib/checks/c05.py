"""C05 hierarchization and dehierarchization"""
from vf import *
LEVEL = "model_checking"
def run(c):
    c.build(["h_hier"])
    c.model("MCHier", "MCHier.cfg", need_actions=("DoHier", "DoDehier", "Truncate", "DehierT"))
    c.model("MCHier", "MCHier_big.cfg")
    c.replay(8, "h_hier", dict(seed=c.seed, n=3000 if c.thorough else 500), "TrHier", "basis changes on distributed grids")
