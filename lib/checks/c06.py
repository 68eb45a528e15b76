"""C06 points of component grids and subspaces of the distributed sparse grid"""
from vf import *
LEVEL = "model_checking"
def run(c):
    c.build(["h_sparse"])
    c.model("MCSparseA", "MCSparse.cfg", need_actions=("Register", "Allocate", "AddGrid", "Extract"))
    if c.thorough: c.model("MCSparseA", "MCSparse_big.cfg", timeout=2000)
    c.replay(8, "h_sparse", dict(seed=c.seed, n=6000 if c.thorough else 800), "TrSparse", "sparse grid operations")
