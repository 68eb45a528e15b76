"""C10 rescheduling"""
from vf import *
LEVEL = "model_checking"
def run(c):
    c.build(["h_manager"])
    c.model("Managed", "MCManaged_big.cfg", need_actions=("RunFirst", "RunNext", "Combine", "Query", "MoveIn", "Return", "Exit", "Meet"))
    if c.thorough: c.model("Managed", "MCManaged_thr.cfg", timeout=2500)
    c.assumptions += ["tasks are moved after a combination with sparse grid reduce and before the next solver step", "all subspaces of all grids are part of the sparse grid"]
    k = 8 if c.thorough else 1
    for n in (7, 5, 9, 4):
        if not c.replay(n, "h_manager", dict(seed=c.seed * 10 + n, n=100 * k, mode="move"), "TrManaged", "managed run with moving tasks on %d processes" % n, label="moving tasks, %d processes" % n, timeout=150 * k, repeats=3): return
