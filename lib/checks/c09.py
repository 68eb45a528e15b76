"""C09 managed runs"""
from vf import *
LEVEL = "model_checking"
def run(c):
    c.build(["h_manager"])
    c.model("Managed", "MCManaged_big.cfg", need_actions=("RunFirst", "RunNext", "Combine", "Query", "MoveIn", "Return", "Exit", "Meet"))
    if c.thorough: c.model("Managed", "MCManaged_thr.cfg", timeout=2500)
    c.assumptions += ["there are at least as many tasks as groups"]
    k = 8 if c.thorough else 1
    for n in (7, 5, 9, 3):
        if not c.replay(n, "h_manager", dict(seed=c.seed * 10 + n, n=100 * k), "TrManaged", "managed run on %d processes" % n, label="managed runs, %d processes" % n, timeout=150 * k, repeats=3): return
