"""C21 timing records"""
from vf import *
LEVEL = "model_checking"
def run(c):
    c.build(["h_stats"])
    c.model("MCStats", "MCStats.cfg", need_actions=("Start", "Stop", "Compose", "Write", "Back"))
    if c.thorough: c.model("MCStats", "MCStats_big.cfg", timeout=2000)
    c.assumptions += ["events of the same name do not overlap on a process; all events have ended when the final file is written; names and values need no escaping in JSON"]
    k = 10 if c.thorough else 1
    for n in (1, 3, 6):
        if not c.replay(n, "h_stats", dict(seed=c.seed * 10 + n, n=40 * k), "TrStats", "timing records of %d processes" % n, label="%d processes" % n, timeout=100 * k): return
