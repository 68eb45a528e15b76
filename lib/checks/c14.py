"""C14 broker between two systems"""
from vf import *
LEVEL = "model_checking"
def run(c):
    c.build(["h_broker", "h_tcp", "thirdLevelManager"])
    c.model("MCBroker", "MCBroker.cfg", need_actions=("Poll", "BOther", "BI", "BO", "BReady", "BEnd"))
    if c.thorough: c.model("MCBroker", "MCBroker_big.cfg", timeout=2500)
    c.assumptions += ["both systems ask for the same operations in the same order", "every process of a system has at least one point of the sparse grid"]
    for i in range(10 if c.thorough else 2):
        if not c.replay(1, "h_broker", dict(seed=c.seed * 100 + i, n=70), "TrBroker", "two systems and the broker", label="sessions %d" % i, timeout=200): return
    for i in range(6 if c.thorough else 1):
        for w, n in ((4, 25), (6, 25), (8, 20), (10, 20)):
            if not c.replay(w, "h_tcp", dict(seed=c.seed * 100 + 10 * i + w, n=n), "TrCouple", "two managed systems and the broker", label="coupled %d.%d" % (w, i), timeout=200): return
