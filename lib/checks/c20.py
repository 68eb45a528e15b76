"""C20 tasks, parameters and files travel unchanged"""
from vf import *
LEVEL = "model_checking"
def run(c):
    c.build(["h_transfer"])
    c.model("MCTransfer", "MCTransfer.cfg", need_actions=("SendTask", "SendParams", "Pass"))
    if c.thorough: c.model("MCTransfer", "MCTransfer_big.cfg", timeout=2500)
    c.assumptions += ["coefficients are finite numbers", "process 0 can read the configuration files"]
    for i in range(10 if c.thorough else 2):
        for w in (1, 2, 3, 5, 7, 9) if c.thorough else (2, 3, 5, 7):
            if not c.replay(w, "h_transfer", dict(seed=c.seed * 100 + 10 * i + w, n=150), "TrTransfer", "transfer of objects", label="np%d.%d" % (w, i), timeout=200): return
