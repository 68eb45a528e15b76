"""C15 network transport"""
from vf import *
LEVEL = "model_checking"
def run(c):
    c.build(["h_net"])
    c.model("MCNet", "MCNet.cfg", need_actions=("Recv", "NextArray", "Broken"))
    if c.thorough: c.model("MCNet", "MCNet_big.cfg", timeout=2500)
    c.assumptions += ["messages and arrays are not empty", "elements are numbers (bytes of a complex number are not reversed part by part)"]
    for i in range(12 if c.thorough else 3):
        if not c.replay(1, "h_net", dict(seed=c.seed * 100 + i, n=1500), "TrNet", "transfers over split streams", label="transfers %d" % i, timeout=150): return
