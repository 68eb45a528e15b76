"""C13 files"""
from vf import *
LEVEL = "model_checking"
def run(c):
    c.build(["h_io"])
    c.model("MCFiles", "MCFiles.cfg", need_actions=("Write", "Close", "Enter", "Read", "Leave"))
    if c.thorough: c.model("MCFiles", "MCFiles_big.cfg", timeout=2500)
    c.assumptions += ["compressed files are read as compressed files by as many processes as wrote them"]
    k = 8 if c.thorough else 1
    for n in (3, 8, 1, 4, 6):
        if not c.replay(n, "h_io", dict(seed=c.seed * 10 + n, n=200 * k, big=4 * k), "TrFiles", "writing and reading files with %d processes" % n, label="files, %d processes" % n, timeout=100 * (4 if c.thorough else 1)): return
