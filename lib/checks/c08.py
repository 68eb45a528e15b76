LEVEL = "model_checking"
def run(c):
    c.build(["h_layout"])
    deep = c.tier == "thorough"
    c.model("MCLayout.tla", "MCLayout_big.cfg" if deep else "MCLayout.cfg", need_actions=("Reinit", "Output"), timeout=1500)
    c.assumptions += ["number of processes per group divisible by the number of file parts", "fault tolerance disabled"]
    # (processes, groups, manager, caller-made local communicators)
    shapes = [(9, 2, 1, 0), (12, 3, 0, 1), (7, 3, 1, 1), (5, 5, 0, 0), (2, 1, 1, 0), (16, 4, 0, 0)]
    if deep: shapes += [(13, 4, 1, 0), (13, 6, 1, 1), (8, 1, 0, 1), (16, 5, 1, 0), (11, 10, 1, 1), (1, 1, 0, 0), (24, 6, 0, 0)]
    # more than three groups of even more processes each
    if not c.replay(21, "h_layout", dict(seed=c.seed * 100 + 50, n=60 if deep else 12, ng=4, mgr=1, own=0), "TrLayout", "process layout with 21 processes", label="21 processes"): return
    if not c.replay(30, "h_layout", dict(seed=c.seed * 100 + 51, n=40 if deep else 8, ng=5, mgr=0, own=0), "TrLayout", "process layout with 30 processes", label="30 processes"): return
    for k, (n, ng, m, own) in enumerate(shapes):
        if not c.replay(n, "h_layout", dict(seed=c.seed * 100 + k, n=150 if deep else 40, ng=ng, mgr=m, own=own), "TrLayout", "process layout with %d processes" % n, label="%d processes" % n): return
