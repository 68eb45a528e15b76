LEVEL = "model_checking"
def run(c):
    c.build(["h_scheme"])
    deep = c.tier == "thorough"
    c.model("MCDist.tla", "MCDist_big.cfg" if deep else "MCDist.cfg", timeout=800)
    c.assumptions += ["at least as many grids as groups (documented precondition)"]
    for s in range(c.seed, c.seed + (10 if deep else 1)):
        if not c.replay(3, "h_scheme", dict(mode="dist", seed=s, n=1500 if deep else 600), "TrScheme", "distribution of a scheme", label="distribution"): return
