LEVEL = "model_checking"
def run(c):
    c.build(["h_scheme"])
    deep = c.tier == "thorough"
    c.model("MCScheme.tla", "MCScheme_big.cfg" if deep else "MCScheme.cfg", timeout=800)
    c.assumptions += ["combination coefficients are small integers (exactly representable)", "levels below 32"]
    seeds = range(c.seed, c.seed + (6 if deep else 1))
    for s in seeds:
        if not c.replay(3, "h_scheme", dict(mode="scheme", seed=s, n=150 if deep else 60, deep=int(deep)), "TrScheme", "combination schemes", label="schemes"): return
