"""C22 subspace size files prepared by the tool"""
import itertools, random
from concurrent.futures import ThreadPoolExecutor
from vf import *
LEVEL = "model_checking"

def combis(lmin, lmax):
    """classical scheme (levels and coefficients) over the dimensions that are refined"""
    dims = [d for d in range(len(lmin)) if lmax[d] > lmin[d]]
    if not dims: return [(tuple(lmin), 1)]
    n = min(lmax[d] - lmin[d] for d in dims)
    lo = [lmax[d] - n if d in dims else lmin[d] for d in range(len(lmin))]
    box = [tuple(x) for x in itertools.product(*[range(lo[d], lmax[d] + 1) for d in range(len(lmin))]) if sum(x) <= sum(lo) + n]
    S = set(box); r = []
    for x in box:
        c = sum((-1) ** sum(z) for z in itertools.product((0, 1), repeat=len(x)) if tuple(a + b for a, b in zip(x, z)) in S)
        if c: r.append((x, c))
    return r

def case(r, nmax):
    while True:
        dim = r.choice((1, 2, 2, 2, 3, 3, 4))
        k = r.randint(0, nmax)
        e = [0] * dim
        for _ in range(k): e[r.randrange(dim)] += 1
        lmin = [max(1, e[d]) + (r.random() < .2) for d in range(dim)]
        lmax = [l + r.choice((0, 1, 1, 2, 2, 3)) for l in lmin]
        if sum(lmax) > 9: continue
        nsys = r.choice((1, 2, 2, 2, 3))
        if r.random() < .5:
            # one scheme shared by the systems
            s = combis(lmin, lmax)
            if len(s) < nsys: continue
            r.shuffle(s)
            cut = sorted(r.sample(range(1, len(s)), nsys - 1))
            sys_ = [s[i:j] for i, j in zip([0] + cut, cut + [len(s)])]
        else:
            box = [tuple(x) for x in itertools.product(*[range(a, b + 1) for a, b in zip(lmin, lmax)])]
            sys_ = [[(x, r.choice((1, -1, 2))) for x in r.sample(box, min(len(box), r.randint(1, 4)))] for _ in range(nsys)]
        return dict(np=2 ** k, dim=dim, lmin=lmin, lmax=lmax, P=[2 ** x for x in e], sys=sys_)

def run(c):
    c.build(["h_sizes", "subspace_writer"])
    c.model("MCSizes", "MCSizes.cfg", need_actions=("Register", "Agree", "Exchange"))
    if c.thorough: c.model("MCSizes", "MCSizes_big.cfg", timeout=2000)
    c.assumptions += ["periodic grids (one boundary point), as the tool assumes", "numbers of processes per dimension are powers of two not above the smallest grid's points", "scheme file names end as the tool expects"]
    def go(seed, n, nmax):
        r = random.Random(seed)
        top = c.newdir("sizes")
        cases = [case(r, nmax) for _ in range(n)]
        def one(i):
            q = cases[i]; d = "%s/c%03d" % (top, i); os.makedirs(d)
            base = r"run%d" % i
            names = ["%s/%s_part%d_00008groups.json" % (d, base, k) for k in range(len(q["sys"]))]
            for f, s in zip(names, q["sys"]):
                rows = []
                for j, (lv, co) in enumerate(s):
                    x = dict(coeff=float(co), level=list(lv))
                    if i % 2: x["group_no"] = j % 3
                    rows.append(x)
                json.dump(rows, open(f, "w"), indent=i % 3 or None)
            ini = "[ct]\ndim = %d\nlmin = %s\nlmax = %s\np = %s\nctscheme = %s\n" % (q["dim"], " ".join(map(str, q["lmin"])), " ".join(map(str, q["lmax"])), " ".join(map(str, q["P"])), names[0])
            if len(names) > 1: ini += "[subspace]\notherctscheme = %s\n" % names[1]
            if len(names) > 2: ini += "thirdctscheme = %s\n[thirdLevel]\nnumSystems = 3\n" % names[2]
            ini += "[manager]\nngroup = 1\nnprocs = %d\n" % q["np"]
            open(d + "/ctparam", "w").write(ini)
            fs = ["%s/%s_part%d.sizes" % (d, base, k) for k in range(len(names))] + (["%s/%sconjoint.sizes" % (d, base)] if len(names) > 1 else [])
            for again in range(2 if i % 6 == 0 else 1):
                rc, out, _ = c.mpirun(q["np"], c.exe("subspace_writer"), ["ctparam"], timeout=120, cwd=d)
                if rc != 0: return "the tool ended with %s on %s: %s" % (rc, ini, out[-600:])
                for f in fs:
                    if not os.path.exists(f): return "no file %s after %s" % (os.path.basename(f), ini)
                    # files of an earlier run are replaced
                    if i % 6 == 0 and not again: n = os.path.getsize(f); open(f, "r+b").write(b"\x07" * n)
            v = lambda x: " ".join(map(str, x))
            q["line"] = " ".join([str(q["np"]), str(q["dim"]), v(q["lmin"]), v(q["lmax"]), v(q["P"]), str(len(names))]
                                 + ["%d %s" % (len(s), " ".join(v(l) for l, _ in s)) for s in q["sys"]] + [str(len(fs))] + fs)
        with ThreadPoolExecutor(max_workers=4) as ex: errs = [x for x in ex.map(one, range(n)) if x]
        if errs: raise Rejected(errs[0], "\n".join(errs))
        open(top + "/cases.txt", "w").write("\n".join(q["line"] for q in cases) + "\n")
        rc, out, _ = c.mpirun(2 ** nmax, c.exe("h_sizes"), ["cases=cases.txt", "out=trace.ndjson"], timeout=200, cwd=top)
        if rc != 0: raise Rejected("reading the files ended with %s: %s" % (rc, out[-800:]), out[-3000:])
        c.validate("TrSizes", "TrSizes.cfg", top + "/trace.ndjson", label="seed%d" % seed)
        shutil.rmtree(top, ignore_errors=True)
    for i in range(6 if c.thorough else 1):
        if not c.attempt(lambda: go(c.seed * 10 + i, 60, 3), "subspace size files"): return
