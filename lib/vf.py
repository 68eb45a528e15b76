"""Infrastructure of the checks: build the harness from /repo's working tree, run it under MPI in a
scratch folder, run TLC (design models and trace validation), report, write evidence."""
import hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CMAKE_OPTS = ["-DCMAKE_BUILD_TYPE=Release", "-DDISCOTEC_TIMING=ON", "-DDISCOTEC_ENABLEFT=OFF", "-DDISCOTEC_GENE=OFF",
    "-DDISCOTEC_USE_HIGHFIVE=OFF", "-DDISCOTEC_OPENMP=ON", "-DDISCOTEC_USE_LTO=OFF", "-DDISCOTEC_WITH_COMPRESSION=ON",
    "-DDISCOTEC_COMPILE_ARCH=x86-64-v2", "-DCOMPILER_SUPPORTS_MARCH_NATIVE=OFF", "-DFETCHCONTENT_FULLY_DISCONNECTED=ON"]
NCPU = os.cpu_count() or 8

class CheckError(Exception):
    """the check itself could not be carried out (exit 2)"""

class Rejected(Exception):
    """the implementation's behaviour is not one the specification allows"""
    def __init__(self, what, detail=""):
        super().__init__(what); self.what = what; self.detail = detail

def log(*a):
    print("[%6.1f]" % (time.time() - T0), *a, flush=True)
T0 = time.time()

def mpi_env():
    e = dict(os.environ)
    e.update(OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", OMPI_MCA_btl="self,vader",
             OMPI_MCA_btl_vader_single_copy_mechanism="none", OMPI_MCA_mpi_yield_when_idle="1",
             OMPI_MCA_rmaps_base_oversubscribe="1", OMP_NUM_THREADS="2", OMP_WAIT_POLICY="passive",
             OMPI_MCA_plm_rsh_agent="", HOME=os.environ.get("HOME", "/root"))
    return e

class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.thorough = tier == "thorough"
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=0)
        self.detail = {}
        self.assumptions = []
        self.known = []          # KNOWN-FINDING lines
        os.makedirs(BUILD, exist_ok=True)
        self.scratch = tempfile.mkdtemp(prefix="run_%s_" % pid, dir=BUILD)
        self.lock = threading.Lock()
        self.reported = []       # (what, replay)

    # ---------------------------------------------------------------- build
    def build(self, targets):
        bdir = os.path.join(BUILD, "obj")
        os.makedirs(bdir, exist_ok=True)
        import fcntl
        lk = open(os.path.join(BUILD, "build.lock"), "w"); fcntl.flock(lk, fcntl.LOCK_EX)
        t = time.time()
        hashes = {}
        for base in (REPO + "/src", REPO + "/third_level_manager", REPO + "/tools", VERIF + "/harness"):
            for d, _, fs in sorted(os.walk(base)):
                for f in sorted(fs):
                    p = os.path.join(d, f)
                    if not f.endswith((".cpp", ".hpp", ".h", ".txt", ".c", ".cc", ".inc", ".ipp")): continue
                    try: hashes[p] = hashlib.sha256(open(p, "rb").read()).hexdigest()
                    except OSError: pass
        stamp = os.path.join(BUILD, "stamp.json")
        old, st_m = {}, 0
        if os.path.exists(stamp):
            old = json.load(open(stamp)); st_m = os.path.getmtime(stamp)
        # contents decide: if a file changed but its time stamp is not newer than the last build, start over
        stale = [p for p in set(hashes) | set(old) if hashes.get(p) != old.get(p)]
        if old and any((not os.path.exists(p)) or os.path.getmtime(p) <= st_m + 1 for p in stale):
            shutil.rmtree(bdir, ignore_errors=True); os.makedirs(bdir)
        env = dict(os.environ); env.update(CC="gcc", CXX="g++")
        if not os.path.exists(bdir + "/build.ninja"):
            r = subprocess.run(["cmake", "-S", VERIF + "/harness", "-B", bdir, "-G", "Ninja", "-DREPO=" + REPO,
                "-DCMAKE_CXX_FLAGS_RELEASE=-O1 -DNDEBUG"] + CMAKE_OPTS, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
            if r.returncode: raise CheckError("cmake failed:\n" + r.stdout[-3000:])
        if os.path.exists(stamp): os.remove(stamp)
        r = subprocess.run(["ninja", "-C", bdir, "-j%d" % NCPU] + list(targets), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
        if r.returncode: raise CheckError("build failed:\n" + r.stdout[-6000:])
        json.dump(hashes, open(stamp, "w"))
        fcntl.flock(lk, fcntl.LOCK_UN); lk.close()
        log("built", " ".join(targets), "in %.1fs" % (time.time() - t))

    def exe(self, name): return os.path.join(BUILD, "obj", name)

    # ---------------------------------------------------------------- run
    def newdir(self, name):
        d = tempfile.mkdtemp(prefix=name + "_", dir=self.scratch)
        return d

    def run(self, cmd, cwd, timeout, env=None, what=""):
        """returns (rc, output); rc None on timeout"""
        e = mpi_env()
        tmpd = os.path.join(BUILD, "t"); os.makedirs(tmpd, exist_ok=True)
        e["TMPDIR"] = tmpd
        if env: e.update({k: str(v) for k, v in env.items()})
        outp = os.path.join(cwd, "stdout_%d.log" % (time.time_ns()))
        with open(outp, "wb") as fo:
            p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=fo, stderr=subprocess.STDOUT, start_new_session=True, stdin=subprocess.DEVNULL)
            try: rc = p.wait(timeout)
            except subprocess.TimeoutExpired:
                rc = None
                self.killtree(p.pid)
                p.wait()
            else:
                self.killtree(p.pid)
        try: out = open(outp, errors="replace").read()
        except OSError: out = ""
        return rc, out

    @staticmethod
    def killtree(pid):
        """ends the processes of the session started for pid (mpiexec puts ranks into own groups: walk /proc)"""
        sess = []
        for q in os.listdir("/proc"):
            if q.isdigit():
                try:
                    s = open("/proc/%s/stat" % q).read().rsplit(")", 1)[1].split()
                    if int(s[3]) == pid: sess.append(int(q))
                except OSError: pass
        for q in sess:
            try: os.kill(q, signal.SIGKILL)
            except OSError: pass

    def mpirun(self, n, exe, args, timeout=240, env=None, cwd=None):
        cwd = cwd or self.newdir("mpi")
        cmd = ["mpiexec", "--oversubscribe", "--bind-to", "none", "-n", str(n), exe] + [str(a) for a in args]
        t = time.time()
        rc, out = self.run(cmd, cwd, timeout, env)
        log("ran %s %s on %d ranks: rc=%s in %.1fs" % (os.path.basename(exe), " ".join(str(a) for a in args[:6]), n, rc, time.time() - t))
        return rc, out, cwd

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, cfg, env=None, workers=1, timeout=600, extra=(), heap="2g", deque=False, coverage=False, simulate=None):
        meta = tempfile.mkdtemp(prefix="tlc_", dir=self.scratch)
        cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + meta, "-Dtlc2.TLC.stopAfter=%d" % timeout]
        if deque: cmd += ["-Dtlc2.tool.queue.IStateQueue=StateDeque"]
        cmd += ["-cp", JAR, "tlc2.TLC", "-metadir", meta, "-workers", str(workers), "-noGenerateSpecTE", "-config", cfg]
        if coverage: cmd += ["-coverage", "1"]
        if simulate: cmd += ["-simulate", simulate]
        cmd += list(extra) + [module]
        e = dict(os.environ)
        if env: e.update({k: str(v) for k, v in env.items()})
        try:
            r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout + 60)
            rc, out = r.returncode, r.stdout
        except subprocess.TimeoutExpired as ex:
            rc, out = -9, (ex.stdout or b"").decode(errors="replace") if isinstance(ex.stdout, bytes) else (ex.stdout or "")
        shutil.rmtree(meta, ignore_errors=True)
        out = "\n".join(x for x in out.splitlines() if not x.startswith(("Parsing file", "Semantic processing", "Linting of")))
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        gen = dist = 0
        if m: gen, dist = (int(x.replace(",", "")) for x in m[-1])
        return dict(rc=rc, out=out, generated=gen, distinct=dist)

    def model(self, module, cfg, timeout=600, workers=None, name=None, heap="6g", need_actions=(), env=None, extra=()):
        """exhaustive check of a design model; its failure is an error of the check, not of the code"""
        t = time.time()
        r = self.tlc(module, cfg, workers=workers or NCPU, timeout=timeout, heap=heap, coverage=bool(need_actions), env=env, extra=extra)
        if r["rc"] != 0 or "Model checking completed. No error has been found" not in r["out"]:
            raise CheckError("model %s/%s failed (rc %s):\n%s" % (module, cfg, r["rc"], r["out"][-4000:]))
        for a in need_actions:
            m = re.findall(r"<%s line .*?>: (\d+):(\d+)" % re.escape(a), r["out"])
            if not m or all(int(x[1]) == 0 for x in m): raise CheckError("model %s/%s: action %s never taken\n%s" % (module, cfg, a, r["out"][-3000:]))
        self.cov["states"] += r["distinct"]; self.cov["transitions"] += r["generated"]
        self.detail.setdefault("models", []).append(dict(model=name or cfg, distinct_states=r["distinct"], generated=r["generated"], wall_s=round(time.time() - t, 1)))
        log("model %s: %d distinct states, %d generated, %.1fs" % (cfg, r["distinct"], r["generated"], time.time() - t))
        return r

    def generate(self, module, cfg, timeout=300, env=None, simulate=None, workers=1, marker="@@", extra=()):
        """runs TLC and returns the JSON values printed by the specification on lines starting with marker"""
        r = self.tlc(module, cfg, workers=workers, timeout=timeout, env=env, simulate=simulate, extra=extra)
        if r["rc"] != 0: raise CheckError("generator %s/%s failed (rc %s):\n%s" % (module, cfg, r["rc"], r["out"][-3000:]))
        vals = []
        for line in r["out"].splitlines():
            line = line.strip()
            if line.startswith('"' + marker):
                vals.append(json.loads(json.loads(line)[len(marker):]))
        self.cov["states"] += r["distinct"]; self.cov["transitions"] += r["generated"]
        return vals

    def _validate_file(self, module, cfg, path, nlines, timeout, env=None, heap="3g", deque=False):
        e = {"TRACE": path}; e.update(env or {})
        r = self.tlc(module, cfg, env=e, workers=1, timeout=timeout, heap=heap, deque=deque)
        out = r["out"]
        ok = r["rc"] == 0 and "Model checking completed. No error has been found" in out
        reached = None
        m = re.findall(r"TRACE-REACHED (\d+) OF (\d+)", out)
        if m: reached = int(m[-1][0])
        if ok:
            if reached is None or reached != nlines:
                raise CheckError("trace spec %s accepted but reached %s of %d" % (module, reached, nlines))
            return dict(ok=True, reached=reached, r=r)
        if reached is not None and reached < nlines and ("ostcondition" in out or "OSTCONDITION" in out or "postcondition" in out.lower()):
            return dict(ok=False, reached=reached, r=r, why="no action of the specification explains the event")
        if "Invariant" in out and "is violated" in out:
            return dict(ok=False, reached=reached if reached is not None else -1, r=r, why=re.findall(r"Invariant \S+ is violated", out)[0])
        raise CheckError("TLC failed on %s with %s (rc %s):\n%s" % (path, module, r["rc"], out[-4000:]))

    def validate(self, module, cfg, trace, shards=None, timeout=600, env=None, label="", deque=False, heap="3g"):
        """validates a trace (ndjson, cases start with an event e="case"); raises Rejected"""
        lines = [l for l in open(trace, errors="replace").read().splitlines() if l.strip()]
        cases, cur = [], []
        for i, l in enumerate(lines):
            if '"e":"case"' in l and cur: cases.append(cur); cur = []
            cur.append(l)
        if cur: cases.append(cur)
        if not cases: raise Rejected("the harness recorded nothing (%s)" % label, trace)
        # balance by bytes
        k = min(shards or NCPU, len(cases))
        buckets = [[] for _ in range(k)]; load = [0] * k
        for c in sorted(cases, key=lambda c: -sum(map(len, c))):
            j = load.index(min(load)); buckets[j].append(c); load[j] += sum(map(len, c)) + 200
        files = []
        for j, b in enumerate(buckets):
            p = "%s.shard%d" % (trace, j)
            ls = [x for c in b for x in c]
            open(p, "w").write("\n".join(ls) + "\n"); files.append((p, ls))
        t = time.time()
        with ThreadPoolExecutor(max_workers=NCPU) as ex:
            res = list(ex.map(lambda f: self._validate_file(module, cfg, f[0], len(f[1]), timeout, env, heap, deque), files))
        bad = None
        for (p, ls), r in zip(files, res):
            self.cov["states"] += r["r"]["distinct"]; self.cov["transitions"] += r["r"]["generated"]
            if not r["ok"] and bad is None:
                n = r["reached"]
                # the case the event belongs to
                k0 = max([i for i in range(0, min(n, len(ls) - 1) + 1) if '"e":"case"' in ls[i]] or [0])
                k1 = next((i for i in range(k0 + 1, len(ls)) if '"e":"case"' in ls[i]), len(ls))
                bad = (r["why"], ls[k0], ls[n] if 0 <= n < len(ls) else "?", ls[k0:k1], r)
        if bad is None:
            self.cov["traces_validated_against_impl"] += len(cases); self.cov["samples"] += len(lines)
            self.detail.setdefault("traces", []).append(dict(spec=module, label=label, cases=len(cases), events=len(lines), wall_s=round(time.time() - t, 1)))
            log("trace %s %s: %d cases, %d events accepted in %.1fs" % (module, label, len(cases), len(lines), time.time() - t))
            return len(cases)
        why, case, ev, caselines, r = bad
        raise Rejected("%s (%s%s): %s ... in %s" % (why, module, " " + label if label else "", ev[:400], case[:300]), "\n".join(caselines))

    # ---------------------------------------------------------------- decide
    def attempt(self, fn, what, repeats=1, need=1):
        """fn records and validates; a rejection counts if it repeats in a second execution"""
        try:
            fn(); return True
        except Rejected as first:
            log("rejected (%s): %s -- repeating to confirm" % (what, first.what[:600]))
            hits = 0; last = first
            for _ in range(repeats):
                try: fn()
                except Rejected as again:
                    hits += 1; last = again
                    if hits >= need: break
            if hits >= need:
                self.violation(what + ": " + last.what, last.detail or last.what)
                return False
            log("the rejection did not repeat; not reported")
            self.detail.setdefault("unrepeated", []).append(first.what[:500])
            return True

    def replay(self, np, exe, args, spec, what, timeout=300, label="", env=None, repeats=1, validate_timeout=700, cfg=None):
        """runs a recording harness and validates what it recorded; decides (attempt)"""
        def f():
            rc, out, d = self.mpirun(np, self.exe(exe), ["%s=%s" % kv for kv in args.items()] + ["out=trace.ndjson"], timeout=timeout, env=env)
            if rc != 0:
                try: tail = open(d + "/trace.ndjson", errors="replace").read()[-1500:]
                except OSError: tail = ""
                raise Rejected("%s ended with %s: %s" % (exe, rc, out[-800:]), out[-3000:] + "\n" + tail)
            self.validate(spec, cfg or spec + ".cfg", d + "/trace.ndjson", label=label or what, timeout=validate_timeout)
            shutil.rmtree(d, ignore_errors=True)
        return self.attempt(f, what, repeats=repeats)

    def violation(self, what, detail):
        d = os.path.join(BUILD, "replay"); os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s_%d.ndjson" % (self.pid, len(self.reported)))
        open(p, "w").write("# " + what.replace("\n", " ") + "\n" + str(detail) + "\n")
        self.reported.append((what, p))
        log("VIOLATION detail:", what[:1500])

    def finish(self, level, err=None):
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=level,
                  coverage=dict(self.cov, **self.detail), wall_s=round(time.time() - T0, 1),
                  assumptions=self.assumptions, violations=[dict(what=w[:2000], replay=p) for w, p in self.reported])
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        json.dump(ev, open(VERIF + "/evidence/%s.json" % self.pid, "w"), indent=1)
        shutil.rmtree(self.scratch, ignore_errors=True)

def known_findings(pid):
    """entries 'known: property=<id> key=<key> text' of known_findings.txt"""
    res = {}
    p = VERIF + "/known_findings.txt"
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l.strip())
            if m and m.group(1) == pid: res[m.group(2)] = m.group(3)
    return res
