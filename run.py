#!/usr/bin/env python3
"""Builds /repo's current working tree with the monitors of /verif and runs one check.

  run.py check C01            tier and seed from VERIF_TIER / VERIF_SEED
  run.py replay FILE          re-executes the case recorded in a replay file
  run.py build MODE C01 ...   build only

exit 0: held on everything explored, 1: VIOLATION line printed, 3: the check itself failed.
"""
import fcntl, hashlib, json, os, re, resource, shutil, signal, subprocess, sys, time
VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
KNOWN = os.path.join(VERIF, "known_findings.jsonl")
sys.path.insert(0, VERIF)
from checks import CHECKS, MODES

NPROC = max(1, min(8, os.cpu_count() or 1))


class HarnessError(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def build(mode, targets):
    """configure + build; returns the build folder"""
    m = MODES[mode]
    bdir = os.path.join(BUILD, mode)
    os.makedirs(bdir, exist_ok=True)
    with open(os.path.join(bdir, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        cmd = ["cmake", "-G", "Ninja", "-S", REPO, "-B", bdir, "-Wno-dev", "-DCMAKE_POLICY_VERSION_MINIMUM=3.5",
               "-DCMAKE_PROJECT_INCLUDE=" + os.path.join(VERIF, "cmake/inject.cmake"), "-DVERIF_DIR=" + VERIF,
               "-DFETCHCONTENT_FULLY_DISCONNECTED=ON", "-DPYTHON_EXECUTABLE=/usr/bin/python3", "-DPython_EXECUTABLE=/usr/bin/python3",
               "-DCMAKE_BUILD_TYPE=None", "-DCMAKE_CXX_COMPILER=" + m["cxx"], "-DCMAKE_C_COMPILER=" + m["cc"],
               "-DCMAKE_CXX_FLAGS=" + m["flags"].replace("@VERIF@", VERIF), "-DCMAKE_EXE_LINKER_FLAGS=" + m.get("ld", ""),
               "-DCMAKE_EXPORT_COMPILE_COMMANDS=ON"]
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0")
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
        if r.returncode:
            raise HarnessError("cmake failed:\n" + r.stdout[-4000:])
        r = subprocess.run(["ninja", "-C", bdir, "-j", str(NPROC)] + targets, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
        if r.returncode:
            raise HarnessError("build failed:\n" + r.stdout[-6000:])
    return bdir


def find_exe(bdir, target):
    for d, _, fs in os.walk(bdir):
        if target in fs and os.access(os.path.join(d, target), os.X_OK):
            return os.path.join(d, target)
    raise HarnessError("no executable " + target)


def crash_key(rc, err):
    m = re.search(r"VERIF-EIGEN-ASSERT (\S+?):\d+ ([^\n]*)", err)
    if m:
        return "eigen-assertion", "Eigen assertion %s: %s" % (m.group(1), m.group(2)[:200])
    m = re.search(r"^==\d+== (Conditional jump|Use of uninit|Invalid (?:read|write|free)|Mismatched free|Source and dest|Syscall param|Argument|realloc|Jump to)[^\n]*(?:\n==\d+==    [^\n]*){0,8}", err, re.M)
    if m:
        fr = [x for x in re.findall(r"(?:at|by) 0x[0-9A-F]+: ([^\n]*)", m.group(0)) if "mrob::" in x]
        return "memcheck-" + m.group(1).replace(" ", "-").lower(), m.group(0).splitlines()[0] + " in " + "; ".join(fr[:3])[:300]
    m = re.search(r"SUMMARY: (\w+): ([^\n]*)", err)
    if m:
        kind = m.group(2).split()[0]
        return "sanitizer-" + m.group(1) + "-" + re.sub(r"[^\w-]", "", kind), m.group(0)[:300]
    m = re.search(r"([^\s:]+:\d+:\d+): runtime error: ([^\n]*)", err)
    if m:
        return "undefined-behaviour", m.group(0)[:300]
    m = re.search(r"Assertion [^\n]*|terminate called[^\n]*", err)
    if m:
        return "abort", m.group(0)[:300]
    return "crash", "exit status %d" % rc


class Run:
    """one harness executable over a range of cases, in parallel shards"""

    def __init__(self, prop, harness, mode, exe, seed, ncases, limit, thorough, env=None, wrapper=None, nshards=None, extra=None):
        self.__dict__.update(locals())
        self.extra = extra or []
        self.V, self.C, self.R, self.S, self.D = [], {}, {}, [], set()
        self.evals = self.skipped = self.checks = 0
        self.tmp = os.path.join(BUILD, "run-%s-%s-%d" % (harness, mode, os.getpid()))

    def cmd(self, frm, to, stride, out, prog, limit):
        c = (self.wrapper or []) + [self.exe, "--seed", str(self.seed), "--from", str(frm), "--to", str(to), "--stride", str(stride),
                                    "--out", out, "--progress", prog, "--limit", str(limit)] + self.extra
        if self.thorough:
            c.append("--thorough")
        return c

    def start(self, k, frm):
        out, prog, err = [os.path.join(self.tmp, "%s%d" % (x, k)) for x in ("out", "prog", "err")]
        e = dict(os.environ); e.update(self.env or {})
        if os.path.exists(prog):
            os.unlink(prog)
        ef = open(err, "wb")
        p = subprocess.Popen(self.cmd(frm, self.ncases, self.n, out, prog, self.limit), stdout=subprocess.DEVNULL, stderr=ef, env=e, cwd=self.tmp, preexec_fn=self.memlimit)
        ef.close()
        self.watch[k] = (None, time.time(), 0.0)
        return p

    def memlimit(self):
        """runaway allocations fail inside the harness (and are judged there) instead of bringing the machine down"""
        if self.mode == "plain" and not self.wrapper:
            resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30))

    def stalled(self, k, p):
        """a shard that made no progress although its case used up its CPU budget (a signal handler that never ran), or is blocked"""
        now = time.time()
        try:
            st = open(os.path.join(self.tmp, "prog%d" % k)).read()
            f = open("/proc/%d/stat" % p.pid).read().rsplit(")", 1)[1].split()
            cpu = (int(f[11]) + int(f[12])) / os.sysconf("SC_CLK_TCK")
        except (OSError, IndexError, ValueError):
            return False
        old, t, c0 = self.watch[k]
        if st != old:
            self.watch[k] = (st, now, cpu)
            return False
        return cpu - c0 > 1.5 * self.limit + 5 or (now - t > 240 and cpu - c0 < 0.02 * (now - t))

    def go(self):
        shutil.rmtree(self.tmp, ignore_errors=True)
        os.makedirs(self.tmp)
        self.n = self.nshards or NPROC
        self.watch = {}
        procs = {k: self.start(k, k) for k in range(self.n)}
        crashes = {k: 0 for k in range(self.n)}
        self.cut = set()      # shards stopped before they finished
        t0, crashed = time.time(), None
        while procs:
            time.sleep(0.02)
            if time.time() - t0 > 5:
                t0 = time.time()
                for k, p in procs.items():
                    if self.stalled(k, p):
                        p.kill(); p.wait(); p.returncode = 77
            if self.V and crashed is None:
                crashed = time.time()
            if crashed and time.time() - crashed > 90:      # decided; what the other shards would still do cannot change the answer
                for k, q in procs.items():
                    q.kill(); q.wait(); self.cut.add(k)
                procs.clear()
            for k, p in list(procs.items()):
                rc = p.poll()
                if rc is None:
                    continue
                del procs[k]
                nxt = self.finish(k, rc)
                if any(v["key"].startswith("no-progress") for v in self.V):
                    for q in procs.values():      # what the other shards would still do cannot change the answer
                        if q.poll() is None:
                            q.kill(); q.wait()
                    for q in procs:
                        self.cut.add(q)
                    procs.clear()
                    break
                if nxt is not None:
                    crashes[k] += 1
                    hung = any(v["key"].startswith("no-progress") for v in self.V)     # decided: more of them only cost time
                    if crashes[k] < 4 and nxt < self.ncases and len(self.V) < 60 and not hung:
                        procs[k] = self.start(k, nxt)
        for k in range(self.n):
            self.parse(os.path.join(self.tmp, "out%d" % k))
        shutil.rmtree(self.tmp, ignore_errors=True)
        return self

    def finish(self, k, rc):
        """returns the case to resume from after a crash"""
        prog = os.path.join(self.tmp, "prog%d" % k)
        err = open(os.path.join(self.tmp, "err%d" % k), errors="replace").read()
        done = False
        try:
            done = "DONE\n" in open(os.path.join(self.tmp, "out%d" % k)).read()[-64:]
        except OSError:
            pass
        if rc == 0 and done:
            return None
        try:
            f = open(prog).read().split()
            case, scen = int(f[0]), f[1]
        except (OSError, IndexError, ValueError):
            if "Sanitizer" in err:
                key, msg = crash_key(rc, err)
                self.V.append(dict(case=0, scenario="start", key=key, msg=msg, stderr=err[-6000:]))
                return None
            raise HarnessError("harness did not run: rc=%d %s" % (rc, err[-3000:]))
        if done:      # finished its cases, failed at exit: leak report, race report
            if "LeakSanitizer" in err:
                self.V.append(dict(case=case, scenario="whole-shard", key="leak", msg=self.leak(err), stderr=err[-6000:], shard=k))
            elif "ThreadSanitizer" in err:
                key, msg = crash_key(rc, err)
                self.V.append(dict(case=case, scenario="whole-shard", key=key, msg=msg, stderr=err[-6000:], shard=k))
            else:
                key, msg = crash_key(rc, err)
                self.V.append(dict(case=case, scenario="at-exit", key=key, msg=msg, stderr=err[-6000:], shard=k))
            return None
        if rc in (77, -signal.SIGPROF):
            if any(v["key"].startswith("no-progress") for v in self.V):
                return None
            # bounded-progress monitor: the case alone, with five times the budget, decides
            e = dict(os.environ); e.update(self.env or {})
            o = os.path.join(self.tmp, "single%d" % k)
            try:
                q = subprocess.run(self.cmd(case, case + 1, 1, o, o + "p", self.limit * 5), stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=e, cwd=self.tmp, timeout=max(300, self.limit * 10))
            except subprocess.TimeoutExpired:
                q = None
            if q is None or q.returncode in (77, -signal.SIGPROF):
                self.V.append(dict(case=case, scenario=scen, key="no-progress:" + scen, msg="no result within %g CPU seconds" % (self.limit * 5)))
            elif q.returncode != 0:
                key, msg = crash_key(q.returncode, q.stderr.decode(errors="replace"))
                self.V.append(dict(case=case, scenario=scen, key=key + ":" + scen, msg=msg, stderr=q.stderr.decode(errors="replace")[-6000:]))
            else:
                self.parse(o)
            return case + self.n
        if rc == -signal.SIGKILL and k not in self.cut:
            # ended from outside (memory): the case alone decides
            e = dict(os.environ); e.update(self.env or {})
            o = os.path.join(self.tmp, "single%d" % k)
            q = subprocess.run(self.cmd(case, case + 1, 1, o, o + "p", self.limit * 5), stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=e, cwd=self.tmp, preexec_fn=self.memlimit)
            if q.returncode:
                self.V.append(dict(case=case, scenario=scen, key="ended:" + scen, msg="the case alone ends with status %d (memory)" % q.returncode, stderr=q.stderr.decode(errors="replace")[-6000:]))
                return case + self.n
            raise HarnessError("harness killed (memory?)")
        key, msg = crash_key(rc, err)
        self.V.append(dict(case=case, scenario=scen, key=key + ":" + scen, msg=msg, stderr=err[-6000:]))
        return case + self.n

    @staticmethod
    def leak(err):
        fr = re.findall(r"#\d+ 0x[0-9a-f]+ in ([^\n]*)", err)
        return "leak: " + "; ".join(x[:120] for x in fr[:4])

    def parse(self, path):
        try:
            f = open(path)
        except OSError:
            return
        for line in f:
            a = line.rstrip("\n").split("\t")
            if a[0] == "V" and len(a) >= 5:
                self.V.append(dict(case=int(a[1]), scenario=a[2], key=a[3], msg=a[4]))
            elif a[0] == "E":
                self.evals += int(a[1]); self.skipped += int(a[2]); self.checks += int(a[3])
            elif a[0] == "C":
                self.C[a[1]] = self.C.get(a[1], 0) + int(a[2])
            elif a[0] == "R":
                self.R[a[1]] = max(self.R.get(a[1], 0), float(a[2]))
            elif a[0] == "S":
                self.S.append("\t".join(a[1:]))
            elif a[0] == "D":
                self.D.update(a[1:])


def load_known(prop):
    out = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if not l or l.startswith("#") or l.startswith("fixed:"):
                continue
            d = json.loads(l)
            if d["property"] == prop:
                out[d["key"]] = d
    return out


def tree_state():
    r = subprocess.run(["git", "-C", REPO, "rev-parse", "HEAD"], capture_output=True, text=True)
    d = subprocess.run(["git", "-C", REPO, "diff", "HEAD"], capture_output=True)
    return r.stdout.strip()[:12] + ("+" + hashlib.sha1(d.stdout).hexdigest()[:8] if d.stdout else "")


def python_stage(st, mode):
    """the python module and the C interface of the current tree; returns script, interpreter, environment"""
    bdir = build(mode, ["mrob", "verif_bridge"])
    pyd = [d for d, _, fs in os.walk(bdir) if any(f.startswith("mrob.") and f.endswith(".so") for f in fs)]
    if not pyd:
        raise HarnessError("python module not built")
    env = dict(st.get("env", {}), PYTHONPATH=pyd[0] + ":" + os.path.join(VERIF, "harness", "pystub"), VERIF_BRIDGE=find_exe(bdir, "libverif_bridge.so"),
               PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
    return os.path.join(VERIF, "harness", st["harness"] + ".py"), ["/usr/bin/python3"], env


def check(prop, tier=None):
    t0 = time.time()
    tier = tier or os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    cfg = CHECKS[prop]
    runs = []
    for st in cfg["stages"]:
        if tier == "quick" and st.get("thorough_only"):
            continue
        n = st[tier]
        mode = st.get("mode", "plain")
        log("[%s] build %s %s" % (prop, mode, st["harness"]))
        t1 = time.time()
        if st.get("python"):
            ex, wrapper, env = python_stage(st, mode)
        else:
            bdir = build(mode, ["verif_" + st["harness"]])
            ex, wrapper, env = find_exe(bdir, "verif_" + st["harness"]), MODES[mode].get("wrapper"), dict(MODES[mode].get("env", {}), **st.get("env", {}))
        log("[%s] built in %.1fs, running %d cases" % (prop, time.time() - t1, n))
        t1 = time.time()
        extra = [x.replace("@VERIF@", VERIF) for x in st.get("args", [])]
        runs.append((st, Run(prop, st["harness"], mode, ex, seed, n, st.get("limit", 10), tier == "thorough", env=env, wrapper=wrapper, nshards=st.get("shards"), extra=extra).go()))
        log("[%s] ran in %.1fs" % (prop, time.time() - t1))
    known = load_known(prop)
    rdir = os.path.join(VERIF, "replays")
    os.makedirs(rdir, exist_ok=True)
    new, hit = {}, {}
    for st, r in runs:
        for v in r.V:
            v["mode"], v["harness"], v["stage"] = r.mode, r.harness, cfg["stages"].index(st)
            full = v["key"]
            if full in known:
                hit.setdefault(full, v)
            else:
                new.setdefault(full, []).append(v)
    ev = sum(r.evals for _, r in runs)
    distinct = set()
    counters, ratios, samples = {}, {}, []
    for st, r in runs:
        distinct |= {r.harness + r.mode + x for x in r.D}
        for k, x in r.C.items():
            kk = k if len(runs) == 1 else "%s/%s" % (r.harness + ("" if r.mode == "plain" else "-" + r.mode), k)
            counters[kk] = counters.get(kk, 0) + x
        for k, x in r.R.items():
            ratios[k] = max(ratios.get(k, 0), x)
        samples += r.S[:6]
    evid = dict(property=prop, tier=tier, seed=seed, level="exploration",
                coverage=dict(evaluations=ev, distinct_nontrivial=len(distinct), rule=cfg["rule"], samples=samples[:8],
                              monitor_evaluations=sum(r.checks for _, r in runs), outside_domain=sum(r.skipped for _, r in runs),
                              observed=counters, worst_error_over_tolerance={k: float("%.3g" % x) if x == x and abs(x) != float("inf") else str(x) for k, x in sorted(ratios.items())},
                              modes=sorted({r.mode for _, r in runs}), tree=tree_state()),
                assumptions=cfg.get("assumptions", []), wall_s=round(time.time() - t0, 1), violations=len(new),
                known_findings_observed=sorted(hit))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(evid, f, indent=1)
    for k, d in known.items():
        # a listed finding is reported whenever its own input was explored in this run
        if k in hit:
            print("KNOWN-FINDING: property=%s %s" % (prop, d["what"]))
        else:
            log("listed finding %s was not observed in this run" % k)
    for key, vs in sorted(new.items()):
        v = min(vs, key=lambda x: (x["stage"], x["case"]))
        name = "%s-%s.json" % (prop, re.sub(r"[^\w.-]+", "_", key)[:80])
        path = os.path.join(rdir, name)
        with open(path, "w") as f:
            json.dump(dict(v, property=prop, seed=seed, tier=tier, occurrences=len(vs), tree=tree_state()), f, indent=1)
        log("  %s case %d %s: %s" % (key, v["case"], v["scenario"], v["msg"][:600]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    sys.stdout.flush()
    floor = cfg.get("floor", {}).get(tier, 1)
    if not new and len(distinct) < floor:
        raise HarnessError("only %d distinct non-trivial cases observed (floor %d)" % (len(distinct), floor))
    log("[%s] %s: %d cases, %d distinct, %d monitor evaluations, %d violations, %.1fs" % (prop, tier, ev, len(distinct), evid["coverage"]["monitor_evaluations"], len(new), time.time() - t0))
    return 1 if new else 0


def replay(path):
    d = json.load(open(path))
    st = CHECKS[d["property"]]["stages"][d["stage"]]
    mode = d["mode"]
    os.environ["VERIF_SEED"], os.environ["VERIF_TIER"] = str(d["seed"]), d["tier"]
    if st.get("python"):
        ex, wrapper, e = python_stage(st, mode)
        cmd, env = wrapper + [ex], dict(os.environ, **e)
    else:
        bdir = build(mode, ["verif_" + d["harness"]])
        cmd, env = MODES[mode].get("wrapper", []) + [find_exe(bdir, "verif_" + d["harness"])], dict(os.environ, **MODES[mode].get("env", {}))
    frm, to, stride = d["case"], d["case"] + 1, 1
    if "shard" in d:
        frm, to, stride = d["shard"], st[d["tier"]], st.get("shards") or NPROC
    cmd += ["--seed", str(d["seed"]), "--from", str(frm), "--to", str(to), "--stride", str(stride), "--limit", str(st.get("limit", 10) * 5)] + [x.replace("@VERIF@", VERIF) for x in st.get("args", [])]
    if d["tier"] == "thorough":
        cmd.append("--thorough")
    r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
    sys.stdout.write("".join(l + "\n" for l in r.stdout.splitlines() if l.startswith("V\t")))
    sys.stderr.write(r.stderr[-6000:])
    bad = r.returncode != 0 or "\nV\t" in "\n" + r.stdout
    print("reproduced" if bad else "not reproduced")
    return 1 if bad else 0


def main():
    try:
        if sys.argv[1] == "check":
            rc = check(sys.argv[2], sys.argv[sys.argv.index("--tier") + 1] if "--tier" in sys.argv else None)
        elif sys.argv[1] == "replay":
            rc = replay(sys.argv[2])
        elif sys.argv[1] == "build":
            build(sys.argv[2], ["verif_" + x for x in sys.argv[3:]]); rc = 0
        elif sys.argv[1] == "selftest":   # setup_cmd: the tools the checks need are there
            for t in ("cmake", "ninja", "g++", "clang++", "git"):
                if not shutil.which(t):
                    raise HarnessError("missing tool " + t)
            os.makedirs(BUILD, exist_ok=True)
            rc = 0
        else:
            raise HarnessError("usage")
    except HarnessError as e:
        log("CHECK ERROR: %s" % e)
        rc = 3
    sys.exit(rc)


if __name__ == "__main__":
    main()
