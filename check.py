#!/usr/bin/env python3
"""check.py <PROPERTY> [quick|thorough]  - runs the monitors that decide one property.

Everything is rebuilt from /repo's current tree in a scratch directory that is removed at the
end.  Exit 0: no violation was observed; exit 1: a VIOLATION line was printed; exit 2: the
check could give no answer (the tree does not build, a monitor timed out twice, ...).
"""
import concurrent.futures as cf
import glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(HERE, "monitor"))
import jobs as J  # noqa: E402

NCPU = min(8, os.cpu_count() or 1)


class NoAnswer(Exception):
    pass


# ---------------------------------------------------------------- building
def run(cmd, timeout=600, cwd=None, env=None):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout,
                          cwd=cwd, env=env, text=True, errors="replace")


def must(cmd, what):
    r = run(cmd)
    if r.returncode != 0:
        raise NoAnswer("%s failed: %s\n%s" % (what, " ".join(cmd)[:400], r.stdout[-2500:]))


def library_sources(srcdir):
    """The files of src/ that the project's own build compiles (one unity file on the pinned commit)."""
    try:
        txt = re.sub(r"#.*", "", open(os.path.join(srcdir, "CMakeLists.txt")).read())
        names = []
        for body in re.findall(r"add_library\s*\(([^)]*)\)", txt):
            for w in re.findall(r"(?<![\w./-])[\w-]+\.c\b", body):
                if w not in names and os.path.exists(os.path.join(srcdir, w)):
                    names.append(w)
    except OSError:
        names = []
    return names or ["target.c"]


class Builder:
    def __init__(self, scratch):
        self.dir = scratch
        self.futs = {}
        self.pool = cf.ThreadPoolExecutor(NCPU)
        self.outer = cf.ThreadPoolExecutor(64)
        self.libs = cf.ThreadPoolExecutor(16)
        self.lock = threading.Lock()
        self.flock = threading.Lock()

    def includes(self, cfg):
        """Include directories; variants of a header constant use an edited copy."""
        c = J.CONFIGS[cfg]
        if not c.get("sed"):
            return [os.path.join(REPO, "include"), os.path.join(REPO, "third_party")]
        d = os.path.join(self.dir, cfg, "include")
        with self.lock:
            if not os.path.isdir(d):
                shutil.copytree(os.path.join(REPO, "include"), d)
                for fn, pat, rep in c["sed"]:
                    p = os.path.join(d, fn)
                    s = open(p).read()
                    s2, n = re.subn(pat, rep, s, count=1, flags=re.M)
                    if n == 1:   # otherwise the option is gone and this configuration equals the default one
                        open(p, "w").write(s2)
        return [d, os.path.join(REPO, "third_party")]

    def lib(self, cfg):
        key = ("lib", cfg)
        with self.flock:
          if key not in self.futs:
            self.futs[key] = self.libs.submit(self._lib, cfg)
        return self.futs[key]

    def _lib(self, cfg):
        c = J.CONFIGS[cfg]
        d = os.path.join(self.dir, cfg)
        os.makedirs(d, exist_ok=True)
        inc = ["-I" + i for i in self.includes(cfg)]
        srcdir = os.path.join(REPO, "src")
        srcs = [os.path.join(srcdir, f) for f in library_sources(srcdir)]
        srcs += [s for s in sorted(glob.glob(os.path.join(REPO, "third_party", "*.c")))
                 if os.path.basename(s) != "cpu_caps.c"]
        objs, fs = [], []
        for s in srcs:
            o = os.path.join(d, os.path.basename(s)[:-2] + ".o")
            objs.append(o)
            fs.append(self.pool.submit(must, [c["cc"]] + c["cflags"] + inc + ["-c", s, "-o", o],
                                       "compiling " + s))
        for f in fs:
            f.result()
        a = os.path.join(d, "libfaz.a")
        must(["ar", "rcs", a] + objs, "ar")
        return a

    def driver(self, name, cfg):
        key = ("drv", name, cfg)
        with self.flock:
          if key not in self.futs:
            self.futs[key] = self.outer.submit(self._driver, name, cfg)
        return self.futs[key]

    def _driver(self, name, cfg):
        c = J.CONFIGS[cfg]
        spec = J.DRIVERS[name]
        lf = self.lib(cfg)
        d = os.path.join(self.dir, cfg)
        os.makedirs(d, exist_ok=True)
        inc = ["-I" + i for i in self.includes(cfg)] + ["-I" + os.path.join(HERE, "harness")]
        src = os.path.join(HERE, "harness", spec["src"])
        out = os.path.join(d, name)
        cmd = [c["cxx"]] + c["cxxflags"] + spec.get("cxxflags", []) + inc + ["-c", src]
        # configurations that differ only in how the library is compiled share the driver's object
        obj = os.path.join(self.dir, "drv-%s-%s.o" % (name, hashlib.sha1(" ".join(cmd).encode()).hexdigest()[:12]))
        with self.flock:
          if obj not in self.futs:
            self.futs[obj] = self.pool.submit(must, cmd + ["-o", obj], "compiling driver " + name)
        self.futs[obj].result()
        extra = [self.pool.submit(self._simulated, name, cfg, i, a, inc).result() for i, a in enumerate(spec.get("simulate", []))]
        a = lf.result()
        must([c["cxx"]] + c.get("ldflags", []) + [obj] + extra + [a] + spec.get("ldflags", []) +
             ["-lgmpxx", "-lgmp", "-lpthread", "-o", out], "linking driver " + name)
        return out


    def _simulated(self, name, cfg, i, spec, inc):
        """Compiles a C file to assembly, replaces its cpuid instructions by calls to the driver, assembles it."""
        c = J.CONFIGS[cfg]
        src, defs, probe = spec
        src = src.replace("{repo}", REPO).replace("{here}", HERE)
        defs = [x.replace("{repo}", REPO) for x in defs]
        if probe and re.search(probe[1], open(probe[0].replace("{repo}", REPO)).read()):
            defs = defs + probe[2]
        base = os.path.join(self.dir, cfg, "%s-sim%d" % (name, i))
        os.makedirs(os.path.dirname(base), exist_ok=True)
        must([c["cc"]] + c["cflags"] + defs + ["-mno-red-zone"] + inc + ["-S", src, "-o", base + ".s"], "compiling " + src)
        s = open(base + ".s").read()
        s, n = re.subn(r"(^|[;\n])([ \t]*)cpuid\b", r"\1\2call verif_cpuid", s)
        open(base + ".s", "w").write(s)
        must([c["cc"], "-c", base + ".s", "-o", base + ".o"], "assembling " + src)
        return base + ".o"


# ---------------------------------------------------------------- running
FAIL_RE = re.compile(r"^FAIL (\S+) ?(.*)$", re.M)
ENV = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=97:allocator_may_return_null=1:handle_segv=1:max_allocation_size_mb=8000",
       "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=97",
       "TSAN_OPTIONS": "exitcode=97:halt_on_error=1:history_size=7"}


def one_shard(cmdline, timeout):
    env = dict(os.environ)
    env.update(ENV)
    t = time.time()
    try:
        p = subprocess.run(cmdline, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout,
                           env=env, stdin=subprocess.DEVNULL)
        out, err, rc = p.stdout.decode("utf-8", "replace"), p.stderr.decode("utf-8", "replace"), p.returncode
    except subprocess.TimeoutExpired as e:
        out = (e.stdout or b"").decode("utf-8", "replace")
        return {"rc": None, "timeout": True, "fails": FAIL_RE.findall(out), "report": None, "out": out[-3000:],
                "err": "", "wall": time.time() - t}
    rep = None
    for line in out.splitlines():
        if line.startswith("REPORT "):
            try:
                rep = json.loads(line[7:])
            except ValueError:
                rep = None
    return {"rc": rc, "timeout": False, "fails": FAIL_RE.findall(out), "report": rep, "out": out[-6000:],
            "err": err[-6000:], "wall": time.time() - t}


SAN_RE = re.compile(r"(AddressSanitizer|ThreadSanitizer|MemorySanitizer|runtime error|LeakSanitizer)[^\n]*")


def abnormal(res):
    """A stable key for an execution that did not end with a report."""
    m = re.search(r"^(CRASH signal=\d+|HANG) op=(\S+)", res["out"], re.M)
    if m:
        return "%s.%s" % ("crash" if m.group(1).startswith("CRASH") else "hang", m.group(2)), m.group(0)
    m = SAN_RE.search(res["err"]) or SAN_RE.search(res["out"])
    if m:
        txt = res["err"]
        loc = re.search(r"([\w./-]+\.(?:c|h|cpp|hpp)):(\d+)", m.group(0)) or re.search(r"#\d+ .* ([\w./-]+\.(?:c|h)):(\d+)", txt)
        kind = re.search(r"(heap-buffer-overflow|stack-buffer-overflow|global-buffer-overflow|use-after-poison|heap-use-after-free|"
                         r"stack-use-after|data race|misaligned|overflow|shift|out of bounds|null pointer|SEGV)", m.group(0) + txt)
        return "sanitizer.%s.%s" % (kind.group(1).replace(" ", "-") if kind else "report",
                                    os.path.basename(loc.group(1)) if loc else "unknown"), m.group(0)[:300]
    if res["rc"] is not None and res["rc"] < 0:
        return "crash.signal%d" % -res["rc"], "killed by signal %d" % -res["rc"]
    return None, None


def load_known():
    known = []
    p = os.path.join(HERE, "known-findings.txt")
    for line in open(p):
        m = re.match(r"known: property=(\S+) key=(\S+) match=/(.*?)/ (.*)$", line.strip())
        if m:
            known.append({"property": m.group(1), "key": m.group(2), "match": re.compile(m.group(3)), "what": m.group(4)})
    return known


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    keep = os.environ.get("VERIF_KEEP")
    spec = J.PROPS[prop]
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    replay_dir = os.path.join(HERE, "replay")
    os.makedirs(replay_dir, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    rc = 2
    try:
        rc = decide(prop, tier, seed, spec, t0, scratch, replay_dir)
    except NoAnswer as e:
        print("NO-ANSWER property=%s %s" % (prop, e))
        rc = 2
    finally:
        if not keep:
            shutil.rmtree(scratch, ignore_errors=True)
        else:
            print("scratch kept:", scratch)
    return rc


def decide(prop, tier, seed, spec, t0, scratch, replay_dir):
    b = Builder(scratch)
    jobs = [j for j in spec["jobs"] if j.get(tier, 1) not in (0, None)]
    for j in jobs:
        b.driver(j["driver"], j.get("cfg", "k0"))
    tbuild = time.time()
    exes, unbuilt = {}, {}
    for j in jobs:
        k = (j["driver"], j.get("cfg", "k0"))
        try:
            exes[k] = b.driver(*k).result()
        except NoAnswer as e:
            if k[1] == "k0":
                raise
            unbuilt[k] = str(e)
    # a secondary build that does not compile leaves its jobs without a verdict; the others still decide
    if unbuilt:
        left = [j for j in jobs if (j["driver"], j.get("cfg", "k0")) in exes]
        if 2 * len(left) < len(jobs):
            raise NoAnswer("most builds failed: " + next(iter(unbuilt.values())))
        jobs = left
    tbuild = time.time() - tbuild
    tasks = []
    for j in jobs:
        cfg = j.get("cfg", "k0")
        nsh = j.get("shards", 8)
        exe = exes[(j["driver"], cfg)]
        of = j.get("of", nsh)      # the quick tier runs nsh of these slices (which ones depends on the seed), the thorough tier all
        if tier == "thorough":
            nsh = max(nsh, of)
        for i in range(nsh):
            s = (i + seed * nsh) % of if of > nsh else i
            args = [j["cmd"], "--seed=%d" % seed, "--tier=%s" % tier, "--shard=%d/%d" % (s, max(of, nsh)),
                    "--scale=%g" % j.get(tier, 1)] + j.get("args", [])
            tasks.append((j, cfg, s, j.get("prefix", []) + [exe] + args, args))
    # long jobs first; every task is one single-threaded process unless the job says otherwise
    tasks.sort(key=lambda t: -t[0].get("weight", 1))
    budget = 840 if tier == "quick" else 6 * 3600
    results = []

    def go(t):
        left = budget - (time.time() - t0)
        if left < 20:
            return t, {"rc": None, "timeout": True, "fails": [], "report": None, "out": "", "err": "", "wall": 0}, 0
        r = one_shard(t[3], left)
        n = 1
        if r["report"] is None and not r["timeout"] and not r["fails"]:
            k, _ = abnormal(r)
            r2 = one_shard(t[3], max(20, budget - (time.time() - t0)))
            n = 2
            k2, _ = abnormal(r2)
            r["reproduced"] = (r2["report"] is None and (k2 is not None)) or k is None
            if r2["report"] is not None and k is None:
                r = r2
            elif r2["report"] is not None:
                r["reproduced"] = k.startswith("sanitizer.")   # a sanitizer report is itself a proof
        return t, r, n

    workers = max(1, NCPU // max(1, spec.get("threads", 1)))
    with cf.ThreadPoolExecutor(workers) as ex:
        results = list(ex.map(go, tasks))

    known = [k for k in load_known() if k["property"] == prop]
    evals = distinct = nfails = 0
    seen_in, classes, failkeys, samples, viol, knownhit, inconclusive, per = {}, {}, {}, [], {}, {}, [], {}
    for (j, cfg, s, cmdline, args), r, n in results:
        rep = r["report"]
        tag = "%s/%s@%s" % (j["driver"], j["cmd"], cfg)
        pe = per.setdefault(tag, {"evaluations": 0, "distinct": 0, "cpu_s": 0.0, "executions": 0})
        pe["executions"] += n
        pe["cpu_s"] = round(pe["cpu_s"] + r["wall"], 2)
        if rep:
            evals += rep["evaluations"]
            distinct += rep["distinct"]
            pe["evaluations"] += rep["evaluations"]
            pe["distinct"] += rep["distinct"]
            for k, v in rep["classes"].items():
                kk = "%s:%s" % (tag, k)
                classes[kk] = classes.get(kk, 0) + v
            for x in rep["samples"][:2]:
                if len(samples) < 12:
                    samples.append(tag + " " + x[:700])
        events = list(r["fails"])
        if rep is None and not events:
            k, msg = abnormal(r)
            if k and r.get("reproduced"):
                events.append((k, (msg or "") + " | " + (r["err"] or r["out"])[-1500:].replace("\n", " / ")))
            elif k:
                inconclusive.append("%s shard %d: %s not reproduced" % (tag, s, k))
            elif r["timeout"]:
                inconclusive.append("%s shard %d: timeout" % (tag, s))
            else:
                inconclusive.append("%s shard %d: no report, rc=%s %s" % (tag, s, r["rc"], (r["err"] or r["out"])[-400:]))
        elif rep is None and events:
            k, msg = abnormal(r)
            if k:
                events.append((k, msg))
        for key, detail in events:
            nfails += 1
            if j.get("keys") and not re.match(j["keys"], key) and not key.startswith(("crash.", "hang.", "sanitizer.")):
                continue
            hit = [k for k in known if k["key"] == key and k["match"].search(detail)]
            if hit:
                knownhit.setdefault(hit[0]["what"], detail)
                continue
            failkeys[key] = failkeys.get(key, 0) + 1
            seen_in.setdefault(key, set()).add(cfg)
            if key not in viol:
                viol[key] = {"property": prop, "key": key, "detail": detail, "config": cfg, "driver": j["driver"],
                             "args": args, "tier": tier, "seed": seed,
                             "how": "VERIF_KEEP=1 VERIF_SEED=%d python3 /verif/check.py %s %s, then run <scratch>/%s/%s %s"
                                    % (seed, prop, tier, cfg, j["driver"], " ".join(args)),
                             "output_tail": (r["out"] + r["err"])[-3000:]}
    # a key with a quorum is an event that one compiler may produce by itself; it counts when most builds show it
    below = {}
    for pat, q in spec.get("quorum", {}).items():
        for key in [k for k in viol if re.search(pat, k)]:
            if len(seen_in[key]) < q:
                below[key] = sorted(seen_in[key])
                del viol[key]
    nreports = sum(1 for x in results if x[1]["report"])
    minev = spec.get("min_evaluations", 1)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": spec.get("level", "exploration"),
          "coverage": {"evaluations": evals, "distinct_nontrivial": distinct, "rule": spec["rule"], "samples": samples,
                       "observed": classes, "jobs": per, "processes_reporting": nreports, "processes": len(results),
                       "build_configurations": sorted({(j.get("cfg", "k0")) for j in jobs}),
                       "inconclusive": inconclusive, "builds_that_failed": {"%s@%s" % k: m[-600:] for k, m in unbuilt.items()}, "known_findings_observed": sorted(knownhit), "below_quorum": below},
          "assumptions": spec.get("assumptions", []) + J.COMMON_ASSUMPTIONS,
          "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    for what in sorted(knownhit):
        print("KNOWN-FINDING: property=%s %s" % (prop, what))
    print("property=%s tier=%s seed=%d evaluations=%d distinct=%d processes=%d/%d build=%.1fs wall=%.1fs"
          % (prop, tier, seed, evals, distinct, nreports, len(results), tbuild, time.time() - t0))
    for i in inconclusive:
        print("inconclusive:", i)
    for k, m in unbuilt.items():
        print("not built: %s@%s %s" % (k + (m.splitlines()[0][:200],)))
    if viol:
        for key, v in sorted(viol.items()):
            name = "%s-%s-%s.json" % (prop, re.sub(r"[^\w.-]", "_", key)[:60], hashlib.sha1(v["detail"].encode()).hexdigest()[:8])
            path = os.path.join(replay_dir, name)
            json.dump(v, open(path, "w"), indent=1)
            print("  %s: %s" % (key, v["detail"][:400]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if nreports == 0 or evals < minev:
        print("NO-ANSWER property=%s only %d evaluations" % (prop, evals))
        return 2
    if inconclusive:
        # some monitors gave no verdict: whatever reported was clean, but this is not a pass
        print("NO-ANSWER property=%s" % prop)
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
