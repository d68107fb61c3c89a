"""Common runner: build from /repo's working tree, run the generated-case searches, write evidence, report."""
import os, sys, json, subprocess, hashlib, fcntl, time, shutil, contextlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
VIOL = os.path.join(VERIF, "violations")
EVID = os.path.join(VERIF, "evidence")
SAN = "-fsanitize=address,bounds -fno-omit-frame-pointer"
FLAVORS = {"asan": dict(c="-g -O1 -Wno-error -w " + SAN, cxx="-g -O1 -w " + SAN),
           "fuzz": dict(c="-g -O1 -Wno-error -w -fsanitize=fuzzer-no-link " + SAN, cxx="-g -O1 -w -fsanitize=fuzzer-no-link " + SAN),
           "plain": dict(c="-g -O1 -Wno-error -w", cxx="-g -O1 -w"),
           "tsan": dict(c="-g -O1 -Wno-error -w -fsanitize=thread", cxx="-g -O1 -w -fsanitize=thread")}
# the compiler of the repository's own build, which decides between some code paths; only libFuzzer needs the other one
CC = {f: ("/usr/bin/clang", "/usr/bin/clang++") if f == "fuzz" else ("/usr/bin/gcc", "/usr/bin/g++") for f in FLAVORS}
TARGETS = ["rtrouted", "rbus", "rbus_session_mgr"]


def log(*a):
    print(*a, file=sys.stderr, flush=True)


@contextlib.contextmanager
def lock(name):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, name + ".lock"), "w") as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        yield


def tree_hash(*roots):
    h = hashlib.sha1()
    for r in roots:
        if os.path.isfile(r):
            h.update(r.encode() + b"\0" + open(r, "rb").read())
            continue
        for d, ds, fs in os.walk(r):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                if os.path.islink(p) or not os.path.isfile(p):
                    continue
                h.update(p.encode() + b"\0")
                h.update(open(p, "rb").read())
    return h.hexdigest()


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        log(r.stdout[-6000:])
        raise SystemExit("command failed: %s" % (cmd if isinstance(cmd, str) else " ".join(cmd)))
    return r.stdout


_hash = None


def repo_hash():
    global _hash
    if _hash is None:
        _hash = tree_hash(REPO + "/src", REPO + "/include", REPO + "/CMakeLists.txt", REPO + "/cmake", REPO + "/conf", REPO + "/utils")
    return _hash


def build(flavor="asan", targets=TARGETS):
    """Builds the libraries and the broker from /repo's working tree; rebuilt by content, not by time stamp."""
    d = os.path.join(BUILD, flavor)
    with lock(flavor):
        stamp = os.path.join(d, ".stamp")
        want = repo_hash() + json.dumps(FLAVORS[flavor]) + CC[flavor][0] + " ".join(targets)
        if os.path.exists(stamp) and open(stamp).read() == want:
            return d
        if os.path.exists(stamp):
            os.unlink(stamp)
            subprocess.run(["ninja", "-C", d, "-t", "clean"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        env = dict(os.environ, CC=CC[flavor][0], CXX=CC[flavor][1])
        for k in ("CFLAGS", "CXXFLAGS", "LDFLAGS", "LD_LIBRARY_PATH", "LD_PRELOAD"):
            env.pop(k, None)
        f = FLAVORS[flavor]
        cfg, flags = os.path.join(d, ".flags"), json.dumps(f) + " ".join(CC[flavor]) + REPO
        if not os.path.exists(os.path.join(d, "build.ninja")) or not os.path.exists(cfg) or open(cfg).read() != flags:
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            run(["cmake", "-S", REPO, "-B", d, "-G", "Ninja", "-Wno-dev", "-DCMAKE_BUILD_TYPE=Debug", "-DBUILD_FOR_DESKTOP=ON",
                 "-DCMAKE_POLICY_VERSION_MINIMUM=3.5", "-DCMAKE_C_FLAGS_DEBUG=" + f["c"], "-DCMAKE_CXX_FLAGS_DEBUG=" + f["cxx"]], env=env)
            open(cfg, "w").write(flags)
        run(["ninja", "-C", d] + list(targets), env=env)
        open(stamp, "w").write(want)
    return d


def libdirs(d):
    return [d + "/src/rbus", d + "/src/core", d + "/src/rtmessage", d + "/src/session_manager"]


def build_native(name, flavor="asan", extra=(), srcs=(), lang="cpp"):
    """Compiles harness cpp/<name>_*.cpp against the libraries of a flavor."""
    d = build(flavor)
    out = os.path.join(BUILD, "bin", flavor, name)
    import glob
    own = sorted(glob.glob(os.path.join(VERIF, "cpp", name + "_*.cpp")))
    with lock("bin-" + flavor + "-" + name):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        want = CC[flavor][0] + repo_hash() + tree_hash(VERIF + "/cpp") + " ".join(extra) + " ".join(srcs)
        stamp = out + ".stamp"
        if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == want:
            return out
        defs = ["-DMSG_ROUNDTRIP_TIME=1"] if "-DMSG_ROUNDTRIP_TIME=1" in open(os.path.join(d, "build.ninja")).read() else []
        inc = defs + ["-I" + VERIF + "/cpp", "-I" + REPO + "/include"] + ["-I" + REPO + "/src/" + x for x in ("rtmessage", "core", "rbus")]
        san = {"asan": SAN.split(), "fuzz": ["-fsanitize=fuzzer", "-DPBT_FUZZER"] + SAN.split(), "plain": [], "tsan": ["-fsanitize=thread"]}[flavor]
        objs = []
        for s in srcs:  # files of the repository that are part of no library
            o = out + "." + os.path.basename(s) + ".o"
            run([CC[flavor][0], "-g", "-O1", "-w"] + [x for x in san if x not in ("-fsanitize=fuzzer", "-DPBT_FUZZER")] + (["-fsanitize=fuzzer-no-link"] if flavor == "fuzz" else []) + inc + ["-c", os.path.join(REPO, s), "-o", o])
            objs.append(o)
        ld = []
        for p in libdirs(d)[:3]:
            ld += ["-L" + p, "-Wl,-rpath," + p]
        run([CC[flavor][1], "-std=c++17", "-g", "-O1", "-w"] + san + inc + own + [VERIF + "/cpp/pbt.cpp"] + objs + ["-o", out] + ld + ["-lrbus", "-lrbuscore", "-lrtMessage", "-lpthread", "-lm"] + list(extra))
        open(stamp, "w").write(want)
    return out


def build_bus(flavor="asan"):
    """Broker, libraries, session manager, the process that tests drive (agent) and the shim which gives it a private /tmp."""
    d = build(flavor)
    bus = os.path.join(VERIF, "bus")
    with lock("bus-" + flavor):
        out = os.path.join(BUILD, "agent" if flavor == "asan" else "agent-" + flavor)
        want = CC[flavor][0] + repo_hash() + tree_hash(bus + "/agent.cpp", bus + "/shim.c", bus + "/cli") + flavor
        stamp = out + ".stamp"
        if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == want:
            return d
        defs = ["-DMSG_ROUNDTRIP_TIME=1"] if "-DMSG_ROUNDTRIP_TIME=1" in open(os.path.join(d, "build.ninja")).read() else []
        run(["gcc", "-shared", "-fPIC", "-O1", "-w", bus + "/shim.c", "-o", BUILD + "/shim.so", "-ldl"])
        san = {"asan": SAN.split(), "plain": [], "tsan": ["-fsanitize=thread"]}[flavor]
        ld = []
        for p in libdirs(d)[:3]:
            ld += ["-L" + p, "-Wl,-rpath," + p]
        run([CC[flavor][1], "-std=c++17", "-g", "-O1", "-w"] + san + defs + ["-I" + REPO + "/include"] + ["-I" + REPO + "/src/" + x for x in ("rtmessage", "core")] +
            [bus + "/agent.cpp", "-o", out] + ld + ["-lrbus", "-lrbuscore", "-lrtMessage", "-lcjson", "-lpthread"])
        run([CC[flavor][0], "-std=gnu99", "-g", "-O1", "-w", "-fno-omit-frame-pointer"] + san + defs + ["-I" + bus + "/cli", "-I" + REPO + "/include"] + ["-I" + REPO + "/src/" + x for x in ("rtmessage", "core", "rbus")] +
            [REPO + "/utils/rbuscli/rbuscli.c", bus + "/cli/linenoise.c", "-o", BUILD + "/rbuscli" + ("" if flavor == "asan" else "-" + flavor)] + ld + ["-lrbus", "-lrbuscore", "-lrtMessage", "-lcjson", "-lm", "-lpthread"])
        open(stamp, "w").write(want)
    return d


class Report:
    """Collects what the searches of one check covered and ends with the contract's exit status."""
    def __init__(self, prop, tier, seed, level="exploration"):
        self.prop, self.tier, self.seed, self.level = prop, tier, seed, level
        self.t0 = time.time()
        self.parts, self.violations, self.known, self.assumptions = [], [], [], []

    def part(self, name, evaluations, nontrivial, rule, samples, labels=None, inconclusive=None, wall=0.0, extra=None):
        self.parts.append(dict(name=name, evaluations=evaluations, distinct_nontrivial=nontrivial, rule=rule, samples=samples,
                               labels=labels or {}, inconclusive=inconclusive or [], wall_s=round(wall, 2), **(extra or {})))

    def violation(self, replay, message):
        self.violations.append((replay, message))

    def finish(self):
        os.makedirs(EVID, exist_ok=True)
        cov = dict(evaluations=sum(p["evaluations"] for p in self.parts),
                   distinct_nontrivial=sum(p["distinct_nontrivial"] for p in self.parts),
                   rule=" || ".join("%s: %s" % (p["name"], p["rule"]) for p in self.parts),
                   samples=[dict(search=p["name"], case=s) for p in self.parts for s in p["samples"][:4]],
                   searches=[{k: v for k, v in p.items() if k not in ("samples", "rule")} for p in self.parts],
                   known_findings_confirmed=[k for k in self.known])
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        with open(os.path.join(EVID, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=True)
        for r, m in self.violations:
            print("VIOLATION property=%s replay=%s" % (self.prop, r))
            print("  " + m.replace("\n", "\n  ")[:3000])
        if not self.violations:
            print("OK property=%s tier=%s seed=%s evaluations=%d nontrivial=%d wall=%.1fs" % (self.prop, self.tier, self.seed, cov["evaluations"], cov["distinct_nontrivial"], ev["wall_s"]))
        sys.stdout.flush()
        return 1 if self.violations else 0


def findings(prop):
    """finding: property=<id> demo=<name> <what fails>  ->  [(demo, text)]"""
    out = []
    for line in open(os.path.join(VERIF, "KNOWN_FINDINGS.txt")):
        if line.startswith("finding: property=%s " % prop):
            rest = line.strip().split(" ", 2)[2]
            demo, text = rest.split(" ", 1)
            out.append((demo.split("=", 1)[1], text))
    return out


def run_native(rep, spec, tier, seed, jobs):
    """spec: dict(bin, props=[(name, quick_cases, quick_time, thorough_cases, thorough_time)], extra, srcs)"""
    exe = build_native(spec["bin"], "asan", spec.get("extra", ()), spec.get("srcs", ()))
    vd = os.path.join(VIOL, rep.prop)
    os.makedirs(vd, exist_ok=True)
    env = dict(os.environ)
    for demo, text in findings(rep.prop):
        if not demo.startswith("kf_") or demo not in spec.get("demos", ()):
            continue
        r = subprocess.run([exe, "--prop", demo, "--cases", "1", "--jobs", "1", "--violdir", os.path.join(BUILD, "kf"), "--out", os.path.join(BUILD, "kf.json")], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        if json.load(open(os.path.join(BUILD, "kf.json")))["violated"]:
            print("KNOWN-FINDING: property=%s %s" % (rep.prop, text))
            rep.known.append(demo)
    for name, qc, qt, tc, tt in spec["props"]:
        if rep.violations:
            break
        cases, tm = (qc, qt) if tier == "quick" else (tc, tt)
        out = os.path.join(vd, name + ".json")
        r = subprocess.run([exe, "--prop", name, "--cases", str(cases), "--time", str(tm), "--jobs", str(jobs), "--seed", str(seed), "--violdir", vd, "--out", out] + spec.get("args", []),
                           env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
        if r.returncode not in (0, 1):
            raise SystemExit("harness %s %s ended with %s: %s" % (spec["bin"], name, r.returncode, r.stderr[-2000:]))
        j = json.load(open(out))
        os.unlink(out)
        rep.part(name, j["evaluations"], j["distinct_nontrivial"], j["rule"], j["samples"], j["labels"], j["inconclusive"], j["wall_s"], dict(requested=cases))
        log("%s/%s: %d cases, %d non-trivial, %.1fs%s" % (rep.prop, name, j["evaluations"], j["distinct_nontrivial"], j["wall_s"], " VIOLATED" if j["violated"] else ""))
        if j["violated"]:
            rep.violation(j["replay"], j["message"])


def run_fuzz(rep, spec, seconds, seed, jobs):
    """Thorough tier: the same bodies under libFuzzer (coverage guided)."""
    exe = build_native(spec["bin"], "fuzz", spec.get("extra", ()), spec.get("srcs", ()))
    vd = os.path.join(VIOL, rep.prop)
    for name in spec.get("fuzz", []):
        if rep.violations:
            break
        work = os.path.join(BUILD, "corpus", spec["bin"], name)
        shutil.rmtree(work, ignore_errors=True)
        os.makedirs(work)
        t0 = time.time()
        r = subprocess.run([exe, work, "-seed=%d" % (seed or 1), "-max_total_time=%d" % seconds, "-timeout=25", "-rss_limit_mb=4000", "-max_len=4096", "-print_final_stats=1",
                            "-fork=%d" % jobs, "-ignore_timeouts=1", "-ignore_ooms=1", "-artifact_prefix=" + vd + "/" + name + "-"], env=dict(os.environ, PBT_PROP=name), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        import re, glob
        execs = re.findall(r"#(\d+): cov", r.stdout)
        n = int(execs[-1]) if execs else 0
        corpus = os.listdir(work)
        arts = [a for a in glob.glob(vd + "/" + name + "-crash-*") if os.path.getmtime(a) >= t0 - 1]
        good = [a for a in arts if all(subprocess.run([exe, a], env=dict(os.environ, PBT_PROP=name), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode for _ in range(3))]
        rep.part("libfuzzer:" + name, n, len(corpus), "coverage-guided byte inputs decoded into the same generated cases; non-trivial: inputs kept because they reached new coverage", ["corpus file of %d bytes" % os.path.getsize(os.path.join(work, c)) for c in corpus[:2]], wall=time.time() - t0)
        if good:
            m = subprocess.run([exe, good[0]], env=dict(os.environ, PBT_PROP=name), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace").stdout
            rep.violation(good[0], m[-2500:])
        shutil.rmtree(work, ignore_errors=True)
