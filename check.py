#!/usr/bin/env python3
"""Decide one property of trace-db by generated-input search.

  check.py ID                 run the check (VERIF_TIER, VERIF_SEED)
  check.py ID --replay FILE   run one saved failing case again
  check.py --setup            check that the tools are there

Builds the harness with /repo's current sources (twice: AddressSanitizer and
plain), runs its properties, writes evidence/ID.json.
Exit 0: held on everything explored.  1: VIOLATION line.  2: error of the check.
"""
import hashlib, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, VERIF)
from tools.config import CHECKS  # noqa: E402
from tools.extract import Missing  # noqa: E402

T0 = time.time()
CORES = min(8, os.cpu_count() or 2)
COMMON = ["-std=c++11", "-w", "-O1", "-ftrivial-auto-var-init=pattern", "-D_GLIBCXX_ASSERTIONS"]
FLAVOURS = {
    "asan": dict(cxx="clang++", cc="clang", flags=COMMON + ["-g1", "-fsanitize=address"], link=["-fsanitize=address"]),
    "plain": dict(cxx="g++", cc="gcc", flags=COMMON, link=[]),
    "tsan": dict(cxx="clang++", cc="clang", flags=["-std=c++11", "-w", "-O1", "-g1", "-fsanitize=thread"], link=["-fsanitize=thread"]),
    "fuzz": dict(cxx="clang++", cc="clang", flags=COMMON + ["-g1", "-fsanitize=address,fuzzer", "-DFUZZ_TARGET"], link=["-fsanitize=address,fuzzer"]),
}
LIBS = ["-lboost_iostreams", "-lboost_system", "-lboost_serialization", "-lpthread", "-ldl"]
ASAN = ("detect_leaks=0:malloc_context_size=4:allocator_may_return_null=1:max_allocation_size_mb=1024:"
        "alloc_dealloc_mismatch=0:quarantine_size_mb=0:max_malloc_fill_size=4096")


class CheckError(Exception):
    pass


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    return r.returncode, r.stdout


def file_hash(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:24]


def repo_sources():
    d = os.path.join(REPO, "cffi-interface")
    src, dep = [], []
    for root, _, files in os.walk(d):
        for f in files:
            p = os.path.join(root, f)
            if f.endswith((".hpp", ".h", ".inc")):
                dep.append(p)
            if f.endswith(".cpp"):
                dep.append(p)
                if root == d:
                    src.append(p)
    return sorted(src), dep


def harness_deps():
    d = os.path.join(VERIF, "harness")
    return [os.path.join(d, f) for f in os.listdir(d) if f.endswith((".hpp", ".h"))]


def build(conf, flavours, cache, gen_dir):
    """One executable per flavour; objects are cached by content."""
    src, dep = repo_sources()
    inc = ["-I" + os.path.join(REPO, "cffi-interface", "trace-db"), "-I" + os.path.join(REPO, "cffi-interface"),
           "-I" + os.path.join(VERIF, "harness"), "-I" + gen_dir]
    harness = os.path.join(VERIF, "harness", conf["harness"] + ".cpp")
    extra = [os.path.join(gen_dir, f) for f in conf.get("generated", [])]
    gen_deps = [os.path.join(gen_dir, f) for f in os.listdir(gen_dir)] if os.path.isdir(gen_dir) else []
    jobs, exes = [], {}
    for fl in flavours:
        F = FLAVOURS[fl]
        objs = []
        for s in src + [harness] + extra:
            own = s in src
            lang_c = s.endswith(".c")
            flags = [x for x in F["flags"] if not (lang_c and x.startswith("-std="))] + conf.get("flags", [])
            if own:
                flags += conf.get("lib_flags", [])
            deps = dep + ([] if own else harness_deps() + [s] + gen_deps)
            key = file_hash(deps, " ".join([F["cxx"], s] + flags))
            o = os.path.join(cache, "%s-%s-%s.o" % (fl, os.path.basename(s).replace(".", "_"), key))
            objs.append(o)
            if not os.path.exists(o):
                cmd = [F["cc"] if lang_c else F["cxx"]] + flags + (conf.get("lib_inc", []) if own else []) + inc + ["-c", s, "-o", o + ".tmp%d" % os.getpid()]
                jobs.append((cmd, o))
        exes[fl] = (objs, F)

    def comp(job):
        cmd, o = job
        rc, out = sh(cmd)
        if rc:
            raise CheckError("compilation failed: %s\n%s" % (" ".join(cmd), out[-4000:]))
        os.rename(cmd[-1], o)

    def link(item):
        fl, (objs, F) = item
        exe = os.path.join(cache, "%s-%s-%s" % (conf["harness"], fl, hashlib.sha256(" ".join(objs + conf.get("link", [])).encode()).hexdigest()[:16]))
        if not os.path.exists(exe):
            tmp = exe + ".tmp%d" % os.getpid()
            rc, out = sh([F["cxx"]] + F["link"] + objs + conf.get("link", []) + LIBS + ["-o", tmp])
            if rc:
                raise CheckError("link failed\n" + out[-4000:])
            os.rename(tmp, exe)
        return fl, exe

    with ThreadPoolExecutor(CORES) as ex:
        list(ex.map(comp, jobs))
        return dict(ex.map(link, exes.items()))


def prune(cache, keep_s=7 * 86400):
    try:
        fs = [os.path.join(cache, f) for f in os.listdir(cache)]
        now = time.time()
        total = sum(os.path.getsize(f) for f in fs)
        for f in sorted(fs, key=os.path.getmtime):
            if now - os.path.getmtime(f) > keep_s or total > 2 << 30:
                total -= os.path.getsize(f)
                os.unlink(f)
    except OSError:
        pass


def limits(flavour):
    def f():
        if flavour == "plain":
            resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f


def environment(flavour, scratch, perturb=True):
    e = dict(os.environ)
    e["PBT_SCRATCH"] = scratch
    e["ASAN_OPTIONS"] = ASAN
    e["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66:report_signal_unsafe=0:second_deadlock_stack=1"
    e.pop("LD_PRELOAD", None)
    if flavour == "plain" and perturb:
        e["MALLOC_PERTURB_"] = "165"
    return e


def run_fuzz(pid, conf, exe, scratch, outdir, seed, seconds, procs):
    """Coverage-guided campaign (thorough only); the oracle is in the target."""
    corpus = os.path.join(scratch, "corpus")
    os.makedirs(corpus, exist_ok=True)
    env = environment("fuzz", scratch)
    env["ASAN_OPTIONS"] += ":abort_on_error=0:exitcode=77"
    sub = conf["fuzz"]
    subprocess.run([exe, "-runs=0"], env=dict(env, FUZZ_SEED_DIR=corpus), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    ps = []
    for k in range(procs):
        art = os.path.join(outdir, "%s.fuzz%d." % (pid, k))
        ps.append(subprocess.Popen([exe, corpus, "-seed=%d" % (seed * 100 + k + 1), "-max_total_time=%d" % seconds, "-max_len=600",
                                    "-timeout=60", "-rss_limit_mb=3000", "-malloc_limit_mb=1200", "-reload=1", "-artifact_prefix=" + art,
                                    "-print_final_stats=1"] + sub.get("args", []),
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, text=True, errors="replace"))
    res, execs = [], 0
    for p in ps:
        out = p.communicate()[0]
        m = re.search(r"stat::number_of_executed_units:\s*(\d+)", out)
        if m:
            execs += int(m.group(1))
        if p.returncode != 0:
            m = re.search(r"Test unit written to (\S+)", out)
            if m and not re.search(r"/(slow-unit|oom)-", m.group(1)):
                path = m.group(1)
                bad = 0
                for _ in range(3):
                    r = subprocess.run([exe, path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env)
                    bad += r.returncode != 0
                if bad == 3:
                    res.append((path, out[-3000:]))
    n_corpus = len(os.listdir(corpus))
    return res, execs, n_corpus


def replay(pid, path, cache):
    conf = CHECKS[pid]
    data = open(path, "rb").read()
    scratch = tempfile.mkdtemp(prefix="verif-")
    try:
        gen_dir = os.path.join(scratch, "gen")
        os.makedirs(gen_dir)
        if conf.get("prepare"):
            conf["prepare"](REPO, gen_dir)
        if not data.startswith(b"pbt-replay"):
            exe = build(conf, ["fuzz"], cache, gen_dir)["fuzz"]
            return subprocess.run([exe, path], env=environment("fuzz", scratch)).returncode and 1
        m = re.search(rb"^build (\w+)$", data, re.M)
        fl = m.group(1).decode() if m else "asan"
        m = re.search(rb"^property (\S+)$", data, re.M)
        for sub in conf["subs"]:
            if m and sub["name"] == m.group(1).decode():
                conf = dict(conf, harness=sub.get("harness", conf["harness"]))
        exe = build(conf, [fl], cache, gen_dir)[fl]
        return subprocess.run([exe, "--replay", os.path.abspath(path)], env=environment(fl, scratch), preexec_fn=limits(fl)).returncode
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def known_findings(pid):
    out = []
    try:
        for l in open(os.path.join(VERIF, "known-findings.txt")):
            m = re.match(r"open: property=(\S+) match=(\S+) (.*)", l.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    except OSError:
        pass
    return out


def main():
    if sys.argv[1:] == ["--setup"]:
        for t in ("g++", "clang++"):
            if not shutil.which(t):
                print("missing", t)
                return 2
        print("ok")
        return 0
    pid = sys.argv[1]
    conf = CHECKS[pid]
    cache = os.path.join(VERIF, ".build")
    outdir = os.path.join(VERIF, ".out")
    for d in (cache, outdir, os.path.join(VERIF, "evidence")):
        os.makedirs(d, exist_ok=True)
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        return replay(pid, sys.argv[3], cache)
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2 and sys.argv[2] in ("quick", "thorough"):
        tier = sys.argv[2]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    prune(cache)
    scratch = tempfile.mkdtemp(prefix="verif-")
    try:
        return run(pid, conf, cache, outdir, tier, seed, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def run(pid, conf, cache, outdir, tier, seed, scratch):
    gen_dir = os.path.join(scratch, "gen")
    os.makedirs(gen_dir)
    notes = []
    if conf.get("prepare"):
        conf["prepare"](REPO, gen_dir)
    runs = []
    for sub in conf["subs"]:
        for fl in sub.get("builds", ["asan", "plain"]):
            if tier == "quick" and fl in sub.get("thorough_only", []):
                continue
            runs.append((sub, fl))
    fuzz = tier == "thorough" and conf.get("fuzz")
    exes = {}
    for h in sorted({sub.get("harness", conf["harness"]) for sub, _ in runs}):
        flavours = sorted({fl for sub, fl in runs if sub.get("harness", conf["harness"]) == h})
        if fuzz and h == conf["harness"]:
            flavours.append("fuzz")
        for fl, exe in build(dict(conf, harness=h), flavours, cache, gen_dir).items():
            exes[h, fl] = exe
    build_s = time.time() - T0
    jobs = max(1, CORES // max(1, len(runs)))
    if conf.get("jobs"):
        jobs = conf["jobs"]

    def one(item):
        sub, fl = item
        name = sub["name"]
        t = sub["time"][0 if tier == "quick" else 1]
        n = sub["cases"][0 if tier == "quick" else 1]
        if fl == "asan":
            n = n // sub.get("asan_div", 1)
        tag = "%s.%s.%s" % (pid, name, fl)
        res = os.path.join(scratch, tag + ".json")
        rep = os.path.join(outdir, "%s.seed%d.replay.txt" % (tag, seed))
        sdir = os.path.join(scratch, tag)
        os.makedirs(sdir)
        try:
            os.unlink(rep)
        except OSError:
            pass
        p = subprocess.Popen([exes[sub.get("harness", conf["harness"]), fl], "--prop", name, "--seed", str(seed), "--cases", str(n), "--time", str(t),
                              "--jobs", str(sub.get("jobs", jobs)), "--out", res, "--replay-out", rep],
                             stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
                             env=environment(fl, sdir, sub.get("perturb", True)), preexec_fn=limits(fl), start_new_session=True)
        try:
            out = p.communicate(timeout=t + 420)[0]
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            raise CheckError("%s did not finish" % tag)
        if p.returncode not in (0, 1) or not os.path.exists(res):
            raise CheckError("%s: exit %s\n%s" % (tag, p.returncode, out[-3000:]))
        d = json.load(open(res))
        d["build"] = fl
        d["stderr"] = out
        if d["violated"]:
            with open(rep, "a") as f:
                f.write("build %s\n" % fl)
            d["replay"] = rep
        return d

    with ThreadPoolExecutor(max(1, len(runs))) as ex:
        results = list(ex.map(one, runs))
    violations = []
    listed = known_findings(pid)
    for d in results:
        if d["violated"]:
            hit = [k for k in listed if re.search(k[0], d["detail"])]
            if hit:
                print("KNOWN-FINDING: property=%s %s" % (pid, hit[0][1]))
            else:
                violations.append((d["replay"], "%s (%s, %s build): %s\n%s" % (d["prop"], d["outcome"], d["build"], d["detail"][:2500], d.get("render", "")[:2500])))
        if d["unreproduced"]:
            notes.append("%s/%s: %d failing runs did not repeat and are not counted as violations: %s" % (d["prop"], d["build"], d["unreproduced"], d["stderr"][-600:]))
    fz = None
    if fuzz and not violations:
        secs = conf["fuzz"]["time"]
        bad, execs, n_corpus = run_fuzz(pid, conf, exes[conf["harness"], "fuzz"], scratch, outdir, seed, secs, 6)
        fz = dict(executions=execs, corpus=n_corpus, seconds=secs)
        for path, out in bad:
            violations.append((path, "fuzz target: " + out))

    labels = {}
    for d in results:
        for k, v in d["labels"].items():
            labels.setdefault(d["prop"], {}).setdefault(k, 0)
            labels[d["prop"]][k] += v
    cov = dict(
        evaluations=sum(d["cases"] for d in results),
        distinct_nontrivial=sum(max([e["distinct_nontrivial"] for e in results if e["prop"] == n], default=0)
                                for n in {d["prop"] for d in results}),
        rule=conf["rule"],
        samples=[dict(prop=d["prop"], build=d["build"], case=s[:1800]) for d in results if d["build"] == results[0]["build"] for s in d["samples"][:2]][:8],
        inner_evaluations=sum(d["evals"] for d in results),
        discarded=sum(d["discarded"] for d in results),
        runs=[dict(prop=d["prop"], build=d["build"], cases=d["cases"], requested=d["requested"], nontrivial=d["nontrivial"],
                   distinct_nontrivial=d["distinct_nontrivial"], inner_evaluations=d["evals"], wall_s=round(d["wall_s"], 2)) for d in results],
        labels=labels,
        build_s=round(build_s, 1),
    )
    if fz:
        cov["coverage_guided"] = fz
    if notes:
        cov["notes"] = notes
    ev = dict(property=pid, tier=tier, seed=seed, level=conf.get("level", "exploration"), coverage=cov,
              assumptions=conf.get("assumptions", []), wall_s=round(time.time() - T0, 2), violations=len(violations))
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for d in results:
        print("%s/%s: %d cases, %d non-trivial, %d inner evaluations, %.1f s%s" % (
            d["prop"], d["build"], d["cases"], d["nontrivial"], d["evals"], d["wall_s"], " VIOLATED" if d["violated"] else ""))
    if fz:
        print("fuzz: %(executions)d executions, corpus %(corpus)d" % fz)
    for n in notes:
        print("note:", n)
    if violations:
        for path, what in violations:
            print(what)
        for path, _ in violations:
            print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except (CheckError, Missing) as e:
        print("check error:", e)
        sys.exit(2)
