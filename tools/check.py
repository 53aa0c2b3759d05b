#!/usr/bin/env python3
"""Build the harness for one property from /repo's working tree, run it, judge, write evidence.

  check.py run ID [--tier quick|thorough]     exit 0 held / 1 VIOLATION / other: error of the check
  check.py replay FILE                        re-run one recorded violation verbosely
  check.py build ID...                        build only
"""
import sys, os, subprocess, hashlib, json, re, time, shutil, glob, tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VH_REPO", "/repo")
SRC = os.path.join(REPO, "src")
BUILD = os.path.join(HERE, "build")
HARNESS = os.path.join(HERE, "harness")
NPROC = min(8, os.cpu_count() or 4)
LIMIT = int(os.environ.get("VH_LIMIT", "0"))

WARN = ["-w"]
ASAN = ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined,float-cast-overflow",
        "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"]
CONFIGS = {
    "asan": dict(cxx="g++", flags=ASAN, link=["-fsanitize=address,undefined"]),
    "rel":  dict(cxx="g++", flags=["-O2", "-g1", "-D_GLIBCXX_ASSERTIONS"], link=[]),
    # own instances of the standard templates, so that they are instrumented too
    "msan": dict(cxx="clang++", flags=["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=memory", "-fno-sanitize-recover=all",
                                       "-fsanitize-memory-track-origins", "-D_GLIBCXX_EXTERN_TEMPLATE=0"], link=["-fsanitize=memory"]),
    "dbg":  dict(cxx="g++", flags=ASAN + ["-D_GLIBCXX_DEBUG"], link=["-fsanitize=address,undefined"]),
    "tsan": dict(cxx="g++", flags=["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=thread", "-D_GLIBCXX_ASSERTIONS"], link=["-fsanitize=thread"]),
    "plain": dict(cxx="g++", flags=["-O1", "-g"], link=[]),
}
sys.path.insert(0, os.path.join(HERE, "tools"))
from props import PROPS   # property table

def die(msg, code=3):
    print("CHECK-ERROR: " + msg); sys.exit(code)

def read(p):
    with open(p, "rb") as f: return f.read()

def tree_digest(d, pats):
    h = hashlib.sha256()
    for pat in pats:
        for p in sorted(glob.glob(os.path.join(d, pat))):
            h.update(os.path.basename(p).encode()); h.update(b"\0"); h.update(read(p)); h.update(b"\0")
    return h.hexdigest()

def compile_one(cxx, flags, src, obj):
    if os.path.exists(obj): return None
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    tmp = "%s.%d.tmp" % (obj, os.getpid())
    r = subprocess.run([cxx] + flags + ["-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode: return "%s: %s" % (src, r.stdout.decode(errors="replace")[-3000:])
    os.replace(tmp, obj)
    return None

def variant(config):
    """'rel+A=1,B=2': build rel, run with these environment variables."""
    name, _, env = config.partition("+")
    return name, dict(e.split("=", 1) for e in env.split(",") if e)

def build(prop, config):
    config = variant(config)[0]
    spec = PROPS[prop]; cfg = CONFIGS[config]
    hdr_digest = tree_digest(SRC, ["*.h"]) + tree_digest(HARNESS, ["*.h", "*.hpp"])
    jobs = []
    lib = [s for s in sorted(glob.glob(os.path.join(SRC, "*.cpp")))]
    shim = bool(spec.get("shim"))
    if not shim: lib = [s for s in lib if os.path.basename(s) != "Optimise.cpp"]
    inc = ["-I" + SRC] + (["-I" + os.path.join(HARNESS, "shim")] if shim else [])
    if shim: hdr_digest += tree_digest(os.path.join(HARNESS, "shim"), ["*"])
    if spec.get("demos"):
        inc += ["-I" + os.path.join(HARNESS, "demoshim"), "-I" + os.path.join(REPO, "demos"), "-DVH_REPO_DIR=\"%s\"" % REPO]; hdr_digest += tree_digest(os.path.join(REPO, "demos"), ["*.cpp", "*.h"])
    python = bool(spec.get("python")); more = []
    if python:
        # the module's own sources (which include the library's) with the stand-in for pybind11
        bind = os.path.join(REPO, "python", "bindings"); lib = sorted(glob.glob(os.path.join(bind, "*.cpp")))
        hdr_digest += tree_digest(SRC, ["*.cpp"]) + tree_digest(bind, ["*.h"]) + tree_digest(os.path.join(HARNESS, "pyshim", "pybind11"), ["*"])
        pyinc = subprocess.run(["python3-config", "--includes"], stdout=subprocess.PIPE).stdout.decode().split()
        inc += ["-I" + os.path.join(HARNESS, "pyshim"), "-DPYBIND"] + pyinc
        more = subprocess.run(["python3-config", "--ldflags", "--embed"], stdout=subprocess.PIPE).stdout.decode().split()
    def key(src, flags):
        h = hashlib.sha256(); h.update(repr((cfg["cxx"], flags, os.path.basename(src))).encode())
        h.update(hdr_digest.encode()); h.update(read(src)); return h.hexdigest()[:32]
    objs = []
    for s in lib:
        flags = ["-std=c++14" if python else "-std=c++11"] + cfg["flags"] + WARN + inc
        o = os.path.join(BUILD, "obj", config + "-" + os.path.basename(s) + "-" + key(s, flags) + ".o")
        jobs.append((cfg["cxx"], flags, s, o)); objs.append(o)
    for n in ["vh.cpp"] + spec["src"]:
        s = os.path.join(HARNESS, n)
        flags = ["-std=c++14"] + cfg["flags"] + WARN + inc + ["-I" + HARNESS] + (["-DVH_SHIM"] if shim else [])
        o = os.path.join(BUILD, "obj", config + "-" + n + "-" + key(s, flags) + ".o")
        jobs.append((cfg["cxx"], flags, s, o)); objs.append(o)
    with ThreadPoolExecutor(NPROC) as ex:
        errs = [e for e in ex.map(lambda j: compile_one(*j), jobs) if e]
    if errs: die("build failed:\n" + "\n".join(errs), 4)
    exe = os.path.join(BUILD, "bin", "%s-%s" % (config, hashlib.sha256("".join(objs).encode()).hexdigest()[:24]))
    if not os.path.exists(exe):
        os.makedirs(os.path.dirname(exe), exist_ok=True)
        tmp = exe + ".%d.tmp" % os.getpid()
        r = subprocess.run([cfg["cxx"]] + cfg["link"] + objs + ["-o", tmp] + more + ["-lm"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode: die("link failed:\n" + r.stdout.decode(errors="replace")[-3000:], 4)
        os.replace(tmp, exe)
    return exe

ENV = dict(os.environ,
           ASAN_OPTIONS="abort_on_error=0:exitcode=77:detect_leaks=0:detect_stack_use_after_return=1:allocator_may_return_null=0:max_allocation_size_mb=4096",
           UBSAN_OPTIONS="print_stacktrace=1:exitcode=77",
           TSAN_OPTIONS="exitcode=77:halt_on_error=1:report_signal_unsafe=0:second_deadlock_stack=1", MSAN_OPTIONS="exitcode=77", LC_ALL="C")

def classify(rc, err):
    """Stable key and message for a process that died inside a case."""
    frames = re.findall(r"#\d+ 0x[0-9a-f]+ in ([^\n]*)", err)
    fn = ""
    for f in frames:
        m = re.match(r"(slsm::[A-Za-z_:~]+)", f)
        if m: fn = m.group(1); break
    m = re.search(r"ERROR: AddressSanitizer: ([A-Za-z-]+)", err)
    if m: return "asan/%s/%s" % (m.group(1), fn), m.group(0)
    m = re.search(r"runtime error: ([^\n]*)", err)
    if m:
        msg = re.sub(r"-?\d[\d.e+]*|0x[0-9a-f]+|inf|nan", "#", m.group(1))
        return "ubsan/%s/%s" % (msg[:70].strip().replace(" ", "_"), fn), m.group(0)
    m = re.search(r"WARNING: MemorySanitizer: ([^\n]*)", err)
    if m: return "msan/%s/%s" % (m.group(1).strip(), fn), m.group(0)
    m = re.search(r"WARNING: ThreadSanitizer: ([^\n(]*)", err)
    if m:
        f = re.search(r"#\d+ (slsm::[A-Za-z_:~]+)", err)
        return "tsan/%s/%s" % (m.group(1).strip().replace(" ", "_"), f.group(1) if f else ""), m.group(0)
    m = re.search(r"\nError: ([^\n]*(?:\n[^\n]*)?)", err)
    if m and rc == -6: return "debug-container/" + re.sub(r"\s+", "_", re.sub(r"\d+", "#", m.group(1)))[:80].strip("_"), m.group(0)[:300]
    m = re.search(r"([^\n]*)Assertion '([^']*)' failed", err)
    if m: return "stdassert/%s" % m.group(2).replace(" ", "_")[:80], m.group(0)[-300:]
    m = re.search(r"\[ERROR\] \([^)]*\) ([^\n]*)", err)
    if rc == 97:
        return "library-exit/%s" % (re.sub(r"\d+", "#", m.group(1))[:60].replace(" ", "_") if m else "silent"), \
               "the library ended the program: " + (m.group(1) if m else "no message")
    if rc == 98: return "hang", "a case exceeded its CPU budget twice"
    if rc < 0: return "signal/%d" % -rc, "killed by signal %d" % -rc
    return "exit/%d" % rc, "exit status %d: %s" % (rc, err[-300:])

def known():
    """known_findings.txt: 'known: property=ID key=REGEX tag=REGEX :: text' and 'fixed: ...' lines."""
    res = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) tag=(\S+) :: (.*)", l.strip())
            if m: res.append(m.groups())
    return res

def run_shard(exe, prop, seed, tier, shard, nsh, total, tmpdir, deadline, env):
    """Runs cases shard, shard+nsh, ...; restarts after a crash. Returns dict."""
    res = dict(V=[], N=set(), K={}, M={}, G={}, done=0, tags=[], crashes=0, timeout=False, reached=None)
    start = shard
    while start < total:
        out = os.path.join(tmpdir, "s%d-%d" % (shard, start))
        ef = out + ".err"
        cmd = [exe, "--prop", prop, "--seed", str(seed), "--from", str(start), "--step", str(nsh), "--total", str(total), "--out", out]
        if tier == "thorough": cmd.append("--thorough")
        with open(ef, "wb") as e:
            pr = subprocess.Popen(cmd, stdout=e, stderr=e, env=env, cwd=tmpdir)
            try: rc = pr.wait(timeout=max(1, deadline - time.time()))
            except subprocess.TimeoutExpired:
                pr.kill(); pr.wait(); res["timeout"] = True; rc = None
        cur = None; tag = ""; finished = False
        if os.path.exists(out):
            for line in open(out, errors="replace"):
                f = line.rstrip("\n").split("\t")
                if f[0] == "C": cur = int(f[1]); tag = ""
                elif f[0] == "D": res["done"] += 1; cur = None
                elif f[0] == "T":
                    tag = f[2]
                    if len(res["tags"]) < 4: res["tags"].append("case %s: %s" % (f[1], f[2][:400]))
                elif f[0] == "V": res["V"].append((int(f[1]), f[2], f[3]))
                elif f[0] == "N": res["N"].add(f[1])
                elif f[0] == "G": res["G"][int(f[1])] = f[2]
                elif f[0] == "K": res["K"][f[1]] = res["K"].get(f[1], 0) + float(f[2])
                elif f[0] == "M": res["M"][f[1]] = max(res["M"].get(f[1], float("-inf")), float(f[2]))
                elif f[0] == "Z": finished = True
            os.unlink(out)
        if res["timeout"]: return res
        if finished and rc == 0: return res
        err = read(ef).decode(errors="replace")
        if len(err) > 200000: err = err[:100000] + err[-100000:]
        if cur is None: res["broken"] = "harness process ended outside a case (rc %s): %s" % (rc, err[-500:]); return res
        if rc == 98:
            # confirm the hang once on its own before reporting it
            c2 = [exe, "--prop", prop, "--seed", str(seed), "--case", str(cur)] + (["--thorough"] if tier == "thorough" else [])
            try: rc2 = subprocess.run(c2, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=env, cwd=tmpdir, timeout=max(1, deadline - time.time())).returncode
            except subprocess.TimeoutExpired: rc2 = None
            if rc2 != 98: res["K"]["inconclusive: hang not confirmed"] = res["K"].get("inconclusive: hang not confirmed", 0) + 1; start = cur + nsh; continue
        key, msg = classify(rc, err)
        res["V"].append((cur, key, msg + " | " + tag))
        res["crashes"] += 1
        if res["crashes"] >= (2 if key == "hang" else 12): res["K"]["shard stopped after repeated crashes"] = 1; return res
        start = cur + nsh
    return res

def run(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    if prop not in PROPS: die("unknown property " + prop)
    spec = PROPS[prop]
    deadline = t0 + (LIMIT or (820 if tier == "quick" else 6 * 3600))
    replays = os.path.join(HERE, "replays"); os.makedirs(replays, exist_ok=True)
    for f in glob.glob(os.path.join(replays, prop + "-*.json")): os.unlink(f)
    os.makedirs(BUILD, exist_ok=True)
    tmpdir = tempfile.mkdtemp(prefix="vh-%s-" % prop)
    viol, N, K, M, tags, done = [], set(), {}, {}, [], 0
    G = {}
    phases = []
    broken = None; timeout = False
    try:
        env = dict(ENV, VH_SCRATCH=tmpdir)
        for config in spec.get("configs", ["asan"]):
            exe = build(prop, config); env2 = dict(env, **variant(config)[1])
            info = {l.split("\t")[0]: l.rstrip("\n").split("\t") for l in
                    subprocess.run([exe, "--list"], stdout=subprocess.PIPE, env=env).stdout.decode().splitlines()}
            if prop not in info: die("harness does not know " + prop)
            total = int(info[prop][1 if tier == "quick" else 2]); rule = info[prop][3]
            if config != spec.get("configs", ["asan"])[0]: total = int(total * spec.get("secondary", 1.0)) or 1
            if config == "asan" and tier == "thorough" and os.environ.get("VH_SCALE"): total = int(total * float(os.environ["VH_SCALE"]))
            nsh = min(NPROC, total)
            with ThreadPoolExecutor(nsh) as ex:
                rs = list(ex.map(lambda s: run_shard(exe, prop, seed, tier, s, nsh, total, tmpdir, deadline, env2), range(nsh)))
            d = 0
            for r in rs:
                viol += [(config,) + v for v in r["V"]]; N |= r["N"]; d += r["done"]
                for k, v in r["K"].items(): K[k] = K.get(k, 0) + v
                for k, v in r["M"].items(): M[k] = max(M.get(k, float("-inf")), v)
                tags += r["tags"][:1]
                for k, v in r["G"].items():
                    if k in G and G[k][1] != v: viol.append((config, k, "processes-differ", "the same case came out differently in another process (%s against %s)" % (config, G[k][0])))
                    elif k in G: K["cases compared between processes"] = K.get("cases compared between processes", 0) + 1
                    else: G[k] = (config, v)
                if r.get("broken"): broken = r["broken"]
                timeout |= r["timeout"]
            phases.append({"build": config, "cases": total, "completed": d}); done += d
        for extra in spec.get("post", []):
            v, k = extra(dict(build=build, prop=prop, seed=seed, tier=tier, tmpdir=tmpdir, env=env, deadline=deadline, K=K, N=N, classify=classify))
            viol += v
            for a, b in k.items(): K[a] = K.get(a, 0) + b
    finally:
        shutil.rmtree(tmpdir, ignore_errors=True)
    kn = known(); unl = []; seen = {}
    for config, case, key, msg in sorted(viol, key=lambda v: (v[0], v[1])):
        hit = None
        for (kp, kk, kt, text) in kn:
            if kp == prop and re.fullmatch(kk, key) and re.search(kt, msg): hit = text; break
        if hit is not None: seen[hit] = seen.get(hit, 0) + 1
        else: unl.append((config, case, key, msg))
    for text in seen: print("KNOWN-FINDING: property=%s %s" % (prop, text))
    keys = {}
    for config, case, key, msg in unl: keys.setdefault(key, []).append((config, case, msg))
    first = None
    for n, (key, l) in enumerate(sorted(keys.items(), key=lambda kv: kv[1][0][1])):
        config, case, msg = l[0]
        path = os.path.join(replays, "%s-%d.json" % (prop, n))
        json.dump(dict(property=prop, seed=seed, tier=tier, case=case, config=config, key=key, message=msg,
                       replay="python3 tools/check.py replay %s" % os.path.relpath(path, HERE),
                       other_cases=[c for _, c, _ in l[1:20]]), open(path, "w"), indent=1)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("  %s in case %d (%d recorded): %s" % (key, case, len(l), msg[:600]))
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration",
              coverage=dict(evaluations=done, distinct_nontrivial=len(N), rule=rule, samples=tags[:8] or ["(no scenario text)"],
                            observed={k: (int(v) if v == int(v) else v) for k, v in sorted(K.items())},
                            extremes={k: v for k, v in sorted(M.items())}, phases=phases),
              assumptions=spec.get("assume", []) + ["only executions produced by the workload are judged",
                           "x86-64, g++ 13 / clang 18, glibc; library built from the working tree's src directory"],
              wall_s=round(time.time() - t0, 2), violations=len(keys))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f: json.dump(ev, f, indent=1, allow_nan=False, default=str)
    print("%s %s: %d cases, %d distinct non-trivial, %d violation kinds, %.1f s" % (prop, tier, done, len(N), len(keys), time.time() - t0))
    if keys: sys.exit(1)
    if broken: die("harness: " + broken)
    if timeout: die("inconclusive: ran out of time")
    if len(N) < spec.get("min_nontrivial", 2): die("inconclusive: too few non-trivial cases observed (%d)" % len(N))
    sys.exit(0)

def replay(path):
    r = json.load(open(path))
    cfg, extra = variant(r["config"]) if variant(r["config"])[0] in CONFIGS else ("asan", {})
    exe = build(r["property"], cfg)
    cmd = [exe, "--prop", r["property"], "--seed", str(r["seed"]), "--case", str(r["case"])] + (["--thorough"] if r["tier"] == "thorough" else [])
    print(" ".join(cmd)); sys.exit(subprocess.run(cmd, env=dict(ENV, **extra)).returncode)

if __name__ == "__main__":
    a = sys.argv[1:]
    if a[:1] == ["run"]:
        tier = os.environ.get("VERIF_TIER", "quick") or "quick"
        if "--tier" in a: tier = a[a.index("--tier") + 1]
        run(a[1], tier)
    elif a[:1] == ["replay"]: replay(a[1])
    elif a[:1] == ["build"]:
        for i in (a[1:] or sorted(PROPS)):
            for c in PROPS[i].get("configs", ["asan"]): build(i, c)
    else: print(__doc__); sys.exit(2)
