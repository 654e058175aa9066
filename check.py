#!/usr/bin/python3
"""Runs the deterministic simulation of one property of zycore-c.

  check.py ID [--tier quick|thorough] [--runs N] [--from N]   decide a property (exit 0 held, 1 violated, else error)
  check.py --replay FILE [-v]                      replay a recorded execution exactly
  check.py --build                                 build everything
  check.py --determinism ID [--runs N]             same seeds, different partitioning: identical histories?
"""
import array, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("ZSIM_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
sys.path.insert(0, os.path.join(VERIF, "tools"))
from zprops import PROPS, COMPONENTS   # noqa: E402

CORES = os.cpu_count() or 4
NOMIN = "ZSIM_NOMIN" in os.environ          # tools/sens.py: quick comparisons, no evidence
NOEVIDENCE = "ZSIM_NOEVIDENCE" in os.environ
ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:quarantine_size_mb=4:exitcode=99:"
           "detect_stack_use_after_return=0:abort_on_error=0:symbolize=0:handle_abort=0", LC_ALL="C")

HEAP = ["malloc", "calloc", "realloc", "free"]
SYS = ["mprotect", "munmap", "msync", "sysconf", "getpagesize", "isatty", "pthread_mutex_init", "pthread_mutex_destroy",
       "pthread_mutex_lock", "pthread_mutex_trylock", "pthread_mutex_unlock", "pthread_mutexattr_init",
       "pthread_mutexattr_settype", "pthread_mutexattr_destroy", "pthread_key_create", "pthread_key_delete",
       "pthread_setspecific", "pthread_getspecific", "pthread_self", "pthread_equal", "pthread_mutex_timedlock",
       "pthread_once", "sched_yield"]

MEMFN = ["memcpy", "memmove", "memset", "memcmp", "memchr", "strlen", "strcmp", "strncmp", "strcpy", "strncpy", "strchr", "strrchr", "strstr"]
# the library's static data in sections of its own: every run starts from its initial values
SECTIONS = [".data", ".data.rel", ".data.rel.local"]

# uninitialised local variables have a fixed value instead of what the stack happens to hold
AUTO = "-ftrivial-auto-var-init="
# name -> compiler, flags of the library, flags of the harness, sources of the harness, redefined symbols
VARIANTS = {
    "asan": dict(cc="gcc", cxx="g++", lib=["-O1", "-fsanitize=address", "-fno-omit-frame-pointer", AUTO + "pattern"],
                 har=["-O1", "-fsanitize=address"], link=["-fsanitize=address"], dir="sim"),
    "rel": dict(cc="gcc", cxx="g++", lib=["-O2", "-DNDEBUG", "-fsanitize=address", AUTO + "zero"],
                har=["-O1", "-fsanitize=address"], link=["-fsanitize=address"], dir="sim", share="asan"),
    # the other configurations of the library: code for 32-bit processors, build without libc
    "x86": dict(cc="gcc", cxx="g++", lib=["-O2", "-DNDEBUG", "-fsanitize=address", AUTO + "pattern", "-include", os.path.join(VERIF, "sim", "alt", "wide.h")], optional=True,
                har=["-O1", "-fsanitize=address"], link=["-fsanitize=address"], dir="sim", share="asan"),
    "nolibc": dict(cc="gcc", cxx="g++", lib=["-O1", "-DZYAN_NO_LIBC", "-fno-builtin", "-fsanitize=address", AUTO + "pattern"], extra=["alt/nolibc.cpp"], optional=True,
                   har=["-O1", "-fsanitize=address"], link=["-fsanitize=address"], dir="sim", share="asan"),
    # the Windows configuration of the system wrappers, on a simulated Windows
    "win": dict(cc="gcc", cxx="g++", lib=["-O1", "-D_WIN32", "-I" + os.path.join(VERIF, "wsim", "include"), "-fsanitize=address", AUTO + "pattern"], optional=True,
                har=["-O1", "-D_WIN32", "-I" + os.path.join(VERIF, "wsim", "include"), "-fsanitize=address"], link=["-fsanitize=address"], dir="wsim"),
    "csim": dict(cc="clang", cxx="clang++", lib=["-O0", "-fsanitize=thread", "-mllvm", "-tsan-instrument-read-before-write=1", AUTO + "pattern"],
                 har=["-O1", "-DZSIM_CSIM"], link=[], dir="csim"),
}


def sh(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise RuntimeError("command failed: %s\n%s" % (" ".join(cmd)[:200], r.stdout[-2500:]))
    return r.stdout


def files(root, exts):
    out = []
    for d, _, fs in os.walk(root):
        out += [os.path.join(d, f) for f in fs if f.endswith(exts)]
    return sorted(out)


def source_hash():
    h = hashlib.sha256()
    for root in (os.path.join(REPO, "src"), os.path.join(REPO, "include"), os.path.join(VERIF, "sim"),
                 os.path.join(VERIF, "csim"), os.path.join(VERIF, "wsim")):
        for f in files(root, (".c", ".h", ".hpp", ".cpp")):
            h.update(f.encode() + b"\0" + open(f, "rb").read() + b"\0")
    h.update(open(__file__, "rb").read())
    return h.hexdigest()[:20]


def harness_hash():
    h = hashlib.sha256()
    for root in (os.path.join(REPO, "include"), os.path.join(REPO, "src"), os.path.join(VERIF, "sim"), os.path.join(VERIF, "csim"), os.path.join(VERIF, "wsim")):
        for f in files(root, (".h", ".hpp") if root.endswith("src") else (".c", ".h", ".hpp", ".cpp")):
            h.update(os.path.relpath(f, root).encode() + b"\0" + open(f, "rb").read() + b"\0")
    h.update(repr(REPO).encode())
    return h.hexdigest()


def build(names):
    """Builds the named variants from /repo's working tree; returns {name: binary}, without optional variants that do not build."""
    key = source_hash()
    base = os.path.join(BUILD, key)
    need = [n for n in names if not os.path.exists(os.path.join(base, n)) and not os.path.exists(os.path.join(base, n + ".failed"))]
    if need:
        os.makedirs(BUILD, exist_ok=True)
        old = sorted((d for d in glob.glob(os.path.join(BUILD, "*")) if re.fullmatch(r"[0-9a-f]{20}", os.path.basename(d))), key=os.path.getmtime)
        for d in old[:-6]:
            shutil.rmtree(d, ignore_errors=True)
        for f in sorted(glob.glob(os.path.join(BUILD, "hobj", "*.o")), key=os.path.getmtime)[:-120]:
            os.unlink(f)
        os.makedirs(base, exist_ok=True)
        tmp = tempfile.mkdtemp(prefix="obj-", dir=BUILD)
        try:
            inc = ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "src"), "-DZYCORE_STATIC_BUILD",
                   "-D_GNU_SOURCE", "-U_FORTIFY_SOURCE", "-pthread", "-w"]
            jobs, objs = {}, {n: [] for n in need}

            def objcopy(v, o):
                redef = HEAP + ["vsnprintf"] + SYS + (MEMFN if v["dir"] == "csim" else [])
                return (["objcopy"] + ["--redefine-sym=%s=zsim_%s" % (s, s) for s in redef] +
                        ["--rename-section=%s=zlibdata" % s for s in SECTIONS] + ["--rename-section=.bss=zlibbss", o])
            for n in need:
                v = VARIANTS[n]
                for f in files(os.path.join(REPO, "src"), (".c",)):
                    o = os.path.join(tmp, "%s_%s.o" % (n, hashlib.md5(f.encode()).hexdigest()[:8]))
                    jobs[o] = ([v["cc"], "-std=gnu11", "-g1"] + v["lib"] + inc + ["-c", f, "-o", o], objcopy(v, o))
                    objs[n].append(o)
                hd = [os.path.join(VERIF, "sim", "core.cpp")] if v["dir"] != "sim" else []
                hd += glob.glob(os.path.join(VERIF, v["dir"], "*.cpp")) + glob.glob(os.path.join(VERIF, v["dir"], "*.c"))
                hd += [os.path.join(VERIF, v["dir"], x) for x in v.get("extra", [])]
                for f in sorted(set(hd)):
                    tag = v.get("share", n)
                    o = os.path.join(tmp, "%s_h_%s.o" % (tag, os.path.basename(f)))
                    c = [v["cxx"] if f.endswith("cpp") else v["cc"]]
                    flags, post = v["har"], None
                    if os.path.basename(f).startswith("inst_"):     # the library's inline code, instrumented like the library
                        flags, post = v["lib"], objcopy(v, o)
                    if os.path.basename(f) == "inst_msvc.c":
                        flags = flags + ["-fms-extensions", "-I" + os.path.join(VERIF, "wsim", "include")]
                    jobs[o] = (c + (["-std=c++17"] if f.endswith("cpp") else ["-std=gnu11"]) + ["-g1"] + flags + inc +
                               ["-I" + os.path.join(VERIF, "sim"), "-c", f, "-o", o], post)
                    objs[n].append(o)

            hk = harness_hash()

            failed = {}

            def one(item):
                try:
                    compile_one(item)
                except RuntimeError as e:
                    failed[item[0]] = e

            def compile_one(item):
                o, cmds = item
                if "_h_" not in os.path.basename(o):
                    for c in cmds:
                        if c:
                            sh(c)
                    return
                # objects of the harness only depend on the harness and the library's headers
                key = hashlib.sha256((hk + repr([[a.replace(tmp, "") for a in c] for c in cmds if c])).encode()).hexdigest()[:24]
                cached = os.path.join(BUILD, "hobj", key + ".o")
                if not os.path.exists(cached):
                    for c in cmds:
                        if c:
                            sh(c)
                    os.makedirs(os.path.dirname(cached), exist_ok=True)
                    shutil.copyfile(o, o + ".tmp")
                    os.rename(o + ".tmp", cached)
                else:
                    shutil.copyfile(cached, o)
            with ThreadPoolExecutor(CORES) as ex:
                list(ex.map(one, jobs.items()))
            for n in need:
                v = VARIANTS[n]
                out = os.path.join(tmp, n)
                try:
                    for o in objs[n]:
                        if o in failed and not o.endswith("inst_msvc.c.o"):      # that code may be missing
                            raise failed[o]
                    sh([v["cxx"]] + v["link"] + [o for o in objs[n] if o not in failed] + ["-o", out, "-lpthread"])
                except RuntimeError as e:
                    if not v.get("optional"):
                        raise
                    open(os.path.join(base, n + ".failed"), "w").write(str(e))
                    continue
                os.rename(out, os.path.join(base, n))
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    os.utime(base)
    return {n: os.path.join(base, n) for n in names if os.path.exists(os.path.join(base, n))}


# ------------------------------------------------------------------------------------------------

def replay(binary, plan, verbose=False):
    """Replays a plan in a fresh process: (outcome key, RESULT line or crash summary, whole output)"""
    r = subprocess.run([binary, "replay"] + (["-v"] if verbose else []) + [plan], stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, env=ENV, timeout=120)
    text = r.stdout.decode("latin1")
    m = re.search(r"^RESULT (.*)$", text, re.M)
    if r.returncode == 0 and m:
        return ("ok", m.group(1), text)
    if r.returncode == 10 and m:
        return ("tag " + re.search(r"tag=(\S+)", m.group(1)).group(1), m.group(1), text)
    if r.returncode == 78:
        return ("hang", "the simulated program does not terminate", text)
    if r.returncode in (3,):
        return ("error", text[-500:], text)
    s = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", text) or re.search(r"(Assertion .* failed)", text)
    return ("crash %d %s" % (r.returncode, "asan" if r.returncode == 99 else "signal"),
            "crash: exit code %d, %s" % (r.returncode, s.group(1) if s else "no diagnosis"), text)


class Plan:
    def __init__(self, text):
        self.head, self.steps = [], []
        for line in text.splitlines():
            (self.steps if line.startswith("step ") else self.head).append(line)

    def text(self, steps=None, notes=()):
        head = [h for h in self.head if not h.startswith("#")]
        return "\n".join(head[:1] + ["# " + n for n in notes] + head[1:] + (self.steps if steps is None else steps)) + "\n"


def minimise(binary, plan, key, tmp, budget=40.0):
    """ddmin over steps, then over fault decisions and arguments, keeping the same kind of violation"""
    end = time.time() + budget
    tried = [0]

    def bad_many(cands):
        """index of the first candidate that still fails, or None"""
        if time.time() > end:
            return None

        def one(i):
            f = os.path.join(tmp, "min%d_%d.plan" % (tried[0], i))
            open(f, "w").write(plan.text(cands[i]))
            k = replay(binary, f)[0]
            os.unlink(f)
            return k == key
        tried[0] += 1
        for lo in range(0, len(cands), CORES):
            if time.time() > end:
                return None
            part = range(lo, min(lo + CORES, len(cands)))
            with ThreadPoolExecutor(CORES) as ex:
                for i, ok in zip(part, list(ex.map(one, part))):
                    if ok:
                        return i
        return None
    cur = list(plan.steps)
    n = 2
    while len(cur) > 1:
        size = max(1, len(cur) // n)
        cands = [cur[:i] + cur[i + size:] for i in range(0, len(cur), size)]
        i = bad_many(cands)
        if i is not None:
            cur = cands[i]
            n = max(2, n - 1)
        elif size == 1:
            break
        else:
            n = min(len(cur), n * 2)
    for fn in (lambda w: w[:-2] + ["f=0", "r=0"], lambda w: w[:-1] + ["r=0"]):
        changed = True
        while changed:
            changed = False
            cands = []
            for i, s in enumerate(cur):
                t = " ".join(fn(s.split(" ")))
                if t != s:
                    cands.append(cur[:i] + [t] + cur[i + 1:])
            i = bad_many(cands)
            if i is not None:
                cur, changed = cands[i], True
    for rounds in range(2):
        i = 0
        while i < len(cur):
            w = cur[i].split(" ")
            cands = []
            for j in range(2, len(w) - 2):
                if w[j] not in ("0",):
                    v = int(w[j])
                    for nv in (0, 1, v // 2 if v > 3 else 0):
                        if nv != v:
                            cands.append(cur[:i] + [" ".join(w[:j] + [str(nv)] + w[j + 1:])] + cur[i + 1:])
            k = bad_many(cands)
            if k is None:
                i += 1
            else:
                cur = cands[k]
    return cur


def run_workers(binary, prop, seed, lo, hi, tmp, name, deadline, workers=CORES):
    procs = []
    for w in range(workers):
        out = os.path.join(tmp, "%s_%d" % (name, w))
        cmd = [binary, "run", "--prop", prop, "--seed", str(seed), "--from", str(lo + w), "--to", str(hi), "--stride",
               str(workers), "--out", out, "--status", out + ".st", "--deadline", str(deadline)]
        procs.append((subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV), out))
    res, bad = [], []
    for p, out in procs:
        text = p.communicate()[0].decode("latin1")
        st = array.array("Q")
        try:
            st.frombytes(open(out + ".st", "rb").read(8))
        except (OSError, ValueError):
            pass
        j = None
        if os.path.exists(out + ".json"):
            j = json.load(open(out + ".json"))
            res.append((j, out))
        if p.returncode == 0 and j:
            continue
        if p.returncode == 20:
            raise RuntimeError("the simulation is not deterministic: " + text[-500:])   # never seen on any tree
        if p.returncode == 10 and j:
            bad.append(j["bad_run"])
        elif p.returncode == 3 or not st:
            raise RuntimeError("worker error: " + text[-2000:])
        else:
            bad.append(st[0])     # crashed or hung in this run
    return res, bad


def load_known(prop):
    """signatures of findings that are recorded, not repaired: lines 'finding: property=<id> sig=<regex> :: <text>'"""
    out = []
    path = os.path.join(VERIF, "known-findings")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\S+) sig=(.*?) :: (.*)$", line)
            if m and m.group(1) == prop:
                out.append((re.compile(m.group(2)), m.group(3)))
    return out


def merge(d, s):
    for k, v in s.items():
        d[k] = d.get(k, 0) + v


def check(prop, tier, runs_override=None, start=0):
    info = PROPS[prop]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="run-", dir=BUILD)
    try:
        return check_in(prop, tier, info, seed, t0, tmp, runs_override, start)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def check_in(prop, tier, info, seed, t0, tmp, runs_override, start):
    bins = build([v for v, _ in info["variants"]])
    t_build = time.time() - t0
    total = runs_override or info["runs"] * (1 if tier == "quick" else info.get("thorough", 40))
    deadline = 500 if tier == "quick" else 3000
    tot, faults, probes, samples, states, traces = {}, {}, {}, [], set(), set()
    t1 = time.time()
    found = None
    lo = start
    for vname, share in info["variants"]:
        if vname not in bins:
            print("note: configuration %s does not build, not checked" % vname)
            continue
        hi = lo + max(CORES, int(total * share))
        left = max(20, deadline - (time.time() - t1))
        res, bad = run_workers(bins[vname], prop, seed, lo, hi, tmp, vname, left)
        for j, out in res:
            merge(tot, {k: j[k] for k in ("runs", "rerun", "steps", "nontrivial", "faultfree", "simtime")})
            merge(faults, j["faults"])
            merge(probes, j["probes"])
            if len(samples) < 3:
                samples += [(vname, r) for r in j["samples"]]
            for ext, tgt in ((".bin", states), (".tr", traces)):
                a = array.array("Q")
                try:
                    a.frombytes(open(out + ext, "rb").read())
                except OSError:
                    pass
                if len(tgt) < 6000000:
                    tgt.update(a)
        if bad:
            found = (vname, min(bad))
            break
        lo = hi
    t_run = time.time() - t1

    rc = 0
    violation = None
    if found:
        vname, run = found
        b = bins[vname]
        text = sh([b, "gen", "--explicit", "--prop", prop, "--seed", str(seed), "--from", str(run)])
        plan = Plan(text)
        f = os.path.join(tmp, "orig.plan")
        open(f, "w").write(text)
        first = replay(b, f)
        if first[0] in ("ok", "error"):
            print("ERROR: run %d of seed %d failed, but its replay does not (%s)" % (run, seed, first[1]))
            return 4
        steps = plan.steps if NOMIN else minimise(b, plan, first[0], tmp)
        open(f, "w").write(plan.text(steps))
        r1, r2 = replay(b, f), replay(b, f)
        if r1[:2] != r2[:2] or r1[0] != first[0]:
            print("ERROR: replays of run %d of seed %d differ: %s / %s" % (run, seed, r1[1], r2[1]))
            return 4
        rdir = os.path.join(BUILD if NOEVIDENCE else VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s-seed%d-run%d.plan" % (prop, seed, run))
        notes = ["violation of %s: %s" % (prop, r1[1].replace("\n", " ")[:500]),
                 "found by seed %d run %d, %d steps, minimised to %d" % (seed, run, len(plan.steps), len(steps)),
                 "variant " + vname, "replay with: python3 check.py --replay <this file> -v"]
        open(path, "w").write(plan.text(steps, notes))
        for sig, desc in load_known(prop):
            if sig.search(r1[1]):
                print("KNOWN-FINDING: property=%s %s" % (prop, desc))
                break
        else:
            violation = r1[1]
            print("violation: %s" % r1[1])
            print("minimised to %d steps:" % len(steps))
            for s in steps[:40]:
                print("  " + s)
            print("VIOLATION property=%s replay=%s" % (prop, path))
            rc = 1

    written = []
    for vname, r in samples[:3]:
        t = sh([bins[vname], "gen", "--prop", prop, "--seed", str(seed), "--from", str(r)])
        written.append({"run": r, "variant": vname, "plan": t.splitlines()[1:]})
    if not written:
        written = [{"run": start, "plan": sh([bins[info["variants"][0][0]], "gen", "--prop", prop, "--seed", str(seed), "--from", str(start)]).splitlines()[1:]}]
    wall = time.time() - t0
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": info.get("level", "exploration"),
        "coverage": {
            "evaluations": tot.get("runs", 0),
            "distinct_nontrivial": len(traces),
            "rule": info["rule"],
            "samples": written,
            "states": len(states),
            "states_measure": info["states"],
            "simulated_steps": tot.get("steps", 0),
            "simulated_time": info.get("time", "the code has no clock; simulated time is counted in operations (simulated_steps) "
                                       "and decisions of the scheduler and the fault injector (simulated_decisions)"),
            "simulated_decisions": tot.get("simtime", 0),
            "runs_per_hour": int(tot.get("runs", 0) / max(t_run, 1e-3) * 3600),
            "seeds_per_hour": int(tot.get("runs", 0) / max(t_run, 1e-3) * 3600),
            "fault_free_runs": tot.get("faultfree", 0),
            "faults_injected": {k: v for k, v in sorted(faults.items()) if v},
            "rare_conditions_reached": {k: v for k, v in sorted(probes.items())},
            "runs_repeated_for_determinism": tot.get("rerun", 0),
            "components": COMPONENTS[info["components"]],
            "variants": [v for v, _ in info["variants"] if v in bins],
            "build_s": round(t_build, 2), "run_s": round(t_run, 2), "cores": CORES,
        },
        "assumptions": info["assumptions"],
        "wall_s": round(wall, 2),
        "violations": rc,
    }
    if NOEVIDENCE:
        return rc
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    t = os.path.join(VERIF, "evidence", ".%s.%d.tmp" % (prop, os.getpid()))
    json.dump(ev, open(t, "w"), indent=1)
    os.rename(t, os.path.join(VERIF, "evidence", prop + ".json"))
    print("%s: %d runs, %d distinct non-trivial histories, %d states, %d faults, %.1f s" % (
        prop, tot.get("runs", 0), len(traces), len(states), sum(faults.values()), wall))
    return rc


def determinism(prop, runs):
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    info = PROPS[prop]
    bins = build([v for v, _ in info["variants"]])
    tmp = tempfile.mkdtemp(prefix="det-", dir=BUILD)
    try:
        for vname in bins:
            sets = []
            for w in (CORES, 3):
                res, bad = run_workers(bins[vname], prop, seed, 0, runs, tmp, "%s_%d" % (vname, w), 600, w)
                tr, n = set(), 0
                for j, out in res:
                    a = array.array("Q")
                    a.frombytes(open(out + ".tr", "rb").read())
                    tr.update(a)
                    n += j["runs"]
                sets.append((tr, n, bad))
            same = sets[0] == sets[1]
            print("%s %s: %d runs, %d distinct histories, identical with %d and 3 processes: %s" % (
                prop, vname, sets[0][1], len(sets[0][0]), CORES, same))
            if not same:
                return 4
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main(argv):
    tier = os.environ.get("VERIF_TIER", "quick") or "quick"
    runs, start = None, 0
    args = list(argv)

    def opt(name):
        if name in args:
            i = args.index(name)
            v = args[i + 1]
            del args[i:i + 2]
            return v
        return None
    tier = opt("--tier") or tier
    v = opt("--runs")
    runs = int(v) if v else None
    v = opt("--from")
    start = int(v) if v else 0
    f = opt("--replay")
    d = opt("--determinism")
    try:
        if f:
            text = open(f).read()
            m = re.search(r"^# variant (\S+)", text, re.M)
            vname = m.group(1) if m else PROPS[re.search(r"^prop (\S+)", text, re.M).group(1)]["variants"][0][0]
            r = replay(build([vname])[vname], f, "-v" in args)
            print(r[2], end="")
            print(r[1])
            return 0 if r[0] == "ok" else 1
        if d:
            return determinism(d, runs or 4000)
        if "--build" in args:
            build(sorted({v for p in PROPS.values() for v, _ in p["variants"]}))
            return 0
        return check(args[0], tier, runs, start)
    except (RuntimeError, subprocess.TimeoutExpired, OSError) as e:
        print("ERROR: %s" % e)
        return 4


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
