#!/usr/bin/env python3
"""Mutation study of the checks: small changes of the library that compile and pass its tests; which checks catch them?
  tools/mutate.py WORKDIR [--files Vector.c,..] [--sample N] [--seed S] [--runs N] [--rare 1] [--out FILE]
Works on a scratch copy of /repo in WORKDIR. Prints the survivors at the end; results are appended to FILE as JSON lines."""
import json, os, random, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = {"Vector.c": "C01 C02 C14 C03 C04 C05 C15 C06 C07", "String.c": "C06 C07 C14 C05 C04 C15 C22", "Format.c": "C08 C05 C21",
       "List.c": "C09 C10 C03 C04 C05 C15", "Bitset.c": "C11 C12 C14 C05 C15 C22", "ArgParse.c": "C13 C04", "Allocator.c": "C15 C04 C21",
       "API/Synchronization.c": "C18 C16 C17", "API/Thread.c": "C18 C20 C23", "API/Memory.c": "C24", "API/Process.c": "C24",
       "API/Terminal.c": "C25", "../include/Zycore/Internal/AtomicGNU.h": "C19", "../include/Zycore/Atomic.h": "C19"}
SUBS = [(r"(?<![<>=!\-])<(?![<=])", "<="), (r"<=", "<"), (r"(?<![>\-])>(?![>=])", ">="), (r">=", ">"), (r"==", "!="), (r"!=", "=="),
        (r" \+ 1\b", ""), (r" - 1\b", ""), (r" \+ (?!1\b)", " - "), (r" - (?!1\b)", " + "), (r"&&", "||"), (r"\|\|", "&&"),
        (r"\b0\b", "1"), (r"\b1\b", "0"), (r"\b1\b", "2"), (r"\b8\b", "7"), (r"ZYAN_TRUE", "ZYAN_FALSE"), (r"ZYAN_FALSE", "ZYAN_TRUE"),
        (r" \* ", " + "), (r" / ", " * "), (r" % ", " / "), (r"<<", ">>"), (r">>", "<<"), (r"\+=", "-="), (r"-=", "+="), (r"\+\+", "--"), (r"--", "++"),
        (r" & ", " | "), (r" \| ", " & "), (r"\|=", "="), (r"&=", "="), (r"!(?=[a-zA-Z(])", ""), (r"~", ""),
        (r"ZYAN_CHECK\((.*)\);", r"(void)(\1);"), (r"\bif \((.*)\)$", r"if (0 && (\1))"), (r"\bif \((.*)\)$", r"if (1 || (\1))"),
        (r"\bindex\b", "0"), (r"\bcount\b", "1"), (r"\bZYAN_MAX\b", "ZYAN_MIN"), (r"\bZYAN_MIN\b", "ZYAN_MAX"), (r"ZYAN_MEMMOVE", "ZYAN_MEMCPY"),
        (r"\bnext\b", "prev"), (r"\bprev\b", "next"), (r"\bhead\b", "tail"), (r"\btail\b", "head"), (r"ZyanUSize", "ZyanU16"), (r"ZyanUSize", "ZyanU32"),
        (r"\bcapacity\b", "size"), (r"\bsize\b", "capacity")]


def mutants(path):
    out, depth, comment, skip = [], 0, False, 0
    lines = open(path).read().split("\n")
    for i, l in enumerate(lines):
        s = l.strip()
        if s.startswith("#"):
            if re.match(r"#\s*if\s*(def)?\s*.*(WINDOWS|WIN32|KERNEL)", s) and "!" not in s:
                skip = depth + 1000
            if re.match(r"#\s*(else|elif|endif)", s):
                skip = 0
            continue
        if comment or s.startswith(("//", "/*", "*")):
            comment = "*/" not in s and (comment or s.startswith("/*"))
            continue
        d0 = depth
        depth += l.count("{") - l.count("}")
        if d0 == 0 or skip or "ZYAN_ASSERT" in s or "ZYAN_UNUSED" in s or not s:
            continue
        seen = set()
        for pat, rep in SUBS:
            for m in re.finditer(pat, l):
                n = l[:m.start()] + m.expand(rep) + l[m.end():]
                if n != l and n not in seen:
                    seen.add(n)
                    out.append((i, l, n))
        if s.endswith(";") and not re.match(r"(return|break|const|Zyan\w+\*? \w+|void|int|char|struct|static)\b", s) and s.count("(") == s.count(")"):
            out.append((i, l, ";"))
    return lines, out


def rare(path, lines, muts, rnd):
    """the same changes, but only under a rare condition on the object at hand"""
    out, cur, head = [], None, {}
    text = "\n".join(lines)
    for m in re.finditer(r"^(?:static |ZYAN_INLINE )?Zyan\w+\*? \w+\(([^;{]*?)\)\n\{", text, re.M):
        k = re.search(r"Zyan(Vector|StringView|String|List|Bitset)\* ?(?:const )?(\w+)", m.group(1))
        a, z = text.count("\n", 0, m.end()), text.find("\n}", m.end())
        for i in range(a, text.count("\n", 0, z) + 1):
            head[i] = ((k and (k.group(1), k.group(2))) or ("", ""), a, m.group(1))
    for i, old, new in muts:
        if i not in head:
            continue
        (kind, v), first, params = head[i]
        # a condition on the history (the n-th call), on the object, or on the arguments
        free = ["({static unsigned nth_; ++nth_ == %d;})" % rnd.randrange(2, 14), "({static unsigned nth_; ++nth_ %% %d == 0;})" % rnd.choice([3, 5, 8, 13])]
        for t, x in re.findall(r"(ZyanU\w+|ZyanI64|ZyanUSize|ZyanISize) (\w+)", params):
            free += ["%s %% %d == %d" % (x, q, rnd.randrange(q)) for q in (7, 16, 61)] if t != "ZyanISize" else []
            free += ["%s == %d" % (x, rnd.randrange(2, 30))] * 2
            free += ["(%s >> %d) == 1" % (x, rnd.choice([16, 31, 32, 40, 62]))] if "64" in t else []
        if "cfg" in params:
            free += ["cfg->argc == %d" % rnd.randrange(3, 14), "cfg->argc > %d" % rnd.choice([20, 40]), "cfg->max_unnamed_args == %d" % rnd.randrange(1, 5), "cfg->min_unnamed_args == %d" % rnd.randrange(1, 4)]
            if any("arg_len = ZYAN_STRLEN(cfg" in x for x in lines[first:i]):
                free += ["i == %d" % rnd.randrange(2, 9), "arg_len == %d" % rnd.randrange(2, 12), "arg_len > %d" % rnd.choice([12, 30]), "num_unnamed_args == %d" % rnd.randrange(1, 5)] * 2
        vec = {"Vector": v + "->", "String": v + "->vector.", "StringView": v + "->string.vector.", "List": v + "->", "Bitset": v + "->"}.get(kind)
        conds = ["size == %d" % rnd.randrange(3, 50), "size > %d" % rnd.choice([60, 130, 260, 520]), "size %% 16 == %d" % rnd.randrange(16)]
        if kind == "Vector":
            conds += ["capacity == %d" % rnd.randrange(3, 50), "element_size == %d" % rnd.choice([1, 2, 3, 4, 5, 7, 8, 12, 16, 24]), "element_size > %d" % rnd.choice([32, 64, 128]), "growth_factor == %d" % rnd.choice([1, 3, 4]), "shrink_threshold == %d" % rnd.choice([0, 1, 2, 3])]
        if kind == "List":
            conds += ["element_size == %d" % rnd.choice([1, 2, 3, 4, 5, 7, 8, 12, 16]), "element_size > %d" % rnd.choice([32, 64])]
        c = "(%s && %s%s)" % (v, vec, rnd.choice(conds)) if vec and v != "parsed" and rnd.random() < 0.6 else "(%s)" % rnd.choice(free)
        o, n = old.strip(), new.strip()
        m1, m2 = re.match(r"^((?:const )?[\w ]+\*? ?(?:const )?\w+ = )(.*);$", o), None
        if m1:
            if not n.startswith(m1.group(1)):
                continue
            w = "%s%s ? (%s) : (%s);" % (m1.group(1), c, n[len(m1.group(1)):-1], m1.group(2))
        elif re.match(r"^if \((.*)\)$", o) and re.match(r"^if \((.*)\)$", n):
            w = "if (%s ? (%s) : (%s))" % (c, n[4:-1], o[4:-1])
        elif re.match(r"^while \((.*)\)$", o) and re.match(r"^while \((.*)\)$", n):
            w = "while (%s ? (%s) : (%s))" % (c, n[7:-1], o[7:-1])
        elif o.endswith(";") and o.count("(") == o.count(")") and not o.startswith(("for", "break", "continue", "}")) and n.endswith(";"):
            w = "if (%s) { %s } else { %s }" % (c, n, o)
        else:
            continue
        out.append((i, old, w))
    return out


def sh(c, **k):
    try:
        return subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
    except subprocess.TimeoutExpired:
        return subprocess.CompletedProcess(c, 124, "timeout")


def main(a):
    w, opt = a[0], dict(zip(a[1::2], a[2::2]))
    r = os.path.join(w, "repo")
    if not os.path.isdir(r):
        os.makedirs(w, exist_ok=True)
        sh(["cp", "-a", "/repo", r])
    for d in ("src", "include"):
        sh(["rsync", "-a", "--delete", "/repo/%s/" % d, r + "/%s/" % d]) if shutil.which("rsync") else (shutil.rmtree(r + "/" + d), shutil.copytree("/repo/" + d, r + "/" + d))
    b = os.path.join(w, "b")
    if not os.path.exists(b + "/build.ninja"):
        sh(["cmake", "-S", r, "-B", b, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=Debug", "-DZYCORE_BUILD_TESTS=ON", "-DCMAKE_REQUIRE_FIND_PACKAGE_GTest=ON", "-DCMAKE_DISABLE_FIND_PACKAGE_Doxygen=ON"])
    rnd = random.Random(int(opt.get("--seed", "1")))
    work = []
    for f in (opt["--files"].split(",") if "--files" in opt else sorted(MAP)):
        p = os.path.join(r, "src", f)
        ls, ms = mutants(p)
        work += [(f, m) for m in (rare(p, ls, ms, rnd) if "--rare" in opt else ms)]
    rnd.shuffle(work)
    work = work[:int(opt.get("--sample", "200"))]
    tally = {}
    for f, (i, old, new) in work:
        p = os.path.join(r, "src", f)
        orig = open(p).read()
        lines = orig.split("\n")
        lines[i] = new
        open(p, "w").write("\n".join(lines))
        try:
            q = sh(["ninja", "-C", b], timeout=120)
            res = "no-compile" if q.returncode else None
            if not res:
                for t in ("TestString", "TestVector", "TestArgParse"):
                    if sh([b + "/" + t], timeout=20).returncode:
                        res = "tests"
                        break
            hits = []
            if not res:
                e = dict(os.environ, ZSIM_REPO=r, ZSIM_NOMIN="1", ZSIM_NOEVIDENCE="1")
                for prop in MAP[f].split():
                    c = sh([sys.executable, os.path.join(V, "check.py"), prop, "--runs", opt.get("--runs", "30000")], env=e, timeout=900)
                    if c.returncode == 1 and "VIOLATION property=" in c.stdout:
                        hits.append(prop)
                        break
                    if c.returncode:
                        hits.append("%s?rc%d" % (prop, c.returncode))
                res = " ".join(hits) if hits else "SURVIVED"
        finally:
            open(p, "w").write(orig)
        tally[res] = tally.get(res, 0) + 1
        rec = dict(file=f, line=i + 1, old=old.strip(), new=new.strip(), result=res)
        with open(opt.get("--out", w + "/out.jsonl"), "a") as o:
            o.write(json.dumps(rec) + "\n")
        if res == "SURVIVED" or "?" in res:
            print("%s:%d  %s  ->  %s   %s" % (f, i + 1, old.strip(), new.strip(), res), flush=True)
    print(tally)


if __name__ == "__main__":
    main(sys.argv[1:])
