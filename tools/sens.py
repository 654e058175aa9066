#!/usr/bin/env python3
"""Which checks catch a change?  tools/sens.py [--only C01,C02] [--runs N] PATCH...   (works on a scratch copy of /repo)
PATCH: a file for git apply, or revert:<commit>.  Prints one line per patch."""
import os, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from zprops import PROPS


def main(a):
    only, runs, out = None, None, []
    while a and a[0].startswith("--"):
        if a[0] == "--only":
            only = a[1].split(",")
        if a[0] == "--runs":
            runs = a[1]
        a = a[2:]
    for p in a:
        tmp = tempfile.mkdtemp(prefix="sens-", dir="/tmp")
        try:
            r = os.path.join(tmp, "repo")
            os.mkdir(r)
            for d in ("src", "include", ".git"):
                shutil.copytree(os.path.join("/repo", d), os.path.join(r, d))
            subprocess.run(["git", "-C", r, "update-index", "-q", "--refresh"], stdout=subprocess.DEVNULL)
            if p.startswith("revert:"):
                diff = subprocess.run(["git", "-C", r, "diff", p[7:], p[7:] + "~"], stdout=subprocess.PIPE).stdout
                q = subprocess.run(["git", "-C", r, "apply", "--3way", "-"], input=diff, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            else:
                q = subprocess.run(["git", "-C", r, "apply", os.path.abspath(p)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            name = p if p.startswith("revert:") else os.path.basename(os.path.dirname(os.path.abspath(p)))
            if q.returncode:
                print("%s: DOES NOT APPLY %s" % (name, q.stdout.decode()[-300:]), flush=True)
                continue
            hits = []
            for prop in only or sorted(PROPS):
                cmd = [sys.executable, os.path.join(V, "check.py"), prop] + (["--runs", runs] if runs else [])
                e = dict(os.environ, ZSIM_REPO=r, ZSIM_NOMIN="1", ZSIM_NOEVIDENCE="1")
                c = subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if c.returncode == 1 and "VIOLATION property=" in c.stdout:
                    m = re.search(r"violation (tag=\S+).*?(msg=.*)", c.stdout)
                    hits.append((prop, (m.group(1) + " " + m.group(2))[:150] if m else c.stdout[-150:].replace("\n", " ")))
                elif c.returncode:
                    hits.append((prop, "BROKEN rc=%d %s" % (c.returncode, c.stdout[-300:].replace("\n", " "))))
            print("%s: %s" % (name, " ".join(h[0] for h in hits) or "MISSED"), flush=True)
            for h in hits:
                print("    %s %s" % h, flush=True)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)


main(sys.argv[1:])
