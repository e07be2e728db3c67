#!/usr/bin/env python3
"""Tries edits of the sources in a scratch copy: each must be reported (BAD) or leave the checks quiet (GOOD).

variants.py [file.py ...] [-k substring]   files define V = [(name, 'BAD'|'GOOD', [(file, old, new), ...], [checks])]
Nothing here is part of a check; the scratch copies live under /tmp and are removed.
"""
import os
import re
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ROOT = os.environ.setdefault("VARIANTS_ROOT", "/tmp/variants-%d" % os.getpid())


def sh(c, cwd=None, env=None):
    return subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)


def prepare(w):
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    sh("git archive HEAD | tar x -C " + w, "/repo")
    if os.path.exists("/repo/Cargo.lock"):
        shutil.copy("/repo/Cargo.lock", w)


def one(job):
    name, kind, edits, checks = job
    w = os.path.join(ROOT, str(os.getpid()))
    prepare(w)
    for f, o, n in edits:
        p = os.path.join(w, f)
        s = open(p).read()
        if s.count(o) != 1:
            return 1, "%-32s edit matches %d times in %s: %r" % (name, s.count(o), f, o[:50])
        open(p, "w").write(s.replace(o, n))
    env = dict(os.environ, DBUS_REPO=w)
    env.setdefault("DBUS_JOBS", "3")
    env.pop("DBUS_DUMP", None)
    out = sh("./check " + " ".join(checks), HERE, env).stdout
    v = re.findall(r"^VIOLATION property=(\S+)", out, re.M)
    und = len(re.findall(r"^UNDECIDED", out, re.M))
    err = not re.search(r"^C\d+: ", out, re.M)
    okay = not err and (bool(v) if kind == "BAD" else not v)
    text = "%-32s %-4s %-6s violations=%s undecided=%d" % (name, kind, "ok" if okay and not (und and kind == "GOOD") else "OPEN" if okay else "WRONG", ",".join(v), und)
    if not okay or und:
        for l in [l for l in out.splitlines() if l.startswith(("  [", "UNDECIDED", "error")) or err][:6]:
            text += "\n      " + l[:300]
    shutil.rmtree(w, ignore_errors=True)
    return not okay, text


def main():
    args = sys.argv[1:]
    key = args[args.index("-k") + 1] if "-k" in args else ""
    if key:
        i = args.index("-k")
        del args[i:i + 2]
    jobs = []
    for path in args or sorted(os.path.join(HERE, "tools", "variants", f) for f in os.listdir(os.path.join(HERE, "tools", "variants"))):
        ns = {}
        exec(open(path).read(), ns)
        jobs += [v for v in ns["V"] if re.search(key, v[0])]
    import multiprocessing
    bad = 0
    with multiprocessing.Pool(4) as pool:
        for wrong, text in pool.imap(one, jobs):
            bad += wrong
            print(text)
            sys.stdout.flush()
    print("%d wrong" % bad)
    shutil.rmtree(ROOT, ignore_errors=True)
    return 1 if bad else 0


sys.exit(main())
