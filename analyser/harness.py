"""Builds the MIR dump of /repo's working tree, and the reporting of a check."""
import fcntl
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("DBUS_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
CRATE = "dbus_message_parser"


def env():
    e = dict(os.environ)
    e["HOME"] = e.get("HOME") or "/root"
    if "/root/.cargo/bin" not in e.get("PATH", ""):
        e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "CARGO_ENCODED_RUSTFLAGS",
              "RUSTUP_TOOLCHAIN", "CARGO_BUILD_TARGET", "CARGO_INCREMENTAL"):
        e.pop(k, None)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    return e


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, **kw)
    if r.returncode != 0:
        sys.stderr.write(r.stdout[-4000:])
        raise SystemExit("command failed (%d): %s" % (r.returncode, " ".join(cmd)))
    return r.stdout


def build_driver():
    """The rustc driver, compiled from /verif/driver/main.rs (cached by content)."""
    e = env()
    src = os.path.join(VERIF, "driver", "main.rs")
    sysroot = run(["rustc", "+nightly", "--print", "sysroot"], env=e).strip()
    h = hashlib.sha256(open(src, "rb").read() + sysroot.encode()).hexdigest()[:16]
    out = os.path.join(BUILD, "driver-" + h)
    if not os.path.exists(out):
        tmp = out + ".tmp"
        run(["rustc", "+nightly", "--edition", "2021", "-O", src, "-o", tmp], env=e)
        os.rename(tmp, out)
    return out, sysroot


def dump():
    """MIR of the library crate as it is in /repo now; returns the path of the dump."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        driver, sysroot = build_driver()
        tgt = os.path.join(BUILD, "target")
        # cargo's freshness cache would silently skip the driver
        for sub in (".fingerprint", "build"):
            fp = os.path.join(tgt, "debug", sub)
            if os.path.isdir(fp):
                for d in os.listdir(fp):
                    if d.startswith("dbus-message-parser"):
                        shutil.rmtree(os.path.join(fp, d))
        fd, out = tempfile.mkstemp(prefix="dump-", suffix=".json", dir=BUILD)
        os.close(fd)
        os.unlink(out)
        e = env()
        e["LD_LIBRARY_PATH"] = os.path.join(sysroot, "lib")
        e["DBUSMIR_CRATE"] = CRATE
        e["DBUSMIR_OUT"] = out
        e["DBUSMIR_ROOT"] = REPO + "/"
        e["RUSTC_WORKSPACE_WRAPPER"] = driver
        e["CARGO_TARGET_DIR"] = tgt
        run(["cargo", "+nightly", "check", "--lib", "--offline"], cwd=REPO, env=e)
        if not os.path.exists(out):
            raise SystemExit("the driver did not produce a dump of " + CRATE)
    return out


def load():
    from prog import Prog
    path = os.environ.get("DBUS_DUMP")
    if path:
        return Prog(path)
    path = dump()
    try:
        return Prog(path)
    finally:
        os.unlink(path)


def known_findings():
    """{(property, key): text} of the findings recorded, not repaired."""
    out = {}
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding: property="):
                rest = line[len("finding: property="):]
                pid, rest = rest.split(" ", 1)
                key, text = rest.split(" :: ", 1)
                out[(pid, key.strip())] = text.strip()
    return out


class Report:
    """Obligations, violations and coverage of one property check."""

    def __init__(self, pid, tier, prog):
        self.pid = pid
        self.tier = tier
        self.prog = prog
        self.t0 = time.time()
        self.obligations = []       # (name, discharged)
        self.violations = []        # (key, text)
        self.undecided = []
        self.functions = set()
        self.counts = {}
        self.rules = []
        self.assumptions = []
        self.notes = []

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def rule(self, text):
        if text not in self.rules:
            self.rules.append(text)

    def ok(self, name):
        self.obligations.append((name, True))

    def bad(self, key, text, name=None):
        """A violation: key names the construct (stable, no line numbers)."""
        self.obligations.append((name or key, False))
        if all(k != key for k, _ in self.violations):
            self.violations.append((key, text))

    def unsure(self, name, why):
        self.obligations.append((name, False))
        self.undecided.append((name, str(why)))

    def anchor_missing(self, what):
        self.bad("anchor:" + what, "the construct that carries this property is gone: %s "
                 "(nothing can be decided without it)" % what)

    def private_missing(self, what):
        """A private function or type the check hangs on was renamed or dissolved."""
        self.unsure("finding " + what, "%s is not there any more; the analysis is not decomposed without it" % what)

    def floor(self, name, have, want):
        if have < want:
            self.bad("floor:" + name, "only %d %s were found, %d were confirmed by hand" % (have, name, want))
        self.counts[name] = have

    def include(self, sub, prefix, keep, mine=lambda ob: True):
        """The obligations of a property this one relies on."""
        for n, done in sub.obligations:
            if not mine(n):
                continue
            self.obligations.append(("%s: %s" % (prefix, n), done))
        for k, t in sub.violations:
            if keep(k):
                self.violations.append(("%s:%s" % (prefix, k), t))
            else:
                self.count("deviations_of_other_properties")
        self.undecided += [("%s: %s" % (prefix, n), w) for n, w in sub.undecided if mine(n)]
        self.functions |= sub.functions
        for k, n in sub.counts.items():
            self.count(k, n)
        for r in sub.rules:
            self.rule(r)
        self.assumptions += [a for a in sub.assumptions if a not in self.assumptions]
        self.notes += sub.notes

    def saw(self, insts):
        for i in insts:
            self.functions.add(i)

    def finish(self):
        known = known_findings()
        new = []
        for key, text in self.violations:
            if (self.pid, key) in known:
                print("KNOWN-FINDING: property=%s %s (%s)" % (self.pid, known[(self.pid, key)], key))
            else:
                new.append((key, text))
        done = sum(1 for _, d in self.obligations if d)
        cov = {
            "explanation": "abstract interpretation of the monomorphised MIR of the current tree; "
                           "rules: " + " | ".join(self.rules),
            "obligations": len(self.obligations),
            "discharged": done,
            "undecided": [{"obligation": n, "why": w} for n, w in self.undecided],
            "functions_analysed": len(self.functions),
            "functions": sorted(self.functions)[:400],
            "counts": self.counts,
            "samples": [n for n, _ in self.obligations[:40]],
            "violations": [{"key": k, "text": t} for k, t in self.violations],
            "notes": self.notes,
        }
        ev = {
            "property": self.pid,
            "tier": self.tier,
            "seed": int(os.environ.get("VERIF_SEED", "0") or 0),
            "level": "other",
            "coverage": cov,
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(new),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        path = os.path.join(VERIF, "evidence", self.pid + ".json")
        with open(path, "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        print("%s: %d obligations, %d discharged, %d undecided, %d violations; %d functions, %s"
              % (self.pid, len(self.obligations), done, len(self.undecided), len(new), len(self.functions),
                 ", ".join("%s=%s" % kv for kv in sorted(self.counts.items()))))
        for n, w in self.undecided:
            print("UNDECIDED property=%s obligation=%s: %s" % (self.pid, n, w))
        if not new:
            return 0
        os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
        rp = os.path.join(VERIF, "evidence", "replay", self.pid + ".txt")
        with open(rp, "w") as f:
            for k, t in new:
                f.write("[%s] %s\n" % (k, t))
        for k, t in new:
            print("  [%s] %s" % (k, t))
        print("VIOLATION property=%s replay=%s" % (self.pid, rp))
        return 1
