#!/usr/bin/env python3
"""Entry point: main.py <property id> [--thorough] | main.py --setup"""
import importlib
import os
import re
import sys
import threading
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import harness
from core import Clock
from interp import Interp

CHECKS = {
    "C01": "c_invariants", "C27": "c_roundtrip", "C04": "c_names", "C05": "c_names", "C07": "c_decode", "C08": "c_decode",
    "C09": "c_decode", "C10": "c_decode", "C11": "c_encode", "C12": "c_encode", "C13": "c_decode", "C14": "c_encode", "C15": "c_fields", "C16": "c_messages", "C18": "c_messages", "C19": "c_messages", "C23": "c_messages",
    "C20": "c_match", "C21": "c_codec", "C22": "c_codec", "C25": "c_paths",
    "C17": "c_invariants", "C24": "c_values", "C26": "c_values",
    "C28": "c_invariants", "C29": "c_invariants",
    "C02": "c_types", "C03": "c_types", "C06": "c_types",
}


WIRE = ["C07", "C08", "C09", "C10", "C11", "C12"]
# what a property says rests on what these say: their obligations are its own as well
RELIES = {
    "C06": ["C03"], "C08": ["C05", "C02"], "C09": ["C02"], "C11": ["C03"], "C12": ["C03", "C06"],
    "C10": [("C09", r":result2$"), ("C13", r":fds:result2$")],
    "C13": ["C07", "C08", "C09", "C10", "C15", "C02", "C04", "C05", "C26"],
    "C14": ["C11", "C12", "C15", "C03", "C06", "C26"],
    "C15": ["C04", "C05"],
    "C21": ["C04", "C05", "C26"],
    "C27": WIRE + ["C13", "C14", "C15", "C02", "C03", "C04", "C05", "C06", "C26"],
}
RELIES["C01"] = [p for p in sorted(CHECKS) if p not in ("C01", "C27", "C28", "C29")]
RELIES["C28"] = RELIES["C29"] = RELIES["C01"]
# properties of all functions together: which deviations, obligations and question of the analyses are theirs
OVERALL = {
    "C01": (lambda k: ":panic:" in k, lambda ob: True, None),
    "C28": (re.compile(r":(loop|recursion|progress)$").search, re.compile("come to an end$|gets further in the message$").search, "loops"),
    "C29": (re.compile(r":reserve$").search, re.compile("in proportion to what it holds$").search, "memory"),
}


def obligations(rep, tier, prog, pid, keep, prefix, mine=lambda ob: True):
    """Those of one property."""
    mod = importlib.import_module(CHECKS[pid])
    sub = rep if prefix is None else harness.Report(pid, tier, prog)
    try:
        getattr(mod, "check_" + pid)(sub)
    except Exception as e:
        # a construct the analyser cannot follow is no violation
        if os.environ.get("DBUS_STRICT"):
            raise
        traceback.print_exc()
        sub.unsure("the check as a whole", "internal: %r" % (e,))
    if prefix is not None:
        rep.include(sub, prefix, keep, mine)


def main():
    if sys.argv[1] == "--setup":
        os.makedirs(harness.BUILD, exist_ok=True)
        p = harness.load()
        print("dump of %s: %d instances" % (harness.CRATE, len(p.insts)))
        return 0
    tier = "thorough" if "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    rc = 0
    prog = harness.load()
    ids = [a for a in sys.argv[1:] if not a.startswith("--")]
    if ids == ["all"]:
        ids = sorted(CHECKS)
    for pid in ids:
        Clock.FACTOR = 1 if tier == "quick" else 4
        Clock.LIMIT = time.time() + (700 if tier == "quick" else 3400)
        rep = harness.Report(pid, tier, prog)
        keep, mine, Interp.RANK = OVERALL.get(pid, (lambda k: True, lambda ob: True, None))
        for d in RELIES.get(pid, []):
            if isinstance(d, tuple):        # what only some deviations of it concern
                obligations(rep, tier, prog, d[0], re.compile(d[1]).search, d[0])
            else:
                obligations(rep, tier, prog, d, keep, d, mine)
        obligations(rep, tier, prog, pid, keep, None)
        rc = max(rc, rep.finish())
    return rc


if __name__ == "__main__":
    threading.stack_size(512 << 20)
    sys.setrecursionlimit(100000)
    box = []

    def body():
        try:
            box.append(main())
        except SystemExit as e:
            sys.stderr.write("error: %s\n" % e)
            box.append(3)
        except BaseException:
            traceback.print_exc()
            box.append(3)

    t = threading.Thread(target=body)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(box[0] if box else 3)
