"""Runs independent obligations of a check in parallel processes."""
import os
import pickle
import signal
import sys
import threading
import traceback

WORKERS = int(os.environ.get("DBUS_JOBS", "8"))


STATE = ("obligations", "violations", "undecided", "rules", "assumptions", "notes")


VIOLATIONS, UNDECIDED = STATE.index("violations"), STATE.index("undecided")


def _fresh(rep):
    for a in STATE:
        setattr(rep, a, [])
    rep.functions = set()
    rep.counts = {}


def _get(rep):
    return [getattr(rep, a) for a in STATE + ("functions", "counts")]


def _set(rep, vals):
    for a, v in zip(STATE + ("functions", "counts"), vals):
        setattr(rep, a, v)


def attempt(rep, fn, args):
    """Run an obligation; where it is not discharged, run it again with the
    first iteration of every loop told apart (both are sound, either will do);
    the thorough tier tells the first two apart as well."""
    from interp import Interp, Clock
    Clock.start(240)
    before = _get(rep)
    _fresh(rep)
    guarded(rep, fn, args)
    got = _get(rep)
    for peel in (1, 2)[:1 if rep.tier == "quick" else 2]:
        if not rep.violations and not rep.undecided:
            break
        _fresh(rep)
        Interp.PEEL = peel
        Clock.start(90)
        try:
            guarded(rep, fn, args)
        finally:
            Interp.PEEL = 0
        if not rep.violations and not rep.undecided:
            got = _get(rep)
    if (got[UNDECIDED] or os.environ.get("DBUS_BOUND")) and not Interp.RANK:
        got[VIOLATIONS] = list(got[VIOLATIONS]) + instances(rep, fn, args)
    _set(rep, before)
    _merge(rep, *got)


def instances(rep, fn, args):
    """An obligation that stays open because of a loop nothing is known about:
    are there deviations among the executions that go round few times?  These
    are followed exactly, so what they show is no artefact of a generalisation
    (but nothing is proved by their being right)."""
    from interp import Interp, Clock
    found = []
    for bound in (1, 2):
        _fresh(rep)
        rep.exact = []
        Interp.BOUND = bound
        Clock.start(60)
        try:
            guarded(rep, fn, args)
        finally:
            Interp.BOUND = 0
        found = rep.exact
        del rep.exact
        if found:
            break
    return found


def either(rep, fn, *ways):
    """An obligation with several specifications that say the same: it is
    discharged if one of them is, otherwise the first one counts."""
    before, exact = _get(rep), getattr(rep, "exact", None)
    first = None
    for args in ways:
        _fresh(rep)
        if exact is not None:
            rep.exact = list(exact)
        fn(rep, *args)
        got = _get(rep), getattr(rep, "exact", None)
        first = first or got
        if not rep.violations and not rep.undecided:
            first = got
            break
    _set(rep, before)
    _merge(rep, *first[0])
    if exact is not None:
        rep.exact = first[1]


def guarded(rep, fn, args):
    """A construct the analyser trips over leaves the obligation undecided."""
    try:
        fn(rep, *args)
    except (LookupError, TypeError, ValueError, AttributeError, ArithmeticError, AssertionError, RecursionError) as e:
        if os.environ.get("DBUS_STRICT"):
            raise
        tb = traceback.extract_tb(e.__traceback__)[-1]
        rep.unsure(" ".join([fn.__name__] + [str(getattr(a, "name", a))[:80] for a in args[:1]]),
                   "internal: %r at %s:%d" % (e, os.path.basename(tb.filename), tb.lineno))


def _merge(rep, obl, vio, und, rul, ass, nts, fun, cnt):
    rep.obligations = rep.obligations + obl
    for k, t in vio:
        if all(k != k2 for k2, _ in rep.violations):
            rep.violations.append((k, t))
    rep.undecided = rep.undecided + und
    rep.functions |= fun
    for k, n in cnt.items():
        rep.counts[k] = rep.counts.get(k, 0) + n
    for x in rul:
        rep.rule(x)
    for x in ass:
        if x not in rep.assumptions:
            rep.assumptions.append(x)
    rep.notes = rep.notes + nts


def _child(rep, fn, args, w):
    box = []

    def body():
        try:
            attempt(rep, fn, args)
            box.append(None)
        except BaseException:
            box.append(traceback.format_exc())
    t = threading.Thread(target=body)
    t.start()
    t.join()
    data = pickle.dumps((box[0], _get(rep)))
    with os.fdopen(w, "wb") as f:
        f.write(data)
    sys.stdout.flush()
    os._exit(0)


def parallel(rep, tasks):
    """tasks: [(function, args...)]; function(rep, *args)."""
    if WORKERS <= 1 or len(tasks) <= 1:
        for t in tasks:
            attempt(rep, t[0], t[1:])
        return
    pending = list(enumerate(tasks))
    running = {}
    results = {}
    sys.stdout.flush()
    while pending or running:
        while pending and len(running) < WORKERS:
            i, t = pending.pop(0)
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                _fresh(rep)
                _child(rep, t[0], t[1:], w)
            os.close(w)
            running[r] = (i, pid)
        import select
        ready, _, _ = select.select(list(running), [], [])
        for r in ready:
            i, pid = running.pop(r)
            with os.fdopen(r, "rb") as f:
                data = f.read()
            os.waitpid(pid, 0)
            if not data:
                # out of memory, say: no answer for this obligation
                lost = [[], [], [("obligation %d of the check" % i, "the worker that analysed it was ended")], [], [], [], set(), {}]
                results[i] = (None, lost)
                continue
            results[i] = pickle.loads(data)
    for i in range(len(tasks)):
        err, got = results[i]
        if err:
            sys.stderr.write(err)
            raise SystemExit("a worker failed")
        _merge(rep, *got)
