"""C18 - readings are dropped for the documented reasons only."""
from .intake import *


def check(cx):
    cx.rule("D1", "a pose reading is dropped when it follows the last accepted one by less than the configured interval, and only then")
    cx.rule("D2", "the interval is measured from the last accepted reading: its time is kept exactly when the reading passes")
    cx.rule("D3", "a reading without covariance is dropped unless the covariance is configured as fixed; any other reading is not")
    cx.rule("D4", "decimated inputs pass every fifth (position from transform) or tenth (pressure) message by sequence number")
    cx.rule("D5", "a handler reports its first reading once one was handed to the filter, and not before any message")
    for h in intake(cx):
        for n, tp, f in callbacks(h):
            one(cx, h, n, tp, f)
        first(cx, h)
    cx.floor("D1", 8)
    cx.floor("D3", 10)
    cx.floor("D4", 4)


def verdict(cx, rule, r, want, inst, f, what, key):
    """want: True accepted on every path, False dropped on every path"""
    g = r.g
    isadd = lambda x: x in r.add
    if want:
        cx.nopath(g.path(g.entry, "exit", avoid=isadd, include_start=True), rule, inst + " accepted", f.where(), "dropped: " + what, key=key)
    else:
        cx.nopath(g.path(g.entry, isadd, include_start=True), rule, inst + " dropped", f.where(), "accepted: " + what, key=key)


def one(cx, h, n, tp, f):
    inst = "%s %s %s" % (h.u, h.name, n)
    key = "%s %s" % (h.cls, n)
    sp = h.spec
    # interval
    if sp.mindt:
        if h.flag("mindt") is None:
            cx.bad("D1", inst, h.ctor.where(), "the parameter %s is not read into a member" % sp.mindt, key="D1 %s param" % key)
        prevs = h.prev(f)
        if not prevs:
            cx.undecided("D1", inst, f.where(), "no member keeps the time of the last accepted reading")
        else:
            for md, prev, st, want in ((0.05, 99.96, 100.0, False), (0.05, 99.9, 100.0, True), (0.05, 100.0 - 0.0502, 100.0, True), (0.5, 99.6, 100.0, False), (0.5, 99.49, 100.0, True),
                                       (0.05, 0.0, 100.0, True), (0.5, 0.0, 1500000000.0, True), (0.05, 99.999, 100.0, False), (0.5, 100.0, 100.0, False),
                                       (0.05, 100.0, 99.0, False), (0.5, 1400000000.0, 30.0, False), (0.05, 1400000000.0, 1400000000.02, False), (0.05, 1400000000.0, 1400000000.1, True)):
                r = h.case(f, stamp=st, prev=prev, mindt=md, fixed=True)
                w = "interval %ss, last accepted %.4gs before" % (md, st - prev)
                verdict(cx, "D1", r, want, "%s %s" % (inst, w), f, "a reading with " + w, "D1 %s %s" % (key, "early" if not want else "due"))
                for m in sorted(prevs, key=repr):
                    x = exitval(r.e, m)
                    if want:
                        cx.expect(allalts(x, lambda a: near(evalnum(a, r.leaf), st) and a != m), "D2", "%s %s kept" % (inst, w), f.where(), "after an accepted reading %s is %s" % (show(m), show(x)[:80]), key="D2 %s kept" % key)
                    else:
                        cx.expect(x == m, "D2", "%s %s not moved" % (inst, w), f.where(), "after a dropped reading %s is %s" % (show(m), show(x)[:80]), key="D2 %s moved" % key)
            for m in sorted(prevs, key=repr):
                x = exitval(h.e, m)
                cx.expect(num(x) and x[1] <= 0, "D2", inst + " start", h.ctor.where(), "before any reading %s is %s" % (show(m), show(x)[:60]), key="D2 %s start" % key)
    # covariance
    if sp.fixed:
        if h.flag("fixed") is None:
            cx.bad("D3", inst, h.ctor.where(), "the parameter %s is not read into a member" % sp.fixed, key="D3 %s param" % key)
        cases = [(True, 0.0, True), (True, 2.0, True), (False, 2.0, bool(tp.cov))]
        if tp.cov and h.cls == OS or not tp.cov:
            cases.append((False, 0.0, False))
        for fx, c, want in cases:
            for ct in ((1, 2, 3) if tp.fix else (2,)):
                r = h.case(f, fixed=fx, cov0=c, covtype=ct)
                w = "%s covariance, first entry %s%s" % ("fixed" if fx else "sensor", c, ", type %d" % ct if tp.fix else "")
                verdict(cx, "D3", r, want, inst + " " + w, f, "a reading with " + w, "D3 %s %s %s" % (key, fx, c))
        if tp.fix:
            r = h.case(f, fixed=False, cov0=2.0, covtype=0)
            verdict(cx, "D3", r, False, inst + " unknown covariance", f, "a fix of unknown covariance", "D3 %s unknown" % key)
    # decimation
    for s in range(tp.every * 100, tp.every * 101 + 1) if tp.every > 1 else (1, 7, 10, 101, 103):
        r = h.case(f, seq=s, fixed=True, cov0=2.0)
        want = s % tp.every == 0
        verdict(cx, "D4", r, want, "%s message %d" % (inst, s), f, "message number %d" % s, "D4 %s %s" % (key, "keep" if want else "skip"))


def near(a, b):
    return a is not None and abs(a - b) < 1e-6


def first(cx, h):
    fs = [f for f in h.p.repo_fns() if short(f.n) == "ReceivedFirstMeasurement" and f.blocks]
    if not fs:
        return
    e, g = cx.run(h.p, fs[0])
    m = e.ret if hasattr(e, "ret") else None
    m = m if m is not None else fld("received_first_measurement_")
    inst = "%s %s" % (h.u, h.name)
    x = exitval(h.e, m)
    cx.expect(x in (FALSE, ("c", 0)), "D5", inst + " start", h.ctor.where(), "before any reading %s is %s" % (show(m), show(x)), key="D5 start " + h.cls)
    for n, tp, f in callbacks(h):
        r = h.case(f, fixed=True, cov0=2.0)
        x = exitval(r.e, m)
        cx.expect(x in (TRUE, ("c", 1)), "D5", "%s %s" % (inst, n), f.where(), "after a reading was handed over %s is %s" % (show(m), show(x)), key="D5 %s %s" % (h.cls, n))
