"""C17 - every usable sensor reading reaches the filter once, with its own time, identity and settings."""
from .intake import *

ADDH = "msf_core::MSF_SensorManager::AddHandler"
SETID = "msf_core::SensorHandler::SetSensorID"


def check(cx):
    cx.rule("I1", "each input topic is subscribed to once, by this handler's callback for the topic's message type")
    cx.rule("I2", "a usable reading is handed to the filter exactly once on every path")
    cx.rule("I3", "the measurement's time is the message's time stamp minus the configured delay")
    cx.rule("I4", "the measurement carries the handler's own identity, reference mode and outlier settings")
    cx.rule("I5", "every handler a manager creates is registered once and gets an identity no other handler has")
    us = set()
    for h in intake(cx):
        us.add(h.u)
        subscriptions(cx, h)
        for n, tp, f in callbacks(h):
            one(cx, h, n, tp, f)
    for u in sorted(us):
        ids(cx, cx.unit(u), u)
    cx.floor("I1", 10)
    cx.floor("I3", 10)
    cx.floor("I5", 4)


def subscriptions(cx, h):
    for n, tp in h.spec.topics.items():
        l = h.subs.get(n, [])
        inst = "%s %s %s" % (h.u, h.name, n)
        k = "I1 %s %s" % (h.cls, n)
        if not cx.expect(len(l) == 1, "I1", inst, h.ctor.where(), "topic subscribed %d times" % len(l), key=k):
            continue
        v, f = l[0]
        cx.nopath(h.g.path(h.g.entry, "exit", avoid=lambda x: x is v, include_start=True), "I1", inst + " always", v.where(), "the constructor can end without this subscription", key=k + " path")
        if f is None:
            cx.undecided("I1", inst, v.where(), "callback not resolved")
            continue
        t = h.p.type(f.params[0]["t"]) if f.params else ""
        cx.expect(tp.msg in re.split(r"\W+", t), "I1", inst + " type", v.where(), "the callback takes %s" % t[-70:], key=k + " type")
        cx.expect(THIS in v.args, "I1", inst + " object", v.where(), "the callback is bound to another object", key=k + " object")


def one(cx, h, n, tp, f):
    inst = "%s %s %s" % (h.u, h.name, n)
    key = "%s %s" % (h.cls, n)
    for fx in ((True, False) if tp.cov else (True,)):
        r = h.case(f, fixed=fx, cov0=2.0)
        g = r.g
        nm = inst + (" fixed" if fx else " sensor covariance")
        isadd = lambda x: x in r.add
        cx.nopath(g.path(g.entry, "exit", avoid=isadd, include_start=True), "I2", nm + " handed over", f.where(), "a usable reading is lost", key="I2 %s lost" % key)
        for v in r.add:
            cx.nopath(g.path(g.point(v), isadd), "I2", nm + " once", v.where(), "a reading is handed over twice", key="I2 %s twice" % key)
            cx.expect(v.obj is None or "msf_core_" in repr(v.obj), "I2", nm + " to the filter", v.where(), "handed to %s" % show(v.obj), key="I2 %s core" % key)
            tv = value(r, v, "time")
            try_time(cx, h, r, v, tv, nm, key)
            if fx:
                settings(cx, h, r, v, inst, key)


def try_time(cx, h, r, v, tv, inst, key):
    """numbers for the time stamp and the delay, twice"""
    for st, d in ((1400000000.375, 0.25), (40.625, -0.5)):
        def leaf(t):
            x = stampnum(t, path(r.m, "header", "stamp"), st)
            if x is not None:
                return x
            return d if h.delay is not None and t == h.delay else None
        x = evalnum(tv, leaf)
        want = st - (d if h.spec.delay else 0)
        if x is None and not any(y == path(r.m, "header", "stamp") for y in subterms(tv)):
            cx.bad("I3", inst, v.where(), "the measurement's time does not depend on the message's time stamp: %s" % show(tv)[:100], key="I3 " + key)
        elif x is None:
            cx.undecided("I3", inst, v.where(), "time is %s" % show(tv)[:80])
        else:
            cx.expect(abs(x - want) < 1e-6, "I3", inst, v.where(), "with time stamp %s and delay %s the measurement's time is %s: %s" % (st, d, x, show(tv)[:100]), key="I3 " + key)


def settings(cx, h, r, v, inst, key):
    sid = value(r, v, "sensorID_")
    cx.expect(sid == fld("sensorID"), "I4", inst + " identity", v.where(), "sensor identity is %s" % show(sid)[:80], key="I4 %s id" % key)
    want = h.flag("abs") if h.spec.abs else None
    a = value(r, v, "isabsolute_")
    if h.spec.abs and want is None:
        cx.bad("I4", inst + " reference", h.ctor.where(), "the parameter %s is not read into a member" % h.spec.abs, key="I4 %s absparam" % key)
    else:
        cx.expect(a == (want if want is not None else TRUE) or want is None and a == ("c", 1), "I4", inst + " reference", v.where(), "absolute flag is %s" % show(a)[:80], key="I4 %s abs" % key)
    for n, m in (("enable_mah_outlier_rejection", "enable_mah_outlier_rejection_"), ("mah_threshold", "mah_threshold_")):
        w = h.flag(n)
        x = value(r, v, m)
        cx.expect(w is not None and x == w, "I4", inst + " " + n, v.where(), "%s of the measurement is %s" % (m, show(x)[:80]), key="I4 %s %s" % (key, n))


def ids(cx, p, u):
    fn = p.one(ADDH)
    e, g = cx.run(p, fn)
    s = [v for v in e.events.values() if v.kind == "write" and v.loc[:1] == ("fld",) and v.loc[2] == "sensorID" and (v.loc[1] == ("root", fn.params[0]["n"]) or last(v.loc[1]))]
    cnt = [k for k in e.final.env if k[:2] == ("fld", THIS) and p_int(e.final.env[k], k)]
    ok = len(s) == 1 and g.path(g.entry, "exit", avoid=lambda x: x in s, include_start=True) is None
    cx.expect(ok, "I5", u + " identity given", fn.where(), "AddHandler does not always give the handler an identity", key="I5 given")
    if ok:
        base = s[0].val
        src = [k for k in cnt if linear(base, k)]
        cx.expect(bool(src), "I5", u + " identity new", s[0].where(), "the identity %s does not differ from one call to the next" % show(base)[:60], key="I5 distinct")
        ws = [v for v in e.events.values() if v.kind == "write" and v.loc in src]
        cx.nopath(g.path(g.entry, "exit", avoid=lambda x: x in ws, include_start=True), "I5", u + " identity counted", fn.where(), "the counter is not always advanced", key="I5 counter")
    h = [v for v in e.events.values() if v.kind == "mut" and short(v.name) in ("push_back", "emplace_back", "insert") and v.loc[:2] == ("fld", THIS)]
    cx.nopath(g.path(g.entry, "exit", avoid=lambda x: x in h, include_start=True) if h else [], "I5", u + " kept", fn.where(), "AddHandler does not keep the handler", key="I5 kept")
    # the counter belongs to AddHandler
    if ok:
        for f in p.repo_fns():
            if f is fn or not f.blocks or f.info.get("k") == "ctor" or not (f.info.get("cls") or "").startswith("msf_core::MSF_SensorManager"):
                continue
            e2, _ = cx.run(p, f, noinline=NOIN(p), pure={ADDH: ()})
            for v in e2.events.values():
                if v.kind == "write" and v.loc in src:
                    cx.bad("I5", u + " counter", v.where(), "the identity counter is changed outside AddHandler", key="I5 counter " + f.n)
    # registration
    for f in p.repo_fns():
        if f.info.get("k") != "ctor" or not (f.info.get("cls") or "").endswith("SensorManager") or not f.blocks or f.info["cls"].startswith("msf_core::"):
            continue
        e, g = cx.run(p, f, pure={ADDH: ()})
        reg = [v for v in e.events.values() if v.kind == "call" and v.name == ADDH]
        objs = {}
        for v in e.events.values():
            if v.kind == "write" and type(v.val) is tuple and v.val[:1] == ("new",) and re.search(r"SensorHandler<|SensorHandler$", v.val[1].split("(")[0]):
                objs[v.val] = v
        cx.need(objs, "sensor handlers created by " + f.n)
        for o, w in objs.items():
            mine = [v for v in reg if o in alts(v.args[0]) or contains(v.args[0], o)]
            nm = "%s %s" % (f.info["cls"], o[1].split("<")[0])
            cx.nopath(g.path(g.point(w), "exit", avoid=lambda x: x in mine), "I5", nm + " registered", w.where(), "a handler is created but not registered", key="I5 %s reg" % nm)
            for v in mine:
                cx.nopath(g.path(g.point(v), lambda x: x in mine), "I5", nm + " registered once", v.where(), "a handler is registered twice", key="I5 %s twice" % nm)


def last(t):
    """the element appended last"""
    return any(x and (x[0] == "call" and short(x[1]) in ("back", "rbegin") or x[0] == "acc" and x[1] == "back") for x in subterms(t))


def p_int(v, k):
    return type(v) is tuple and v[:1] == ("op",) and contains(v, k)


def linear(t, k):
    """t = k + constant"""
    a, b = evalnum(t, lambda x: 3.0 if x == k else None), evalnum(t, lambda x: 8.0 if x == k else None)
    return a is not None and b is not None and b - a == 5.0
