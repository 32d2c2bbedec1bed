"""C20 - each IMU reading gives one propagated state; gaps, jumps back and spikes are dealt with as documented."""
from .core import *
from .flow import *
from .layout import *
from .c02 import conditions
from types import SimpleNamespace as NS

PS, P1, HP, PUBS = C + "PropagateState", C + "PropagatePOneStep", C + "HandlePendingMeasurements", "msf_core::MSF_SensorManager::PublishStateAfterPropagation"
PURE = {PS: (), P1: (), HP: (), PUBS: (), "CheckForNumeric": ()}
GAP = {"ProcessIMU": 0.1, "ProcessExternallyPropagatedState": 5.0}


def check(cx):
    cx.rule("G1", "a reading older than the newest state by more than 10 ms stops a running filter and has no other effect")
    cx.rule("G2", "before the first prediction a reading after a gap only moves the latest state to its own time")
    cx.rule("G3", "every other reading gives one new state, propagated from the latest one, filed, with its covariance, and published, in this order")
    cx.rule("G4", "the new state carries the reading's time, rates and acceleration, and the configured noise; a spike is replaced by an earlier acceleration and not kept")
    cx.rule("G5", "the filter counts as predicting once there are more than three states (one with external propagation)")
    cx.rule("G6", "an externally propagated state is adopted and the other variables are carried over; the buffers are emptied before the first one")
    for u in units(cx):
        p = cx.unit(u)
        R = roles(cx, p)
        for n in GAP:
            entry(cx, p, R, u, n)
        external(cx, p, R, u)


def inmap(t, R):
    """something read through the state buffer or its cached position"""
    return any(x in (R.smap, R.last, R.states) or x == R.sinv for x in subterms(t))


class Case:
    """one run of an entry point with the times, the acceleration's size and the flags settled"""

    def __init__(self, cx, p, R, name, pred, dt, norm=9.8, size=10, valid=True, base=()):
        self.fn = fn = corefn(p, name)
        self.R = R
        q = {x["n"]: x for x in fn.params}
        ns = list(q)
        self.acc, self.gyr = ("deref", ("root", ns[0])), ("deref", ("root", ns[1]))
        st = [n for n in ns if re.sub(r"const |\s|&", "", p.types[q[n]["t"]]) == "double"]
        cx.need(len(st) == 1, "time stamp parameter of " + name)
        self.stamp = ("deref", ("root", st[0])) if "&" in p.types[q[st[0]]["t"]] else ("root", st[0])

        def strip(t):
            return t[1] if type(t) is tuple and t[:1] == ("L",) else t
        acc = {self.acc, ("root", ns[0])}

        def leaf(t):
            t = strip(t)
            if type(t) is not tuple or not t:
                return None
            if t == self.stamp or t == ("root", st[0]):
                return 100.0 + dt
            if t[0] == "fld" and t[2] == "time" and not any(x and x[0] == "new" for x in subterms(t)) and inmap(t, R):
                return 100.0 if valid else -1.0
            if t[0] == "fld" and t[2] == "first" and inmap(t, R):
                return 100.0
            if t[0] == "call" and short(t[1]) in ("norm", "stableNorm", "blueNorm") and strip(t[2]) in acc:
                return norm
            if t[0] == "call" and short(t[1]) == "squaredNorm" and strip(t[2]) in acc:
                return norm * norm
            if t[0] == "call" and short(t[1]) == "size" and strip(t[2]) and inmap(t[2], R):
                return size
            return None
        run = lambda fa: cx.run(p, fn, noinline=NOIN(p) + (C + "AddMeasurement",), pure=PURE, facts=fa, maxsize=60000)
        self.leaf = leaf
        self.e, self.g, self.facts = settle(run, leaf, frozenset({(R.init, True), (R.pred, pred)}) | frozenset(base))
        self.ps = [v for v in self.e.events.values() if v.kind == "call" and v.name == PS]

    def truth(self, t):
        return truth(t, self.leaf, self.facts)

    def cannot(self, fs):
        """the edge is not taken: there is a state, and comparisons have their settled values"""
        for t, pol in fs:
            if type(t) is tuple and t[:1] == ("op",) and len(t) == 4 and t[1] in CMP:
                a, b = evalnum(t[2], self.leaf), evalnum(t[3], self.leaf)
                if a is not None and b is not None and CMP[t[1]](a, b) != pol:
                    return True
        return nostate(self)(fs)

    def val(self, v, t):
        """location's value before the call"""
        return self.e.load(NS(env=v.pre), t)


def acts(v, R):
    return iseffect(v) and not (v.kind == "write" and (v.loc == R.last or rootof(v.loc)[:1] in (("static",), ("glob",)))) or v.kind == "call" and v.name in PURE


def entry(cx, p, R, u, name):
    imu = name == "ProcessIMU"
    gap = GAP[name]
    key = lambda r, s: "%s %s %s" % (r, name, s)
    # a reading that is too old
    if imu:
        for dt in (-0.0101, -0.5, -1e4):
            c = Case(cx, p, R, name, True, dt)
            inst = "%s %s %g s" % (u, name, dt)
            # with a state to compare with: an end position has none
            w = [v for v in c.e.events.values() if acts(v, R) and not (v.kind == "write" and v.loc in (R.init, R.pred))]
            cx.expect(not w, "G1", inst + " no effect", w[0].where() if w else c.fn.where(), "a reading %g s before the latest state has an effect: %r" % (-dt, w and w[0]), key=key("G1", "effect"))
            nost = nostate(c)
            for loc in (R.init, R.pred):
                off = lambda v: v.kind == "write" and v.loc == loc and v.val in (FALSE, ("c", 0))
                r = c.g.path(c.g.entry, "exit", avoid=off, avoid_edge=nost, include_start=True)
                cx.nopath(r, "G1", inst + " " + show(loc), c.fn.where(), "a reading %g s before the latest state does not stop the filter (%s stays)" % (-dt, show(loc)), key=key("G1", show(loc)))
    # gap before the first prediction
    for dt in (gap * 1.001, gap * 40, -gap * 1.001, -gap * 40):
        c = Case(cx, p, R, name, False, dt)
        inst = "%s %s gap of %g s" % (u, name, dt)
        w = [v for v in c.e.events.values() if v.kind == "call" and v.name in PURE]
        cx.expect(not w, "G2", inst + " no propagation", w[0].where() if w else c.fn.where(), "a reading after a gap of %g s before the first prediction is propagated: %s" % (dt, w and short(w[0].name)), key=key("G2", "propagates"))
        w = [v for v in c.e.events.values() if v.kind == "write" and v.loc in (R.init, R.pred)]
        cx.expect(not w, "G2", inst + " flags", w[0].where() if w else c.fn.where(), "a gap before the first prediction changes %s" % (w and show(w[0].loc)), key=key("G2", "flags"))
        nost = nostate(c)
        ins = lambda v: v.kind == "mut" and v.loc == R.smap and ("insert" in v.name or "emplace" in v.name)
        mv = [v for v in c.e.events.values() if v.kind == "write" and v.loc[:1] == ("fld",) and v.loc[2] == "time" and inmap(v.loc, R)]
        cx.expect(bool(mv) and all(v.val == c.stamp for v in mv), "G2", inst + " time", mv[0].where() if mv else c.fn.where(), "after a gap the latest state is not moved to the time of the reading but %s" % [show(v.val)[:40] for v in mv], key=key("G2", "time"))
        for what, ev in (("covariance time", lambda v: v.kind == "write" and v.loc == R.tp and moved(v.val, c.stamp)), ("position of the latest state", lambda v: v.kind == "write" and v.loc == R.last and newpos(v, R))):
            r = c.g.path(c.g.entry, "exit", avoid=ev, avoid_edge=nost, include_start=True)
            cx.nopath(r, "G2", inst + " " + what, c.fn.where(), "after a gap the %s does not follow the moved state" % what, key=key("G2", what))
            oth = [v for v in c.e.events.values() if v.kind == "write" and v.loc == R.tp and not moved(v.val, c.stamp)]
            if what == "covariance time":
                cx.expect(not oth, "G2", inst + " " + what + " only", oth[0].where() if oth else c.fn.where(), "after a gap the covariance counts as valid for %s" % [show(v.val)[:50] for v in oth], key=key("G2", what + " only"))
    # no earlier state
    c = Case(cx, p, R, name, False, 0.005, valid=False)
    for pred in (True, False):
        c = Case(cx, p, R, name, pred, 0.005, valid=False)
        inst = "%s %s without an earlier state%s" % (u, name, ", running" if pred else "")
        w = [v for v in c.e.events.values() if acts(v, R)]
        cx.expect(not w, "G3", inst, w[0].where() if w else c.fn.where(), "a reading without an earlier state has an effect: %r" % (w and w[0]), key=key("G3", "none"))
    # the ordinary case
    cases = [(True, d) for d in ((0.005, 0.0, -0.0099) if imu else (0.005, 0.0))] + [(True, 0.3), (True, 7.0), (False, 0.005), (False, gap * 0.999), (False, -gap * 0.999)]
    for pred, dt in cases:
        for norm in ((9.8, 49.9, 50.1, 3e5) if dt == 0.005 else (9.8,)):
            c = Case(cx, p, R, name, pred, dt, norm)
            ordinary(cx, p, R, u, name, c, pred, dt, norm)
    # when does the filter count as predicting
    for size, want in ((1, not imu), (2, not imu), (3, not imu), (4, True), (500, True)):
        c = Case(cx, p, R, name, False, 0.005, size=size)
        on = lambda v: v.kind == "write" and v.loc == R.pred and c.truth(v.val) is True
        inst = "%s %s %d states" % (u, name, size)
        if want:
            for v in [x for x in c.e.events.values() if x.kind == "call" and x.name == PUBS]:
                r = c.g.path(c.g.entry, "exit", avoid=on, avoid_edge=c.cannot, include_start=True)
                cx.nopath(r, "G5", inst, c.fn.where(), "the filter does not count as predicting with %d states" % size, key=key("G5", "on"))
        else:
            w = c.g.path(c.g.entry, lambda v: v.kind == "write" and v.loc == R.pred and c.truth(v.val) is not False, avoid_edge=c.cannot, include_start=True)
            cx.nopath(w, "G5", inst, w[-1].where() if w else c.fn.where(), "the filter counts as predicting with %d states" % size, key=key("G5", "off"))


def newpos(v, R):
    """the position of the state after refiling: a lookup or insertion made after the removal, or the end when the lookup finds nothing"""
    return all(isinstance(a, tuple) and (a[:1] == ("call",) and short(a[1]) in ("find", "insert", "end", "lower_bound", "GetIteratorAtValue", "emplace") or a[:1] == ("fld",) and a[2] == "first") for a in alts(v.val)) and v.val != R.last


def moved(t, stamp):
    """the time of the reading, or the time of the state that was filed again under it"""
    refiled = lambda x: any(y[:1] == ("call",) and short(y[1]) in ("insert", "emplace") for y in subterms(x) if type(y) is tuple and len(y) > 1 and type(y[1]) is str)
    return all(a == stamp or type(a) is tuple and a[:1] == ("fld",) and a[2] == "time" and any(refiled(x) for x in alts(a[1])) for a in alts(t))


def nostate(c):
    """edges on which there is no state to propagate from (end position)"""
    R = c.R
    end = ("call", "std::map::end", R.smap)

    def f(fs):
        for t, pol in fs:
            if pol and type(t) is tuple and t[:2] == ("op", "==") and end in t[2:]:
                o = t[3] if t[2] == end else t[2]
                if any(x == R.last for x in alts(o)) and len(alts(o)) == 1:
                    continue        # the cached position is looked up anew then
                return True
            if pol and type(t) is tuple and t[:1] == ("call",) and short(t[1]) == "empty" and inmap(t, R):
                return True
        return False
    return f


def ordinary(cx, p, R, u, name, c, pred, dt, norm):
    imu = name == "ProcessIMU"
    e, g, fn = c.e, c.g, c.fn
    inst = "%s %s %s%+g s, |a| %g" % (u, name, "running " if pred else "", dt, norm)
    key = lambda r, s: "%s %s %s" % (r, name, s)
    nost = nostate(c)
    bad = [v for v in e.events.values() if v.kind == "write" and (v.loc == R.init or v.loc == R.pred and c.truth(v.val) is not True and not (not pred and c.truth(v.val) is False))]
    cx.expect(not bad, "G3", inst + " flags", bad[0].where() if bad else fn.where(), "an ordinary reading changes %s to %s" % (bad and show(bad[0].loc), bad and show(bad[0].val)), key=key("G3", "flags"))
    ins = lambda v: v.kind == "mut" and v.loc == R.smap and ("insert" in v.name or "emplace" in v.name)
    call = lambda n: (lambda v: v.kind == "call" and v.name == n)
    steps = [("filed", ins), ("covariance", call(P1)), ("published", call(PUBS))]
    if imu:
        steps.insert(0, ("propagated", call(PS)))
    for n, ev in steps:
        r = g.path(g.entry, "exit", avoid=ev, avoid_edge=nost, include_start=True)
        cx.nopath(r, "G3", "%s %s" % (inst, n), fn.where(), "a reading can pass without its state being %s" % n, key=key("G3", n))
        tw = [v for v in e.events.values() if ev(v) and g.reaches(v, lambda x: ev(x))]
        cx.expect(not tw, "G3", "%s %s once" % (inst, n), tw[0].where() if tw else fn.where(), "the state of one reading is %s twice" % n, key=key("G3", n + " once"))
    for (n, a), (m, b) in zip(steps, steps[1:]):
        for v in [x for x in e.events.values() if b(x)]:
            r = g.path(g.entry, lambda x: x is v, avoid=a, include_start=True)
            cx.nopath(r, "G3", "%s %s before %s" % (inst, n, m), v.where(), "the state is %s before it is %s" % (m, n), key=key("G3", "%s before %s" % (n, m)))
    rm = [v for v in e.events.values() if v.kind == "mut" and v.loc in (R.smap, R.mmap) and not ins(v)]
    if imu or pred:
        cx.expect(not rm, "G3", inst + " keeps", rm[0].where() if rm else fn.where(), "an ordinary reading removes something: %r" % (rm and rm[0]), key=key("G3", "keeps"))
    for v in [x for x in e.events.values() if ins(x)]:
        follow = lambda x: x.kind == "write" and x.loc == R.last
        r = g.path(g.point(v), "exit", avoid=follow)
        cx.nopath(r, "G3", inst + " latest", v.where(), "the latest state does not become the new one", key=key("G3", "latest"))
    # the state handed to the propagation (and, if it was propagated outside, to the publication)
    for v in c.ps + [x for x in e.events.values() if x.kind == "call" and x.name == PUBS]:
        isps = v.name == PS
        new = v.args[1] if isps else v.args[0]
        if isps:
            old = v.args[0]
            cx.expect(all(inmap(a, R) and not any(x and x[0] == "new" for x in subterms(a)) for a in alts(strip(old))) and strip(old) != strip(new), "G3", inst + " from the latest", v.where(), "the state is propagated from %s" % show(old)[:80], key=key("G3", "from"))
        for s in alts(strip(new)):
            if not cx.expect(s[:1] == ("new",), "G3", inst + " new state", v.where(), "not a new state: %s" % show(s)[:80], key=key("G3", "new")):
                continue
            get = lambda n: c.val(v, ("fld", s, n))
            cx.expect(get("time") == c.stamp, "G4", inst + " time", v.where(), "the new state has the time %s" % show(get("time"))[:60], key=key("G4", "time"))
            cx.expect(get("w_m") == c.gyr, "G4", inst + " rates", v.where(), "the new state has the rates %s" % show(get("w_m"))[:60], key=key("G4", "w"))
            am = get("a_m")
            if norm <= 50:
                cx.expect(am == c.acc, "G4", inst + " acceleration", v.where(), "the new state has the acceleration %s" % show(am)[:60], key=key("G4", "a"))
            else:
                cx.expect(c.acc not in set(subterms(am)) and earlier(am, R), "G4", inst + " spike", v.where(), "an acceleration of %g m/s^2 is used (or replaced by none): %s" % (norm, show(am)[:60]), key=key("G4", "spike"))
            for n, par in (("noise_gyr", "GetParamNoiseGyr"), ("noise_acc", "GetParamNoiseAcc")):
                t = get(n)
                ok = type(t) is tuple and t[:1] == ("call",) and short(t[1]) == "Constant" and any(paramof(p, x, par) for x in t[2:])
                cx.expect(ok, "G4", inst + " " + n, v.where(), "%s of the new state is %s" % (n, show(t)[:60]), key=key("G4", n))
    # a spike is not kept for later
    if norm > 50:
        kept = [v for v in e.events.values() if v.kind == "write" and (rootof(v.loc)[:1] in (("glob",), ("static",))) and c.acc in set(subterms(v.val))]
        cx.expect(not kept, "G4", inst + " not kept", kept[0].where() if kept else fn.where(), "a spike is kept as a replacement for later ones", key=key("G4", "kept"))


def strip(t):
    return t[1] if type(t) is tuple and t[:1] == ("L",) else t


def earlier(t, R):
    """an acceleration kept from before"""
    return all(rootof(a)[:1] in (("glob",), ("static",)) or inmap(a, R) for a in alts(t))


def paramof(p, t, name):
    """the value of a parameter of the sensor manager: an opaque call of its accessor or what that returns"""
    if type(t) is tuple and t[:1] == ("call",) and short(t[1]) == name:
        return True
    want = "core_noise_gyr" if "Gyr" in name else "core_noise_acc"
    return any(x and x[0] == "fld" and x[2] == want for x in subterms(t)) and sum(1 for x in subterms(t) if x and x[0] == "fld" and str(x[2]).startswith("core_")) == 1


def external(cx, p, R, u):
    name = "ProcessExternallyPropagatedState"
    fn = corefn(p, name)
    ns = [q["n"] for q in fn.params]
    bo = [q["n"] for q in fn.params if p.types[q["t"]] == "bool"]
    cx.need(len(bo) == 1 and len(ns) == 8, "parameters of " + name)
    flag = ("root", bo[0])
    L = layout(cx, p)
    ext = {"p": ("deref", ("root", ns[2])), "v": ("deref", ("root", ns[3])), "q": ("deref", ("root", ns[4]))}
    key = lambda s: "G6 " + s
    for pred in (True, False):
        # what is checked to be finite is
        for done in (True, False):
            c = Case(cx, p, R, name, pred, 0.005, base={(flag, done)} | finite(cx, p, fn, R))
            e, g = c.e, c.g
            inst = "%s %s%s" % (u, "propagated outside" if done else "not propagated", ", running" if pred else "")
            if not done:
                r = g.path(g.entry, "exit", avoid=lambda v: v.kind == "call" and v.name == PS, avoid_edge=nostate(c), include_start=True)
                cx.nopath(r, "G6", inst, fn.where(), "a reading that was not propagated outside is not propagated", key=key("propagates"))
            else:
                cx.expect(not c.ps, "G6", inst, c.ps[0].where() if c.ps else fn.where(), "a state that was propagated outside is propagated again", key=key("again"))
                for v in [x for x in e.events.values() if x.kind == "mut" and x.loc == R.smap and ("insert" in x.name or "emplace" in x.name)]:
                    for s in news(v):
                        for x in L:
                            got = e.load(e.final, var(s, x))
                            if x.name in ext:
                                cx.expect(got == ext[x.name], "G6", "%s %s" % (inst, x.name), v.where(), "%s of the new state is %s" % (x.name, show(got)[:60]), key=key(x.name))
                            else:
                                ok = all(a[:1] == ("fld",) and inmap(a, R) and tail(a) == tail(var(s, x)) for a in alts(got))
                                cx.expect(ok, "G6", "%s %s" % (inst, x.name), v.where(), "%s of the new state is %s" % (x.name, show(got)[:60]), key=key(x.name))
            if not pred:
                ins = lambda v: v.kind == "mut" and v.loc == R.smap and ("insert" in v.name or "emplace" in v.name)
                for v in [x for x in e.events.values() if ins(x)]:
                    for m, n in ((R.smap, "states"), (R.mmap, "measurements")):
                        clr = lambda x: x.kind == "mut" and x.loc == m and short(x.name) in ("clear", "operator=", "swap")
                        r = g.path(g.entry, lambda x: x is v, avoid=clr, include_start=True)
                        cx.nopath(r, "G6", "%s %s emptied" % (inst, n), v.where(), "the buffered %s are not discarded before the first state" % n, key=key(n + " emptied"))
                    P = {e.load(e.final, ("fld", s, "P")) for s in news(v)}
                    ok = all(inmap(a, R) and (a[:1] == ("fld",) and a[2] == "P") and not any(x and x[0] == "mut" and short(x[1]) in ("clear", "erase", "swap") for x in subterms(a)) for t in P for a in alts(t))
                    clr = [x for x in e.events.values() if x.kind == "mut" and x.loc == R.smap and short(x.name) in ("clear", "erase", "operator=", "swap")]
                    late = [w for w in e.events.values() if w.kind == "write" and w.loc in {("fld", s, "P") for s in news(v)} and inmap(w.val, R) and any(g.reaches(x, lambda y: y is w) for x in clr)]
                    cx.expect(ok and P and not late, "G6", inst + " covariance", v.where(), "the first state does not keep the covariance: %s" % [show(t)[:60] for t in P], key=key("P"))
                r = g.path(g.entry, "exit", avoid=lambda x: x.kind == "write" and x.loc == R.tp and timeof(x.val, c), avoid_edge=nostate(c), include_start=True)
                cx.nopath(r, "G6", inst + " covariance time", fn.where(), "the covariance does not count as valid for the first state", key=key("tp"))


def timeof(t, c):
    return t == c.stamp or type(t) is tuple and t[:1] == ("fld",) and t[2] == "time" and all(s[:1] == ("new",) or s[:1] == ("out",) for s in alts(strip(t[1])))


def tail(t):
    """path below the state object: the container of state variables and everything after"""
    out = []
    while type(t) is tuple and t and t[0] in ("fld", "elem"):
        out.append(t[2])
        if t[2] == "statevars":
            break
        t = t[1]
    return tuple(reversed(out))


def news(v):
    return {x for a in v.args for x in subterms(a) if x and x[0] == "new"}


def finite(cx, p, fn, R):
    """the fresh state it looks at is finite"""
    e, g = cx.run(p, fn, noinline=NOIN(p) + (C + "AddMeasurement",), pure=PURE, facts=frozenset({(R.init, True)}), maxsize=60000)
    out = set()
    for c, _ in conditions(e):
        for t in subterms(c):
            if t and t[0] == "call" and short(t[1]) == "CheckForNumeric":
                out.add((t, True))
    return frozenset(out)
