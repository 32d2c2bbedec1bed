"""C05 - a measurement takes effect at its own time, whatever the order of arrival."""
from .core import *
from .flow import *
from .c02 import ismut, conditions
from ..mat import Mat, mm

APPLY = "msf_core::MSF_MeasurementBase::Apply"
PUBUPD = "msf_core::MSF_SensorManager::PublishStateAfterUpdate"
SUMMARY = (C + "GetClosestState", C + "PropagateState", C + "PropPToState", C + "CleanUpBuffers", SC + "GetIteratorAtValue", APPLY, PUBUPD)

# (name, measurement, oldest state, newest state)
FUTURE = [(5.0, 1.0, 2.0), (2.0000001, 1.0, 2.0), (2.003, 1.0, 2.0), (2.05, 2.0, 2.0)]
INSIDE = [(2.0, 1.0, 2.0), (1.0, 1.0, 2.0), (1.5, 1.0, 2.0), (1.0000001, 1.0, 2.0), (1.9999999, 1.0, 2.0), (30.0, 1.0, 50.0), (2.0, 2.0, 2.0)]
PAST = [(0.5, 1.0, 2.0), (0.9999999, 1.0, 2.0), (1.0, 50.0, 100.0)]


class Add:
    """AddMeasurement of one unit with its callees summarised"""

    def __init__(self, cx, p, u):
        self.cx, self.p, self.u = cx, p, u
        R = self.R = roles(cx, p)
        self.fn = corefn(p, "AddMeasurement")
        self.m = ("root", self.fn.params[0]["n"])
        self.end = ("call", "std::map::end", R.smap)
        self.mend = ("call", "std::map::end", R.mmap)
        self.base = frozenset([(R.init, True), (R.pred, True), (("call", "std::map::empty", R.smap), False), (("op", "==", ("c", 0), ("call", "std::map::size", R.smap)), False)])
        self.last = lambda t: t == ("fld", ("op", "-", self.end, ("c", 1)), "second") or t[0] == "fld" and t[2] == "second" and t[1][:2] == ("call", "std::map::rbegin")
        self.first = lambda t: t == ("fld", ("call", "std::map::begin", R.smap), "second")

    def run(self, facts):
        R = self.R
        hav = tuple(x for x in (R.isfuzzy, R.tp) if x is not None)
        pure = dict.fromkeys(SUMMARY, ())
        pure[APPLY] = pure[C + "GetClosestState"] = pure[C + "PropPToState"] = hav
        return self.cx.run(self.p, self.fn, pure=pure, facts=facts)

    def leaf(self, case):
        mt, f, l = case

        def at(t):
            if t == ("fld", self.m, "time"):
                return mt
            if type(t) is tuple and len(t) == 3 and t[0] == "fld" and type(t[1]) is tuple and (t[2] == "time" and t[1][0] == "fld" or t[2] == "first"):
                if t[2] == "time" and self.last(t[1]):
                    return l
                if t[2] == "time" and self.first(t[1]):
                    return f
            return None
        return at

    def case(self, c):
        return settle(self.run, self.leaf(c), self.base)


def effects(e):
    return [v for v in e.events.values() if iseffect(v) or v.kind == "call" and v.name in SUMMARY and v.name != SC + "GetIteratorAtValue"]


def check(cx):
    cx.rule("D1", "a measurement newer than the newest state is only deferred; one older than the oldest state is dropped without effect")
    cx.rule("D2", "any other measurement goes into the buffer and is applied, and after it every later measurement, each once, in order of time")
    cx.rule("D3", "each is applied to the state that belongs to its own time")
    cx.rule("D4", "after each, the states behind it are propagated again, one after the other, far enough for the next measurement or to the newest state")
    cx.rule("D5", "the newest state is published exactly once, after its covariance was brought up to date")
    cx.rule("D6", "the state for a time is the closest one if it is close, else one interpolated at exactly that time, else none")
    for u in units(cx):
        p = cx.unit(u)
        a = Add(cx, p, u)
        timing(cx, a)
        loop(cx, a)
        closest(cx, p, a.R, u)
    cx.floor("D1", 7 * len(units(cx)))
    cx.floor("D6", 8 * len(units(cx)))


def timing(cx, a):
    R, u, fn = a.R, a.u, a.fn
    e0, g0 = a.run(a.base)
    seen = [c for c, _ in conditions(e0) if any(a.leaf((1, 2, 3))(t) is not None for t in subterms(c) if t)]
    cx.need(seen, "comparison of the measurement's time with the buffered states")
    push = ismut(R.queue, "push", "emplace", "push_back", "emplace_back")
    for c in FUTURE:
        e, g, _ = a.case(c)
        inst = "%s measurement %g s ahead" % (u, c[0] - c[2])
        other = g.path(g.entry, lambda x: x in effects(e) and not push(x), include_start=True)
        cx.nopath(other, "D1", inst, other[-1].where() if other else fn.where(), "a measurement newer than every state has an immediate effect: %r" % (other and other[-1]), key="D1 future")
        cx.nopath(g.path(g.entry, "exit", avoid=push, include_start=True), "D1", inst + " kept", fn.where(), "a measurement newer than every state is lost", key="D1 lost")
    for c in PAST:
        e, g, _ = a.case(c)
        inst = "%s measurement %g s before the oldest state" % (u, c[1] - c[0])
        eff = g.path(g.entry, lambda x: x in effects(e), include_start=True)
        cx.nopath(eff, "D1", inst, eff[-1].where() if eff else fn.where(), "a measurement older than every state has an effect: %r" % (eff and eff[-1]), key="D1 past")
    ins = ismut(R.mmap, "insert", "emplace", "emplace_hint", "try_emplace")
    for c in INSIDE:
        e, g, _ = a.case(c)
        inst = "%s measurement at %g of [%g, %g]" % ((u,) + c)
        cx.nopath(g.path(g.entry, push, include_start=True), "D1", inst + " not deferred", fn.where(), "a measurement for which there are states is deferred", key="D1 defer")
        # nothing to insert where another measurement is known to have that very time
        taken = lambda fs: any(not pol and type(f) is tuple and f[:2] == ("op", "==") and len(f) == 4 and {short(t[1]) for t in f[2:] if type(t) is tuple and t[:1] == ("call",) and t[2:3] == (R.mmap,)} == {"find", "end"}
                               or pol and type(f) is tuple and f[:1] == ("call",) and short(f[1]) in ("count", "contains") and f[2:3] == (R.mmap,)
                               or pol and type(f) is tuple and f[:2] == ("op", "==") and len(f) == 4 and ("fld", a.m, "time") in f[2:] and any(x != ("fld", a.m, "time") and contains(x, R.mmap) for x in f[2:]) for f, pol in fs)
        cx.nopath(g.path(g.entry, "exit", avoid=ins, include_start=True, avoid_edge=taken), "D2", inst + " buffered", fn.where(), "a measurement for which there are states is not taken into the buffer", key="D2 insert")


def loop(cx, a):
    R, u, fn = a.R, a.u, a.fn
    e, g, facts = a.case((1.5, 1.0, 2.0))
    ap = [v for v in e.events.values() if v.kind == "call" and v.name == APPLY]
    if not cx.expect(bool(ap), "D2", "%s applied" % u, fn.where(), "no measurement is ever applied", key="D2 none"):
        return
    isap = lambda x: x in ap
    pub = lambda x: x.kind == "call" and x.name == PUBUPD
    reset = lambda fs: any((f in (R.init, R.pred)) and not pol for f, pol in fs)
    ins = [v for v in e.events.values() if ismut(R.mmap, "insert", "emplace", "emplace_hint", "try_emplace")(v)]
    endeq = set()
    for v in ap:
        o = v.obj
        if not cx.expect(type(o) is tuple and o[0] == "fld" and o[2] == "second", "D2", "%s what is applied" % u, v.where(), "what is applied is not an element of the measurement buffer: %s" % show(o)[:80], key="D2 elem"):
            continue
        it = Induction(e, g, v, o[1])
        sv = it.startvals()
        ok = bool(sv) and all(is_insert(x, ins) or x[:1] == ("call",) and short(x[1]) in ("lower_bound", "find") and x[2] == R.mmap and x[3] == ("fld", a.m, "time") for x in sv) and it.off == 0
        cx.expect(ok, "D2", "%s starts at the new measurement" % u, v.where(), "the first measurement applied is %s" % [show(x)[:80] for x in sv], key="D2 start")
        ins_ = lambda x: x in it.steps
        cx.expect(bool(it.steps) and all(step(w) == 1 for w in it.steps), "D2", "%s goes on to the next" % u, v.where(), "the loop does not step to the next measurement", key="D2 step")
        cx.nopath(g.path(g.point(v), isap, avoid=ins_), "D2", "%s once each" % u, v.where(), "a measurement can be applied twice in a row", key="D2 twice")
        elem = o
        st = v.args[0] if v.args else None

        def skip(fs):
            """edges on which this measurement or its state is known to be invalid"""
            for f, pol in fs:
                if type(f) is tuple and len(f) == 4 and f[0] == "op":
                    tm = [x for x in f[2:] if type(x) is tuple and x[0] == "fld" and x[2] == "time" and (x[1] == elem or x[1] == st)]
                    if not tm:
                        continue
                    x = tm[0]
                    o_ = f[3] if f[2] == x else f[2]
                    if not num(o_) or o_[1] > 0:
                        continue
                    if f[1] == "==" and pol or f[1] == "<" and (pol if f[2] == x else not pol):
                        return True
            return False
        for w in it.steps:
            cx.nopath(g.path(g.point(w), ins_, avoid=isap, avoid_edge=lambda fs: skip(fs) or reset(fs)), "D2", "%s none skipped" % u, w.where(),
                      "a later measurement with a valid time and state can be skipped", key="D2 skip")
        for w in it.starts:
            cx.nopath(g.path(g.point(w), ins_, avoid=isap, avoid_edge=lambda fs: skip(fs) or reset(fs)), "D2", "%s new one not skipped" % u, w.where(),
                      "the new measurement can be skipped although its time and state are valid", key="D2 skipnew")
        ended = lambda fs: any(pol and f[0] == "op" and f[1] == "==" and any(posof(x)[0] == it.base for x in f[2:]) and any(x == a.mend or is_end_of(e, g, v, x, a.mend) for x in f[2:]) for f, pol in fs)
        for s in [v] + it.starts:
            cx.nopath(g.path(g.point(s), lambda x: pub(x), avoid_edge=ended), "D2", "%s up to the newest (%s)" % (u, s.kind), v.where(), "the estimate is published before all later measurements were applied", key="D2 all")
            cx.nopath(g.path(g.point(s), "exit", avoid=lambda x: s is not v and isap(x), avoid_edge=lambda fs: ended(fs) or reset(fs)), "D2", "%s no early end (%s)" % (u, s.kind), v.where(), "AddMeasurement can end before all later measurements were applied", key="D2 break")
        # D3
        good = type(st) is tuple and st[:2] == ("call", C + "GetClosestState") and len(st) == 4 and st[3] in (("fld", elem, "time"), ("fld", elem[1], "first"))
        cx.expect(good, "D3", "%s state of a measurement" % u, v.where(), "a measurement is applied to %s instead of the state of its own time" % show(st)[:100], key="D3 state")
        again(cx, a, e, g, v, elem, st, it, reset)
    publication(cx, a, e, g, isap, pub, reset)


def is_insert(x, ins):
    if type(x) is tuple and x and x[0] == "fld" and x[2] == "first":
        x = x[1]
    return type(x) is tuple and x and x[0] == "call" and any(x[1] == v.name and tuple(x[3:]) == tuple(v.args) for v in ins)


def is_end_of(e, g, use, x, end):
    if x == end:
        return True
    if isvar(x):
        return all(a == end for w in defs(e, g, use, x[2]) for a in alts(w.val))
    return False


def again(cx, a, e, g, v, elem, st, it, reset):
    """re-propagation after the application v"""
    R, u = a.R, a.u
    isprop = lambda x: x.kind == "call" and x.name == C + "PropagateState"
    props = [x for x in e.events.values() if isprop(x) and g.reaches(v, lambda y: y is x)]
    if not cx.expect(bool(props), "D4", "%s propagated again" % u, v.where(), "the states behind a measurement are not propagated again", key="D4 none"):
        return
    for P in props:
        x, y = P.args[:2]
        el = lambda t: t[1] if type(t) is tuple and t[0] == "fld" and t[2] == "second" else None
        if not cx.expect(el(x) is not None and el(y) is not None, "D4", "%s neighbours" % u, P.where(), "propagation does not go between buffered states", key="D4 elems"):
            continue
        why = adjacent(e, g, P, el(x), el(y))
        cx.expect(why is None, "D4", "%s from each state to the next" % u, P.where(), "states are not propagated one after the other: %s" % why, key="D4 adjacent")
        X = Induction(e, g, P, el(x))
        at = [posof(s) for s in X.startvals()]
        here = lambda b: b[:1] == ("call",) and (b[1] == SC + "GetIteratorAtValue" and b[3] in (st, ("fld", st, "time")) or short(b[1]) in ("find", "lower_bound") and b[3] == ("fld", st, "time"))
        Y = Induction(e, g, P, el(y))
        # a follower (prev = it) starts where the iterator it follows starts
        foll = [(b, o) for b, o in at if Y.loc is not None and (b == Y.base or isvar(b) and b[2] == Y.loc)]
        own = [(b, o) for b, o in at if (b, o) not in foll]
        ok = bool(at) and all(o + X.off == 0 and here(b) for b, o in own)
        if ok and not own:
            ys = [posof(s) for s in Y.startvals()]
            ok = bool(ys) and all(o + Y.off == 1 and here(b) for b, o in ys)
        cx.expect(ok, "D4", "%s from the corrected state" % u, P.where(), "the re-propagation starts at %s instead of the state the measurement was applied to" % [show(b)[:70] + "%+d" % o for b, o in at], key="D4 start")
        moves = X.steps + Y.steps

        def stop(fs):
            for f, pol in fs:
                if type(f) is tuple and f[0] == "op" and f[1] == "==" and len(f) == 4 and pol:
                    for p_, q_ in ((f[2], f[3]), (f[3], f[2])):
                        if posof(p_)[0] in (X.base, Y.base) and p_ in (el(x), el(y)):
                            if good_end(q_):
                                return True
                        if type(p_) is tuple and p_[0] == "fld" and p_[2] == "time" and p_[1] in (x, y) and q_ == INVALID:
                            return True
            return reset(fs)

        def good_end(t):
            if t == a.end:
                return True
            vals = []
            if isvar(t) or t[0] == "var":
                for w in defs(e, g, P, t[2] if isvar(t) else t):
                    for b in alts(w.val):
                        vals.append((b, w))
            else:
                # the variable holding these values
                locs = {w.loc for w in e.events.values() if w.kind in ("write", "decl") and w.loc and w.loc[0] == "var" and w.val in alts(t)}
                for l in locs:
                    ds = defs(e, g, P, l)
                    if {b for w in ds for b in alts(w.val)} == set(alts(t)):
                        vals = [(b, w) for w in ds for b in alts(w.val)]
                        break
                else:
                    vals = [(b, None) for b in alts(t)]
            nxt = ("fld", ("fld", ("op", "+", it.base, ("c", 1)), "second"), "time")
            nxt2 = ("fld", ("op", "+", it.base, ("c", 1)), "first")
            for b, w in vals:
                if b == a.end:
                    continue
                s, o = posof(b)
                if s[:1] == ("call",) and short(s[1]) == "upper_bound" and s[2] == R.smap and s[3] in (nxt, nxt2):
                    if o == 1:
                        continue
                    if o == 0 and w is not None:
                        atend = ("op", "==") + tuple(sorted((s, a.end), key=repr))
                        if g.path(g.point(w), lambda z: z is P, avoid=lambda z: z is not w and z.kind == "write" and z.loc == w.loc, avoid_edge=lambda fs: (atend, True) in fs) is None:
                            continue
                return False
            return bool(vals)
        goal = lambda z: z.kind == "call" and (z.name == PUBUPD or z.name == APPLY)
        for s, nm in ((v, "at all"), (P, "to the end")):
            pth = g.path(g.point(s), goal, avoid=lambda z: (s is v and isprop(z)), avoid_edge=stop)
            cx.nopath(pth, "D4", "%s %s" % (u, nm), P.where(), "re-propagation can stop before the states the next step needs" if s is P else "states behind a measurement can stay as they were", key="D4 stop " + nm)
        same_el = lambda fs: any(pol and eqfact(f, x, y) for f, pol in fs)
        for w in moves:
            cx.nopath(g.path(g.point(w), lambda z: z is w, avoid=lambda z: isprop(z) or z is v, avoid_edge=lambda fs: same_el(fs) or stop(fs)), "D4", "%s every state" % u, w.where(), "a state is skipped by the re-propagation", key="D4 skip")


def publication(cx, a, e, g, isap, pub, reset):
    R, u, fn = a.R, a.u, a.fn
    pubs = [v for v in e.events.values() if pub(v)]
    if not cx.expect(bool(pubs), "D5", "%s published" % u, fn.where(), "an update is never published", key="D5 none"):
        return
    # local flags that record that something was applied
    flags = {}
    for w in e.events.values():
        if w.kind == "write" and w.loc[0] == "var" and (w.val in (TRUE, ("c", 1)) or step(w) == 1):
            flags.setdefault(w.loc, []).append(w)
    for l in list(flags):
        for w in e.events.values():
            if w.kind == "write" and w.loc == l and w not in flags[l]:
                flags.pop(l, None)
                break
            if w.kind == "decl" and w.loc == l and w.val not in (FALSE, ("c", 0)):
                flags.pop(l, None)
                break
    marks = [w for ws in flags.values() for w in ws]

    def unset(fs, want):
        for f, pol in fs:
            t = f
            if type(t) is tuple and t[0] == "op" and t[1] in ("==", "<") and len(t) == 4 and ("c", 0) in t[2:]:
                pol = (not pol) if t[1] == "==" else pol
                t = t[3] if t[2] == ("c", 0) else t[2]
            for b in alts(t):
                if isvar(b) and b[2] in flags or b in flags:
                    if pol is want:
                        return True
        return False
    for v in [x for x in e.events.values() if isap(x)]:
        pth = g.path(g.point(v), "exit", avoid=lambda x: pub(x), avoid_edge=lambda fs: reset(fs) or unset(fs, False))
        cx.nopath(pth, "D5", "%s after an update" % u, v.where(), "an applied measurement can go unpublished", key="D5 missing")
        pth = g.path(g.point(v), "exit", avoid=lambda x: pub(x) or x in marks, avoid_edge=reset)
        cx.nopath(pth, "D5", "%s update noted" % u, v.where(), "an applied measurement can go unpublished", key="D5 unnoted")
    pth = g.path(g.entry, pub, avoid=isap, avoid_edge=lambda fs: unset(fs, True), include_start=True)
    cx.nopath(pth, "D5", "%s only after an update" % u, pubs[0].where(), "an update is published although no measurement was applied", key="D5 spurious")
    for v in pubs:
        cx.nopath(g.reaches(v, pub), "D5", "%s once" % u, v.where(), "one call publishes more than one update", key="D5 twice")
        cx.nopath(g.reaches(v, isap), "D5", "%s at the end" % u, v.where(), "an update is published before the last measurement was applied", key="D5 early")
        st = v.args[0]
        cx.expect(a.last(st), "D5", "%s the newest state" % u, v.where(), "what is published is %s, not the newest state" % show(st)[:80], key="D5 what")
        pp = lambda x: x.kind == "call" and x.name == C + "PropPToState" and x.args and x.args[0] == st
        cx.nopath(g.path(g.entry, lambda x: x is v, avoid=pp, include_start=True), "D5", "%s covariance up to date" % u, v.where(), "the newest state is published without bringing its covariance up to date", key="D5 cov")
        for x in [x for x in e.events.values() if pp(x)]:
            late = g.path(g.point(x), lambda y: y is v, avoid=pp)
            hit = g.reaches(x, lambda y: isap(y) or y.kind == "call" and y.name == C + "PropagateState")
            if hit is not None:
                z = g.path(g.point(hit[-1]), lambda y: y is v, avoid=pp)
                cx.nopath(z, "D5", "%s covariance last" % u, x.where(), "the covariance of the newest state is brought up to date before the measurements were applied", key="D5 order")


CS_SUMMARY = (C + "PropagateState", C + "PropPToState", SC + "GetIteratorClosest", SC + "GetClosest", SC + "GetClosestBefore", SC + "GetClosestAfter", "msf_core::GenericState_T::CheckStateForNumeric")


def closest_terms(cx, p, R):
    fn = corefn(p, "GetClosestState")
    t = ("root", fn.params[0]["n"])
    run = lambda facts: cx.run(p, fn, pure=CS_SUMMARY, facts=facts)
    near = (("fld", ("call", SC + "GetIteratorClosest", R.states, t), "second"), ("call", SC + "GetClosest", R.states, t))
    bef, aft = ("call", SC + "GetClosestBefore", R.states, t), ("call", SC + "GetClosestAfter", R.states, t)
    return run, bef, aft, near


def closest_leaf(t, near, bef, aft, case):
    def at(x):
        if x == t:
            return case[0]
        if type(x) is tuple and len(x) == 3 and x[0] == "fld" and x[2] == "time":
            if x[1] in near:
                return case[1]
            if x[1] == bef:
                return case[2]
            if x[1] == aft:
                return case[3]
        return None
    return at


def closest(cx, p, R, u):
    fn = corefn(p, "GetClosestState")
    t = ("root", fn.params[0]["n"])
    run, bef, aft, near = closest_terms(cx, p, R)
    tm = lambda s: ("fld", s, "time")
    inv = ("fld", R.states, R.invname)
    ins = lambda x: ismut(R.smap, "insert", "emplace", "emplace_hint", "try_emplace")(x)
    effs = lambda e: [v for v in e.events.values() if iseffect(v) or v.kind == "call" and v.name in (C + "PropagateState", C + "PropPToState")]

    leaf = lambda case: closest_leaf(t, near, bef, aft, case)
    isnum = lambda e: {c for c, _ in conditions(e) for c in subterms(c) if c and c[:2] == ("call", CS_SUMMARY[-1])}
    e0, g0 = run(frozenset())
    if not any(t_ in near for c, _ in conditions(e0) for t_ in subterms(c) if t_):
        other = [t_ for c, _ in conditions(e0) for t_ in subterms(c) if t_ and t_[:3] in [x[:3] for x in (near[0][1], near[1], bef, aft)] and len(t_) == 4 and t in set(subterms(t_[3]))]
        cx.need(other, "lookup of the closest state in GetClosestState")
        cx.bad("D6", "%s closest" % u, fn.where(), "the state closest to %s is looked up instead of the one closest to the time asked for" % show(other[0][3])[:60], key="D6 lookup")
        return

    def go(case, bad=()):
        """bad: states whose values are not finite"""
        e, g, f = settle(run, leaf(case))
        for _ in range(3):
            nf = f | {(c, c[2] not in bad and not (set(alts(c[2])) & set(bad))) for c in isnum(e)}
            if nf == f:
                break
            e, g, f = settle(run, leaf(case), nf)
        return e, g
    # none close
    for case, nm in (((10.0, -1.0, -1.0, -1.0), "empty buffer"), ((10.0, 10.1001, 9.0, 10.1001), "closest 0.1001 s later"), ((10.0, 9.89, 9.89, 12.0), "closest 0.11 s earlier"), ((10.0, 5.0, 5.0, -1.0), "closest 5 s earlier")):
        e, g = go(case)
        cx.expect(e.final is not None and all(is_inv(x, inv) for x in alts(e.ret)), "D6", "%s %s: none" % (u, nm), fn.where(), "%s: a state that is not close is returned: %s" % (nm, show(e.ret)[:80]), key="D6 far")
        pth = g.path(g.entry, lambda x: x in effs(e), include_start=True)
        cx.nopath(pth, "D6", "%s %s: no effect" % (u, nm), fn.where(), "looking for a state has an effect although there is none", key="D6 fareff")
    # the closest one itself
    for case, nm in (((10.0, 10.0, 9.99, 10.01), "at the time"), ((10.0, 10.0009, 9.99, 10.0009), "0.9 ms later"), ((10.0, 9.9991, 9.9991, 10.01), "0.9 ms earlier")):
        e, g = go(case)
        only_near(cx, e, g, fn, near, ins, u, nm)
    for case, nm in (((10.0, 9.95, 9.95, -1.0), "no later state"), ((10.0, 10.05, -1.0, 10.05), "no earlier state")):
        e, g = go(case)
        only_near(cx, e, g, fn, near, ins, u, nm)
    for b, nm in ((bef, "earlier state not finite"), (aft, "later state not finite")):
        e, g = go((10.0, 10.004, 9.995, 10.004), bad=(b,))
        only_near(cx, e, g, fn, near, ins, u, nm)
    # interpolated
    for case, nm in (((10.0, 10.0015, 9.995, 10.0015), "1.5 ms"), ((10.0, 9.996, 9.996, 10.006), "4 ms"), ((10.0, 9.91, 9.91, 10.095), "90 ms")):
        e, g = go(case)
        inst = "%s interpolated (%s)" % (u, nm)
        al = alts(e.ret)
        ok = len(al) == 1 and next(iter(al))[0] == "new"
        if not cx.expect(ok, "D6", inst, fn.where(), "between two states %s away the state returned is %s instead of an interpolated one" % (nm, sorted(show(x)[:60] for x in al)), key="D6 interp"):
            continue
        s = next(iter(al))
        cx.expect(exitval(e, tm(s)) == t, "D6", inst + " time", fn.where(), "the interpolated state has time %s" % show(exitval(e, tm(s))), key="D6 time")
        M = Mat(e.scalars | {t, tm(bef), tm(aft)})
        for fld_ in ("a_m", "w_m"):
            ws = [w for w in writes(e, ("fld", s, fld_)) if w.op == "=" and w.fn.n == fn.n or w.op == "=" and w.val[:1] == ("call",)]
            A, B = ("fld", bef, fld_), ("fld", aft, fld_)
            want = mm("+", A, mm("*", mm("/", mm("-", B, A), ("op", "-", tm(aft), tm(bef))), ("op", "-", t, tm(bef))))
            v = exitval(e, ("fld", s, fld_))
            cx.expect(M.same(v, want), "D6", inst + " " + fld_, fn.where(), "%s of the interpolated state is not the linear interpolation of its neighbours: %s" % (fld_, show(v)[:100]), key="D6 " + fld_)
        pr = lambda x: x.kind == "call" and x.name == C + "PropagateState"
        prs = [x for x in e.events.values() if pr(x)]
        cx.expect(bool(prs) and all(x.args[0] == bef and x.args[1] == s for x in prs), "D6", inst + " from the earlier state", fn.where(), "the interpolated state is not propagated from the state before it", key="D6 prop")
        puts = [x for x in e.events.values() if ins(x)]
        cx.expect(len(puts) == 1 and contains(tuple(puts[0].args), s), "D6", inst + " inserted", fn.where(), "the interpolated state is not put into the buffer exactly once", key="D6 insert")
        for x in puts:
            cx.nopath(g.path(g.entry, lambda y: y is x, avoid=pr, include_start=True), "D6", inst + " propagated before inserted", x.where(), "the interpolated state enters the buffer before it was propagated", key="D6 porder")
            for y in prs:
                for fld_ in ("time", "a_m", "w_m"):
                    cx.nopath(g.reaches(y, lambda z: z.kind == "write" and z.loc == ("fld", s, fld_)), "D6", inst + " inputs first", y.where(), "%s of the interpolated state is set after it was propagated" % fld_, key="D6 inputs")
        for n_ in ("noise_gyr", "noise_acc"):
            v = exitval(e, ("fld", s, n_))
            cx.expect(v is not None and v != ("fld", s, n_) and v[0] not in ("default",), "D6", inst + " " + n_, fn.where(), "%s of the interpolated state is not set" % n_, key="D6 " + n_)
        cx.nopath(g.path(g.entry, "exit", avoid=lambda x: x.kind == "call" and x.name == C + "PropPToState" and s in alts(x.args[0]), include_start=True), "D6", inst + " covariance", fn.where(), "the covariance of the interpolated state is not computed", key="D6 cov")
    # not finite afterwards
    for case, nm in (((10.0, 10.0, 9.99, 10.01), "at the time"), ((10.0, 10.0009, 9.99, 10.0009), "0.9 ms later"), ((10.0, 9.9991, 9.9991, 10.01), "0.9 ms earlier"),
                     ((10.0, 9.95, 9.95, -1.0), "no later state"), ((10.0, 10.05, -1.0, 10.05), "no earlier state"), ((10.0, 10.04, 9.95, 10.04), "between two states")):
        e, g, f = settle(run, leaf(case))
        for _ in range(4):
            f2 = f | {(c, False) for c in isnum(e)}
            if f2 == f:
                break
            e, g, f = settle(run, leaf(case), f2)
        cx.expect(all(is_inv(x, inv) for x in alts(e.ret)), "D6", "%s not finite (%s): none" % (u, nm), fn.where(), "%s: a state with values that are not finite is returned" % nm, key="D6 nan")
    case = (10.0, 10.04, 9.95, 10.04)
    e, g, f = settle(run, leaf(case))
    for _ in range(4):
        f2 = f | {(c, bool(set(alts(c[2])) <= {bef, aft, *near})) for c in isnum(e)}
        if f2 == f:
            break
        e, g, f = settle(run, leaf(case), f2)
    cx.expect(all(is_inv(x, inv) for x in alts(e.ret)), "D6", "%s interpolated not finite: none" % u, fn.where(), "an interpolated state with values that are not finite is returned", key="D6 nan")


def is_inv(x, inv):
    return x == inv or x == ("L", inv)


def only_near(cx, e, g, fn, near, ins, u, nm):
    cx.expect(all(x in near for x in alts(e.ret)), "D6", "%s closest (%s)" % (u, nm), fn.where(), "%s: the state returned is %s instead of the closest" % (nm, show(e.ret)[:100]), key="D6 near " + nm)
    cx.nopath(g.path(g.entry, ins, include_start=True), "D6", "%s closest (%s) no new state" % (u, nm), fn.where(), "%s: a new state is inserted" % nm, key="D6 nearins")
    cx.nopath(g.path(g.entry, "exit", avoid=lambda x: x.kind == "call" and x.name == C + "PropPToState" and alts(x.args[0]) & set(near), include_start=True), "D6", "%s closest (%s) covariance" % (u, nm), fn.where(), "the covariance of the state returned is not up to date", key="D6 nearcov")
