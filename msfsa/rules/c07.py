"""C07 - the covariance belongs to the state it is stored with."""
from .core import *
from .flow import *
from .c02 import ismut, conditions
from . import c05
from ..mat import Mat, mm, T

PRED = C + "PredictProcessCovariance"
AUX = "msf_core::MSF_SensorManager::CalculateQAuxiliaryStates"
AT = SC + "GetIteratorAtValue"


def check(cx):
    cx.rule("K1", "the covariance of a state is predicted as Fd P Fd' + Qd from the state before it, never over a step of no or negative length")
    cx.rule("K2", "catching up goes from the last valid covariance state by state, each step once, up to the state asked for")
    cx.rule("K3", "one step of prediction goes from the last valid covariance to the next state, and a result that is not finite stops the filter")
    cx.rule("K4", "a correction makes all later covariances count as outdated")
    cx.rule("K5", "a state inserted between others makes the covariances from there on count as outdated")
    cx.rule("K6", "the time of the last valid covariance is always that of a buffered state")
    for u in units(cx):
        p = cx.unit(u)
        R = roles(cx, p)
        predict(cx, p, R, u)
        catchup(cx, p, R, u)
        onestep(cx, p, R, u)
        corrected(cx, p, R, u)
        inserted(cx, p, R, u)
        times(cx, p, R, u)
    cx.floor("K1", 6 * len(units(cx)))


def predict(cx, p, R, u):
    fn = corefn(p, "PredictProcessCovariance")
    a, b = (("root", q["n"]) for q in fn.params[:2])
    tm = lambda s: ("fld", s, "time")
    run = lambda facts: cx.run(p, fn, pure={CALCQ: (), AUX: ()}, facts=facts, maxsize=60000)

    def leaf(dt):
        return lambda t: (100.0 if t == tm(a) else 100.0 + dt if t == tm(b) else None)
    for dt in (0.0, -1e-9, -0.02, -70.0):
        e, g, _ = settle(run, leaf(dt))
        w = g.path(g.entry, lambda v: iseffect(v) or v.kind == "call" and v.name in (CALCQ, AUX), include_start=True)
        cx.nopath(w, "K1", "%s step of %g s" % (u, dt), w[-1].where() if w else fn.where(), "a covariance is predicted over a step of %g s" % dt, key="K1 dt")
    for dt in (1e-9, 0.005, 0.3, 20.0):
        e, g, _ = settle(run, leaf(dt))
        inst = "%s step of %g s" % (u, dt)

        def strip(t):
            """the matrix a chain of block assignments was made to"""
            while type(t) is tuple and t and t[0] in ("upd", "mut"):
                t = t[1] if t[0] == "upd" else t[2]
            return t

        def atom(t):
            if type(t) is tuple and t and t[0] in ("upd", "mut"):
                s = strip(t)
                if s[:1] == ("fld",):
                    return s
            return None
        M = Mat(e.scalars, atom=atom)
        F, Q, P = ("fld", a, "Fd"), ("fld", a, "Qd"), ("fld", a, "P")
        got = exitval(e, ("fld", b, "P"))
        want = mm("+", mm("*", mm("*", F, P), T(F)), Q)
        cx.expect(M.same(got, want), "K1", inst + " P", fn.where(), "the predicted covariance is not Fd P Fd' + Qd of the state before", key="K1 P")
        ws = [v for v in e.events.values() if v.kind == "write" and v.loc == ("fld", b, "P")]
        cx.need(ws, "assignment of the predicted covariance")
        for v in ws:
            after = g.reaches(v, lambda x: x is not v and x.kind == "write" and rootfld(x.loc) in (F, Q) or x.kind == "call" and x.name in (CALCQ, AUX))
            cx.nopath(after, "K1", inst + " inputs first", v.where(), "Fd or Qd changes after the covariance was predicted with them", key="K1 order")
            for n_ in (CALCQ, AUX):
                cx.nopath(g.path(g.entry, lambda x: x is v, avoid=lambda x: x.kind == "call" and x.name == n_, include_start=True), "K1", inst + " noise " + short(n_), v.where(), "the covariance is predicted without the process noise of %s" % short(n_), key="K1 " + n_)
        for v in [v for v in e.events.values() if v.kind == "call" and v.name == CALCQ]:
            q = v.args[-1]
            cx.expect(q in (Q, ("L", Q)) or strip(q) == Q, "K1", inst + " noise goes to Qd", v.where(), "the process noise is computed into %s" % show(q)[:60], key="K1 Qd")
        cx.expect(exitval(e, R.tp) == tm(b), "K1", inst + " time", fn.where(), "after predicting the covariance of a state it counts as valid for %s" % show(exitval(e, R.tp))[:60], key="K1 tp")
        cx.nopath(g.path(g.entry, "exit", avoid=lambda x: x.kind == "write" and x.loc == ("fld", b, "P"), include_start=True), "K1", inst + " always", fn.where(), "the covariance is not predicted on some path", key="K1 always")
        ok = (F, Q, ("fld", b, "P"), R.tp)
        oth = [v for v in e.events.values() if iseffect(v) and v.kind == "write" and rootfld(v.loc) not in ok]
        cx.expect(not oth, "K1", inst + " nothing else", oth[0].where() if oth else fn.where(), "predicting a covariance changes %s" % (oth and show(oth[0].loc)[:60]), key="K1 other")


def rootfld(loc):
    while type(loc) is tuple and loc and loc[0] == "elem":
        loc = loc[1]
    return loc


def elem(t):
    return t[1] if type(t) is tuple and t[0] == "fld" and t[2] == "second" else None


def isat(t, R):
    """the position of the last valid covariance"""
    return type(t) is tuple and t[:2] == ("call", AT) and t[3] == R.tp or type(t) is tuple and t[:1] == ("call",) and short(t[1]) == "find" and t[2] == R.smap and t[3] == R.tp


def stepping(cx, p, R, u, fn, rule, what, stop):
    """shared part of K2 / K3: which pairs are predicted, from where"""
    e, g = cx.run(p, fn, pure={PRED: (), AT: ()})
    ispred = lambda x: x.kind == "call" and x.name == PRED
    ps = [v for v in e.events.values() if ispred(v)]
    if not cx.expect(bool(ps), rule, "%s %s" % (u, what), fn.where(), "no covariance is predicted", key=rule + " none"):
        return None
    for v in ps:
        x, y = v.args[:2]
        if not cx.expect(elem(x) is not None and elem(y) is not None, rule, "%s %s between states" % (u, what), v.where(), "the covariance is not predicted between buffered states: %s -> %s" % (show(x)[:60], show(y)[:60]), key=rule + " elems"):
            continue
        why = adjacent(e, g, v, elem(x), elem(y))
        cx.expect(why is None, rule, "%s %s from each state to the next" % (u, what), v.where(), "the covariance is not predicted from one state to the next: %s" % why, key=rule + " adjacent")
        X, Y = Induction(e, g, v, elem(x)), Induction(e, g, v, elem(y))
        at = [posof(s) for s in X.startvals()]
        foll = [(b, o) for b, o in at if Y.loc is not None and (b == Y.base or isvar(b) and b[2] == Y.loc)]
        own = [(b, o + X.off) for b, o in at if (b, o) not in foll] or [(b, o + Y.off - 1) for b, o in map(posof, Y.startvals())]
        ok = all(o == 0 and isat(b, R) for b, o in own)
        cx.expect(ok, rule, "%s %s from the last valid one" % (u, what), v.where(), "the prediction starts at %s and not at the last valid covariance" % [show(b)[:60] + "%+d" % o for b, o in own], key=rule + " start")
        halt = lambda fs: any(stop(e, f, pol, X, Y, x, y) for f, pol in fs)
        yield e, g, v, X, Y, halt, ispred


def atend(R, f, pol, el):
    return pol and type(f) is tuple and f[:2] == ("op", "==") and len(f) == 4 and el in f[2:] and any(t == ("call", "std::map::end", R.smap) for t in f[2:])


def catchup(cx, p, R, u):
    fn = corefn(p, "PropPToState")
    s = ("root", fn.params[0]["n"])
    st = ("fld", s, "time")

    def stop(e, f, pol, X, Y, x, y):
        cand = {elem(y)} | ({("op", "+", elem(x), ("c", 1))} if elem(x) else set())
        # the value of the stepping iterator at the head of the loop
        if Y.loc is not None:
            cand |= {w for w in [Y.base]} | {posof(a_)[0] for a_ in alts(elem(y))}
        if type(f) is tuple and len(f) == 4 and f[0] == "op":
            for c in cand | {t for t in f[2:] if isvar(posof(t)[0]) and Y.loc == posof(t)[0][2]}:
                if atend(R, f, pol, c):
                    return True
                t = ("fld", ("fld", c, "second"), "time")
                k = ("fld", c, "first")
                if f[1] == "<" and (f[2:] in ((st, t), (st, k)) and pol):
                    return True
            # start position + 1 before the loop
            for t in f[2:]:
                b, o = posof(t)
                if isat(b, R) and o == 1 and atend(R, f, pol, t):
                    return True
            for a_, b_ in ((f[2], f[3]),):
                if f[1] == "<" and pol and a_ == st and type(b_) is tuple and b_[0] == "fld":
                    q = b_[1][1] if b_[2] == "time" and b_[1][:1] == ("fld",) else b_[1] if b_[2] == "first" else None
                    if q is not None:
                        bb, oo = posof(q)
                        if isat(bb, R) and oo == 1:
                            return True
        return False
    for e, g, v, X, Y, halt, ispred in stepping(cx, p, R, u, fn, "K2", "catching up", stop) or ():
        cx.nopath(g.path(g.point(v), "exit", avoid_edge=halt), "K2", "%s up to the state" % u, v.where(), "catching up can end before the state asked for", key="K2 end")
        cx.nopath(g.path(g.entry, "exit", avoid=ispred, avoid_edge=halt, include_start=True), "K2", "%s at all" % u, fn.where(), "catching up can be skipped although there are states to predict for", key="K2 skip")
        for w in X.steps + Y.steps:
            cx.nopath(g.path(g.point(w), lambda z: z is w, avoid=ispred, avoid_edge=halt), "K2", "%s every state" % u, w.where(), "a state is skipped by the covariance prediction", key="K2 every")
        # not beyond the state asked for
        def within(fs):
            for f, pol in fs:
                if type(f) is tuple and len(f) == 4 and f[:2] == ("op", "<") and f[2] == st and not pol and type(f[3]) is tuple and f[3][0] == "fld":
                    q = f[3][1][1] if f[3][2] == "time" and f[3][1][:1] == ("fld",) else f[3][1] if f[3][2] == "first" else None
                    if q is not None and (q == elem(v.args[1]) or isat(posof(q)[0], R) and posof(q)[1] == 1 and not Y.steps):
                        return True
            return False
        for w in [None] + Y.steps:
            pth = g.path(g.point(w) if w is not None else g.entry, lambda z: z is v, avoid_edge=within, avoid=lambda z: z in Y.steps and z is not w, include_start=w is None)
            cx.nopath(pth, "K2", "%s not beyond" % u, v.where(), "the covariance can be predicted beyond the state asked for", key="K2 beyond")
    oth = None
    e, g = cx.run(p, fn, pure={PRED: (), AT: ()})
    oth = [v for v in e.events.values() if iseffect(v)]
    cx.expect(not oth, "K2", "%s nothing else" % u, oth[0].where() if oth else fn.where(), "catching up has another effect: %r" % (oth and oth[0]), key="K2 other")


def onestep(cx, p, R, u):
    fn = corefn(p, "PropagatePOneStep")

    def stop(e, f, pol, X, Y, x, y):
        return atend(R, f, pol, elem(y))
    for e, g, v, X, Y, halt, ispred in stepping(cx, p, R, u, fn, "K3", "one step", stop) or ():
        cx.nopath(g.path(g.entry, "exit", avoid=ispred, avoid_edge=halt, include_start=True), "K3", "%s taken" % u, fn.where(), "the covariance is not predicted although there is a next state", key="K3 taken")
        cx.nopath(g.path(g.point(v), ispred), "K3", "%s one" % u, v.where(), "the covariance is predicted over more than one step", key="K3 one")
        nums = sorted({f.n for f in p.repo_fns() if short(f.n) in ("CheckForNumeric", "CheckStateForNumeric", "checkForNumeric")})
        pure = {PRED: (), AT: ()}
        pure.update((n, ()) for n in nums)
        e3, g3 = cx.run(p, fn, pure=pure)
        cs = {c for c, _ in conditions(e3) for c in subterms(c) if c and c[0] == "call" and c[1] in nums and len(c) > 2}
        new = [c for c in cs if any(t == v.args[1] or t == elem(v.args[1]) for t in subterms(c))]
        if not cx.expect(bool(new), "K3", "%s checked" % u, v.where(), "the result of the prediction is not checked for finite values", key="K3 check"):
            continue
        for bad in (True, False):
            e4, g4 = cx.run(p, fn, pure=pure, facts=frozenset((c, not bad) for c in cs))
            vals = [exitval(e4, l) for l in (R.init, R.pred)]
            if bad:
                w = g4.path(g4.entry, "exit", avoid=lambda x: x.kind == "write" and x.loc == R.init and x.val in (FALSE, ("c", 0)), avoid_edge=halt, include_start=True)
                cx.nopath(w, "K3", "%s not finite stops" % u, v.where(), "a prediction that is not finite leaves the filter running", key="K3 nan")
                w = g4.path(g4.entry, "exit", avoid=lambda x: x.kind == "write" and x.loc == R.pred and x.val in (FALSE, ("c", 0)), avoid_edge=halt, include_start=True)
                cx.nopath(w, "K3", "%s not finite stops prediction" % u, v.where(), "a prediction that is not finite leaves the filter predicting", key="K3 nan2")
            else:
                cx.expect(vals == [R.init, R.pred], "K3", "%s finite goes on" % u, v.where(), "a finite prediction changes the condition of the filter", key="K3 fin")


def corrected(cx, p, R, u):
    fn = corefn(p, "ApplyCorrection")
    s = ("root", fn.params[0]["n"])
    e, g = cx.run(p, fn, noinline=NOIN(p), facts=frozenset([(R.init, True), (R.pred, True)]))
    want = ("fld", s, "time")
    vals = alts(exitval(e, R.tp))
    cx.expect(vals == {want} or vals == frozenset([want]), "K4", "%s applied" % u, fn.where(), "after a correction the last valid covariance is that of time %s" % sorted(show(x)[:60] for x in vals), key="K4 tp")


def inserted(cx, p, R, u):
    fn = corefn(p, "GetClosestState")
    t = ("root", fn.params[0]["n"])
    info = c05.closest_terms(cx, p, R)
    run, bef, aft, near = info
    tm = lambda s: ("fld", s, "time")
    for tp, want, nm in ((10.0015, tm(bef), "after both"), (9.997, tm(bef), "between"), (9.995, (R.tp, tm(bef)), "at the state before"), (9.99, R.tp, "before both"), (50.0, tm(bef), "long after")):
        leaf = c05.closest_leaf(t, near, bef, aft, (10.0, 10.0015, 9.995, 10.0015))
        lf = lambda x: tp if x == R.tp else leaf(x)
        e, g, f = settle(run, lf)
        f2 = f | {(c, True) for c, _ in conditions(e) for c in subterms(c) if c and c[:2] == ("call", c05.CS_SUMMARY[-1])}
        e, g, f = settle(run, lf, f2)
        got = exitval(e, R.tp)
        want = want if type(want[0]) is tuple else (want,)
        nv = evalnum(got, lf) if e.final is not None else None
        cx.expect(e.final is not None and (all(x in want for x in alts(got)) or nv is not None and nv == min(tp, 9.995)), "K5", "%s last valid covariance %s" % (u, nm), fn.where(), "a state is inserted and the last valid covariance is then of time %s" % show(got)[:60], key="K5 " + nm)
        late = [w for w in writes(e, R.tp) if g.path(g.entry, lambda x: x is w, avoid=lambda x: not (x.kind == "call" and x.name == C + "PropPToState")) is None]
        for w in writes(e, R.tp):
            pt = [x for x in e.events.values() if x.kind == "call" and x.name == C + "PropPToState" and g.reaches(x, lambda z: z is w) is not None]
            cx.expect(not pt, "K5", "%s before catching up (%s)" % (u, nm), w.where(), "the covariance is brought up to date before it counts as outdated", key="K5 order")
    for case, nm in (((10.0, 10.0005, 9.995, 10.0005), "close enough"), ((10.0, 10.5, 9.0, 10.5), "none close")):
        leaf = c05.closest_leaf(t, near, bef, aft, case)
        e, g, f = settle(run, leaf)
        got = exitval(e, R.tp)
        cx.expect(all(x == R.tp for x in alts(got)), "K5", "%s %s: unchanged" % (u, nm), fn.where(), "no state is inserted but the time of the last valid covariance changes", key="K5 same")


def times(cx, p, R, u):
    """K6: every value the time of the last valid covariance is given"""
    n = 0
    for f in p.repo_fns():
        if "(ctor)" in f.n:
            continue
        own = [i for i, nd in enumerate(f.nodes) if nd and nd["k"] in ("Asg", "CAsg") and f.nodes[nd["c"][0]] and f.nodes[nd["c"][0]]["k"] == "Mem" and f.nodes[nd["c"][0]].get("n") == C + R.tp[2]]
        moves = f.n.startswith(C) and any(nd.get("n") in (SC + "UpdateTime", SC + "Clear") for _, nd in f.call_ids())
        if not own and not moves:
            continue
        pure = {CALCQ: (), AUX: (), AT: (), SC + "UpdateTime": (), SC + "Insert": ()}
        pure.update((g_.n, ()) for g_ in p.repo_fns() if g_.n.startswith(C) and g_.id != f.id and any(nd and nd["k"] == "Mem" and nd.get("n") == C + R.tp[2] for nd in g_.nodes))
        e, g = cx.run(p, f, pure=pure)
        for w in [w for w in writes(e, R.tp) if w.fn.id == f.id]:
            n += 1
            v = w.val
            if type(v) is tuple and v[0] == "call" and short(v[1]) in ("min", "fmin") and R.tp in v[2:]:
                v = [x for x in v[2:] if x != R.tp][0]
            cleared = any((x.kind == "mut" and x.loc == R.smap and short(x.name) == "clear") and (g.reaches(x, lambda y: y is w) or g.reaches(w, lambda y: y is x)) for x in e.events.values())
            if not cleared and all(type(x) is tuple and x[0] == "fld" and x[2] == "time" and all(y[0] in ("root", "fld", "call", "elem", "L") for y in alts(x[1])) for x in alts(v)):
                cx.ok("K6", "%s %s" % (u, f.n))
                continue

            def files(x):
                """puts a state into the buffer under this time"""
                if x.kind != "call":
                    return False
                if x.name == SC + "UpdateTime":
                    return len(x.args) > 1 and x.args[1] == v
                if x.name == SC + "Insert":
                    return any(v == ("fld", a, "time") or alts(v) <= {y for z in e.events.values() if z.kind == "write" and z.loc == ("fld", a, "time") and g.reaches(z, lambda y: y is x) for y in alts(z.val)} for a in alts(x.args[0]))
                return False
            ok = g.path(g.entry, lambda x: x is w, avoid=files, include_start=True) is None or g.path(g.point(w), "exit", avoid=files) is None
            cx.expect(ok, "K6", "%s %s %s" % (u, f.n, show(v)[:40]), w.where(), "the last valid covariance is said to be of time %s, which no buffered state has" % show(v)[:60], key="K6 %s" % f.n)
        # a state given another time, or a cleared buffer, takes the covariance time along
        for x in [x for x in e.events.values() if x.fn.id == f.id and (x.kind == "call" and x.name == SC + "UpdateTime" or x.kind == "mut" and x.loc == R.smap and short(x.name) == "clear" or x.kind == "call" and x.name == SC + "Clear" and x.obj == R.states)]:
            isw = lambda z: z.kind == "write" and z.loc == R.tp
            ok = g.path(g.entry, lambda z: z is x, avoid=isw, include_start=True) is None or g.path(g.point(x), "exit", avoid=isw) is None
            cx.expect(ok, "K6", "%s %s follows" % (u, f.n), x.where(), "the states change but the time of the last valid covariance does not follow", key="K6 follow %s" % f.n)
            if x.name == SC + "UpdateTime":
                vals = alts(exitval(e, R.tp)) if e.final else ()
                good = [w for w in writes(e, R.tp) if w.val == x.args[1] or w.val[:1] == ("fld",) and w.val[2] == "time" and w.val[1][:2] == ("call", SC + "UpdateTime")]
                cx.expect(bool(good), "K6", "%s %s follows to the same time" % (u, f.n), x.where(), "a state is moved in time but the last valid covariance is not moved with it", key="K6 same %s" % f.n)
    cx.need(n >= 4, "assignments of the covariance time")
