"""C02 - (re)initialisation starts from a clean slate."""
from .core import *
from .flow import settle


def only_init_apply(g, this):
    return not g.n.endswith("Measurement::Apply") or g.n.endswith("MSF_InitMeasurement::Apply")


def ismut(loc, *names):
    return lambda v: v.kind == "mut" and v.loc == loc and short(v.name) in names


def check(cx):
    cx.rule("I1", "initialisation empties both buffers and the queue of deferred measurements on every path, before the new state goes in")
    cx.rule("I2", "exactly one state is inserted: a new one carrying the time of the measurement")
    cx.rule("I3", "the divergence check restarts with the history of a new filter")
    cx.rule("I4", "the covariance starts symmetric from constants, or from the values supplied with the measurement")
    cx.rule("I5", "afterwards covariance time, last-IMU position and flags describe exactly that state; the filter counts as running last")
    cx.rule("I6", "a state variable takes the supplied initial value exactly if one was supplied, else its neutral value; IMU readings likewise")
    cx.rule("I7", "supplying an initial value stores it under its own state variable and marks it as supplied")
    cx.rule("I8", "the initial state is published once, with all its values set")
    for u in units(cx):
        p = cx.unit(u)
        R = roles(cx, p)
        fn = corefn(p, "Init")
        e, g = cx.run(p, fn, noinline=NOIN(p), vfilter=only_init_apply)
        meas = ("root", fn.params[0]["n"])
        ins = [v for v in e.events.values() if ismut(R.smap, "insert", "emplace", "emplace_hint", "insert_or_assign")(v)]
        # I1
        for m, nm in ((R.smap, "state buffer"), (R.mmap, "measurement buffer")):
            clr = ismut(m, "clear")
            pth = g.path(g.entry, "exit", avoid=clr, include_start=True)
            cx.nopath(pth, "I1", "%s %s" % (u, nm), fn.where(), "a path through Init keeps the old content of the %s" % nm, key="I1 " + nm)
            put = ismut(m, "insert", "emplace", "emplace_hint", "insert_or_assign")
            for v in [v for v in e.events.values() if put(v)]:
                cx.nopath(g.path(g.entry, lambda x: x is v, avoid=clr, include_start=True), "I1", "%s %s cleared before insert" % (u, nm), v.where(),
                          "an element is inserted before the %s is emptied" % nm, key="I1 order " + nm)
                cx.nopath(g.reaches(v, clr), "I1", "%s %s not cleared after insert" % (u, nm), v.where(), "the new content of the %s is dropped again" % nm, key="I1 late " + nm)
        cx.expect(emptied(e, R.queue), "I1", "%s deferred measurements" % u, fn.where(), "measurements deferred before the initialisation survive it", key="I1 queue")
        for v in e.events.values():
            if v.kind == "mut" and v.loc == R.queue and short(v.name) in ("push", "emplace", "push_back", "push_front", "emplace_back"):
                cx.bad("I1", "%s queue" % u, v.where(), "Init defers a measurement", key="I1 push")
        # I2
        if not cx.expect(len(ins) == 1, "I2", "%s one insertion" % u, fn.where(), "%d insertions of a state in Init" % len(ins), key="I2 count"):
            continue
        cx.nopath(g.path(g.entry, "exit", avoid=lambda x: x is ins[0], include_start=True), "I2", "%s always inserted" % u, ins[0].where(), "a path through Init inserts no state", key="I2 always")
        cx.nopath(g.reaches(ins[0], lambda x: x is ins[0]), "I2", "%s inserted once" % u, ins[0].where(), "the state is inserted more than once", key="I2 once")
        news = [t for t in subterms(tuple(ins[0].args)) if t and t[0] == "new"]
        st = news[0] if news else None
        early = [w for w in writes(e, ("fld", st, "time")) if g.reaches(ins[0], lambda x: x is w)]
        cx.expect(not early, "I2", "%s time set before insertion" % u, ins[0].where(), "the state is inserted before it gets its time, so it is filed under another one", key="I2 key")
        if not cx.expect(st is not None and len(set(news)) == 1, "I2", "%s new state" % u, ins[0].where(), "the inserted state is not one created by Init: %s" % show(tuple(ins[0].args))[:120], key="I2 new"):
            continue
        mt = ("fld", meas, "time")
        cx.expect(exitval(e, ("fld", st, "time")) == mt, "I2", "%s time of the state" % u, ins[0].where(), "the initial state has time %s instead of the measurement's" % show(exitval(e, ("fld", st, "time"))), key="I2 time")
        # I3
        fresh(cx, p, R, u, e, fn)
        # I4
        covariance(cx, p, R, u, fn, st, meas)
        # I5
        cx.expect(exitval(e, R.tp) == mt, "I5", "%s covariance time" % u, fn.where(), "covariance time after Init is %s, not the time of the initial state" % show(exitval(e, R.tp)), key="I5 tp")
        cx.expect(is_insert_result(exitval(e, R.last), R, ins[0]), "I5", "%s last IMU position" % u, fn.where(), "the last-IMU iterator does not refer to the initial state: %s" % show(exitval(e, R.last))[:160], key="I5 last")
        cx.expect(exitval(e, R.init) in (TRUE, ("c", 1)), "I5", "%s initialised" % u, fn.where(), "the filter is not marked as initialised after Init", key="I5 init")
        cx.expect(exitval(e, R.pred) in (FALSE, ("c", 0)), "I5", "%s no prediction yet" % u, fn.where(), "the filter counts as predicting right after Init", key="I5 pred")
        for v in writes(e, R.init):
            if v.val in (TRUE, ("c", 1)):
                after = g.reaches(v, lambda x: iseffect(x) and x is not v and not ispublish(x))
                cx.nopath(after, "I5", "%s running last" % u, v.where(), "the filter counts as running before Init is done", key="I5 order")
        # I8
        pub = [v for v in e.events.values() if iscall(v, "PublishStateInitial")]
        if cx.expect(bool(pub), "I8", "%s published" % u, fn.where(), "the initial state is not published", key="I8 none"):
            P = lambda v: iscall(v, "PublishStateInitial")
            cx.nopath(g.path(g.entry, "exit", avoid=P, include_start=True), "I8", "%s on every path" % u, fn.where(), "a path through Init does not publish the initial state", key="I8 path")
            for v in pub:
                cx.nopath(g.reaches(v, P), "I8", "%s once" % u, v.where(), "the initial state is published more than once", key="I8 once")
                late = g.reaches(v, lambda x: x.kind == "write" and rootof(x.loc) == st and x.fn.n.startswith("msf_core::MSF"))
                cx.nopath(late, "I8", "%s complete" % u, v.where(), "the initial state changes after it was published", key="I8 late")
                cx.expect(st in list(alts(v.args[0])), "I8", "%s the state" % u, v.where(), "something else than the initial state is published", key="I8 what")
        values(cx, p, u, e)
    cx.floor("I6", 12 * len(units(cx)))
    cx.floor("I7", 5 * len(units(cx)))


def emptied(e, q):
    if e.final is None:
        return False
    for f, pol in e.final.facts:
        if type(f) is tuple and f[0] == "call" and short(f[1]) == "empty" and f[2] == q and pol:
            return True
        if type(f) is tuple and f[0] == "op" and f[1] == "==" and pol and any(type(x) is tuple and x[0] == "call" and short(x[1]) == "size" and x[2] == q for x in f[2:]) and ("c", 0) in f[2:]:
            return True
        if type(f) is tuple and f[0] == "op" and f[1] == "<" and not pol and f[2] == ("c", 0) and type(f[3]) is tuple and f[3][:1] == ("call",) and short(f[3][1]) == "size" and f[3][2] == q:
            return True
    if counted_pop(e, q):
        return True
    v = exitval(e, q)
    if type(v) is tuple and v and (v[0] == "default" or v[0] == "ctor" or v[0] == "call" and ("ctor" in v[1] or short(v[1]) in ("queue", "deque")) and len(v) == 2):
        return True
    return type(v) is tuple and v and v[0] == "mut" and short(v[1]) in ("clear",) or \
        type(v) is tuple and v and v[0] in ("mut", "out") and short(v[1]) == "swap" and not contains(v[3:], q)


def counted_pop(e, q):
    """a loop that pops once per element there was: a counter from size() down to 0, stepped and popped once per round"""
    g = e.graph()
    pops = [v for v in e.events.values() if v.kind == "mut" and v.loc == q and short(v.name) in ("pop", "pop_front", "pop_back")]
    if len(pops) != 1:
        return False
    p = pops[0]
    size = lambda t: type(t) is tuple and t[:1] == ("call",) and short(t[1]) == "size" and t[2] == q
    zero = lambda t: t == ("c", 0)
    for w in e.events.values():
        if w.kind != "write" or w.loc is None or w.loc[0] != "var" or w.op not in ("++", "--") or w.ctx != p.ctx:
            continue
        inits = [d.val for d in e.events.values() if d.kind in ("decl", "write") and d.loc == w.loc and d.op not in ("++", "--") and d.val is not None]
        down = w.op == "--" and inits and all(size(x) for x in inits)
        if not down:
            continue
        me, it = (lambda x: x is w), (lambda x: x is p)
        # one step per pop, one pop per step, and at least as many rounds as the bound says
        if g.path(g.point(w), me, avoid=it) is not None or g.path(g.point(p), it, avoid=me) is not None:
            continue
        for f, pol in e.final.facts if e.final is not None else ():
            if type(f) is tuple and f[0] == "op" and f[1] in ("<", "==") and len(f) == 4:
                hasvar = [x for x in f[2:] if type(x) is tuple and any(t and t[0] == "loop" and w.loc in t for t in subterms(x))]
                oth = [x for x in f[2:] if x not in hasvar]
                if len(hasvar) != 1 or len(oth) != 1:
                    continue
                if zero(oth[0]) and (f[1] == "==" and pol or f[1] == "<" and not pol and f[2] == oth[0]):
                    return True
    return False


def is_insert_result(t, R, ins):
    """iterator returned by the insertion"""
    if type(t) is tuple and t and t[0] == "fld" and t[2] == "first":
        t = t[1]
    return type(t) is tuple and t and t[0] == "call" and t[1] == ins.name and tuple(t[3:]) == tuple(ins.args)


def fresh(cx, p, R, u, e, fn):
    """every field the constructor of the tracker (instance in use) initialises has its initial value again"""
    cls = None
    rec = p.rec_by_name["msf_core::MSF_Core"][0]
    t = [p.types[f["t"]] for f in rec["fields"] if f["n"] == R.fuzzy[2]][0]
    for f in p.named("msf_core::CheckFuzzyTracking::(ctor)"):
        if p.type(f.info.get("clsT")) == t and not f.params:
            cls = f
    cx.need(cls is not None or "void_" in t or "mpl_::void" in t, "constructor of %s" % t[:80])
    if cls is None:
        cx.ok("I3", "%s no non-drifting state" % u)
        return
    c, _ = cx.run(p, cls)
    n = 0
    for k, v in c.final.env.items():
        if k[0] == "fld" and k[1] == THIS:
            n += 1
            got = exitval(e, ("fld", R.fuzzy, k[2]))
            cx.expect(same(got, v), "I3", "%s tracker.%s" % (u, k[2]), fn.where(), "the tracker keeps %s = %s over an initialisation (a new one has %s)" % (k[2], show(got)[:80], show(v)[:80]), key="I3 " + k[2])
    cx.need(n, "fields of the tracker")


def covariance(cx, p, R, u, fn, st, meas):
    P = ("fld", st, "P")
    userP = ("fld", ("fld", meas, "InitState"), "P")
    e, g = cx.run(p, fn, noinline=NOIN(p), vfilter=only_init_apply)
    v = exitval(e, P)
    al = [a for a in alts(v)]
    used = [a for a in al if a == userP]
    own = [a for a in al if a != userP]
    cx.expect(bool(used), "I4", "%s supplied covariance" % u, fn.where(), "a covariance supplied with the measurement is never used", key="I4 user")
    cx.expect(bool(own), "I4", "%s default covariance" % u, fn.where(), "the default covariance is never used", key="I4 default")
    # supplied one used exactly if it is not all zero
    for n, x, vals in PCASES:
        e2, _, _ = settle(lambda fa: cx.run(p, fn, noinline=NOIN(p), vfilter=only_init_apply, facts=fa), matleaf(userP, vals))
        al2 = alts(exitval(e2, P))
        cx.expect((al2 == {userP}) if n else (userP not in al2), "I4", "%s supplied P %s" % (u, x), fn.where(),
                  "with a supplied covariance that is %s, the filter starts with %s" % (x, sorted(show(a)[:60] for a in al2)), key="I4 " + x)
    for a in own:
        sym, why = symmetric(a)
        cx.expect(sym, "I4", "%s symmetric" % u, fn.where(), "the default covariance is not symmetric by construction: %s" % why, key="I4 sym")


PCASES = [(False, "all zero", (0, 0, 0)), (True, "negative somewhere", (0, -2, 0)), (True, "positive somewhere", (0, 3, 0)), (True, "negative and positive", (4, -4, 0)), (True, "small", (0, 1e-6, 1e-6))]


def matleaf(m, vals):
    """numbers of the terms about a matrix whose coefficients are, but for zeros, the given ones"""
    def coeffs(t):
        if t == m:
            return vals
        if type(t) is tuple and t[:1] == ("call",) and isinstance(t[1], str) and len(t) == 3:
            n = short(t[1])
            if n in ("array", "matrix", "transpose", "eval", "adjoint"):
                return coeffs(t[2])
            f = {"cwiseAbs": abs, "abs": abs, "cwiseAbs2": lambda x: x * x, "abs2": lambda x: x * x, "square": lambda x: x * x, "operator-": lambda x: -x}.get(n)
            c = coeffs(t[2])
            return None if f is None or c is None else tuple(f(x) for x in c)
        if type(t) is tuple and len(t) == 4 and t[0] in ("call", "op") and isinstance(t[1], str) and (num(t[3]) or type(t[3]) is tuple and short(t[3][1] if len(t[3]) > 1 and isinstance(t[3][1], str) else "") in ("Constant", "Zero")):
            f = {"!=": lambda x, y: x != y, "==": lambda x, y: x == y, "<": lambda x, y: x < y, ">": lambda x, y: x > y, ">=": lambda x, y: x >= y, "<=": lambda x, y: x <= y}.get(short(t[1]).replace("operator", ""))
            c, k = coeffs(t[2]), t[3] if num(t[3]) else next((x for x in t[3] if num(x)), ("c", 0))
            return None if f is None or c is None else tuple(f(x, k[1]) for x in c)
        return None

    def leaf(t):
        if type(t) is not tuple or t[:1] != ("call",) or not isinstance(t[1], str) or len(t) < 3:
            return None
        c = coeffs(t[2])
        if c is None:
            return None
        n = short(t[1])
        if n == "isZero":
            return all(abs(x) <= 1e-12 for x in c)
        if n == "any":
            return any(c)
        if n == "all":
            return all(c)
        if n == "lpNorm":
            return max(abs(x) for x in c) if "-1" in str(t[3:]) else None
        f = {"minCoeff": min, "maxCoeff": max, "sum": sum, "norm": lambda c: sum(x * x for x in c) ** 0.5, "squaredNorm": lambda c: sum(x * x for x in c), "mean": sum}.get(n)
        return None if f is None else f(c)
    return leaf


def symmetric(t):
    """the term is  (c * identity) with diagonal blocks overwritten by k * (M + M')"""
    if type(t) is not tuple:
        return False, show(t)
    if t[0] == "upd":
        m = t[2]
        sq = False
        if m[0] == "acc" and (m[1].startswith("block<") and len(m) == 4 or m[1] == "block" and len(m) == 6):
            i, j = m[2], m[3]
            if m[1].startswith("block<"):
                a, b = m[1][6:-1].split(",")[:2]
            else:
                a, b = m[4], m[5]
            sq = i == j and a == b
        elif m[0] == "acc" and m[1].split("<")[0] in ("topLeftCorner", "bottomRightCorner"):
            sq = True
        if not sq:
            return False, "written at " + show(m)
        s, w = symmetric(t[3])
        return (s, w) if not s else symmetric(t[1])
    if t[0] == "mut" and t[1] in ("setIdentity", "setZero", "setOnes"):
        return True, ""
    if t[0] == "op" and t[1] == "*" and len(t) == 4:
        if num(t[3]):
            return symmetric(t[2])
        if num(t[2]):
            return symmetric(t[3])
    if t[0] == "call" and short(t[1]) in ("operator*", "operator/") and len(t) == 4:
        if num(t[3]):
            return symmetric(t[2])
        if num(t[2]):
            return symmetric(t[3])
    if t[0] == "call" and short(t[1]) == "operator+" and len(t) == 4:
        for a, b in ((t[2], t[3]), (t[3], t[2])):
            if type(b) is tuple and b[0] == "call" and short(b[1]) == "transpose" and b[2] == a:
                return True, ""
        a, b = symmetric(t[2]), symmetric(t[3])
        return (True, "") if a[0] and b[0] else (False, (a[1] or b[1]))
    if t[0] == "call" and short(t[1]) in ("Identity", "Zero"):
        return True, ""
    return False, show(t)[:80]


def values(cx, p, u, e):
    inst = [f for f in p.named("msf_tmp::CopyInitStates::operator()")]
    cx.need(len(inst) >= 6, "instances of CopyInitStates")
    for f in inst:
        t = p.type(f.params[0]["t"])
        idx = state_index(t)
        tgt = ("deref", ("root", f.params[0]["n"]))
        e0, g0 = cx.run(p, f)
        has = [x for x, _ in conditions(e0) if type(x) is tuple and x[0] == "fld" and x[2] == "hasResetValue"]
        cx.need(has, "condition on hasResetValue in CopyInitStates")
        flag = has[0]
        src = flag[1]
        cx.expect(src[0] == "elem" and src[2] == ("acc", "state", ("c", idx)), "I6", "%s source of state %s" % (u, idx), f.where(), "state variable %s is initialised depending on %s" % (idx, show(src)), key="I6 src %s" % idx)
        e1, g1 = cx.run(p, f, facts=frozenset([(flag, True)]))
        w = [v for v in writes(e1) if rootof(v.loc) == rootof(tgt)]
        good = [v for v in w if (v.loc == tgt and v.val == src) or (v.loc == ("fld", rootof(tgt), "state_") and v.val == ("fld", src, "state_"))]
        cx.expect(bool(good) and g1.path(g1.entry, "exit", avoid=lambda x: x in good, include_start=True) is None, "I6", "%s supplied value of state %s" % (u, idx), f.where(),
                  "a supplied initial value of state variable %s is not taken over" % idx, key="I6 set %s" % idx)
        e2, g2 = cx.run(p, f, facts=frozenset([(flag, False)]))
        cx.nopath(g2.path(g2.entry, lambda x: x.kind == "write" and rootof(x.loc) == rootof(tgt), include_start=True), "I6", "%s unset value of state %s" % (u, idx), f.where(),
                  "state variable %s changes although no initial value was supplied" % idx, key="I6 keep %s" % idx)
    ap = [f for f in p.named("MSF_InitMeasurement::Apply")]
    cx.need(ap, "MSF_InitMeasurement::Apply")
    f = ap[0]
    st = ("root", f.params[0]["n"])
    ini = fld("InitState")
    e1, g1 = cx.run(p, f)
    fe = [v for v in e1.events.values() if v.kind == "call" and v.name == "boost::fusion::for_each" and any("CopyInitStates" in p.fns[i].n for i in v.val or ())]
    ok = [v for v in fe if v.obj == ("fld", st, "statevars") and len(v.val) >= 5]
    for f2 in inst:
        i = state_index(p.type(f2.params[0]["t"]))
        tgt, src = [("elem", ("fld", b, "statevars"), ("acc", "state", ("c", i))) for b in (st, ini)]
        w = [v for v in e1.events.values() if v.kind == "write" and (v.loc == tgt and v.val in (src, ("addr", src)) or v.loc == ("fld", tgt, "state_") and v.val == ("fld", src, "state_"))]
        cx.expect(bool(w), "I6", "%s state %s from the measurement" % (u, i), f.where(), "state variable %s is not initialised from the values of the measurement" % i, key="I6 from %s" % i)
    cx.expect(bool(ok) and g1.path(g1.entry, "exit", avoid=lambda x: x in ok, include_start=True) is None, "I6", "%s every state variable" % u, f.where(),
              "the supplied initial values are not copied to every state variable on every path", key="I6 all")
    flags = [x for x, _ in conditions(e1) if type(x) is tuple and x[0] == "fld" and x[1] == THIS]
    cx.expect(bool(flags), "I6", "%s readings flag" % u, f.where(), "IMU readings are initialised unconditionally", key="I6 flag")
    for fl in flags:
        for pol in (True, False):
            e2, g2 = cx.run(p, f, facts=frozenset([(fl, pol)]))
            for n in ("a_m", "w_m"):
                v = exitval(e2, ("fld", st, n))
                good = v == ("fld", ini, n) if pol else is_zero(v)
                cx.expect(good, "I6", "%s %s with readings=%s" % (u, n, pol), f.where(), "initial %s is %s" % (n, show(v)[:80]), key="I6 %s %s" % (n, pol))
    # flag is what the constructor was told
    for c in p.named("msf_core::MSF_InitMeasurement::(ctor)"):
        if len(c.params) != 1 or "bool" not in p.type(c.params[0]["t"]):
            continue
        e2, g2 = cx.run(p, c)
        for fl in flags:
            cx.expect(exitval(e2, fl) == ("root", c.params[0]["n"]), "I6", "%s readings flag as told" % u, c.where(), "the readings flag is not what the constructor was told", key="I6 ctor")
    for f in p.named("msf_core::MSF_InitMeasurement::SetStateInitValue"):
        idx = [x for x in f.info.get("ta", []) if isinstance(x, int)][0]
        e1, g1 = cx.run(p, f)
        el = ("elem", ("fld", ini, "statevars"), ("acc", "state", ("c", idx)))
        a = exitval(e1, ("fld", el, "state_")) == ("deref", ("root", f.params[0]["n"]))
        b = exitval(e1, ("fld", el, "hasResetValue")) in (TRUE, ("c", 1))
        cx.expect(a and b, "I7", "%s SetStateInitValue<%s>" % (u, idx), f.where(), "the value supplied for state variable %s is %s" % (idx, "not stored" if not a else "not marked as supplied"), key="I7 %s" % idx)


def is_zero(v):
    if type(v) is tuple and v and v[0] == "mut" and v[1] == "setZero":
        return True
    return type(v) is tuple and v and v[0] == "call" and (short(v[1]) == "Zero" or short(v[1]) == "Constant" and num(v[-1]) and v[-1][1] == 0)


def state_index(t):
    """NAME of StateVar_T<T, NAME, ...>"""
    t = t.replace("const ", "")
    i = t.index("StateVar_T<") + len("StateVar_T<")
    d, cur, out = 0, "", []
    for ch in t[i:]:
        if ch in "<(":
            d += 1
        if ch in ">)":
            if d == 0:
                break
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
            continue
        cur += ch
    out.append(cur.strip())
    return int(out[1])


def conditions(e):
    """atoms decided at a branch of the run's own function or those inlined"""
    out = set(e.passed)
    for fs in e.edgefacts.values():
        out |= set(fs)
    for v in e.events.values():
        out |= set(v.facts or ())
    return out
