"""C21 - the buffers keep the last minute and are cleaned often enough to stay bounded.

ClearOlderThan is run on lists of times with every comparison settled; what it erases is evaluated from the arguments
of the erasure (lookups by the contracts that C04 decides).  How often it is called is simulated on the values the
counter takes from call to call."""
from .core import *
from .flow import *
from .lists import List

M = "std::map::"
AGE = 60
LISTS = [
    (), (5,), (0, 59), (0, 60), (0, 61), (0, 30, 59.5), (0, 1, 61), (0, 30, 60.5, 61, 100), (0, 39.875, 40.25, 70, 100), (0, 39.75, 40.125, 70, 100), (0, 1, 2, 100),
    (0, 99), (0, 40, 100), (0, 20, 40, 60, 80, 100), (0, 0.5, 1, 1.5, 2, 2.5, 200), (0, 10, 139, 141, 199, 200), (1, 2, 3, 4, 5, 6, 64, 65, 66), tuple(range(0, 130, 3)),
    (0, 45, 104, 105), (100, 200.5, 259, 260.5, 261),
]
LOOKUPS = ("GetLast", "GetFirst", "GetClosest", "GetClosestBefore", "GetClosestAfter", "GetValueAt", "GetIteratorClosest", "GetIteratorClosestBefore", "GetIteratorClosestAfter",
           "GetIteratorAtValue", "GetIteratorBegin", "GetIteratorEnd", "GetIteratorBeforeBegin", "Size", "GetInvalid")
REMOVE = ("clear", "erase", "swap", "extract", "operator=")


def check(cx):
    cx.rule("B1", "cleaning removes nothing but objects more than the given age before the newest, so never the newest")
    cx.rule("B2", "of the objects older than that, cleaning leaves at most one")
    cx.rule("B3", "cleaning an empty buffer, or one that spans no more than the age, is possible and has no effect")
    cx.rule("B4", "both buffers are cleaned of what is older than a minute, within 200 measurement updates from any start or cleaning")
    cx.rule("B5", "nothing else removes objects while the filter runs")
    for u in units(cx):
        p = cx.unit(u)
        R = roles(cx, p)
        cleaning(cx, p, R, u)
        often(cx, p, R, u)
        others(cx, p, R, u)
    if not cx.open:
        cx.floor("B1", 30 * len(units(cx)))
    cx.floor("B4", 3 * len(units(cx)))


def cleaning(cx, p, R, u):
    fs = [f for f in p.named(SC + "ClearOlderThan")]
    cx.need(fs, "ClearOlderThan")
    m, inv = fld(R.mapname), fld(R.invname)
    pure = {SC + n: () for n in LOOKUPS}
    for f in fs:
        tag = "measurements" if "MeasurementBase" in p.type(f.info.get("clsT")).split("<", 2)[1] else "states"
        age = ("root", f.params[0]["n"])
        for ts in LISTS:
            L = List(ts, m, inv, {age: AGE})
            e, g, facts = settle(lambda fa: cx.run(p, f, facts=fa, pure=pure), L.leaf, base=frozenset([(("call", M + "empty", m), not ts)]))
            inst = "%s %s %s" % (u, tag, list(ts) if len(ts) < 8 else "%d objects" % len(ts))
            removed, why = set(), None
            lp = onebyone(cx, p, f, pure, L)
            if lp is not None:
                e, g = lp[:2]
                removed, why = (set(), (lp[3], lp[2])) if isinstance(lp[2], str) else (lp[2], None)
            for v in e.events.values():
                if lp is None and v.kind in ("mut", "write") and v.loc is not None and (v.loc == m or rootof(v.loc) == rootof(m) and v.loc[:2] == m[:2] and v.loc[-1] == m[-1]):
                    n = short(v.name) if v.name else "="
                    if n in ("begin", "end", "find", "lower_bound", "upper_bound", "rbegin", "rend", "equal_range"):
                        continue
                    if n == "clear":
                        removed |= set(range(len(ts)))
                    elif n == "erase" and len(v.args) == 2:
                        a, b = (L.pos(x) for x in v.args)
                        if a is not None and b is not None and not 0 <= a <= b <= len(ts):
                            cx.bad("B3", inst, v.where(), "the range erased from objects at %s is none: from position %d to %d" % (list(ts), a, b), key="B3 range")
                        elif a is None or b is None:
                            why = why or (v, "which objects are erased: " + show(v.args)[:120])
                        else:
                            removed |= set(range(a, b))
                    elif n == "erase" and len(v.args) == 1 and L.pos(v.args[0]) is not None and not any(t and t[0] == "loop" for t in subterms(v.args[0])) and g.reaches(v, lambda x: x is v) is None:
                        removed.add(L.pos(v.args[0]))
                    else:
                        why = why or (v, "the effect of %s" % n)
            # an object that does not exist is never used
            for v in e.events.values() if lp is None else ():
                for part in [v.loc, v.val, v.obj] + list(v.args or []) + [c for c, _ in v.facts]:
                    if part is None or v.kind == "decl":
                        continue
                    for t in subterms(part):
                        if t and t[0] == "fld" and t[2] in ("second", "first") and type(t[1]) is tuple:
                            i = L.pos(t[1])
                            if i is not None and not 0 <= i < len(ts):
                                cx.bad("B3", inst, v.where(), "an object that does not exist is used: %s" % show(t)[:100], key="B3 deref")
            if why and why[1].startswith("removal"):
                cx.bad("B3", inst, why[0].where(), why[1] + " (objects at %s)" % list(ts), key="B3 empty")
            elif why:
                cx.undecided("B1", inst, why[0].where(), why[1])
            if why:
                continue
            if not removed and not ts:
                cx.ok("B3", inst)
                continue
            newest = ts[-1]
            young = [ts[i] for i in sorted(removed) if not newest - ts[i] > AGE]
            cx.expect(not young, "B1", inst, f.where(), "of objects at %s those at %s are removed, though not more than %d s before the newest" % (list(ts), young[:5], AGE), key="B1 young")
            left = [t for i, t in enumerate(ts) if i not in removed and newest - t > AGE]
            cx.expect(len(left) <= 1, "B2", inst, f.where(), "of objects at %s those at %s stay, though more than %d s before the newest" % (list(ts), left[:5], AGE), key="B2 old")
            if newest - ts[0] <= AGE:
                cx.expect(not removed, "B3", inst, f.where(), "objects at %s are removed from a buffer spanning no more than the age" % young[:5], key="B3 effect")


def onebyone(cx, p, f, pure, L):
    """(run, positions removed or reason) if the first object is removed again and again"""
    e, g = cx.run(p, f, pure=pure)
    er = [v for v in e.events.values() if v.kind == "mut" and v.loc == L.m and short(v.name) in REMOVE]
    if len(er) != 1 or short(er[0].name) != "erase" or len(er[0].args) != 1 or er[0].args[0][:2] != ("call", M + "begin") or g.reaches(er[0], lambda x: x is er[0]) is None:
        return None
    v = er[0]
    calls = [x for x in e.events.values() if x.kind == "call" and x.name and (x.name.startswith(SC) or x.name.startswith(M))]
    inside = {short(x.name) for x in calls if g.reaches(v, lambda y: y is x) is not None}
    outside = {short(x.name) for x in calls if g.reaches(v, lambda y: y is x) is None}
    if inside & outside:
        return e, g, "a query made both before and after removals", v
    L.fresh = inside
    out = set()
    while True:
        ts = [truth(c, L.leaf) == pol if truth(c, L.leaf) is not None else None for c, pol in v.facts]
        if None in ts:
            r = "the condition of the removal"
            break
        if not all(ts):
            r = out
            break
        if L.cur >= L.n:
            r = "removal from an empty buffer"
            break
        out.add(L.cur)
        L.cur += 1
    L.cur, L.fresh = 0, ()
    return e, g, r, v


def often(cx, p, R, u):
    f = corefn(p, "AddMeasurement")
    noin = NOIN(p) + APPLIES(p) + (C + "GetClosestState", C + "PropagateState", C + "PropPToState", C + "PropagatePOneStep")
    run = lambda fa: cx.run(p, f, noinline=noin, pure={SC + "ClearOlderThan": ()}, facts=fa)
    e, g = run(frozenset())
    calls = [v for v in e.events.values() if v.kind == "call" and v.name == SC + "ClearOlderThan"]
    for tag, loc in (("states", R.states), ("measurements", R.meas)):
        mine = [v for v in calls if v.obj == loc]
        inst = "%s %s" % (u, tag)
        if not cx.expect(bool(mine), "B4", inst, f.where(), "the buffer of %s is never cleaned" % tag, key="B4 never " + tag):
            continue
        for v in mine:
            a = v.args[0] if v.args else None
            if num(a):
                cx.expect(a[1] == 60, "B4", inst + " age", v.where(), "the buffer of %s is cleaned of what is older than %s s" % (tag, show(a)), key="B4 age " + tag)
            else:
                cx.undecided("B4", inst + " age", v.where(), "age %s" % show(a)[:80])
        written = {v.loc for v in e.events.values() if v.kind == "write" and v.loc is not None and outer(v.loc)}
        ctr = {t for v in mine for c, pol in v.facts for t in subterms(c) if t in written}
        isclean = lambda x: x.kind == "call" and x.name == SC + "ClearOlderThan" and x.obj == loc
        done = lambda x: x.kind == "call" and short(x.name or "") == "PublishStateAfterUpdate"
        n, bad, und, seen, ks = 0, None, None, set(), {0}
        if len(ctr) > 1:
            # several members decide: only the ones that are the same at each call stay open
            ctr = {t for t in ctr if t[0] == "glob"} or ctr
        if len(ctr) > 1:
            cx.undecided("B4", inst + " often", mine[0].where(), "more than one counter decides about cleaning")
            continue
        c = next(iter(ctr)) if ctr else None
        init = initial(p, c) if c else 0
        if init is None:
            cx.undecided("B4", inst + " often", mine[0].where(), "initial value of the counter")
            continue
        # from the start, and from a cleaning on
        todo, starts = [init], set()
        while todo and bad is None and und is None and len(starts) < 3:
            s = todo.pop()
            if s in starts:
                continue
            starts.add(s)
            k = s
            for n in range(1, 202):
                leaf = lambda t: k if c is not None and t == c else filled(t, R)
                e1, g1, fa = settle(run, leaf)
                pub = [v for v in e1.events.values() if done(v)]
                if not pub:
                    und = "no publication after an update"
                    break
                skip = any(passes(g1, v, isclean) for v in pub)
                if c is None:
                    nk = k
                else:
                    ws = [w for w in e1.events.values() if w.kind == "write" and w.loc == c]
                    vals = {evalnum(x, leaf) for x in alts(e1.final.env.get(c, c))}
                    if ws and not any(passes(g1, v, lambda x: x in ws) for v in pub):
                        vals = {x for x in vals if x != k} or vals
                    if None in vals or len(vals) != 1:
                        und = "value of the counter %s" % show(c)
                        break
                    nk = vals.pop()
                if not skip:
                    todo.append(nk)
                    break
                if nk == k or n == 201:
                    bad = "no cleaning after %s updates with the counter at %s" % ("any number of" if nk == k else "200", k)
                    break
                k = nk
            if bad or und:
                break
        if und:
            cx.undecided("B4", inst + " often", mine[0].where(), und)
        else:
            cx.expect(bad is None, "B4", inst + " often", mine[0].where(), "buffer of %s: %s" % (tag, bad), key="B4 often " + tag)


def filled(t, R):
    """after an update there are objects in both buffers"""
    if type(t) is tuple and t[:1] == ("call",) and len(t) == 3 and t[2] in (R.smap, R.mmap):
        return {"size": 100000, "empty": 0}.get(short(t[1]))
    return None


def passes(g, v, pred):
    """can a run go from the entry over v to the exit without an event that satisfies pred"""
    return g.path(g.entry, lambda x: x is v, avoid=pred, include_start=True) is not None and g.path(g.point(v), "exit", avoid=pred) is not None


def initial(p, c):
    """value a static counter starts with"""
    if c[0] != "glob":
        return None
    nm, fn = c[1].split()[-1].split("@")[0], c[1].split("@")[-1]
    for f in p.named(fn):
        ns = f.nodes
        for nd in (ns.values() if isinstance(ns, dict) else ns):
            if nd and nd.get("k") == "Var" and nd.get("static") and nd.get("n") == nm:
                x = ns[nd["c"][0]] if nd.get("c") else None
                if x is None:
                    return 0
                neg = 1
                while x.get("c") and "cv" not in x:
                    if x.get("k") in ("Un", "Unary") and x.get("op") == "-":
                        neg = -neg
                    x = ns[x["c"][0]]
                v = x.get("cv", x.get("v"))
                try:
                    return neg * int(v)
                except (TypeError, ValueError):
                    return None
    return None


def others(cx, p, R, u):
    allowed = {SC + "Clear", SC + "ClearOlderThan", SC + "UpdateTime"}
    noin = NOIN(p) + APPLIES(p) + (C + "GetClosestState", C + "PropagateState", C + "PropPToState", C + "PropagatePOneStep", C + "HandlePendingMeasurements", C + "Init")
    for name in ("AddMeasurement", "ProcessIMU", "GetClosestState", "ApplyCorrection", "GetPreviousMeasurement", "PropPToState"):
        if name == "GetPreviousMeasurement" and not instantiated(p, name):
            continue
        f = corefn(p, name)
        e, g = cx.run(p, f, noinline=tuple(x for x in noin if x != C + name), pure={SC + "ClearOlderThan": (), SC + "UpdateTime": ()})
        bad = [v for v in e.events.values() if v.kind in ("mut", "write") and v.loc in (R.smap, R.mmap) and (v.kind == "write" or short(v.name) in REMOVE)]
        cx.expect(not bad, "B5", "%s %s" % (u, name), bad[0].where() if bad else f.where(), "%s removes objects from a buffer" % name, key="B5 " + name)
        if name != "AddMeasurement":
            c = [v for v in e.events.values() if v.kind == "call" and v.name == SC + "ClearOlderThan" and not (num(v.args[0]) and v.args[0][1] >= 60)]
            cx.expect(not c, "B5", "%s %s cleaning" % (u, name), c[0].where() if c else f.where(), "%s cleans a buffer of what is younger than a minute" % name, key="B5 clean " + name)
