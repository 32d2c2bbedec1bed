"""C04 - lookups in the time-ordered buffers return the right element and never touch one that does not exist."""
from .core import *
from .flow import *
from .lists import List

M = "std::map::"
# buffers and times asked for: before, at, between (nearer to either side, in the middle) and after the elements
MODELS = [((), 5.0), ((4.0,), 3.0), ((4.0,), 4.0), ((4.0,), 5.5),
          ((2.0, 2.75), 1.0), ((2.0, 2.75), 2.0), ((2.0, 2.75), 2.25), ((2.0, 2.75), 2.625), ((2.0, 2.75), 2.375), ((2.0, 2.75), 2.75), ((2.0, 2.75), 3.0),
          ((2.0, 5.0, 11.0), 0.5), ((2.0, 5.0, 11.0), 5.0), ((2.0, 5.0, 11.0), 3.0), ((2.0, 5.0, 11.0), 4.5), ((2.0, 5.0, 11.0), 7.0), ((2.0, 5.0, 11.0), 9.0), ((2.0, 5.0, 11.0), 40.0),
          ((1.0, 1.0005, 1.001, 1.0015), 1.0006), ((1.0, 1.0005, 1.001, 1.0015), 1.0009), ((1.0, 1.0005, 1.001, 1.0015), 1.001), ((100.0, 300.0, 900.0), 190.0), ((100.0, 300.0, 900.0), 350.0), ((100.0, 300.0, 900.0), 650.0)]


def case(ts, k):
    if not ts:
        return "empty buffer"
    if k in ts:
        i = ts.index(k)
        return "time of the only one" if len(ts) == 1 else "time of the first" if i == 0 else "time of the last" if i == len(ts) - 1 else "time of an inner one"
    return "time before all" if k < ts[0] else "time after all" if k > ts[-1] else "time between two"


class View:
    """one SortedContainer instance"""

    def __init__(self, cx, p, R, cls):
        self.cx, self.p = cx, p
        self.cls = cls
        self.tag = "measurements" if "MeasurementBase" in cls.split("<", 2)[1] or "MSF_MeasurementBase" in cls[:80] else "states"
        self.m, self.inv = fld(R.mapname), fld(R.invname)

    def fns(self, name):
        r = [f for f in self.p.named(SC + name) if self.p.type(f.info.get("clsT")) == self.cls]
        return r


IV = "the invalid object"
END = "the end"


def wanted(name, ts, k):
    """acceptable results of a lookup: times of elements, the end, or the invalid object"""
    lt, gt = [t for t in ts if t < k], [t for t in ts if t > k]
    ge = [t for t in ts if t >= k]
    near = [t for t in ts if abs(t - k) == min(abs(x - k) for x in ts)]
    return {"GetIteratorClosestBefore": lt[-1:] or [END], "GetIteratorClosestAfter": gt[:1] or [END], "GetIteratorAtValue": ge[:1] or [END],
            "GetIteratorClosest": near or [END], "GetClosestBefore": lt[-1:] or list(ts[:1]) + [IV], "GetClosestAfter": gt[:1] or [IV],
            "GetValueAt": [k] if k in ts else [IV], "GetClosest": near or [IV], "GetLast": list(ts[-1:]) or [IV], "GetFirst": list(ts[:1]) or [IV],
            "GetIteratorBegin": list(ts[:1]) or [END], "GetIteratorEnd": [END], "GetIteratorBeforeBegin": [END], "GetInvalid": [IV]}[name]


LOOKUPS = {"GetIteratorClosestBefore": 1, "GetIteratorClosestAfter": 1, "GetIteratorAtValue": 1, "GetIteratorClosest": 1, "GetClosestBefore": 1, "GetClosestAfter": 1, "GetValueAt": 1, "GetClosest": 1,
           "GetLast": 0, "GetFirst": 0, "GetIteratorBegin": 0, "GetIteratorEnd": 0, "GetIteratorBeforeBegin": 0, "GetInvalid": 0}


def check(cx):
    cx.rule("L1", "each lookup returns the element (or 'none') that its contract names, for every position of the time among the elements")
    cx.rule("L2", "no lookup dereferences or steps over a position that holds no element")
    cx.rule("L3", "the nearest element is chosen by distance in time")
    cx.rule("L4", "lookups leave the buffer unchanged; Clear empties it; Size is the number of elements; the 'none' object carries the invalid time")
    cx.rule("L5", "the filter compares a lookup that may find nothing with 'none' before using it")
    cx.rule("L6", "no iterator is used after the elements of its buffer may have been removed")
    for u in units(cx):
        p = cx.unit(u)
        R = roles(cx, p)
        classes = sorted({p.type(f.info.get("clsT")) for f in p.named(SC + "GetIteratorEnd") + p.named(SC + "GetLast")})
        cx.need(len(classes) >= 2, "instances of SortedContainer")
        for cls in classes:
            v = View(cx, p, R, cls)
            for name, haskey in sorted(LOOKUPS.items()):
                for f in v.fns(name):
                    lookup(cx, p, R, u, v, f, name, haskey)
            misc(cx, p, R, u, v)
        uses(cx, p, R, u)
        stale(cx, p, R, u)
    if not cx.open:
        cx.floor("L1", 40 * len(units(cx)))
        cx.floor("L3", 2 * len(units(cx)))


def lookup(cx, p, R, u, v, f, name, haskey):
    models = MODELS if haskey else [((), 0.0), ((4.0,), 0.0), ((2.0, 5.0), 0.0), ((2.0, 5.0, 11.0), 0.0)]
    obj = haskey and "ptr<" in p.type(f.params[0]["t"])
    it = "iterator" in p.type(f.info.get("rt")) if f.info.get("rt") is not None else "Iterator" in name
    for ts, k in models:
        vals, foreign = {}, None
        if haskey:
            root = ("root", f.params[0]["n"])
            if obj:
                foreign = (root, k)
            else:
                vals = {root: k, ("deref", root): k}
        L = List(ts, v.m, v.inv, vals, foreign)
        cs = case(ts, k) if haskey else "%d elements" % len(ts)
        e, g, facts = settle(lambda fa: cx.run(p, f, facts=fa), L.leaf, base=frozenset([(("call", M + "empty", v.m), not ts)]))
        inst = "%s %s %s(%s) of %s" % (u, v.tag, name, "object at %s" % k if obj else "%s" % k if haskey else "", list(ts))
        near = cs == "time between two" and name in ("GetClosest", "GetIteratorClosest")
        rule, kk = ("L3", "L3 " + name) if near else ("L1", "L1 %s %s" % (name, cs))
        want = wanted(name, ts, k)
        got = [result(L, a, it) for a in alts(e.ret)] if e.ret is not None else [None]
        wrong = [x for x in got if x is not None and x not in want]
        if wrong:
            cx.bad(rule, inst, f.where(), "returns %s, the contract names %s" % (", ".join(posname(x, ts) for x in got if x is not None), " or ".join(posname(x, ts) for x in want)), key=kk)
        elif None in got:
            cx.undecided(rule, inst, f.where(), "the result " + show(e.ret)[:160])
        else:
            cx.ok(rule, inst)
        derefs(cx, L, e, f, inst, name, cs)
        eff = g.path(g.entry, lambda x: x.kind in ("mut", "write") and outer(x.loc) and x.loc[:1] != ("glob",) and not lifecycle(x), include_start=True)
        cx.nopath(eff, "L4", inst, f.where(), "the lookup changes the buffer", key="L4 " + name)


def result(L, t, it):
    """time of the element a result names, END or IV; None: unknown"""
    if type(t) is tuple and len(t) == 2 and t[0] == "L":
        t = t[1]
    if type(t) is tuple and t and t[0] == "condv":
        c = truth(t[1], L.leaf)
        return None if c is None else result(L, t[2] if c else t[3], it)
    x = L.pos(t) if it else L.obj(t)
    if x is None:
        return None
    if not it and x == -1:
        return IV
    return L.ts[x] if 0 <= x < L.n else END if it and x == L.n else "no element"


def posname(x, ts):
    return x if isinstance(x, str) else "the element at %s" % x


def derefs(cx, L, e, f, inst, name, cs):
    bad = None
    for v in e.events.values():
        if v.kind == "decl":
            continue
        for part in [v.loc, v.val, v.obj] + list(v.args or []) + [c for c, _ in v.facts]:
            if part is None:
                continue
            for t in L.live(part):
                if t[0] == "fld" and t[2] in ("second", "first") and type(t[1]) is tuple:
                    for x in [t[1]] if L.pos(t[1]) is not None or t[1][:1] == ("condv",) else alts(t[1]):
                        i = L.pos(x)
                        if i is not None and not 0 <= i < L.n:
                            bad = bad or (v, "a position that holds no element is dereferenced: %s" % show(t)[:100])
                if t[0] == "op" and len(t) == 4 and t[1] in ("+", "-") and num(t[3]):
                    i = L.pos(t)
                    if i is not None and not 0 <= i <= L.n:
                        bad = bad or (v, "stepping out of the buffer: %s" % show(t)[:100])
        if v.op in ("++", "--") and v.kind in ("call", "write"):
            for x in alts(v.old) if v.old is not None else ():
                i = L.pos(x)
                if i is not None and not 0 <= i + (1 if v.op == "++" else -1) <= L.n:
                    bad = bad or (v, "stepping %s from %s" % ("forward" if v.op == "++" else "back", "the first element" if i == 0 and L.n else "the end"))
    cx.expect(bad is None, "L2", inst, bad[0].where() if bad else f.where(), bad[1] if bad else "", key="L2 %s %s" % (name, cs))


def misc(cx, p, R, u, v):
    for f in v.fns("Clear"):
        e, g = cx.run(p, f)
        clr = lambda x: x.kind == "mut" and x.loc == v.m and short(x.name) == "clear" or x.kind == "mut" and short(x.name) == "swap" and contains((x.loc,) + tuple(x.args), v.m) or \
            x.kind == "mut" and x.loc == v.m and short(x.name) == "erase" and len(x.args) == 2 and short(x.args[0][1] if x.args[0][0] == "call" else "") == "begin" and short(x.args[1][1] if x.args[1][0] == "call" else "") == "end" or \
            x.kind == "write" and x.loc == v.m
        cx.nopath(g.path(g.entry, "exit", avoid=clr, include_start=True), "L4", "%s %s Clear" % (u, v.tag), f.where(), "Clear does not empty the buffer", key="L4 Clear")
    for f in v.fns("Size"):
        e, g = cx.run(p, f)
        cx.expect(e.ret == ("call", M + "size", v.m), "L4", "%s %s Size" % (u, v.tag), f.where(), "Size returns %s" % show(e.ret), key="L4 Size")
    for f in v.fns("(ctor)"):
        if f.params:
            continue
        e, g = cx.run(p, f)
        iv = exitval(e, v.inv)
        t = exitval(e, ("fld", iv, "time")) if iv is not None else None
        cx.expect(type(iv) is tuple and iv[0] == "new" and t == INVALID, "L4", "%s %s none object" % (u, v.tag), f.where(), "the 'none' object has time %s" % show(t), key="L4 invalid")


LOOK = ("find", "lower_bound", "upper_bound", "begin", "end")


def origin(x):
    """map queries an iterator term comes from"""
    out, st = [], [x]
    while st:
        t = st.pop()
        if type(t) is not tuple or not t:
            continue
        if t[0] == "phi":
            st.extend(t[1])
        elif t[0] == "op" and t[1] in "+-" and len(t) == 4:
            st.append(t[2])
        elif t[0] == "fld" and t[2] == "first":
            st.append(t[1])
        elif t[0] == "call" and isinstance(t[1], str) and t[1].startswith(M) and short(t[1]) in LOOK + ("insert", "emplace"):
            out.append(t)
    return out


def uses(cx, p, R, u):
    """dereferences in the filter of iterators that may be none"""
    mayfail = lambda k: not justified(k, R)
    for name in ("ProcessIMU", "GetPreviousMeasurement", "AddMeasurement"):
        if name == "GetPreviousMeasurement" and not instantiated(p, name):
            continue
        f = corefn(p, name)
        ends = [("call", M + "end", R.smap), ("call", M + "end", R.mmap)]
        splits = [frozenset()]
        if name == "ProcessIMU":
            at = ("op", "==") + tuple(sorted((R.last, ends[0]), key=repr))
            splits = [frozenset([(at, True)]), frozenset([(at, False)])]
        for sp in splits:
            e, g = cx.run(p, f, noinline=NOIN(p) + APPLIES(p) + (() if name == "AddMeasurement" else (C + "AddMeasurement",)) + (C + "GetClosestState", C + "PropagateState", C + "PropPToState", C + "PropagatePOneStep"), facts=sp)
            n = 0
            its = {}
            held = set()
            for v in e.events.values():
                if v.kind == "call" and v.name and v.name.startswith(SC) and not v.fn.n.startswith(SC) and isiter(p, v) and v.ret is not None:
                    held |= {a for a in alts(v.ret) if any(short(o[1]) in ("find", "lower_bound", "upper_bound") for o in origin(a))}
            for v in e.events.values():
                if v.fn.n.startswith(SC) or v.kind == "decl":
                    continue
                for it in dereffed(v):
                    its.setdefault(it, v)
            for it, v in its.items():
                os_ = origin(it)
                if not os_ or all(justified(o, R) for o in os_) or not any(a in held or type(a) is tuple and a[0] == "op" and a[2] in held for a in alts(it)):
                    continue
                n += 1
                pth = g.path(g.entry, lambda x: not x.fn.n.startswith(SC) and x.kind != "decl" and it in dereffed(x), avoid_edge=lambda fs: guarded(it, fs, ends), include_start=True)
                cx.nopath(pth, "L5", "%s %s %s" % (u, name, show(it)[:60]), pth[-1].where() if pth else v.where(),
                          "the result of a lookup that may find nothing is used without comparing it with 'none': %s" % show(it)[:160], key="L5 %s" % name)
            cx.ok("L5", "%s %s (%d uses)" % (u, name, n))


_der = {}


def dereffed(v):
    """iterators whose element the event uses"""
    if id(v) not in _der:
        out = set()
        for part in [v.loc, v.val, v.obj] + list(v.args or []):
            if type(part) is tuple:
                for t in subterms(part):
                    if t and t[0] == "fld" and t[2] in ("second", "first") and origin(t[1]) and not (t[2] == "first" and short(t[1][1] if t[1][0] == "call" else "") in ("insert", "emplace")):
                        out.add(t[1])
        _der[id(v)] = (v, out)
    return _der[id(v)][1]


def justified(o, R):
    """lookups that cannot fail: insertion results, the covariance time (always the time of a
    buffered state, C07), the time of an object that is in the buffer"""
    if short(o[1]) in ("insert", "emplace"):
        return True
    if len(o) > 3 and (contains(o[3], R.tp) or type(o[3]) is tuple and o[3][0] == "fld" and o[3][2] == "time"):
        return True
    return False


def guarded(it, facts, ends):
    if type(it) is tuple and it[0] == "loop":
        return True             # loop-carried positions are bounded by the loop condition
    for f, pol in facts:
        if not pol and type(f) is tuple and f[0] == "op" and f[1] == "==" and len(f) == 4:
            for a, b in ((f[2], f[3]), (f[3], f[2])):
                if b in ends or any(type(b) is tuple and b[:1] == ("call",) and short(b[1]) in ("end", "begin") for _ in (0,)):
                    if a == it or a == ("op", "+", it, ("c", 1)) or it == ("op", "-", a, ("c", 1)) or it == ("op", "+", a, ("c", -1)):
                        return True
                    if set(alts(it)) and set(alts(it)) <= set(alts(a)):
                        return True
    return False


REMOVE = ("clear", "erase", "swap", "extract", "operator=")


def stale(cx, p, R, u):
    """uses of an iterator after a removal that may follow its lookup"""
    for name in ("ProcessIMU", "ProcessExternallyPropagatedState", "AddMeasurement"):
        f = corefn(p, name)
        e, g = cx.run(p, f, noinline=NOIN(p) + APPLIES(p) + (() if name == "AddMeasurement" else (C + "AddMeasurement",)))
        rem = [v for v in e.events.values() if v.kind == "mut" and v.loc in (R.smap, R.mmap) and short(v.name) in REMOVE and v.fn.n.startswith(SC)]
        bad = None
        for r in rem:
            # iterators looked up in the filter's own code before r and used afterwards
            outerctx = r.ctx
            looked = {}
            for v in e.events.values():
                if v.kind == "call" and v.name and v.name.startswith(SC) and v.fn.n.startswith(C) and isiter(p, v) and sameroot(v, r, R):
                    looked[v.id] = v
            if name != "AddMeasurement":
                # the stored position must be refreshed after a removal
                after = g.reaches(r, lambda x: x.kind == "write" and x.loc == R.last)
                miss = g.path(g.point(r), "exit", avoid=lambda x: x.kind == "write" and x.loc == R.last)
                if r.loc == R.smap and miss is not None and not empty_insert(r):
                    bad = bad or (r, "elements are removed but the last-IMU iterator keeps its old position", brief(miss))
            for v in looked.values():
                if g.reaches(v, lambda x: x is r) is None:
                    continue
                # a use of the looked-up value after r: its term occurs in a later event of the same function level
                t = v.ret
                if t is None or type(t) is tuple and t[0] == "call" and short(t[1]) == "end":
                    continue        # the end position stays valid
                # variables of the same function that hold the looked-up position
                hold = {w.loc for w in e.events.values() if w.kind in ("write", "decl") and w.ctx == v.ctx and w.loc is not None and w.loc[0] == "var" and w.val == t}
                for loc in hold or {None}:
                    hit = g.reaches(r, lambda x: x is not v and x.ctx == v.ctx and x.kind in ("call", "write") and (usesvar(x, loc) if loc is not None else usesiter(x, t)),
                                    avoid=lambda x: x is v or x.kind == "call" and x.ret == t or x.kind in ("write", "decl") and x.loc == loc and x.op not in ("++", "--"))
                    if hit is not None:
                        bad = bad or (hit[-1], "an iterator looked up at %s is used after elements were removed at %s" % (v.where(), r.where()), brief(hit))
        cx.expect(bad is None, "L6", "%s %s (%d removals)" % (u, name, len(rem)), bad[0].where() if bad else f.where(), bad[1] if bad else "", key="L6 " + name, path=bad[2] if bad else None)


def empty_insert(r):
    return False


def isiter(p, v):
    return "iterator" in p.type(v.info.get("rt")) if v.info and v.info.get("rt") is not None else short(v.name).startswith("GetIterator") or short(v.name) == "Insert"


def sameroot(v, r, R):
    return (v.obj == R.states) == (r.loc == R.smap)


def usesvar(x, loc):
    """the event reads the variable (its widened value, or steps it)"""
    if x.loc == loc and x.kind in ("write", "call") and x.op in ("++", "--"):
        return True
    parts = [x.val, x.obj] + list(x.args or []) + ([x.loc] if x.kind == "write" else [])
    for q in parts:
        if type(q) is tuple:
            for t in subterms(q):
                if t and (t == loc or t[0] == "loop" and loc in t):
                    return True
    return False


def usesiter(x, t):
    """the event is handed the iterator itself (to dereference, step, compare or store it);
    what was read through it earlier may be used at any time"""
    ends = lambda a: type(a) is tuple and a[:1] == ("call",) and short(a[1]) == "end"
    parts = [x.val, x.obj] + list(x.args or []) + ([x.old] if x.op in ("++", "--") else [])
    return any(q is not None and any(not ends(a) for a in alts(q) & alts(t)) for q in parts)
