"""C03 - every buffered object sits at its own time, at most one per time, in order of time."""
from .core import *
from .flow import *
from .lists import *
from .c04 import View, SC, M
from .c02 import ismut

PUT = ("insert", "emplace", "emplace_hint", "try_emplace", "insert_or_assign", "operator[]", "operator=", "swap", "merge")


def check(cx):
    cx.rule("K1", "Insert stores the object under its own time, once, and leaves an object already at that time alone")
    cx.rule("K2", "UpdateTime takes the object out, re-times it, and puts it back; nothing happens when there is none at the old time")
    cx.rule("K3", "no other operation puts elements into a buffer, and the order is that of the times")
    cx.rule("K4", "the time of a state or measurement is never written while it may be in a buffer")
    for u in units(cx):
        p = cx.unit(u)
        R = roles(cx, p)
        classes = sorted({p.type(f.info.get("clsT")) for f in p.named(SC + "GetLast") + p.named(SC + "Insert")})
        cx.need(len(classes) >= 2, "instances of SortedContainer")
        for cls in classes:
            v = View(cx, p, R, cls)
            rec = p.rec_by_type[cls]
            mt = [p.types[f["t"]] for f in rec["fields"] if f["n"] == R.mapname][0]
            args = targs(mt)
            cx.expect(mt.startswith("std::map<") and args[0] == "double" and (len(args) < 3 or "less<double>" in args[2] or "less<void>" in args[2]), "K3", "%s %s order" % (u, v.tag), p.files[rec["f"]],
                      "the buffer is not ordered by ascending time: %s" % mt[:60], key="K3 order")
            ins = v.fns("Insert")
            cx.need(ins, "SortedContainer::Insert")
            for f in ins:
                insert(cx, p, u, v, f)
            for f in v.fns("UpdateTime"):
                update(cx, p, u, v, f)
            for f in p.repo_fns():
                if f.n.startswith(SC) and p.type(f.info.get("clsT")) == cls and short(f.n) not in ("Insert", "UpdateTime", "(ctor)", "(dtor)"):
                    e, g = cx.run(p, f)
                    # reached through Insert / UpdateTime is covered there
                    b = [x for x in e.events.values() if x.kind in ("mut", "write") and rooted(x.loc, v.m) and (x.kind == "write" or short(x.name) in PUT)
                         and short(x.fn.n) not in ("Insert", "UpdateTime")]
                    cx.expect(not b, "K3", "%s %s %s" % (u, v.tag, short(f.n)), b[0].where() if b else f.where(), "an element is put into the buffer by-passing Insert", key="K3 " + short(f.n))
        retime(cx, p, R, u)
        slots(cx, p, R, u)
    if not cx.open:
        cx.floor("K1", 6 * len(units(cx)))
    cx.floor("K4", 5 * len(units(cx)))


def rooted(loc, m):
    # the element at an iterator of the map
    if type(loc) is tuple and len(loc) == 3 and loc[0] == "fld" and loc[2] == "second" and contains(loc[1], m):
        return True
    while type(loc) is tuple and loc:
        if loc == m:
            return True
        if loc[0] in ("elem", "fld", "deref"):
            loc = loc[1]
        else:
            return False
    return False


def targs(t):
    i = t.index("<") + 1
    d, cur, out = 0, "", []
    for ch in t[i:]:
        if ch in "<(":
            d += 1
        if ch in ">)":
            if d == 0:
                break
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
            continue
        cur += ch
    out.append(cur.strip())
    return out


INSERTING = [((1.0,), 0.0), ((1.0,), 1.0 + 2.0 ** -30), ((2.0,), 2.0 - 2.0 ** -17), ((1.0, 1.00025), 1.000125), ((0.5,), 1234567.890625), ((), 3.0), ((3.0,), 3.0), ((1.0,), 3.0), ((5.0,), 3.0), ((1.0, 5.0), 3.0), ((1.0, 3.0), 3.0), ((3.0, 5.0), 3.0), ((1.0, 3.0, 5.0), 3.0), ((1.0, 2.0), 0.5), ((2.0, 2.25), 2.125)]


VERSIONS = {}


def simulate(cx, p, f, v, ts, vals, foreign):
    L = List(ts, v.m, v.inv, vals, foreign)
    objs = {o: t for o, t in zip(L.ids, ts)}
    if foreign:
        objs[FOREIGN] = foreign[1]
    base = frozenset([(("call", M + "empty", v.m), not ts)])
    versions = VERSIONS.setdefault(v.m, (v.m,))
    for _ in range(5):          # what an insertion reports decides what follows
        was = base
        e, g, base = settle(lambda fa: cx.run(p, f, facts=fa, versions=versions), L.leaf, base=base)
        r = Replay(L, e, g, objs)
        if base == was:
            break
    return L, e, g, r


def contents(now):
    nm = lambda o: "nothing" if o is None else "the object" if o == FOREIGN else "the none object" if o == OBJ - 1 else "object %d" % (o - OBJ + 1)
    return ", ".join("%s: %s" % (k, nm(o)) for k, o in sorted(now.items())) or "nothing"


def insert(cx, p, u, v, f):
    for ts, k in INSERTING:
        root = ("root", f.params[0]["n"])
        L, e, g, r = simulate(cx, p, f, v, ts, {}, (root, k))
        inst = "%s %s Insert(object at %s) into %s" % (u, v.tag, k, list(ts))
        want = {t: o for t, o in zip(ts, L.ids)}
        want.setdefault(k, FOREIGN)
        if r.unknown:
            cx.undecided("K1", inst, r.unknown[0][0].where(), r.unknown[0][1])
            continue
        kept = all(r.now.get(t) == o for t, o in zip(ts, L.ids))
        cx.expect(kept, "K1", inst + " keeps existing", f.where(), "an object already buffered is overwritten or removed: %s" % contents(r.now), key="K1 overwrite")
        cx.expect(not kept or r.now == want, "K1", inst, f.where(), "afterwards the buffer holds %s" % contents(r.now), key="K1 stored")
        for w, _, m in r.problems:
            cx.bad("K1", inst, w.where(), m, key="K1 retimed")
        cx.expect(r.times.get(FOREIGN) == k, "K1", inst + " time", f.where(), "the time of the object changes", key="K1 time")
        pos = r.key(e.ret) if e.ret is not None else None
        if pos is None:
            cx.undecided("K1", inst + " result", f.where(), "the position returned: %s" % show(e.ret)[:120])
        else:
            cx.expect(pos == k, "K1", inst + " result", f.where(), "Insert returns the position %s, not that of its time" % pos, key="K1 ret")


UPDATING = [((1.0, 3.0), 3.0, 1.0 + 2.0 ** -30), ((1.0,), 1.0, 1.0 + 2.0 ** -20), ((1.0,), 1.0 + 2.0 ** -20, 4.0), ((), 3.0, 4.0), ((5.0,), 3.0, 4.0), ((1.0, 5.0), 3.0, 4.0), ((1.0, 5.0), 7.0, 5.0), ((3.0,), 3.0, 4.0), ((3.0,), 3.0, 3.0), ((1.0, 3.0, 5.0), 3.0, 4.0), ((1.0, 3.0, 5.0), 3.0, 2.0), ((1.0, 3.0, 5.0), 3.0, 9.0),
            ((1.0, 3.0, 5.0), 1.0, 0.5), ((1.0, 3.0, 5.0), 5.0, 0.5), ((1.0, 3.0, 5.0), 3.0, 5.0), ((1.0, 3.0, 5.0), 3.0, 1.0), ((1.0, 3.0, 5.0), 5.0, 6.0), ((2.0, 2.25, 2.5), 2.25, 2.375)]


def update(cx, p, u, v, f):
    old, new = (("root", q["n"]) for q in f.params[:2])
    for ts, a, b in UPDATING:
        vals = {old: a, ("deref", old): a, new: b, ("deref", new): b}
        L, e, g, r = simulate(cx, p, f, v, ts, vals, None)
        inst = "%s %s UpdateTime(%s, %s) of %s" % (u, v.tag, a, b, list(ts))
        was = {t: o for t, o in zip(ts, L.ids)}
        want = dict(was)
        if a in want:
            o = want.pop(a)
            want.setdefault(b, o)
        if r.unknown:
            cx.undecided("K2", inst, r.unknown[0][0].where(), r.unknown[0][1])
            continue
        for w, _, m in r.problems:
            cx.bad("K2", inst, w.where(), m, key="K2 before")
        cx.expect(r.now == want, "K2", inst, f.where(), "afterwards the buffer holds %s instead of %s" % (contents(r.now), contents(want)), key="K2 lost" if a in was else "K2 none")
        at = {o: t for t, o in r.now.items()}
        off = [(o, t) for o, t in at.items() if r.times.get(o) != t]
        cx.expect(not off, "K2", inst + " own time", f.where(), "an object is filed under %s but has the time %s" % ((off[0][1], r.times.get(off[0][0])) if off else ("", "")), key="K2 time")
        if a not in was:
            continue
        o = r.object(e.ret) if e.ret is not None else None
        if o is None:
            cx.undecided("K2", inst + " result", f.where(), "the object returned: %s" % show(e.ret)[:120])
        else:
            cx.expect(o == want[b], "K2", inst + " result", f.where(), "UpdateTime returns another object than the one now at the new time", key="K2 ret")


def strip(t):
    return t[1] if type(t) is tuple and len(t) == 2 and t[0] == "L" else t


TIMEF = ("msf_core::GenericState_T::time", "msf_core::MSF_MeasurementBase::time")


def retime(cx, p, R, u):
    """all assignments to the time of a state or measurement in the repository"""
    sites = {}
    for f in p.repo_fns():
        for i, nd in enumerate(f.nodes):
            tgt = None
            if nd and nd["k"] in ("Asg", "CAsg"):
                tgt = f.nodes[nd["c"][0]]
            elif nd and nd["k"] == "Un" and nd.get("op") in ("++", "--"):
                tgt = f.nodes[nd["c"][0]]
            if tgt and tgt["k"] == "Mem" and tgt.get("n") in TIMEF:
                sites.setdefault(f.n, []).append((f, i))
    cx.need(sum(len(v) for v in sites.values()) >= 8, "assignments to the time of states and measurements")
    entry = {}
    for name in ("ProcessIMU", "ProcessExternallyPropagatedState", "Init", "AddMeasurement"):
        fn = corefn(p, name)
        no = NOIN(p) + (() if name == "Init" else APPLIES(p)) + (() if name == "AddMeasurement" else (C + "AddMeasurement",))
        entry[name] = cx.run(p, fn, noinline=no)
    # Apply functions run inside AddMeasurement: they get a buffered state
    for n, fs in sorted(sites.items()):
        for f, i in fs:
            w = f.where(i)
            inst = "%s %s" % (u, n)
            if short(n) in ("(ctor)",):
                cx.ok("K4", inst)            # an object under construction is in no buffer
                continue
            if n == SC + "UpdateTime":
                cx.ok("K4", inst + " (K2)")
                continue
            if n.startswith(C) or n.endswith("::Apply") or n.endswith("GenericState_T::Reset"):
                ok, why, seen = True, "", 0
                for name, (e, g) in entry.items():
                    for x in e.events.values():
                        if x.kind == "write" and x.fn is f and x.nid == i:
                            seen += 1
                            o, y = fresh(e, g, x, R)
                            if not o:
                                ok, why = False, "%s: %s" % (name, y)
                if not seen:
                    callers = [c for c in p.repo_fns() if f.id in p.callees(c)]
                    ok = not callers
                    why = "written outside the analysed entry points (called from %s)" % ", ".join(sorted({c.n for c in callers})[:3])
                cx.expect(ok, "K4", inst, w, "the time of an object that may be buffered is written; " + why, key="K4 " + n)
                continue
            # elsewhere: the object is local to the function or the receiver, before it is handed to the filter
            e, g = cx.run(p, f)
            ok, why = True, ""
            for x in e.events.values():
                if x.kind == "write" and x.fn is f and x.nid == i:
                    r = rootof(x.loc)
                    given = g.path(g.entry, lambda y: iscall(y, "AddMeasurement", "Init") and not y.fn.n.startswith("msf_core::MSF_Core"), avoid=None, include_start=True)
                    if not (r[0] in ("new", "var", "tmpobj") or r == THIS):
                        ok, why = False, "the object %s is not the function's own" % show(r)
                    after = [y for y in e.events.values() if iscall(y, "AddMeasurement") and g.reaches(y, lambda z: z is x) is not None]
                    if after:
                        ok, why = False, "it was handed to the filter before"
            cx.expect(ok, "K4", inst, w, "the time of an object that may be buffered is written; " + why, key="K4 " + n)


def slots(cx, p, R, u):
    """the filter never puts another object into the slot of a buffered one"""
    for name in ("ProcessIMU", "ProcessExternallyPropagatedState", "Init", "AddMeasurement", "GetClosestState", "GetPreviousMeasurement", "PropPToState", "CleanUpBuffers", "HandlePendingMeasurements"):
        if not instantiated(p, name):
            continue
        fn = corefn(p, name)
        e, g = cx.run(p, fn, noinline=NOIN(p) + APPLIES(p) + tuple(C + n for n in ("AddMeasurement", "GetClosestState", "PropPToState", "Init", "PropagateState", "PropagatePOneStep", "GetPreviousMeasurement") if n != name)
                      + tuple(sorted({f.n for f in p.repo_fns() if f.n.startswith(SC + "GetIterator")})))
        b = [x for x in e.events.values() if x.kind in ("write", "mut") and x.op != "out" and x.loc[:1] == ("fld",) and x.loc[2] == "second" and (contains(x.loc, R.states) or contains(x.loc, R.meas))
             and not x.fn.n.startswith(SC)]
        cx.expect(not b, "K3", "%s slots %s" % (u, name), b[0].where() if b else fn.where(), "another object is put into the slot of a buffered one", key="K3 slot " + name)


def fresh(e, g, x, R):
    r = rootof(x.loc)
    if r[0] in ("tmpobj", "var"):
        return True, ""
    if r[0] != "new":
        return False, "object %s" % show(r)[:80]
    put = [y for y in e.events.values() if y.kind == "mut" and y.loc in (R.smap, R.mmap) and short(y.name) in PUT and contains(tuple(y.args), r)]
    for y in put:
        # the object created on an earlier pass of a loop is another one
        h = g.path(g.point(y), lambda z: z is x, avoid=lambda z: z.kind == "new" and z.val == r)
        if h is not None:
            return False, "it is inserted before at %s" % y.where()
    return True, ""
