"""C06 - a measurement that came early waits its turn and is not lost."""
from .core import *
from .flow import *
from .c02 import ismut
from .c05 import Add, FUTURE, INSIDE, PAST, PUBUPD

ADD = C + "AddMeasurement"
PUBPROP = "msf_core::MSF_SensorManager::PublishStateAfterPropagation"
ENTRIES = ("ProcessIMU", "ProcessExternallyPropagatedState")
PUSH = ("push", "emplace", "push_back", "emplace_back")
FRONT = ("push_front", "emplace_front", "insert", "swap", "splice", "sort", "reverse", "resize", "assign", "operator=", "erase")
POP = ("pop", "pop_front")


def check(cx):
    cx.rule("Q1", "measurements enter the queue at the back, only from AddMeasurement, and as they were given")
    cx.rule("Q2", "after every propagated state the measurement at the head of the queue is taken out and offered to AddMeasurement")
    cx.rule("Q3", "what is taken out of the queue is offered, what is offered is taken out, one at a time, and never from an empty queue")
    cx.rule("Q4", "apart from that the queue is emptied only by an initialisation or before the first prediction")
    for u in units(cx):
        p = cx.unit(u)
        R = roles(cx, p)
        t = dict(R.fields)[R.queue[2]]
        cx.expect(t.startswith(("std::queue<", "std::deque<", "std::list<")), "Q1", "%s first in, first out" % u, corefn(p, "AddMeasurement").where(), "the queue of deferred measurements is a %s" % t[:60], key="Q1 type")
        adding(cx, Add(cx, p, u))
        for name in ENTRIES:
            entry(cx, p, R, u, name)
        others(cx, p, R, u)
    cx.floor("Q2", 2 * len(units(cx)))


def touch(R):
    return lambda v: v.kind == "mut" and v.loc in (R.queue, ("fld", R.queue, "c")) and not getattr(v, "const", False)


def adding(cx, a):
    R, u = a.R, a.u
    q = touch(R)
    push = ismut(R.queue, *PUSH)
    for c in FUTURE:
        e, g, _ = a.case(c)
        ps = [v for v in e.events.values() if push(v)]
        for v in ps:
            cx.expect(a.m in alts(v.args[0]) and len(alts(v.args[0])) == 1, "Q1", "%s what is deferred (%g s ahead)" % (u, c[0] - c[2]), v.where(), "what is deferred is %s and not the measurement" % show(v.args[0])[:80], key="Q1 arg")
            cx.nopath(g.reaches(v, push), "Q1", "%s deferred once" % u, v.where(), "a measurement is deferred twice", key="Q1 twice")
        w = g.path(g.entry, lambda x: q(x) and not push(x), include_start=True)
        cx.nopath(w, "Q4", "%s nothing lost (%g s ahead)" % (u, c[0] - c[2]), w[-1].where() if w else a.fn.where(), "deferring a measurement disturbs those already waiting", key="Q4 add")
        w = g.path(g.entry, lambda x: x.kind == "write" and x.loc[:2] == ("fld", a.m), include_start=True)
        cx.nopath(w, "Q1", "%s unchanged (%g s ahead)" % (u, c[0] - c[2]), a.fn.where(), "a deferred measurement is changed", key="Q1 changed")
    for c in INSIDE[:3] + PAST[:1]:
        e, g, _ = a.case(c)
        w = g.path(g.entry, q, include_start=True)
        cx.nopath(w, "Q4", "%s queue untouched (%g in %g..%g)" % ((u,) + c), w[-1].where() if w else a.fn.where(), "adding a measurement disturbs those waiting", key="Q4 in")


def summaries(R):
    return {C + "PropagateState": (), C + "PredictProcessCovariance": (), C + "PropagatePOneStep": (R.init, R.pred), PUBPROP: (), PUBUPD: (), ADD: (), C + "PropPToState": (), C + "GetClosestState": (), C + "CleanUpBuffers": ()}


def entry(cx, p, R, u, name):
    fn = corefn(p, name)
    pure = summaries(R)
    empt = lambda b: frozenset([(("call", "std::queue::empty", R.queue), b), (("op", "==", ("c", 0), ("call", "std::queue::size", R.queue)), b), (("op", "<", ("c", 0), ("call", "std::queue::size", R.queue)), not b)]
                               + [(("call", "std::%s::empty" % k, R.queue), b) for k in ("deque", "list")])
    q = touch(R)
    isadd = lambda v: v.kind == "call" and v.name == ADD
    pop = ismut(R.queue, *POP)
    ins = ismut(R.smap, "insert", "emplace", "emplace_hint", "try_emplace")
    front = lambda v: v.kind == "call" and short(v.name) in ("front", "begin") and v.obj == R.queue
    reset = lambda fs: any(isflag(f, R.init, R.pred) and not pol for f, pol in fs)
    for empty in (False, True):
        e, g = cx.run(p, fn, pure=pure, facts=frozenset([(R.init, True), (R.pred, True)]) | empt(empty))
        inst = "%s %s%s" % (u, name, ", none waiting" if empty else "")
        adds = [v for v in e.events.values() if isadd(v)]
        pops = [v for v in e.events.values() if pop(v)]
        if empty:
            w = g.path(g.entry, lambda v: isadd(v) or pop(v) or front(v), include_start=True)
            cx.nopath(w, "Q3", inst, w[-1].where() if w else fn.where(), "a measurement is taken from an empty queue", key="Q3 empty " + name)
            continue
        others = [v for v in e.events.values() if q(v) and not pop(v)]
        cx.expect(not others, "Q4", inst + " others", others[0].where() if others else fn.where(), "the queue of waiting measurements is changed by %s" % (others and short(others[0].name)), key="Q4 other " + name)
        inserts = [v for v in e.events.values() if ins(v)]
        cx.need(inserts, "insertion of the propagated state in %s" % name)
        for v in inserts:
            w = g.path(g.point(v), "exit", avoid=isadd, avoid_edge=reset)
            cx.nopath(w, "Q2", inst, v.where(), "after a state was propagated a waiting measurement is not looked at again", key="Q2 " + name)
        for v in adds:
            arg = v.args[0]
            fr = lambda t: type(t) is tuple and (t[:1] == ("elem",) and (t[1:] in ((R.queue, ("acc", "front")), (R.queue, ("c", 0))) or t[1][:1] == ("call",) and short(t[1][1]) == "begin" and t[1][2] == R.queue))
            unl = lambda t: t[1] if type(t) is tuple and t[0] == "L" else t
            cx.expect(all(fr(unl(x)) for x in alts(arg)), "Q3", inst + " the first one", v.where(), "what is offered is %s and not the head of the queue" % show(arg)[:80], key="Q3 head " + name)
            pre = g.path(g.entry, lambda x: x is v, avoid=pop, include_start=True)
            post = g.path(g.point(v), "exit", avoid=pop)
            cx.expect(pre is None or post is None, "Q3", inst + " taken out", v.where(), "a measurement is offered but stays in the queue", key="Q3 stays " + name)
            cx.nopath(g.path(g.point(v), isadd, avoid=pop), "Q3", inst + " offered once", v.where(), "a waiting measurement is offered twice", key="Q3 twice " + name)
            late = g.path(g.entry, lambda x: x is v, avoid=ins, include_start=True)
            cx.nopath(late, "Q2", inst + " after the new state", v.where(), "a waiting measurement is offered before the new state is in the buffer", key="Q2 before " + name)
        paired(cx, g, pops, inst, name, pop, isadd, front)
    # before the first prediction
    e, g = cx.run(p, fn, pure=pure, facts=frozenset([(R.init, True), (R.pred, False)]) | empt(False))
    pops = [v for v in e.events.values() if pop(v)]
    if name == "ProcessIMU":
        paired(cx, g, pops, "%s %s first prediction" % (u, name), name, pop, isadd, front)
    else:
        paired(cx, g, [v for v in pops if g.reaches(v, ins) is None], "%s %s first prediction" % (u, name), name, pop, isadd, front)
    for v in [v for v in e.events.values() if q(v) and not pop(v)]:
        ok = name != "ProcessIMU" and g.reaches(v, ins) is not None and short(v.name) not in PUSH
        cx.expect(ok, "Q4", "%s %s before the first prediction" % (u, name), v.where(), "the waiting measurements are changed by %s" % name, key="Q4 pre " + name)


def paired(cx, g, pops, inst, name, pop, isadd, front):
    for v in pops:
        pre = g.path(g.entry, lambda x: x is v, avoid=isadd, include_start=True)
        cx.expect(pre is None or g.path(g.point(v), "exit", avoid=isadd) is None, "Q3", inst + " offered", v.where(), "a measurement is taken out of the queue but not offered", key="Q3 lost " + name)
        cx.nopath(g.path(g.point(v), pop, avoid=isadd), "Q3", inst + " one taken", v.where(), "two measurements are taken out but one is offered", key="Q3 two " + name)
        ishead = lambda x: x.kind in ("decl", "write") and x.val is not None and type(x.val) is tuple and x.val[:1] == ("elem",) and "front" in repr(x.val[2:])
        for f in [x for x in g.e.events.values() if front(x) and short(x.name) == "front"]:
            cx.nopath(g.path(g.point(f), lambda x: x is v, avoid=lambda x: isadd(x) or ishead(x)), "Q3", inst + " kept", v.where(), "the head of the queue is removed while only referred to", key="Q3 dangling " + name)
        cx.nopath(g.path(g.point(v), front, avoid=isadd), "Q3", inst + " before it is removed", v.where(), "the head of the queue is read after it was removed", key="Q3 order " + name)


def others(cx, p, R, u):
    """every other method of MSF_Core leaves the queue alone"""
    from .c01 import entry_callers
    ok = {"Init": None, "AddMeasurement": None}
    ok.update((n, None) for n in ENTRIES)
    n = 0
    for f in p.repo_fns():
        if not f.n.startswith(C):
            if any(nd and nd["k"] == "Mem" and nd.get("n") == C + R.queue[2] for nd in f.nodes):
                cx.bad("Q1", "%s %s" % (u, f.n), f.where(), "the queue of waiting measurements is reachable from outside the filter: %s" % f.n, key="Q1 outside " + f.n)
            continue
        if not any(nd and nd["k"] == "Mem" and nd.get("n") == C + R.queue[2] for nd in f.nodes):
            continue
        if "MSF_Core" in short(f.n):
            continue
        n += 1
        extra = sorted(x for x in entry_callers(p, f) if x not in ok)
        cx.expect(not extra, "Q4", "%s %s" % (u, f.n), f.where(), "the queue of waiting measurements is touched from %s" % ", ".join(extra), key="Q4 from %s" % ",".join(extra))
    cx.need(n >= 3, "functions that use the queue")
    users = {f.id for f in p.repo_fns() if any(nd and nd["k"] == "Mem" and nd.get("n") == C + R.queue[2] for nd in f.nodes)}
    for name in sorted(summaries(R)):
        if name == ADD:
            continue
        for f in p.named(name):
            st, seen, hit = [f.id], set(), None
            while st and hit is None:
                x = st.pop()
                if x in seen:
                    continue
                seen.add(x)
                if x in users:
                    hit = p.fns[x]
                st.extend(p.callees(p.fns[x]))
            cx.expect(hit is None, "Q4", "%s %s" % (u, name), (hit or f).where(), "%s touches the waiting measurements (in %s)" % (name, hit and hit.n), key="Q4 via " + name)
    e, g = cx.run(p, corefn(p, "Init"), noinline=NOIN(p))
    ps = [v for v in e.events.values() if ismut(R.queue, *PUSH)(v)]
    cx.expect(not ps, "Q1", "%s Init" % u, corefn(p, "Init").where(), "Init puts a measurement into the queue", key="Q1 init")
