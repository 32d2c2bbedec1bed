"""C01 - nothing leaves or changes the filter before it is initialised."""
from .core import *

LEVEL = "all paths"


def check(cx):
    cx.rule("S1", "while the filter is not initialised no entry point has an observable effect")
    cx.rule("S2", "before the first prediction no measurement is taken or applied")
    cx.rule("S3", "only Init marks the filter as initialised and only a propagation marks it as predicting")
    cx.rule("S4", "the entry points do act once the flags are set (the checks above are not vacuous)")
    cx.rule("S5", "states are published only by the propagation and update entry points and the initial publication")
    cx.rule("S6", "a measurement is refused with 'false' and nothing corrected while the filter is not running")
    for u in units(cx):
        p = cx.unit(u)
        R = roles(cx, p)
        ap = APPLIES(p)
        for name, flag, noin in (("ProcessIMU", R.init, (C + "AddMeasurement",)), ("ProcessExternallyPropagatedState", R.init, (C + "AddMeasurement",)),
                                 ("AddMeasurement", R.init, ap), ("ApplyCorrection", R.init, ()),
                                 ("AddMeasurement", R.pred, ap), ("ApplyCorrection", R.pred, ())):
            fn = corefn(p, name)
            rule = "S1" if flag == R.init else "S2"
            inst = "%s %s with %s false" % (u, name, show(flag))
            e, g = cx.run(p, fn, noinline=NOIN(p) + noin, facts=frozenset([(flag, False)]))
            r = g.path(g.entry, iseffect, include_start=True)
            w = r[-1].where() if r else fn.where()
            cx.nopath(r, rule, inst, w, "%s has an effect although %s is false: %r" % (name, show(flag), r and r[-1]), key="%s %s %s" % (rule, name, show(flag)))
            if name == "ApplyCorrection":
                cx.expect(allalts(e.ret, lambda a: a in (FALSE, ("c", 0))), "S6", inst, fn.where(), "a correction that was not applied is reported as applied", key="S6 " + inst[len(u):])
            e, g = cx.run(p, fn, noinline=NOIN(p) + noin, facts=frozenset([(R.init, True), (R.pred, True)]))
            r = g.path(g.entry, iseffect, include_start=True)
            cx.expect(r is not None, "S4", inst, fn.where(), "%s does nothing even when the filter is running" % name)
        # who may set the flags
        initf, ini_ok = corefn(p, "Init"), set()
        allowed = {R.init: {"Init"}, R.pred: {"ProcessIMU", "ProcessExternallyPropagatedState"}}
        setters = flag_setters(p, R)
        for flag, fns in setters.items():
            for f in fns:
                roots = entry_callers(p, f)
                extra = sorted(r for r in roots if r not in allowed[flag])
                cx.expect(not extra, "S3", "%s %s set in %s" % (u, show(flag), f.n), f.where(),
                          "%s can become true through %s" % (show(flag), ", ".join(extra)), key="S3 %s %s" % (show(flag), ",".join(extra)))
            cx.need(fns, "no function sets %s" % show(flag))
        # Init: the flag is the last thing set, and false before
        e, g = cx.run(p, initf, noinline=NOIN(p))
        ws = [v for v in writes(e, R.init) if v.val in (TRUE, ("c", 1))]
        for v in ws:
            after = g.reaches(v, lambda x: iseffect(x) and x is not v and not ispublish(x))
            cx.nopath(after, "S3", "%s Init completes before the flag" % u, v.where(), "the filter counts as initialised before Init is done", key="S3 Init order")
        # ProcessIMU / Ext: flag only after PropagateState
        for name in ("ProcessIMU", "ProcessExternallyPropagatedState"):
            fn = corefn(p, name)
            e, g = cx.run(p, fn, noinline=NOIN(p) + (C + "AddMeasurement",))
            ws = [v for v in writes(e, R.pred) if v.val not in (FALSE, ("c", 0))]
            cx.need(ws, "%s never marks a prediction" % name)
            for v in ws:
                r = g.path(g.entry, lambda x: x is v, avoid=lambda x: x.kind == "mut" and x.loc == R.smap and "insert" in x.name or x.kind == "mut" and x.loc == R.smap and "emplace" in x.name, include_start=True)
                cx.nopath(r, "S3", "%s %s prediction flag" % (u, name), v.where(), "%s counts as having predicted without a new state in the buffer" % name, key="S3 pred " + name)
        publishers(cx, p, R, u)
    cx.floor("S1", 4 * len(units(cx)))
    cx.floor("S2", 2 * len(units(cx)))
    cx.floor("S5", 3 * len(units(cx)))


def flag_setters(p, R):
    """functions whose own body may assign something other than false to the flag"""
    out = {R.init: [], R.pred: []}
    for f in p.repo_fns():
        for i, nd in enumerate(f.nodes):
            if not nd or nd["k"] not in ("Asg", "CAsg"):
                continue
            for flag in out:
                if assigns(f, i, flag[2]) and f not in out[flag]:
                    out[flag].append(f)
    return out


def assigns(f, i, member):
    """assignment node i stores something other than false in the member of MSF_Core"""
    nd = f.nodes[i]
    tgt = f.nodes[nd["c"][0]]
    if not (tgt and tgt["k"] == "Mem" and tgt.get("n") == "msf_core::MSF_Core::" + member):
        return False
    if nd["k"] == "CAsg" and nd.get("op") == "&=":
        return False
    r = nd["c"][-1]
    while f.nodes[r]["k"] in ("Asg", "ICast", "Cast", "Paren") and f.nodes[r].get("c") and f.nodes[r].get("cv") is None:
        r = f.nodes[r]["c"][-1]
    return f.nodes[r].get("cv") not in (0, False)


def entry_callers(p, fn):
    """names of the public functions of MSF_Core (and others outside it) from which fn is reached"""
    rec = p.rec_by_name["msf_core::MSF_Core"][0]
    rev = {}
    for f in p.repo_fns():
        for c in p.callees(f):
            rev.setdefault(c, set()).add(f.id)
    out, st, seen = set(), [fn.id], set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        f = p.fns[x]
        inside = f.n.startswith(C)
        if not inside:
            out.add(f.n)
            continue
        if short(f.n) in PUBLIC:
            out.add(short(f.n))
            continue
        cs = rev.get(x, set())
        if not cs:
            out.add(short(f.n))
        st.extend(cs)
    return out


PUBLIC = ("ProcessIMU", "ProcessExternallyPropagatedState", "Init", "AddMeasurement", "ApplyCorrection", "GetClosestState", "GetPreviousMeasurement",
          "GetAccumulatedStateTransitionStochasticCloning", "GetStateAtTime")


def publishers(cx, p, R, u):
    """callers of the three publication functions"""
    allowed = {"PublishStateAfterPropagation": {"ProcessIMU", "ProcessExternallyPropagatedState"}, "PublishStateAfterUpdate": {"AddMeasurement", "ProcessIMU", "ProcessExternallyPropagatedState"},
               "PublishStateInitial": None}
    for f in p.repo_fns():
        for i, nd in f.call_ids():
            n = short(nd.get("n") or "")
            if n not in allowed:
                continue
            if allowed[n] is None:
                ok = f.n.endswith("MSF_InitMeasurement::Apply") or entry_callers(p, f) <= {"msf_core::MSF_InitMeasurement::Apply", "Init"}
                got = f.n
            else:
                ec = entry_callers(p, f)
                ok = ec <= allowed[n]
                got = ", ".join(sorted(ec))
            cx.expect(ok, "S5", "%s %s called in %s" % (u, n, f.n), f.where(i), "%s is reached from %s" % (n, got), key="S5 %s %s" % (n, f.n))
