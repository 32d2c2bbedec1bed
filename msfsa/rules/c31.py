"""C31 - relative measurements: stochastic cloning against the state of the previous one."""
from .core import *
from .flow import *
from .c08 import REL, CAA, APPLY, ACCUM, symmetric_term, madd, alias
from ..mat import Mat, Grid, mm, T

AT = SC + "GetIteratorAtValue"
PREV = C + "GetPreviousMeasurement"
CLOSEST = C + "GetClosestState"
U = ("pose", "pose_pressure", "position_pose")


def check(cx):
    cx.rule("R1", "the transition between the two states is the product of the steps between them, in order of time")
    cx.rule("R2", "the correction of the newer state is K r with the gain of the joint covariance of both states")
    cx.rule("R3", "the covariance of the newer state becomes P - K S K', exactly symmetric")
    cx.rule("R4", "only the newer state is corrected, once, after its covariance")
    cx.rule("R5", "a relative measurement refers to the previous measurement of the same sensor and the state at its time")
    cx.rule("R6", "without a usable previous measurement or state nothing is changed")
    for u in fetch(cx, U):
        p = cx.unit(u)
        R = roles(cx, p)
        accum(cx, p, R, u)
        algebra(cx, p, u)
        alias(cx, p, u, REL, "R3")
        previous(cx, p, R, u)
        apply_(cx, p, u)


def accum(cx, p, R, u):
    fn = p.one(ACCUM)
    old, new, F = (("root", q["n"]) for q in fn.params[:3])
    F = ("deref", F)
    e, g = cx.run(p, fn, pure={AT: ()})
    M = Mat(e.scalars)
    ws = [v for v in e.events.values() if v.kind == "write" and v.loc == F]
    init = [v for v in ws if not any(isvar(t) for t in subterms(v.val)) and M.same(v.val, ("call", "Eigen::Identity"))]
    steps = [v for v in ws if v not in init]
    # the accumulation may go through a local that is copied to F in the end
    fin = exitval(e, F)
    accl = F
    if len(ws) == 1 and isvar(ws[0].val):
        accl = ws[0].val[2]
        ws = [v for v in e.events.values() if v.kind in ("write", "decl") and v.loc == accl]
        init = [v for v in ws if M.same(v.val, ("call", "Eigen::Identity")) or v.val[:2] == ("mut", "setIdentity")]
        steps = [v for v in ws if v not in init and not (v.kind == "decl" and v.val[:1] in (("default",), ("uninit",)))]
    if not cx.expect(bool(init), "R1", u + " start", fn.where(), "the transition does not start with the identity", key="R1 start"):
        return
    if not cx.expect(len(steps) == 1, "R1", u + " step", fn.where(), "the transition is not accumulated by one step per state (%d assignments)" % len(steps), key="R1 steps"):
        return
    s = steps[0]
    fds = [t for t in subterms(s.val) if t and t[0] == "fld" and t[2] == "Fd"]
    ok = bool(fds)
    it = fds[0][1][1] if ok and type(fds[0][1]) is tuple and fds[0][1][:1] == ("fld",) and fds[0][1][2] == "second" else None
    cur = [t for t in subterms(s.val) if isvar(t) and t[2] == accl]
    if not cx.expect(it is not None and cur, "R1", u + " step of a buffered state", s.where(), "the transition is not multiplied by the step matrix of a buffered state: %s" % show(s.val)[:100], key="R1 Fd"):
        return
    I = Induction(e, g, s, it)
    starts = [posof(a) for a in I.startvals()]
    pos = lambda t, st: type(t) is tuple and (t[:2] == ("call", AT) and t[3] in (st, ("fld", st, "time")) or t[:1] == ("call",) and short(t[1]) == "find" and t[3] == ("fld", st, "time"))
    d = {step(w) for w in I.steps}
    ok = len(d) == 1 and all(x is not None for x in d)
    if not cx.expect(ok, "R1", u + " one state at a time", s.where(), "the states between are not gone through one by one", key="R1 stepping"):
        return
    d = d.pop()
    fwd = mm("*", fds[0], cur[0])
    bwd = mm("*", cur[0], fds[0])
    cx.expect(M.same(s.val, fwd if d == 1 else bwd), "R1", u + " order", s.where(), "the steps are multiplied in the wrong order: F := %s going %s in time" % (show(s.val)[:60], "forward" if d == 1 else "backward"), key="R1 order")
    first, last = (old, new) if d == 1 else (new, old)
    off = 0 if d == 1 else -1       # going backward the first step is that of the state before the newer one
    okstart = bool(starts) and all(pos(b, first) and o + I.off == off for b, o in starts)
    cx.expect(okstart, "R1", u + " from", s.where(), "the accumulation starts at %s" % [show(b)[:60] + "%+d" % (o + I.off) for b, o in starts], key="R1 from")
    isstep = lambda x: x is s
    # left exactly at the other state
    leave = lambda fs: any(pol and eqpos(f, I, pos, last, d) for f, pol in fs)
    cx.nopath(g.path(g.point(s), "exit", avoid_edge=leave), "R1", u + " to", s.where(), "the accumulation can end before or after the other state", key="R1 to")
    stay = lambda fs: any(not pol and eqpos(f, I, pos, last, d) for f, pol in fs)
    cx.nopath(g.path(g.entry, isstep, avoid_edge=stay, include_start=True), "R1", u + " guard", s.where(), "a step is multiplied without having looked whether the other state is reached", key="R1 guard")
    cx.nopath(g.path(g.point(s), isstep, avoid_edge=stay), "R1", u + " guard again", s.where(), "a step is multiplied without having looked whether the other state is reached", key="R1 guard")
    for w in I.steps:
        cx.nopath(g.path(g.point(w), lambda x: x in I.steps, avoid=isstep), "R1", u + " none left out", w.where(), "a state between is skipped", key="R1 skip")
    cx.nopath(g.path(g.point(s), isstep, avoid=lambda x: x in I.steps), "R1", u + " none twice", s.where(), "a step is multiplied twice", key="R1 twice")


def eqpos(f, I, pos, last, d):
    if type(f) is not tuple or f[:2] != ("op", "==") or len(f) != 4:
        return False
    for a, b in ((f[2], f[3]), (f[3], f[2])):
        base, o = posof(a)
        if isvar(base) and base[2] == I.loc and pos(b, last):
            return o == 0
        if pos(a, last) and posof(b)[1] == 0 and pos(posof(b)[0], last) is False and isvar(posof(b)[0]) and posof(b)[0][2] == I.loc:
            return True
    return False


def algebra(cx, p, u):
    for fn in [f for f in p.repo_fns() if f.n == REL and f.blocks]:
        n = [q["n"] for q in fn.params]
        so, sn = ("root", n[0]), ("root", n[1])
        d = lambda x: ("deref", ("root", x))
        Ho, Hn, r, Rm = d(n[3]), d(n[4]), d(n[5]), d(n[6])
        Po, Pn = ("fld", so, "P"), ("fld", sn, "P")
        e, g = cx.run(p, fn, pure={APPLY: (), ACCUM: (("arg", 2),)}, maxsize=200000)
        acc = [v for v in e.events.values() if v.kind == "call" and v.name == ACCUM]
        cx.need(acc, "call of " + ACCUM)
        F = ("out", ACCUM) + tuple(acc[0].args[:2])
        for v in acc:
            cx.expect(tuple(v.args[:2]) == (so, sn), "R2", u + " transition", v.where(), "the transition is not taken from the older to the newer state", key="R2 accum")
        sym = lambda t: t in (Po, Pn, Rm) or type(t) is tuple and t and t[0] == "inv"
        M = Mat(e.scalars, symmetric=sym, limit=4000)
        G = Grid(M)
        S = mm("+", mm("*", mm("*", Ho, Po), T(Ho)), mm("+", mm("*", mm("*", mm("*", Ho, Po), T(F)), T(Hn)), mm("+", mm("*", mm("*", mm("*", Hn, F), Po), T(Ho)), mm("+", mm("*", mm("*", Hn, Pn), T(Hn)), Rm))))
        K = mm("*", mm("+", mm("*", mm("*", F, Po), T(Ho)), mm("*", Pn, T(Hn))), ("call", "Eigen::inverse", S))
        Pw = mm("-", Pn, mm("*", mm("*", K, S), T(K)))
        fr = lambda t: None if t is None else reduce(M, t, S)
        ap = [v for v in e.events.values() if v.kind == "call" and v.name == APPLY]
        if not cx.expect(bool(ap), "R4", u + " applied", fn.where(), "the correction is never applied", key="R4 none"):
            continue
        isap = lambda x: x in ap
        for v in ap:
            cx.expect(fr(G.nf(v.args[1])) == fr(M.nf(mm("*", K, r))), "R2", u + " correction", v.where(), "the correction is not (F P_old H_old' + P_new H_new') S^-1 r", key="R2")
            cx.expect(v.args[0] == sn, "R4", u + " state", v.where(), "the correction is applied to %s" % show(v.args[0])[:60], key="R4 state")
            cx.nopath(g.reaches(v, lambda x: x is not v and iseffect(x)), "R4", u + " order", v.where(), "something still changes after the correction was applied", key="R4 order")
            cx.nopath(g.reaches(v, isap), "R4", u + " once", v.where(), "the correction is applied twice", key="R4 twice")
        cx.nopath(g.path(g.entry, "exit", avoid=isap, include_start=True), "R4", u + " always", fn.where(), "the correction is not applied on some path", key="R4 always")
        got = exitval(e, Pn)
        cx.expect(fr(G.nf(got)) == fr(M.nf(Pw)), "R3", u, fn.where(), "the covariance of the newer state is not P - K S K'", key="R3")
        cx.expect(symmetric_term(e, got), "R3", u + " symmetric", fn.where(), "the covariance after the update is symmetric only up to rounding", key="R3 sym")
        oth = [v for v in e.events.values() if iseffect(v) and v.kind == "write" and v.loc != Pn]
        cx.expect(not oth, "R4", u + " nothing else", oth[0].where() if oth else fn.where(), "the update also writes %s" % (oth and show(oth[0].loc)[:60]), key="R4 other")


def reduce(M, nf, S):
    """normal form with inv(S) S = I cancelled (both forms of the covariance update agree)"""
    inv = ("inv", M.freeze(M.nf(S)))
    s = M.nf(S)
    Rm = max((m for (_, m) in s if len(m) == 1), key=repr, default=None)
    rest = {k: v for k, v in s.items() if k[1] != Rm}
    for _ in range(8):
        out, ch = {}, False
        for (c, m), v in nf.items():
            i = next((i for i in range(len(m) - 2) if m[i] == inv and m[i + 1:i + 2] == Rm and m[i + 2] == inv), None)
            if i is None:
                out = madd(out, {(c, m): v})
                continue
            ch = True
            out = madd(out, {(c, m[:i + 1] + m[i + 3:]): v})
            for (c2, m2), v2 in rest.items():
                out = madd(out, {(c + c2, m[:i + 1] + m2 + m[i + 2:]): -v * v2})
        nf = out
        if not ch:
            break
    return M.freeze(nf)


def previous(cx, p, R, u):
    fn = p.one(PREV)
    tm, sid = (("root", q["n"]) for q in fn.params[:2])
    GI = SC + "GetInvalid"
    e, g = cx.run(p, fn, pure={AT: (), GI: ()})
    rets = [v for v in e.events.values() if v.kind == "ret" and v.fn is fn]
    inv = lambda t: type(t) is tuple and (t[:2] == ("call", GI) or t == R.minv)
    good = [v for v in rets if not inv(v.val)]
    if not cx.expect(bool(good), "R5", u + " found", fn.where(), "no measurement is ever returned", key="R5 none"):
        return
    at = lambda t: type(t) is tuple and (t[:2] == ("call", AT) and t[2] == R.meas and t[3] == tm or t[:1] == ("call",) and short(t[1]) in ("find", "lower_bound") and t[2] == R.mmap and t[3] == tm)
    for v in good:
        for a in alts(v.val):
            if not cx.expect(type(a) is tuple and a[:1] == ("fld",) and a[2] == "second", "R5", u + " buffered", v.where(), "what is returned is not a buffered measurement: %s" % show(a)[:60], key="R5 buffered"):
                continue
            it = a[1]
            same_ = lambda fs: any(pol and eqfact(f, ("fld", a, "sensorID_"), sid) for f, pol in fs)
            cx.nopath(g.path(g.entry, lambda x: x is v, avoid_edge=same_, include_start=True), "R5", u + " same sensor", v.where(), "a measurement of another sensor can be returned", key="R5 sensor")
            I = Induction(e, g, v, it, cyc=True)
            d = {step(w) for w in I.steps}
            starts = [posof(x) for x in I.startvals()]
            ok = d == {-1} and bool(starts) and all(at(b) for b, o in starts)
            cx.expect(ok, "R5", u + " walks back", v.where(), "the previous measurement is not looked for backwards from the present one: starts %s, steps %s" % ([show(b)[:60] for b, o in starts], d), key="R5 back")
            if not ok:
                continue
            # strictly before: at least one step back between the start and the return
            strict = all(o + I.off < 0 for b, o in starts) or g.path(g.entry, lambda x: x is v, avoid=lambda x: x in I.steps, include_start=True) is None
            cx.expect(strict, "R5", u + " earlier", v.where(), "the measurement itself can be returned as its own predecessor", key="R5 strict")
            # nearest: each position passed over was of another sensor
            for w in I.steps:
                differ = lambda fs: any(not pol and type(f) is tuple and f[:2] == ("op", "==") and sid in f[2:] and any(type(t) is tuple and t[:1] == ("fld",) and t[2] == "sensorID_" for t in f[2:]) for f, pol in fs)
                cx.nopath(g.path(g.point(w), lambda x: x in I.steps, avoid_edge=differ), "R5", u + " nearest", w.where(), "a measurement is passed over without looking at its sensor", key="R5 nearest")


def apply_(cx, p, u):
    fs = [f for f in p.repo_fns() if f.blocks and short(f.n) == "Apply" and any(nd and nd["k"] == "Call" and (nd.get("n") or "") == REL for nd in f.nodes)]
    cx.need(fs, "a measurement that can be relative")
    for fn in fs:
        H = fn.n.replace("::Apply", "::CalculateH")
        pure = {CLOSEST: (), PREV: (), REL: (), CAA: (), H: (("arg", 1),)}
        st, core = (("root", q["n"]) for q in fn.params[:2])
        isabs = fld("isabsolute_")
        run = lambda facts=(): cx.run(p, fn, pure=pure, facts=frozenset(facts) | {(isabs, False)})
        e, g = run()
        M = Mat(e.scalars)
        prev = ("call", PREV, ("deref", core), fld("time"), fld("sensorID_"))
        old = ("call", CLOSEST, ("deref", core), ("fld", prev, "time"))
        ups = [v for v in e.events.values() if v.kind == "call" and v.name == REL]
        if not cx.expect(bool(ups), "R5", "%s %s applies" % (u, fn.n), fn.where(), "a relative measurement is never applied", key="R5 apply"):
            continue
        for v in ups:
            inst = "%s %s" % (u, fn.n)
            cx.expect(v.args[0] == old, "R5", inst + " older state", v.where(), "the older state is %s and not the one at the previous measurement of this sensor" % show(v.args[0])[:100], key="R5 old")
            cx.expect(v.args[1] == st, "R5", inst + " newer state", v.where(), "the newer state is %s" % show(v.args[1])[:60], key="R5 new")
            cx.expect(v.args[6] == fld("R_"), "R5", inst + " noise", v.where(), "the noise is %s" % show(v.args[6])[:60], key="R5 R")
            cx.expect(M.same(v.args[3], mm("-", ("out", H, old))), "R5", inst + " H old", v.where(), "the older state's Jacobian is not -H(older state): %s" % show(v.args[3])[:100], key="R5 Hold")
            cx.expect(M.same(v.args[4], ("out", H, st)), "R5", inst + " H new", v.where(), "the newer state's Jacobian is not H(newer state): %s" % show(v.args[4])[:100], key="R5 Hnew")
        isup = lambda x: x.kind == "call" and x.name in (REL, CAA) or iseffect(x) or x.kind == "call" and x.name == H
        cx.expect(not [v for v in e.events.values() if v.kind == "call" and v.name == CAA], "R5", "%s %s not absolute" % (u, fn.n), fn.where(), "a relative measurement is applied as an absolute one", key="R5 abs")
        cases = [("previous measurement invalid", {(("op", "==", INVALID, ("fld", prev, "time")), True)}),
                 ("state at the previous measurement invalid", {(("op", "==", INVALID, ("fld", old, "time")), True)})]
        for name, facts in cases:
            facts = set().union(*[implied(f, pol) for f, pol in facts])
            e2, g2 = run(facts)
            w = g2.path(g2.entry, isup, include_start=True)
            cx.nopath(w, "R6", "%s %s: %s" % (u, fn.n, name), w[-1].where() if w else fn.where(), "%s, but the filter is changed" % name, key="R6 " + name)
        # the previous measurement may be of another type
        casts = {f for fs_ in e.edgefacts.values() for f, pol in fs_ if type(f) is tuple and (f == prev or f[:1] == ("call",) and short(f[1]) == "operator!" and f[2] == prev or f[:2] == ("op", "==") and prev in f[2:])}
        for f in casts:
            pol = short(f[1]) == "operator!" or f[:2] == ("op", "==") if f != prev else False
            e2, g2 = run(implied(f, pol))
            w = g2.path(g2.entry, isup, include_start=True)
            cx.nopath(w, "R6", "%s %s: previous measurement of another type" % (u, fn.n), w[-1].where() if w else fn.where(), "the previous measurement is of another type, but the filter is changed", key="R6 cast")
        # in the absolute case the update is the absolute one
        e3, g3 = cx.run(p, fn, pure=pure, facts=frozenset({(isabs, True)}))
        cx.expect(not [v for v in e3.events.values() if v.kind == "call" and v.name in (REL, PREV)], "R5", "%s %s absolute" % (u, fn.n), fn.where(), "an absolute measurement is applied relative to another", key="R5 absrel")
