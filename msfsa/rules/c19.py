"""C19 - a correction that turns the non-drifting attitude too far from its recent median is rolled back."""
from .layout import *
from .flow import *
from .c02 import conditions
from ..comp import Comp, Mx, Unknown
from fractions import Fraction
from types import SimpleNamespace as NS
import itertools, math

T = "msf_core::CheckFuzzyTracking::"
N = 30
MED = "msf_core::GetMedian"


def check(cx):
    cx.rule("V1", "the history starts empty")
    cx.rule("V2", "the first thirty corrections only fill the history; then a good one replaces the oldest entry and a diverged one is not entered")
    cx.rule("V3", "diverged means: the attitude differs from the component-wise median of the history by more than the threshold (small-angle)")
    cx.rule("V4", "a diverged correction is undone for all variables but position, velocity and attitude; a good one is left alone")
    cx.rule("V5", "every correction is judged once, after it was applied and sanity-checked, against the state before it, with the documented threshold")
    cx.rule("V6", "the median is the sixteenth of the thirty values in order")
    us = fetch(cx, ("pose", "pose_pressure", "position_pose", "position"))
    for u in us:
        p = cx.unit(u)
        L = layout(cx, p)
        nd = [v for v in L if v.kind == 3]
        fn = p.one(T + "Check")
        if not nd:
            e, g = cx.run(p, fn)
            w = [v for v in e.events.values() if iseffect(v)]
            cx.expect(not w and allalts(e.ret, lambda a: a in (FALSE, ("c", 0))), "V4", u + " no non-drifting attitude", fn.where(), "a filter without a non-drifting attitude judges corrections", key="V4 none")
        else:
            best = [v for v in nd if v.quat]
            cx.need(best, "the non-drifting attitude of unit " + u)
            history(cx, p, L, u, fn, best)
            start(cx, p, u)
            median(cx, p, u)
        applied(cx, p, u)
    cx.floor("V2", 60)
    cx.floor("V3", 40)


def members(p):
    r = p.rec_by_name["msf_core::CheckFuzzyTracking"][0]
    fs = [(f["n"], p.types[f["t"]]) for f in r["fields"]]
    cnt = [n for n, t in fs if t in ("int", "unsigned int", "unsigned long", "size_t", "long", "short")]
    mat = [n for n, t in fs if "Matrix<double, %d, 4" % N in t]
    return cnt, mat


def start(cx, p, u):
    cnt, mat = members(p)
    for n in ("Reset", "(ctor)"):
        for f in p.named(T + n) if hasattr(p, "named") else [p.one(T + n)]:
            e, g = cx.run(p, f)
            if len(cnt) == 1 and len(mat) == 1:
                c = e.load(e.final, fld(cnt[0]))
                cx.expect(c == ("c", 1), "V1", "%s %s counter" % (u, n), f.where(), "the history starts with entry %s" % show(c), key="V1 " + n)
                m = e.load(e.final, fld(mat[0]))
                z = type(m) is tuple and (m[:1] == ("call",) and (short(m[1]) == "Constant" and m[-1] in (("c", 0), ("c", 0.0)) or short(m[1]) == "Zero") or m[:2] == ("mut", "setZero"))
                cx.expect(z, "V1", "%s %s history" % (u, n), f.where(), "the history does not start with zeros: %s" % show(m)[:60], key="V1 m " + n)


class Case:
    def __init__(self, cx, p, fn, L, best, k, err, thr):
        cnt, mat = members(p)
        self.delay, self.buff, self.thr = (("root", q["n"]) for q in fn.params)
        self.ref = ("deref", self.buff)
        env = {fld(cnt[0]): ("c", k)}
        self.q = fld(mat[0])
        run = lambda fa: cx.run(p, fn, pure={MED: ()}, env=env, facts=fa, unroll=True, maxsize=100000)
        e0, _ = run(frozenset())
        K = Comp(lambda t: None, e0.scalars)
        F = lambda x: {(): x} if x else {}
        qm = [Fraction(x, 9) for x in (2, 4, 5, 6)]       # the median
        qm = Mx(4, 1, [F(x) for x in qm])
        # attitude whose difference to the median is err:  conj(q) * qm = err  =>  q = qm * conj(err)
        ec = Mx(4, 1, [F(-x) for x in err[:3]] + [F(err[3])])
        q = K.qmul(qm, ec)
        q = q[1] if type(q) is tuple else q
        K.subst[var(self.delay, best)] = ("q", q)
        self.K = K

        def leaf(t):
            t = t[1] if type(t) is tuple and t[:1] == ("L",) else t
            if t == self.thr:
                return thr
            if type(t) is not tuple or t[:1] not in (("call",), ("fld",), ("elem",)):
                return None
            self.medians(t)
            if t[0] == "call" and short(t[1]) in ("maxCoeff", "minCoeff", "norm", "lpNorm", "stableNorm", "squaredNorm"):
                a = t[2]
                ab = type(a) is tuple and a[:1] == ("call",) and short(a[1]) in ("cwiseAbs", "abs")
                x = self.comps(a[2] if ab else a)
                if x is None:
                    return None
                x = [abs(y) for y in x] if ab or short(t[1]) == "lpNorm" else x
                return {"maxCoeff": max, "minCoeff": min, "norm": lambda x: math.sqrt(sum(y * y for y in x)), "stableNorm": lambda x: math.sqrt(sum(y * y for y in x)),
                        "squaredNorm": lambda x: sum(y * y for y in x), "lpNorm": max}[short(t[1])](x)
            try:
                s = K.sc(t)
            except (Unknown, AssertionError, TypeError, ValueError):
                return None
            return float(s.get((), 0)) if set(s) <= {()} else None
        self.leaf = leaf
        self.e, self.g, self.facts = settle(run, leaf)

    def comps(self, t):
        try:
            m = self.K.mat(t)
        except (Unknown, AssertionError, TypeError, ValueError):
            return None
        return [float(x.get((), 0)) for x in m.e] if all(set(x) <= {()} for x in m.e) else None

    def medians(self, t):
        qm = [Fraction(x, 9) for x in (2, 4, 5, 6)]
        for x in subterms(t):
            if x and x[0] == "call" and x[1] == MED and x not in self.K.subst:
                c = column(x[-1], self.q)
                if c is not None:
                    self.K.subst[x] = {(): qm[c]}


def column(t, q):
    """which column of the history a block is"""
    if type(t) is tuple and t[:1] == ("elem",) and t[1] == q:
        a = [y[1] if num(y) else None for y in t[2][2:]]
        n = t[2][1]
        if n.startswith("block") and len(a) >= 2 and a[0] == 0:
            ta = [int(x) for x in n[n.index("<") + 1:-1].split(",")] if "<" in n else a[2:]
            return a[1] if ta == [N, 1] else None
        if n == "col" and len(a) == 1:
            return a[0]
    return None


def history(cx, p, L, u, fn, best):
    cnt, mat = members(p)
    if len(cnt) != 1 or len(mat) != 1:
        cx.undecided("V2", u, fn.where(), "the history is not kept as one counter and one 30x4 matrix")
        return
    errs = []
    for v in ((2, 4, 5, 6), (5, 2, 4, 6), (4, 5, 2, 6)):
        for s in itertools.product((1, -1), repeat=2):
            d = 9
            x = [Fraction(a, d) for a in v]
            k = v.index(5)
            errs.append([x[i] * (s[0] if i == k else -s[0]) for i in range(3)] + [x[3] * s[1]])
    size = float(Fraction(5, 6) * 2)
    bests = best if len(best) == 1 else [None]
    b = best[0]
    tm, qb = fld(cnt[0]), fld(mat[0])
    for k in range(1, 2 * N + 1):
        pts = [(errs[0], size * 10, False)] if k <= N else [(errs[0], size * 10, False), (errs[0], size * 0.5, True)]
        if k <= N:
            pts.append((errs[0], size * 0.5, False))
        if k in (N + 1, 2 * N):
            pts += [(e_, size * (1 + d), d < 0) for e_ in errs for d in (1e-6, -1e-6)]
        for err, thr, bad in pts:
            c = Case(cx, p, fn, L, b, k, err, thr)
            inst = "%s correction %d, error (%s), threshold %.7g" % (u, k, " ".join("%.2f" % float(x) for x in err), thr)
            e = c.e
            rule = "V3" if k in (N + 1, 2 * N) else "V2"
            ret = {truth(a, c.leaf, c.facts) for a in alts(e.ret)}
            cx.expect(ret == {bad}, rule, inst, fn.where(), "%s although it differs by %.6g with a threshold of %.6g (correction %d)" % ("taken for diverged" if not bad else "not recognised as diverged" if ret == {False} else "not decided", size, thr, k) if k > N else "one of the first thirty corrections is taken for diverged", key="%s decision" % rule)
            if ret != {bad}:
                continue
            # the history
            t1 = e.load(e.final, tm)
            row = k if k <= N else k - N
            want = k if bad else k + 1 if k < 2 * N else N + 1
            got = evalnum(t1, lambda t: None)
            cx.expect(got == want, "V2", inst + " counter", fn.where(), "correction %d is followed by %s" % (want, show(t1)), key="V2 counter")
            cells, why = entered(e, c, qb, b)
            exp = {} if bad else {(row - 1, j): ("q", j) for j in range(4)}
            if cells is None:
                cx.undecided("V2", inst + " history", fn.where(), why)
            else:
                cx.expect(cells == exp, "V2", inst + " history", fn.where(), "a correction that is %s is entered into the history as %s" % ("diverged" if bad else "number %d" % k, sorted(cells.items())[:4]), key="V2 history")
            # the state
            for v in L:
                t = e.load(e.final, var(c.delay, v))
                old, prev = var(c.delay, v), var(c.buff, v)
                want = prev if bad and v.kind != 0 else old
                cx.expect(t in (want, var(c.ref, v)) if want == prev else t == want, "V4", "%s %s" % (inst, v.name), fn.where(),
                          "%s is %s after a %s correction" % (v.name, show(t)[:60], "diverged" if bad else "good"), key="V4 %s %s" % (v.name, bad))
            oth = [v for v in e.events.values() if iseffect(v) and v.kind == "write" and rootof(v.loc) not in (THIS, c.delay, c.ref)
                   or iseffect(v) and v.kind == "write" and rootof(v.loc) == c.delay and not (v.loc[:1] == ("elem",) or "statevars" in str(v.loc))]
            cx.expect(not oth, "V4", inst + " nothing else", oth[0].where() if oth else fn.where(), "judging a correction changes %s" % (oth and show(oth[0].loc)[:60]), key="V4 other")


def entered(e, c, qb, b):
    """{(row, column): what} written into the history"""
    src = var(c.delay, b)
    out = {}
    for w in e.events.values():
        if w.kind != "write" or w.loc[:1] != ("elem",) or w.loc[1] != qb:
            if w.kind == "write" and w.loc == qb or w.kind == "mut" and w.loc == qb:
                return None, "the history is written as a whole"
            continue
        n = w.loc[2][1]
        a = [evalnum(x, lambda t: None) for x in w.loc[2][2:]]
        if None in a:
            return None, "row %s" % show(w.loc)[:60]
        base = n.split("<")[0]
        cols = None
        if base == "block":
            ta = [int(x) for x in n[n.index("<") + 1:-1].split(",")] if "<" in n else a[2:]
            if ta == [1, 4] and a[1] == 0:
                cols = range(4)
        elif base == "row":
            cols = range(4)
        elif base in ("at", "coeffRef") and len(a) == 2:
            cols = (int(a[1]),)
        if cols is None:
            return None, show(w.loc)[:60]
        K = Comp(lambda t: None, e.scalars)
        vs = [K.var(("q", j)) for j in range(4)]
        K.subst[src] = ("q", Mx(4, 1, vs))
        try:
            m = K.mat(w.val).e if len(cols) == 4 else [K.sc(w.val)]
        except (Unknown, TypeError, ValueError) as x:
            return None, str(x)
        for j, x in zip(cols, m):
            out[(int(a[0]), j)] = ("q", vs.index(x)) if x in vs else "something else"
    return out, None


def median(cx, p, u):
    for f in [x for x in p.repo_fns() if x.n == MED and x.blocks]:
        e, g = cx.run(p, f)
        rows = int(targs(f.full, "Block")[1]) if "Block<" in f.full else N

        def ev(t):
            def leaf(t):
                if type(t) is tuple and t[:1] == ("call",) and short(t[1]) in ("data", "begin"):
                    return 0
                if type(t) is tuple and t[:1] == ("elem",) and t[2][1] in ("data", "begin") and len(t[2]) == 2:
                    return 0
                if type(t) is tuple and t[:1] == ("call",) and short(t[1]) == "end":
                    return rows
                if type(t) is tuple and t[:1] == ("call",) and short(t[1]) == "floor":
                    a = ev(t[2])
                    return None if a is None else math.floor(a)
                if type(t) is tuple and t[:2] == ("cast", "f2i"):
                    a = ev(t[2])
                    return None if a is None else int(a)
                if type(t) is tuple and t[:1] == ("call",) and short(t[1]) in ("size", "rows"):
                    return rows
                return None
            return evalnum(t, leaf)
        def idiv(x):
            return x if x is None else int(x)
        nth = [v for v in e.events.values() if v.kind == "call" and short(v.name) in ("nth_element", "sort", "partial_sort")]
        inst = "%s median" % u
        if not cx.expect(bool(nth), "V6", inst, f.where(), "the values are not put in order", key="V6 order"):
            continue
        for v in nth:
            a = [idiv(ev(x)) for x in v.args[:3]]
            if None in a:
                cx.undecided("V6", inst, v.where(), "range %s" % [show(x)[:40] for x in v.args[:3]])
                continue
            s = short(v.name)
            ok = a[0] == 0 and a[-1] == rows and (s == "sort" and len(a) >= 2 or a[1] == rows // 2 if s == "nth_element" else True)
            if s == "sort":
                ok = a[:2] == [0, rows]
            cx.expect(ok, "V6", inst + " range", v.where(), "the values are ordered over %s" % a, key="V6 range")
        for r in alts(e.ret):
            if r[:1] == ("deref",):
                k = idiv(ev(r[1]))
            elif r[:1] == ("elem",) and len(r[2]) >= 3:
                k = idiv(ev(r[2][2]))
            elif num(r) and r[1] == 0:
                continue
            else:
                k = None
            if k is None:
                cx.undecided("V6", inst + " value", f.where(), show(r)[:60])
                continue
            cx.expect(k == rows // 2, "V6", inst + " value", f.where(), "entry %s in order of %d is taken for the median" % (k, rows), key="V6 value")


def applied(cx, p, u):
    R = roles(cx, p)
    fn = corefn(p, "ApplyCorrection")
    CH = T + "Check"
    CO = "msf_core::GenericState_T::Correct"
    SAN = sorted({f.n for f in p.repo_fns() if short(f.n) == "SanityCheckCorrection"})
    e, g = cx.run(p, fn, pure=dict({CH: (), CO: ()}, **{s: () for s in SAN}), facts=frozenset({(R.init, True), (R.pred, True)}))
    d, c, th = (("root", q["n"]) for q in fn.params[:3])
    isch = lambda v: v.kind == "call" and v.name == CH
    isco = lambda v: v.kind == "call" and v.name == CO
    issan = lambda v: v.kind == "call" and short(v.name) == "SanityCheckCorrection"
    ch = [v for v in e.events.values() if isch(v)]
    co = [v for v in e.events.values() if isco(v)]
    cx.need(co, "the correction of the state in ApplyCorrection")
    if not cx.expect(bool(ch), "V5", u + " judged", fn.where(), "corrections are not judged", key="V5 judged"):
        return
    for v in co:
        r = g.path(g.point(v), "exit", avoid=isch)
        cx.nopath(r, "V5", u + " judged", v.where(), "a correction can be applied without being judged", key="V5 judged")
        cx.nopath(g.path(g.point(v), isch, avoid=issan), "V5", u + " sanity-checked", v.where(), "a correction is judged before it was sanity-checked", key="V5 sanity")
    for v in ch:
        cx.nopath(g.path(g.entry, lambda x: x is v, avoid=isco, include_start=True), "V5", u + " applied before", v.where(), "a correction is judged before it is applied", key="V5 before")
        cx.nopath(g.reaches(v, isch), "V5", u + " once", v.where(), "a correction is judged twice", key="V5 once")
        cx.nopath(g.reaches(v, lambda x: issan(x)), "V5", u + " last", v.where(), "the state is changed by the sanity check after it was judged", key="V5 last")
        a = v.args
        strip = lambda t: t[1] if type(t) is tuple and t[:1] in (("L",),) else t
        cx.expect(strip(a[0]) in (d, ("deref", d)), "V5", u + " state", v.where(), "the state judged is %s" % show(a[0])[:60], key="V5 state")
        cx.expect(strip(a[2]) == th, "V5", u + " threshold", v.where(), "judged with the threshold %s" % show(a[2])[:60], key="V5 threshold")
        # the other state is a copy made before the correction
        nd = v.fn.nodes[v.fn.nodes[v.nid]["c"][2]] if len(v.fn.nodes[v.nid]["c"]) > 3 else {}
        b = strip(a[1])
        cop = [w for w in e.events.values() if w.kind in ("decl", "write") and w.val == ("deref", d) and type(w.loc) is tuple and w.loc[:1] == ("var",)]
        named = [w for w in cop if w.name == nd.get("n") or w.loc[-1] == nd.get("n")] if v.ctx == () else cop
        if b != ("deref", d) or nd.get("k") != "Ref" and v.ctx == () or not cop:
            cx.bad("V5", u + " state before", v.where(), "judged against %s and not against a copy of the state before the correction" % show(b)[:60], key="V5 copy")
            continue
        if not named:
            cx.undecided("V5", u + " state before", v.where(), "the copy %s is not followed" % nd.get("n"))
            continue
        cx.nopath(g.path(g.entry, lambda x: x is v, avoid=lambda x: x in named, include_start=True), "V5", u + " state before", v.where(), "a correction is judged against a state that was not copied", key="V5 copy")
        late = [w for w in named if any(g.reaches(x, lambda y: y is w) for x in co)]
        cx.expect(not late, "V5", u + " copied before", late[0].where() if late else v.where(), "the state to go back to is copied after the correction", key="V5 late")
    # callers use the documented threshold
    n = 0
    for f in p.repo_fns():
        for i, nd in f.call_ids():
            if nd.get("n") == C + "ApplyCorrection":
                n += 1
                ar = [f.nodes[x] for x in nd["c"]]
                val = [cval(f, x) for x in nd["c"][-1:]]
                cx.expect(val[0] is not None and abs(val[0] - 0.1) < 1e-12, "V5", "%s threshold in %s" % (u, f.n), f.where(i), "the threshold is %s instead of 0.1" % val[0], key="V5 thr " + f.n)
    cx.need(n > 0, "a call of ApplyCorrection")


def cval(f, i):
    nd = f.nodes[i]
    k = 0
    while nd and k < 6:
        if nd.get("cv") is not None:
            return float(nd["cv"])
        if nd.get("v") is not None and nd["k"] in ("Num", "Flt", "FloatLit", "Lit", "Float"):
            return float(nd["v"])
        if not nd.get("c"):
            break
        nd = f.nodes[nd["c"][0]]
        k += 1
    return None
