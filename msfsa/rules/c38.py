"""C38 - no negative scale is left by a correction: it is replaced by 0.1, and nothing else is touched."""
from .core import *
from .layout import *
from .flow import *

SAN, CO = "SanityCheckCorrection", "msf_core::GenericState_T::Correct"


def check(cx):
    cx.rule("T1", "a negative scale is replaced by 0.1, any other scale stays as it is")
    cx.rule("T2", "nothing but a negative scale is changed by the check of a corrected state")
    cx.rule("T3", "every correction of a state is followed by the check of that state")
    for u in fetch(cx, ("pose", "pose_pressure", "position", "position_pose", "spherical")):
        p = cx.unit(u)
        L = layout(cx, p)
        hasL = [v for v in L if v.name == "L"]
        fs = [f for f in p.repo_fns() if short(f.n) == SAN and f.blocks and f.params]
        cx.need(fs, "a sanity check of corrections in " + u)
        for f in fs:
            one(cx, p, u, f, hasL[0] if hasL else None)
        if u != "spherical":
            called(cx, p, u)
    cx.floor("T1", 3)
    cx.floor("T3", 4)


def one(cx, p, u, f, scale):
    inst = "%s %s" % (u, f.n.rsplit("::", 1)[0])
    key = f.n
    par = [("root", q["n"]) for q in f.params]
    given = set(par) | {("deref", x) for x in par}
    of = lambda l: type(l) is tuple and (l in given or any(x in given for x in subterms(l)) or l[:2] == ("fld", THIS))

    def run(x, other=False):
        def leaf(t):
            if type(t) is tuple and t[:1] in (("elem",), ("fld",), ("call",)) and scale is not None:
                for s in par[:1]:
                    for b in (s, ("deref", s)):
                        w = var(b, scale)
                        if t == w or t[0] == "elem" and t[1] == w and t[2] in (("acc", "at", ("c", 0)), ("acc", "at", ("c", 0), ("c", 0))) or t[0] == "call" and short(t[1]) in ("x", "value", "sum", "coeff", "minCoeff", "maxCoeff") and t[2] == w:
                            return x
            return None
        return settle(lambda fa: cx.run(p, f, facts=fa, maxsize=200000, unroll=True), leaf) + (leaf,)
    for x in (-2.5, -1e-9, 0.0, 1e-9, 0.3, 7.0):
        e, g, fa, leaf = run(x)
        nm = "%s scale %g" % (inst, x)
        ef = [v for v in e.events.values() if v.kind in ("write", "mut") and v.loc is not None and of(v.loc)]
        own = {var(b, scale) for s in par[:1] for b in (s, ("deref", s))} if scale is not None else set()
        alien = [v for v in ef if not any(v.loc == w or any(y == w for y in subterms(v.loc)) for w in own) ]
        cx.expect(not alien, "T2", nm, alien[0].where() if alien else f.where(), "%s is changed" % (show(alien[0].loc)[:60] if alien else ""), key="T2 %s" % key)
        if scale is None:
            continue
        mine = [v for v in ef if v not in alien]
        if x >= 0:
            for w in own if mine else ():
                val = exitval(e, w)
                got = x if val == w else numof(val, leaf, own, x)
                cx.expect(got is not None and abs(got - x) < 1e-12, "T2", nm + " kept", mine[0].where(), "the scale is set to %s" % show(val)[:60], key="T2 %s" % key)
            continue
        cx.nopath(g.path(g.entry, "exit", avoid=lambda v: v in mine, include_start=True), "T1", nm + " replaced", f.where(), "a negative scale is left", key="T1 %s left" % key)
        for w in own:
            val = exitval(e, w)
            if val == w:
                continue
            got = numof(val, leaf, own, x)
            if got is None:
                cx.undecided("T1", nm, f.where(), "the scale is set to %s" % show(val)[:80])
            else:
                cx.expect(abs(got - 0.1) < 1e-9, "T1", nm, f.where(), "the scale is set to %g" % got, key="T1 %s value" % key)


def numof(t, leaf, own, x):
    """the number a 1x1 matrix term holds"""
    from fractions import Fraction
    from ..comp import Comp, Mx, Unknown
    K = Comp(lambda t: None, ())
    for w in own:
        K.subst[w] = Mx(1, 1, [{(): Fraction(x)}])
    try:
        m = K.mat(t, 1, 1)
    except Unknown:
        return evalnum(t, leaf)
    x = m.e[0]
    return float(x.get((), 0)) if set(x) <= {()} else None


def called(cx, p, u):
    R = roles(cx, p)
    fn = corefn(p, "ApplyCorrection")
    sans = sorted({f.n for f in p.repo_fns() if short(f.n) == SAN})
    CH = "msf_core::CheckFuzzyTracking::Check"
    e, g = cx.run(p, fn, pure=dict({CO: (), CH: ()}, **{s: () for s in sans}), facts=frozenset({(R.init, True), (R.pred, True)}))
    d = ("root", fn.params[0]["n"])
    isco = lambda v: v.kind == "call" and v.name == CO
    issan = lambda v: v.kind == "call" and short(v.name) == SAN
    co = [v for v in e.events.values() if isco(v)]
    sa = [v for v in e.events.values() if issan(v)]
    cx.need(co, "the correction of the state in ApplyCorrection")
    strip = lambda t: t[1] if type(t) is tuple and t[:1] == ("L",) else t
    for v in co:
        cx.nopath(g.path(g.point(v), "exit", avoid=issan), "T3", u + " checked", v.where(), "a correction is applied without the check of the corrected state", key="T3 checked")
        cx.nopath(g.path(g.point(v), isco), "T3", u + " once", v.where(), "a state is corrected again by the same correction", key="T3 once")
    for v in sa:
        cx.nopath(g.path(g.point(v), isco), "T3", u + " after", v.where(), "the state is corrected after it was checked", key="T3 after")
        cx.expect(strip(v.args[0]) in (d, ("deref", d)), "T3", u + " state", v.where(), "the state checked is %s" % show(v.args[0])[:60], key="T3 state")
        ns = v.fn.nodes[v.nid].get("c") or []
        nd = v.fn.nodes[ns[1]] if v.ctx == () and len(ns) > 1 and v.fn.nodes[ns[1]] else {}
        cop = [w for w in e.events.values() if w.kind in ("decl", "write") and w.val == ("deref", d) and type(w.loc) is tuple and w.loc[:1] == ("var",) and nd.get("k") == "Ref" and nd.get("n") in (w.name, w.loc[-1])]
        cx.expect(not cop, "T3", u + " not a copy", v.where(), "a copy of the state is checked", key="T3 copy")
        cx.expect(any(v.obj is not None and y and y[0] == "fld" and "usercalc" in str(y[2]) for y in subterms(v.obj)) if v.obj is not None else True, "T3", u + " by the manager", v.where(), "checked by %s" % show(v.obj)[:60], key="T3 by")
