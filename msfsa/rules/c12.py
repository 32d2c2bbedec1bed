"""C12 - values that are not finite are recognised wherever they are and do not spread.

The tests for finite values are decided entry by entry; who acts on their result is decided at the places that do."""
from .core import *
from .flow import *
from .layout import *
from .c02 import conditions
from . import c05, c07, c15
from ..comp import Comp, Mx, Unknown
import random, re

CHK = "CheckForNumeric"
BADS = (("not a number", float("nan")), ("infinite", float("inf")), ("minus infinite", float("-inf")))


def check(cx):
    cx.rule("F1", "a vector or matrix is called finite exactly if each of its entries is neither NaN nor infinite")
    cx.rule("F2", "a state is called finite exactly if all entries of all core variables are")
    cx.rule("F3", "a prediction that is not finite stops the filter and its predicting, a finite one does not")
    cx.rule("F4", "no correction is computed for a state that is not finite, and none is interpolated between states that are not")
    cx.rule("F5", "a correction is not sent to the external filter if the state is not finite")
    entries_(cx)
    for u in units(cx):
        p = cx.unit(u)
        R = roles(cx, p)
        state(cx, p, u)
        onestep(cx, p, R, u)
        applied(cx, p, R, u)
        outlet(cx, p, u)
    if not cx.open:
        cx.floor("F1", 100)
        cx.floor("F2", 16)


class As:
    """another check's obligations, the ones with these keys, under a rule of this one"""

    def __init__(self, cx, rule, keys):
        self._cx, self._rule, self._keys = cx, rule, keys

    def __getattr__(self, n):
        return getattr(self._cx, n)

    def mine(self, inst, key):
        return any(key == k or k.startswith("~") and k[1:] in inst for k in self._keys)

    def expect(self, cond, rule, inst, where, msg, key=None):
        if self.mine(inst, key):
            self._cx.expect(cond, self._rule, inst, where, msg, key=self._rule + " " + key)
        return cond

    def nopath(self, path, rule, inst, where, msg, key=None):
        if self.mine(inst, key):
            return self._cx.nopath(path, self._rule, inst, where, msg, key=self._rule + " " + key)
        return path is None

    def bad(self, rule, inst, where, msg, key=None):
        if self.mine(inst, key):
            self._cx.bad(self._rule, inst, where, msg, key=self._rule + " " + key)

    def ok(self, rule, inst):
        pass

    def undecided(self, rule, inst, where, why):
        pass

    def rule(self, *a):
        pass

    def floor(self, *a):
        pass


def entries_(cx):
    done = {}
    for u in fetch(cx, ("pose", "position", "spherical") + (("pose_pressure", "position_pose") if cx.tier == "thorough" else ())):
        p = cx.unit(u)
        for f in p.named(CHK):
            t = p.type(f.params[0]["t"])
            m = re.search(r"Matrix<(?:double|float), (\d+), (\d+)", t)
            if m is None:
                cx.undecided("F1", "%s %s" % (u, t[:80]), f.where(), "size of the argument")
                continue
            r, c = int(m.group(1)), int(m.group(2))
            if (t, r, c) in done:
                continue
            done[t, r, c] = 1
            one(cx, p, f, r, c, "%s %s%dx%d" % (u, "mapped " if "Map<" in t else "", r, c))


def one(cx, p, f, r, c, inst):
    mat = ("deref", ("root", f.params[0]["n"]))
    where = f.where()
    run = lambda fa: cx.run(p, f, unroll=True, maxsize=400000, facts=fa)

    def cell(t):
        if type(t) is tuple and t[:1] == ("elem",) and t[1] in (mat, mat[1]) and t[2][0] == "acc" and t[2][1] in ("at", "coeff", "coeffRef") and all(num(x) for x in t[2][2:]):
            k = [int(x[1]) for x in t[2][2:]]
            return (k[0], k[1]) if len(k) == 2 else (k[0] % r, k[0] // r) if k else None
        return None

    def verdict(bad, val):
        at = lambda i, j: val if (i, j) == bad else 1.0 + i + j

        def leaf(t):
            k = cell(t)
            if k is not None:
                return at(*k)
            if type(t) is tuple and t[:1] == ("call",):
                n = short(t[1])
                if n in ("quiet_NaN", "signaling_NaN", "infinity", "max", "lowest", "min", "epsilon") and len(t) == 2:
                    return {"q": float("nan"), "s": float("nan"), "i": float("inf"), "l": -1.7976931348623157e308, "e": 2.220446049250313e-16}.get(n[0], 1.7976931348623157e308 if n == "max" else 2.2250738585072014e-308)
                if n in ("isnan", "isinf", "isfinite", "isnormal") and len(t) == 3:
                    x = evalnum(t[2], leaf)
                    if x is None:
                        return None
                    return int(x != x if n == "isnan" else x in (float("inf"), float("-inf")) if n == "isinf" else x == x and abs(x) != float("inf"))
                if len(t) >= 3 and t[2] in (mat, mat[1]):
                    if n == "allFinite":
                        return int(bad is None)
                    if n == "hasNaN":
                        return int(bad is not None and val != val)
                    if n in ("rows", "cols", "size"):
                        return {"rows": r, "cols": c, "size": r * c}[n]
                    if n == "sum":
                        return val if bad is not None else 1.0
            return None
        fa = frozenset()
        e, g = run(fa)
        for _ in range(6):
            new = fa | numcase(e, leaf)
            for q in {x for c_, _ in conditions(e) for x in subterms(c_) if x and x[0] == "call"}:
                a = evalnum(q, leaf)
                if a is not None:
                    new |= {(q, bool(a))}
            if new == fa:
                break
            fa = new
            e, g = run(fa)
        out = {truth(a, leaf, fa) for a in alts(e.ret)} if e.ret is not None else {None}
        return out.pop() if len(out) == 1 else None
    cells = [(i, j) for i in range(r) for j in range(c)]
    if len(cells) > 60:
        rnd = random.Random(r * 100 + c)
        some = {(0, 0), (0, c - 1), (r - 1, 0), (r - 1, c - 1), (r // 2, c // 2), (0, c // 2), (r // 2, 0)} | set(rnd.sample(cells, 8 if cx.tier == "quick" else 60))
        cells = sorted(some) if r * c > 60 and (r * c > 200 or cx.tier == "quick") else cells
    v = verdict(None, None)
    if v is None:
        cx.undecided("F1", inst, where, "whether finite values are called finite")
        return
    cx.expect(v, "F1", inst + " finite", where, "a %dx%d matrix of finite values is called not finite" % (r, c), key="F1 finite")
    for k in cells:
        for nm, val in BADS[:2] if r * c > 200 else BADS:
            v = verdict(k, val)
            if v is None:
                cx.undecided("F1", "%s %s %s" % (inst, k, nm), where, "verdict about such a matrix")
                return
            cx.expect(not v, "F1", "%s %s %s" % (inst, k, nm), where, "a %dx%d matrix whose entry (%d,%d) is %s is called finite" % (r, c, k[0], k[1], nm), key="F1 " + nm)


def state(cx, p, u):
    L = layout(cx, p)
    f = p.one("msf_core::GenericState_T::CheckStateForNumeric")
    e, g = cx.run(p, f, pure={CHK: ()}, maxsize=100000, unroll=True)
    K = Comp(lambda t: None, e.scalars)
    want = {}
    for v in L:
        xs = [K.var((v.name, i)) for i in range(v.n)]
        m = Mx(v.n, 1, xs)
        K.subst[var(THIS, v)] = ("q", m) if v.quat else m
        if v.core:
            for i, x in enumerate(xs):
                want[v.name, i] = x
    calls = [v for v in e.events.values() if v.kind == "call" and v.name == CHK]
    seen = {}
    for v in calls:
        a = v.args[0]
        if a[:1] == ("addr",) or v.pre is not None and a[:1] in (("deref",), ("var",), ("root",), ("fld",)):
            from types import SimpleNamespace as NS
            a = e.load(NS(env=v.pre), a[1] if a[0] == "addr" else a)
        m = None
        try:
            m = K.mat_any(a)
        except Unknown as ex:
            cx.undecided("F2", u, v.where(), str(ex))
            return
        for k, x in want.items():
            if x in m.e:
                seen.setdefault(k, []).append(v)
    for k in sorted(want):
        if not cx.expect(k in seen, "F2", "%s entry %d of %s looked at" % (u, k[1], k[0]), f.where(), "entry %d of %s is not looked at" % (k[1], k[0]), key="F2 " + k[0]):
            continue
        # if the value is not finite the result is that
        cs = {c for c in [v.val for v in seen[k]] + [v.ret for v in seen[k]] if c is not None}
        cs = {t for v in seen[k] for t in [v.val, v.ret] if type(t) is tuple and t[:1] == ("call",)} or cs
        cx.expect(bool(cs), "F2", "%s entry %d of %s decides" % (u, k[1], k[0]), f.where(), "the verdict about %s is not used" % k[0], key="F2 used")
        e2, g2 = cx.run(p, f, pure={CHK: ()}, maxsize=100000, unroll=True, facts=frozenset((c, False) for c in cs))
        fs = frozenset((c, False) for c in cs)
        out = {truth(a, lambda t: None, fs) for a in alts(e2.ret)}
        cx.expect(out == {False}, "F2", "%s entry %d of %s decides" % (u, k[1], k[0]), f.where(), "a state whose %s is not finite is called finite (%s)" % (k[0], show(e2.ret)[:80]), key="F2 verdict")
    fs = frozenset((t, True) for v in calls for t in [v.val, v.ret] if type(t) is tuple and t[:1] == ("call",))
    e2, g2 = cx.run(p, f, pure={CHK: ()}, maxsize=100000, unroll=True, facts=fs)
    out = {truth(a, lambda t: None, fs) for a in alts(e2.ret)}
    cx.expect(out == {True}, "F2", "%s all finite" % u, f.where(), "a finite state is called not finite (%s)" % show(e2.ret)[:80], key="F2 finite")


def onestep(cx, p, R, u):
    c07.onestep(As(cx, "F3", ("K3 check", "K3 nan", "K3 nan2", "K3 fin")), p, R, u)
    # what is looked at is the predicted position, whole
    fn = corefn(p, "PropagatePOneStep")
    PRED, AT, CS = C + "PredictProcessCovariance", SC + "GetIteratorAtValue", "msf_core::GenericState_T::CheckStateForNumeric"
    e, g = cx.run(p, fn, pure={PRED: (), AT: (), CHK: (), CS: ()})
    vp = [v for v in layout(cx, p) if v.name == "p"][0]
    ys = {v.args[1] for v in e.events.values() if v.kind == "call" and v.name == PRED}
    cx.need(ys, "prediction in PropagatePOneStep")
    seen = set()
    for t in {t for c, _ in conditions(e) for t in subterms(c) if t and t[0] == "call" and t[1] in (CHK, CS)}:
        if t[1] == CS:
            seen |= {0, 1, 2} if t[2] in ys else set()
            continue
        K = Comp(lambda t: None, e.scalars)
        xs = [K.var(i) for i in range(3)]
        for y in ys:
            K.subst[var(y, vp)] = Mx(3, 1, xs)
        try:
            m = K.mat_any(next(x for x in t[2:] if x is not None))
            seen |= {i for i in range(3) if xs[i] in m.e}
        except Unknown:
            pass
    cx.expect(seen == {0, 1, 2}, "F3", "%s position looked at" % u, fn.where(), "entries %s of the predicted position are not looked at" % sorted({0, 1, 2} - seen), key="F3 which")


def applied(cx, p, R, u):
    c05.closest(As(cx, "F4", ("D6 nan", "~state not finite")), p, R, u)
    fn = corefn(p, "AddMeasurement")
    GC = C + "GetClosestState"
    run = lambda fa: cx.run(p, fn, noinline=NOIN(p) + APPLIES(p) + (C + "PropagateState", C + "PropPToState", C + "PropagatePOneStep", C + "CleanUpBuffers"), pure={GC: ()}, facts=fa)
    e, g = run(frozenset())
    isget = lambda v: v.kind == "call" and v.name == GC
    rets = {v.ret for v in e.events.values() if isget(v)}
    cx.need(rets, "lookup of the state in AddMeasurement")

    def leaf(t):
        if type(t) is not tuple:
            return None
        if t[:1] == ("fld",) and t[2] == "time" and (t[1] in rets or t[1][:1] == ("deref",) and t[1][1] in rets or t[1] == R.sinv):
            return -1
        if t[:2] == ("op", "==") and len(t) == 4 and any(x in rets for x in t[2:]) and R.sinv in [y[1] if y[:1] == ("L",) else y for y in t[2:]]:
            return 1
        return None

    def impossible(fs):
        return any(truth(f, leaf) not in (None, pol) for f, pol in fs)
    for v in e.events.values():
        if isget(v):
            pth = g.path(g.point(v), lambda x: x.kind == "call" and short(x.name or "") == "Apply", avoid=isget, avoid_edge=impossible)
            cx.nopath(pth, "F4", "%s no state, no correction" % u, v.where(), "a measurement is applied although there is no state for it", key="F4 apply")


def outlet(cx, p, u):
    c15.one(As(cx, "F5", ("M6 nan",)), p, layout(cx, p), u)
