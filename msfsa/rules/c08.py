"""C08 - a correction is the Kalman update, and P stays symmetric."""
from .core import *
from .flow import *
from .layout import *
from ..mat import Mat, mm, T

BASE = "msf_core::MSF_MeasurementBase"
CAA = BASE + "::CalculateAndApplyCorrection"
REL = BASE + "::CalculateAndApplyCorrectionRelative"
APPLY = C + "ApplyCorrection"
ACCUM = C + "GetAccumulatedStateTransitionStochasticCloning"
SMALL = "QuaternionFromSmallAngle"

U8 = ("pose_dyn", "pose_pressure", "position", "position_pose", "spherical")


def units8(cx):
    return fetch(cx, U8)


def gate(cx, p):
    """members of the measurement base that hold the gate's switch and threshold"""
    fs = [f for f in p.repo_fns() if f.info.get("k") == "ctor" and f.info.get("cls") == BASE and len(f.params) == 4 and not f.imp]
    cx.need(fs, "constructor of MSF_MeasurementBase")
    f = fs[0]
    e, g = cx.run(p, f)
    out = []
    have = {x["n"] for r in p.rec_by_name.get(BASE, []) for x in r["fields"]}
    for q, dflt in zip(f.params[2:4], ("enable_mah_outlier_rejection_", "mah_threshold_")):
        c = [k for k, v in e.final.env.items() if v == ("root", q["n"]) and k[:2] == ("fld", THIS)]
        out.append(fld(dflt) if dflt in have else c[0] if len(c) == 1 else None)
    return out


def inner(t):
    """the distance's (0,0) element -> the matrix it is read from"""
    if type(t) is tuple and t and t[0] == "elem" and t[2][:2] == ("acc", "at") and all(num(x) and x[1] == 0 for x in t[2][2:]):
        return t[1]
    if type(t) is tuple and t and t[0] == "call" and t[1].startswith("Eigen::") and short(t[1]) in ("value", "sum", "trace", "coeff", "(conv)") and len(t) == 3:
        return t[2]
    if type(t) is tuple and t and t[0] == "elem" and t[2][:2] == ("acc", "value"):
        return t[1]
    if type(t) is tuple and t and t[0] == "call" and short(t[1]) == "dot" and len(t) == 4:
        return mm("*", T(t[2]), t[3])
    return None


class Corr:
    """the terms of one overload"""

    def __init__(self, cx, p, fn, rel=False):
        self.cx, self.p, self.fn = cx, p, fn
        n = [q["n"] for q in fn.params]
        self.s = ("root", n[0])
        d = lambda x: ("deref", ("root", x))
        self.H, self.r, self.R = d(n[2]), d(n[3]), d(n[4])
        self.P = ("fld", self.s, "P")
        S = mm("+", mm("*", mm("*", self.H, self.P), T(self.H)), self.R)
        self.Si = ("call", "Eigen::inverse", S)
        self.K = mm("*", mm("*", self.P, T(self.H)), self.Si)
        self.d2 = mm("*", mm("*", T(self.r), self.Si), self.r)
        I_KH = mm("-", ("call", "Eigen::Identity"), mm("*", self.K, self.H))
        self.Pnew = mm("+", mm("*", mm("*", I_KH, self.P), T(I_KH)), mm("*", mm("*", self.K, self.R), T(self.K)))
        self.en, self.thr = gate(cx, p)

    def M(self, e):
        sym = lambda t: t in (self.P, self.R) or type(t) is tuple and t and t[0] == "inv"
        return Mat(e.scalars | {("elem", ("deref",), ())}, symmetric=sym, rewrite=self.rewrite, atom=atom)

    def rewrite(self, nf):
        """inv(S) R inv(S) = inv(S) - inv(S) H P H' inv(S)"""
        return nf

    def runs(self, facts):
        return self.cx.run(self.p, self.fn, pure={APPLY: (), ACCUM: ()}, maxsize=60000, facts=frozenset(facts))

    def leaf(self, e, dist, thr):
        M = self.M(e)

        def leaf(t):
            if t == self.thr:
                return thr
            i = inner(t)
            if i is not None and M.same(i, self.d2):
                return dist * dist
            return None
        return leaf


def atom(t):
    """a symmetric view of a matrix has the matrix's value"""
    if type(t) is tuple and len(t) == 3 and t[0] in ("call", "elem") and "selfadjointView" in repr(t[1:2] if t[0] == "call" else t[2])[:80]:
        return t[2] if t[0] == "call" else t[1]
    return None


def check(cx):
    cx.rule("A1", "the correction handed to the filter is K r with K = P H' S^-1 and S = H P H' + R, all from the covariance before the update")
    cx.rule("A2", "the covariance becomes (I - K H) P (I - K H)' + K R K'")
    cx.rule("A3", "the covariance is exactly symmetric afterwards")
    cx.rule("A4", "covariance and state are corrected together, once, in that order, and on the same state")
    cx.rule("A5", "every state variable is corrected by its own part of the correction vector")
    cx.rule("A6", "no matrix is assigned from a transpose of itself that is not evaluated first")
    for u in units8(cx):
        p = cx.unit(u)
        fs = [f for f in p.repo_fns() if f.n == CAA and f.blocks]
        cx.need(fs, "CalculateAndApplyCorrection in unit " + u)
        for f in fs:
            algebra(cx, p, u, f, "fixed size" if f.info.get("ta") else "dynamic size")
        correct(cx, p, u)
        alias(cx, p, u)
    cx.floor("A2", 2)


def algebra(cx, p, u, fn, what):
    K = Corr(cx, p, fn)
    cx.need(K.en is not None and K.thr is not None, "the members holding the outlier gate of a measurement")
    e0, _ = K.runs(())
    cases = [("gate off", {(K.en, False)}, None), ("gate on, accepted", {(K.en, True)}, (0.5, 2.0))]
    for name, base, val in cases:
        if val is None:
            e, g = K.runs(base)
        else:
            e, g, _ = settle(K.runs, K.leaf(e0, *val), base)
        M = K.M(e)
        inst = "%s %s, %s" % (u, what, name)
        ap = [v for v in e.events.values() if v.kind == "call" and v.name == APPLY]
        if not cx.expect(bool(ap), "A4", inst + " applied", fn.where(), "the correction is never applied", key="A4 none " + what):
            continue
        for v in ap:
            cx.expect(M.same(v.args[1], mm("*", K.K, K.r)), "A1", inst, v.where(), "the correction applied is not P H' (H P H' + R)^-1 r: %s" % show(v.args[1])[:160], key="A1 " + what)
            cx.expect(v.args[0] == K.s, "A4", inst + " state", v.where(), "the correction is applied to %s" % show(v.args[0])[:60], key="A4 state " + what)
            after = g.reaches(v, lambda x: x is not v and iseffect(x))
            cx.nopath(after, "A4", inst + " order", v.where(), "something still changes after the correction was applied", key="A4 order " + what)
            again = g.reaches(v, lambda x: x in ap)
            cx.nopath(again, "A4", inst + " once", v.where(), "the correction is applied twice", key="A4 twice " + what)
        cx.nopath(g.path(g.entry, "exit", avoid=lambda x: x in ap, include_start=True), "A4", inst + " always", fn.where(), "the correction is not applied on some path", key="A4 always " + what)
        got = exitval(e, K.P)
        cx.expect(kalman(M, K, got), "A2", inst, fn.where(), "the covariance after the update is not (I-KH) P (I-KH)' + K R K'", key="A2 " + what)
        cx.expect(symmetric_term(e, got), "A3", inst, fn.where(), "the covariance after the update is symmetric only up to rounding", key="A3 " + what)
        oth = [v for v in e.events.values() if iseffect(v) and v.kind == "write" and v.loc != K.P]
        cx.expect(not oth, "A4", inst + " nothing else", oth[0].where() if oth else fn.where(), "the update also writes %s" % (oth and show(oth[0].loc)[:60]), key="A4 other " + what)


def kalman(M, K, got):
    """equal to the Joseph form, using inv(S) S inv(S) = inv(S)"""
    a, b = M.nf(got), M.nf(K.Pnew)
    inv = next(iter(M.nf(K.Si)))[1][0]
    R, P = K.R, K.P
    hph = M.nf(mm("*", mm("*", K.H, P), T(K.H)))

    def reduce(nf):
        for _ in range(8):
            out, ch = {}, False
            for (s, m), v in nf.items():
                i = next((i for i in range(len(m) - 2) if m[i] == inv and m[i + 1] == R and m[i + 2] == inv), None)
                if i is None:
                    out = madd(out, {(s, m): v})
                    continue
                ch = True
                out = madd(out, {(s, m[:i + 1] + m[i + 3:]): v})
                for (s2, m2), v2 in hph.items():
                    out = madd(out, {(s + s2, m[:i + 1] + m2 + m[i + 2:]): -v * v2})
            nf = out
            if not ch:
                break
        return M.freeze(nf)
    return reduce(a) == reduce(b)


def madd(a, b):
    from ..mat import add
    return add(a, b)


def symmetric_term(e, t):
    """equal to its transpose as it is written, without any assumption on its parts"""
    if atom(t) is not None:
        return True
    M = Mat(e.scalars)
    n = M.nf(t)
    return M.freeze(n) == M.freeze(M.transpose(n)) and halved(t)


def halved(t):
    """the sum with the transpose is the last thing computed (rounding cannot undo it)"""
    if type(t) is not tuple or not t:
        return False
    if t[0] == "call" and t[1].startswith("Eigen::"):
        n = short(t[1])
        if n == "operator*" and len(t) == 4:
            return any(num(x) and halved(y) for x, y in ((t[2], t[3]), (t[3], t[2])))
        if n == "operator/" and num(t[3]):
            return halved(t[2])
        if n == "eval":
            return halved(t[2])
        if n == "operator+" and len(t) == 4:
            return any(tr(x) == y for x, y in ((t[2], t[3]), (t[3], t[2]))) or halved(t[2]) and halved(t[3])
    if t[0] == "op" and t[1] in ("*", "/") and len(t) == 4:
        return num(t[3]) and halved(t[2]) or num(t[2]) and t[1] == "*" and halved(t[3])
    if t[0] == "op" and t[1] == "+" and len(t) == 4:
        return any(tr(x) == y for x, y in ((t[2], t[3]), (t[3], t[2])))
    return False


def tr(t):
    while type(t) is tuple and len(t) == 3 and t[0] == "call" and short(t[1]) == "eval":
        t = t[2]
    return t[2] if type(t) is tuple and len(t) == 3 and t[0] == "call" and short(t[1]) in ("transpose", "adjoint") else None


def correct(cx, p, u):
    fn = p.one("msf_core::GenericState_T::Correct")
    L = layout(cx, p)
    e, g = cx.run(p, fn, pure={SMALL: ()})
    d = ("root", fn.params[0]["n"])
    for v in L:
        loc = var(THIS, v)
        got = exitval(e, loc)
        inst = "%s %s" % (u, v.name)
        bad = "state %s is not corrected by elements %d..%d of the correction: %s" % (v.name, v.offc, v.offc + v.nc - 1, show(got)[:120])
        where = next((w.where() for w in e.events.values() if w.kind == "write" and w.loc == loc), fn.where())
        if v.quat:
            ok = rotated(got, loc, lambda x: part(x, d, v))
        else:
            M = Mat(e.scalars, atom=lambda t: ("part", v.slot) if part(t, d, v) else None)
            ok = M.freeze(M.nf(got)) == M.freeze(M.nf(mm("+", loc, ("part", v.slot))))
        cx.expect(ok, "A5", inst, where, bad, key="A5 " + ("quaternion" if v.quat else "vector"))


def part(t, d, v):
    s = slice_of(t)
    return s is not None and s[0] in (d, ("deref", d)) and s[1:] == (v.offc, v.nc)


def rotated(t, loc, ispart):
    """(q * dq(part)) normalised"""
    norm = False
    while type(t) is tuple and t and (t[0] == "mut" and t[1] == "normalize" or t[0] == "call" and short(t[1]) == "normalized"):
        t, norm = t[2], True
    if not norm or type(t) is not tuple or t[0] not in ("call", "op"):
        return False
    if short(t[1]) not in ("operator*", "*") or len(t) != 4 or t[2] != loc:
        return False
    q = t[3]
    while type(q) is tuple and len(q) == 3 and q[0] == "call" and short(q[1]) in ("normalized", "Quaternion", "(ctor)"):
        q = q[2]
    return type(q) is tuple and q[:1] == ("call",) and short(q[1]) == SMALL and ispart(q[-1])


def alias(cx, p, u, only=None, rule="A6"):
    n = 0
    seen = set()
    for f in p.repo_fns():
        if only and f.n != only:
            continue
        if not f.blocks or f.n not in (CAA, REL) and not any("transpose" in (nd.get("n") or "") or "noalias" in (nd.get("n") or "") for nd in f.nodes if nd):
            continue
        if f.n in (CAA, REL):
            e, g = cx.run(p, f, pure={APPLY: (), ACCUM: ()}, maxsize=60000)
        else:
            e, g = cx.run(p, f, noinline=tuple(sorted({h.n for h in p.repo_fns()})))
        for v in e.events.values():
            if v.kind == "write" and v.fn is f and v.op == "=":
                n += 1
                if v.alias:
                    k = (f.n, v.where())
                    if k not in seen:
                        seen.add(k)
                        cx.bad(rule, "%s %s" % (u, short(f.n)), v.where(), "%s is assigned from its own transpose while that is still being read" % show(v.loc)[:60], key=rule + " " + f.n)
        cx.ok(rule, "%s %s assignments" % (u, f.n))
