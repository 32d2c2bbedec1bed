"""C27 - GPS fixes become local east-north-up positions about the first fix of the handler.

The conversion functions are evaluated as terms on a grid of fixes; who sets the reference when is decided by
re-running the callback from the state its constructor leaves and from the state a previous fix left."""
from .core import *
from .flow import *
from .intake import OS, TOENU, TOECEF
from .handlers import ctors
from .c02 import conditions
from ..comp import Comp, Mx, Unknown
from fractions import Fraction as F
import math

G = "msf_core::GPSConversion::"
A_, E2 = 6378137.0, 6.69437999014e-3
LATS = (-90.0, -61.25, -33.5, 0.0, 12.75, 47.5, 89.5, 90.0)
LONS = (-180.0, -121.0, -8.5, 0.0, 8.5, 90.0, 179.25)
ALTS = (0.0, 450.5, -412.0, 20000.0)


def check(cx):
    cx.rule("P1", "geodetic coordinates are converted to the ECEF coordinates of the WGS84 ellipsoid")
    cx.rule("P2", "the reference is the ECEF point of the fix given, its orientation the east, north and up direction there")
    cx.rule("P3", "local coordinates are the offset from the reference point, turned to east, north and up")
    cx.rule("P4", "a handler sets the reference of its converter once, with its first fix and before converting it, whatever other handlers did")
    p = cx.unit("gps")
    ecef(cx, p)
    reference(cx, p)
    local(cx, p)
    for u in fetch(cx, ("position", "position_pose")):
        handler(cx, cx.unit(u), u)
    if not cx.open:
        cx.floor("P1", 60)
        cx.floor("P4", 8)


def fixes(cx):
    out = [(la, lo, ALTS[(i + k) % 4]) for i, la in enumerate(LATS) for k, lo in enumerate(LONS)]
    if cx.tier == "thorough":
        out = [(la, lo, al) for la in LATS + (-89.99, -45.0, 30.0, 66.6) for lo in LONS + (-90.0, 45.0, 180.0) for al in ALTS]
    return out


def true_ecef(la, lo, al):
    s, c, sl, cl = math.sin(math.radians(la)), math.cos(math.radians(la)), math.sin(math.radians(lo)), math.cos(math.radians(lo))
    n = A_ / math.sqrt(1 - E2 * s * s)
    return [(n + al) * c * cl, (n + al) * c * sl, (n * (1 - E2) + al) * s]


def true_axes(la, lo):
    s, c, sl, cl = math.sin(math.radians(la)), math.cos(math.radians(la)), math.sin(math.radians(lo)), math.cos(math.radians(lo))
    return [[-sl, cl, 0], [-s * cl, -s * sl, c], [c * cl, c * sl, s]]


def angle(fn, given):
    """leaf: the arguments of a function, and the trigonometric functions of what is computed from them"""
    names = dict(zip((q["n"] for q in fn.params), given))

    def leaf(t):
        if type(t) is not tuple:
            return None
        if t[:1] == ("root",) and t[1] in names:
            return names[t[1]]
        if t[:1] == ("out",) and "sincos" in str(t[1]):
            x = evalnum(t[3], leaf)
            return None if x is None else (math.sin(x) if t[2] == 1 else math.cos(x))
        if t[:1] == ("call",) and len(t) == 3 and short(t[1]) in ("sin", "cos", "tan"):
            x = evalnum(t[2], leaf)
            return None if x is None else getattr(math, short(t[1]))(x)
        return None
    return leaf


def comp(e, terms, leaf, unit=None):
    """Comp with every scalar that the leaves determine put in as a number"""
    K = Comp(lambda t: "uq" if t == unit and unit is not None else None, e.scalars)
    for t0 in terms:
        for t in set(subterms(t0)):
            if t and t[0] in ("op", "call", "out", "root", "cast"):
                v = evalnum(t, leaf)
                if v is not None:
                    K.subst[t] = K.const_(F(v))
    return K


def number(x):
    if any(k != () for k in x):
        raise Unknown("not a number")
    return float(x.get((), 0))


def vec(K, t, n=3):
    return [number(x) for x in K.mat(t, n, 1).e]


def case(cx, p, fn, leaf, **k):
    e, g, fa = settle(lambda fa: cx.run(p, fn, facts=fa, **k), leaf)
    return e, g, fa


def near(a, b, tol):
    return len(a) == len(b) and all(abs(x - y) <= tol for x, y in zip(a, b))


def pos(v):
    return "(%s)" % ", ".join("%.4f" % x for x in v)


def ecef(cx, p):
    fn = p.one(G + "WGS84ToECEF")
    for f in fixes(cx):
        leaf = angle(fn, f)
        e, g, fa = case(cx, p, fn, leaf)
        want = true_ecef(*f)
        for t in alts(e.ret):
            try:
                got = vec(comp(e, [t], leaf), t)
            except Unknown as ex:
                cx.undecided("P1", "fix %s" % (f,), fn.where(), str(ex)[:80])
                return
            cx.expect(near(got, want, 1e-3), "P1", "fix %s" % (f,), fn.where(), "latitude %g, longitude %g, altitude %g become %s, not %s" % (f + (pos(got), pos(want))), key="P1")
        cx.expect(not effects(e), "P1", "fix %s no effect" % (f,), fn.where(), "the conversion changes the converter", key="P1 effect")


def effects(e):
    return [v for v in e.events.values() if v.kind == "write" and v.loc is not None and root(v.loc) == ("root", "this")]


def root(l):
    while type(l) is tuple and l[:1] in (("fld",), ("elem",), ("deref",)):
        l = l[1]
    return l


def members(cx, p):
    """the members holding orientation and point of the reference: those InitReference leaves behind"""
    fn = p.one(G + "InitReference")
    f = (47.5, 8.5, 450.5)
    leaf = angle(fn, f)
    e, g, fa = case(cx, p, fn, leaf)
    return fn, sorted({v.loc if v.loc[0] == "fld" else v.loc[1] for v in effects(e)}, key=repr)


def reference(cx, p):
    fn, ms = members(cx, p)
    fs = fixes(cx)
    again = {i for i in range(0, len(fs), 9)}
    for i, f in enumerate(fs):
        one_reference(cx, p, fn, ms, f, None)
        if i in again:      # a reference that was already set is replaced, both its parts
            one_reference(cx, p, fn, ms, f, (4194304.0, -1234567.5, 4321000.25))


def was(ms, x, leaf):
    """leaf: the point of the reference had this value before"""
    def f(t):
        if type(t) is tuple and t[:1] == ("call",) and len(t) >= 3 and t[2] in ms:
            n2 = sum(y * y for y in x)
            if short(t[1]) in ("norm", "squaredNorm"):
                return math.sqrt(n2) if short(t[1]) == "norm" else n2
            if short(t[1]) == "isZero":
                return n2 == 0
        if type(t) is tuple and t[:1] == ("elem",) and t[1] in ms and num(t[2][-1]) and 0 <= t[2][-1][1] < 3:
            return x[int(t[2][-1][1])]
        return leaf(t)
    return f


def one_reference(cx, p, fn, ms, f, prev):
    leaf = was(ms, prev or (0.0, 0.0, 0.0), angle(fn, f))
    e, g, fa = case(cx, p, fn, leaf)
    vals = {m: e.load(e.final, m) for m in ms}
    inst = "reference %s%s" % (f, " again" if prev else "")
    try:
        rots, pts = [], []
        for m, t in vals.items():
            if t == m and prev:     # left as it was
                pts.append(list(prev))
                continue
            r = axes(e, t, leaf)
            if r is not None:
                rots.append(r)
                continue
            try:
                pts.append(vec(comp(e, [t], leaf), t))
            except Unknown:
                if isinstance(t, tuple) and t[:1] == ("c",):
                    continue
                raise
    except Unknown as ex:
        cx.undecided("P2", inst, fn.where(), str(ex)[:80])
        return
    w = true_axes(*f[:2])
    cx.expect(len(rots) == 1 and all(near(a, b, 1e-9) for a, b in zip(rots[0], w)), "P2", inst + " axes", fn.where(),
              "the axes of the reference at latitude %g, longitude %g are %s, not east, north and up" % (f[0], f[1], " / ".join(pos(r) for r in (rots[0] if rots else []))), key="P2 axes")
    w = true_ecef(*f)
    cx.expect(len(pts) == 1 and near(pts[0], w, 1e-3), "P2", inst + " point", fn.where(), "the reference point for latitude %g, longitude %g, altitude %g is %s, not %s" % (f + (pos(pts[0]) if pts else "missing", pos(w))), key="P2 point")


def axes(e, t, leaf):
    """rows of the rotation a value stands for, None if it is no rotation"""
    if type(t) is tuple and t[:1] == ("call",) and "quat" in str(t[1]).lower() and len(t) >= 3 and short(t[1]) not in ("operator*",):
        K = comp(e, [t], leaf)
        m = next((x for x in t[2:] if type(x) is tuple), None)
        inv = short(t[1]) in ("conjugate", "inverse")
        if inv:
            r = axes(e, m, leaf)
            return None if r is None else [list(x) for x in zip(*r)]
        try:
            M = K.mat(m, 3, 3)
        except Unknown:
            q = K.quat(t)
            M = K.rot(q)
        return [[number(M.e[3 * i + j]) for j in range(3)] for i in range(3)]
    if type(t) is tuple:
        K = comp(e, [t], leaf)
        try:
            M = K.mat(t, 3, 3)
            if (M.r, M.c) == (3, 3):
                return [[number(M.e[3 * i + j]) for j in range(3)] for i in range(3)]
        except (Unknown, IndexError, AttributeError):
            pass
    return None


def local(cx, p):
    _, ms = members(cx, p)
    cf = [c for c in ctors(p, "msf_core::GPSConversion")]
    cx.need(cf, "constructor of GPSConversion")
    e0, _ = cx.run(p, cf[0])
    quats, mats, pts = [], [], []
    for m in ms:
        t = repr(e0.load(e0.final, m))
        (quats if "Quaternion" in t else pts).append(m)
    if len(quats) != 1 or len(pts) != 1:
        cx.undecided("P3", "members", cf[0].where(), "which members hold point and orientation of the reference")
        return
    Q, P = quats[0], pts[0]
    qs = [(F(1, 2), F(1, 2), F(1, 2), F(1, 2)), (F(2, 3), F(1, 3), F(0), F(2, 3)), (F(-2, 7), F(4, 7), F(5, 7), F(2, 7))]
    ref = [F(4273000), F(643251), F(4671500)]
    for fname in ("ECEFToENU", "WGS84ToENU"):
        fn = p.one(G + fname)
        for k, q in enumerate(qs):
            for far in (False, True):
                d = [F(30), F(-17), F(5)] if not far else [F(-90000), F(123000), F(-45001)]
                inst = "%s orientation %d%s" % (fname, k, " far" if far else "")
                norm = math.sqrt(sum(float(x) ** 2 for x in ref))
                fx = (47.5, 8.5, 450.5) if not far else (-33.5, 179.25, 20.0)
                base = angle(fn, fx)

                def leaf(t):
                    if type(t) is tuple and t[:1] == ("call",) and len(t) == 3 and t[2] == P:
                        n = short(t[1])
                        if n in ("norm", "squaredNorm"):
                            return norm if n == "norm" else norm * norm
                    return base(t)
                e, g, fa = case(cx, p, fn, leaf)
                for t in alts(e.ret):
                    K = comp(e, [t], base, Q)
                    K.subst[Q] = ("q", Mx(4, 1, [K.const_(x) for x in q]))
                    K.subst[P] = Mx(3, 1, [K.const_(x) for x in ref])
                    for i in range(3):
                        K.subst[("elem", P, ("acc", "at", ("c", i)))] = K.const_(ref[i])
                    if fname == "ECEFToENU":
                        pt = [a + b for a, b in zip(ref, d)]
                        a = fn.params[0]["n"]
                        for l in (("deref", ("root", a)), ("root", a)):
                            K.subst[l] = Mx(3, 1, [K.const_(x) for x in pt])
                    else:
                        pt = [F(x) for x in true_ecef(*fx)]
                    R = [[number(K.rot(Mx(4, 1, [K.const_(x) for x in q])).e[3 * i + j]) for j in range(3)] for i in range(3)]
                    want = [sum(R[i][j] * float(pt[j] - ref[j]) for j in range(3)) for i in range(3)]
                    try:
                        got = vec(K, t)
                    except Unknown as ex:
                        cx.undecided("P3", inst, fn.where(), str(ex)[:80])
                        continue
                    cx.expect(near(got, want, 1e-3), "P3", inst, fn.where(), "a point at offset %s becomes %s, not %s" % (pos([float(a - b) for a, b in zip(pt, ref)]), pos(got), pos(want)), key="P3 " + fname)
                cx.expect(not effects(e), "P3", inst + " no effect", fn.where(), "the conversion changes the converter", key="P3 effect")


CONV = (TOENU, G + "WGS84ToENU")
SET = G + "InitReference"


def handler(cx, p, u):
    cs = ctors(p, OS)
    cx.need(cs, "constructor of the position handler in unit " + u)
    cls = OS
    fns = [f for f in p.named(OS + "::MeasurementCallback") if "NavSatFix" in p.type(f.params[0]["t"])]
    cx.need(fns, "callback for fixes")
    fn = fns[0]
    no = NOIN(p) + (SET, TOENU, TOECEF, G + "WGS84ToENU", G + "AdjustReference", G + "(ctor)", OS + "::ProcessPositionMeasurement", C + "AddMeasurement")
    e0, g0 = cx.run(p, cs[0], noinline=no)
    own = lambda l: root(l) == ("root", "this")
    env = {l: v for l, v in e0.final.env.items() if own(l) and l[0] == "fld"}
    isset = lambda v: v.kind == "call" and v.name == SET
    isconv = lambda v: v.kind == "call" and v.name in CONV
    e, g = cx.run(p, fn, noinline=no, env=env)
    conv = [v for v in e.events.values() if isconv(v)]
    cx.need(conv, "conversion of a fix in its callback")
    # the first fix of this handler
    for v in conv:
        cx.nopath(g.path(g.entry, lambda x: x is v, avoid=isset, include_start=True), "P4", "%s first fix" % u, v.where(),
                  "the first fix of a handler is converted although the reference of its converter is not set", key="P4 first")
    sets = [v for v in e.events.values() if isset(v)]
    m = ("root", fn.params[0]["n"])
    for v in sets:
        xs = [leafname(a) for a in v.args]
        cx.expect(xs == ["latitude", "longitude", "altitude"], "P4", "%s reference of the fix" % u, v.where(), "the reference is set from %s" % ", ".join(str(x) for x in xs), key="P4 args")
        objs = {repr(w.obj) for w in conv}
        cx.expect(repr(v.obj) in objs, "P4", "%s own converter" % u, v.where(), "the reference is set in another converter than the one used", key="P4 own")
        cx.nopath(g.path(g.point(v), isset), "P4", "%s once per fix" % u, v.where(), "the reference is set twice", key="P4 twice")
    # a later fix: from the state the first one left
    env2 = {l: v for l, v in e.final.env.items() if own(l) and l[0] == "fld"}
    e2, g2 = cx.run(p, fn, noinline=no, env=env2)
    cx.nopath(g2.path(g2.entry, isset, include_start=True), "P4", "%s later fixes" % u, fn.where(), "a later fix sets the reference again", key="P4 later")
    for v in [v for v in e2.events.values() if isconv(v)][:1]:
        cx.ok("P4", "%s later fixes converted" % u)
    # whatever else the handler does before the first or between two fixes
    for f in p.repo_fns():
        if f.id == fn.id or not f.n.startswith(OS + "::") or short(f.n) in ("(ctor)", "(dtor)"):
            continue
        for start, nm in ((env, "before the first fix"), (env2, "between fixes")):
            ef, gf = cx.run(p, f, noinline=no, env=start)
            cx.expect(not any(isset(w) for w in ef.events.values()), "P4", "%s %s sets none" % (u, short(f.n)), f.where(), "%s sets the reference" % short(f.n), key="P4 other")
            if ef.final is None:
                continue
            en, gn = cx.run(p, fn, noinline=no, env={l: v for l, v in ef.final.env.items() if own(l) and l[0] == "fld"})
            if start is env:
                pth = next((x for x in (gn.path(gn.entry, lambda x: x is v, avoid=isset, include_start=True) for v in en.events.values() if isconv(v)) if x), None)
                cx.nopath(pth, "P4", "%s %s %s" % (u, short(f.n), nm), f.where(), "after %s the first fix is converted with no reference set" % short(f.n), key="P4 keep")
            else:
                cx.nopath(gn.path(gn.entry, isset, include_start=True), "P4", "%s %s %s" % (u, short(f.n), nm), f.where(), "after %s a fix sets the reference again" % short(f.n), key="P4 keep")


def leafname(t):
    return t[2] if type(t) is tuple and t[:1] == ("fld",) else show(t)[:40] if t is not None else None
