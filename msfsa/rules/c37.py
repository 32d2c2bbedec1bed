"""C37 - angles and distance to the antenna: residual, wrapping and Jacobian of the spherical position sensor.

The terms of residual and Jacobian are evaluated as numbers at points all around the sensor."""
import math
import re
from types import SimpleNamespace as NS
from .core import *
from .layout import *
from .flow import *
from .c08 import CAA, REL
from .c34 import CLOSEST, PREV
from ..comp import Comp, Mx, Unknown, statevars
from fractions import Fraction as F

FN = {"sqrt": math.sqrt, "acos": math.acos, "asin": math.asin, "atan": math.atan, "sin": math.sin, "cos": math.cos, "tan": math.tan, "fabs": abs, "abs": abs, "atan2": math.atan2,
      "hypot": math.hypot, "pow": math.pow, "fmod": math.fmod, "remainder": math.remainder, "floor": math.floor, "ceil": math.ceil, "round": round}
QS = ((0, 0, 0, 1, 1), (1, 2, 4, 10, 11), (2, 4, 5, 6, 9), (-12, 1, 8, 4, 15))
ARMS = ((0, 0, 0), (F(1, 4), F(-1, 3), F(2, 5)))
AT = [(F(x), F(y), F(z)) for x, y, z in (
    (3, 4, 2), (-3, 4, -2), (-5, -1, 3), (2, -7, 1), (F(1, 100), 9, 1), (F(-1, 100), 9, 1), (F(-1, 100), -9, 1), (-7, F(1, 1000), 2), (-7, F(-1, 1000), 2),
    (-6, 0, 1), (6, 0, -1), (0, 5, 1), (0, -5, -1), (1, 1, 40), (1, -1, -40))]


class Num(Comp):
    """every function of known numbers is a number"""
    def call(self, t):
        n = short(t[1])
        if n in FN and ("Eigen" not in t[1] or len(t) == 3) and 3 <= len(t) <= 4:
            try:
                a = [self.sc(x) for x in t[2:]]
            except Unknown:
                return super().call(t)
            if all(set(x) <= {()} for x in a):
                try:
                    return self.const_(F(FN[n](*[float(x.get((), 0)) for x in a])))
                except (ValueError, OverflowError) as x:
                    raise Unknown("%s of %s" % (n, a))
        return super().call(t)

    def norm(self, x):
        if any(k != () for p in x.e for k in p):
            raise Unknown("length of a vector that is not a number")
        return F(math.sqrt(sum(p.get((), 0) ** 2 for p in x.e)))


def wrap(a):
    return math.remainder(a, 2 * math.pi)


def rot(q):
    x, y, z, w = [F(c, q[4]) for c in q[:4]]
    return [[1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y)], [2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x)],
            [2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)]]


def antenna(p, R, a):
    return [p[i] + sum(R[i][j] * a[j] for j in range(3)) for i in range(3)]


def angle(v):
    x, y, z = map(float, v)
    return [math.atan2(math.hypot(x, y), z), math.atan2(y, x)]


def dist(v):
    return [math.sqrt(sum(float(x) ** 2 for x in v))]


def dangle(v):
    x, y, z = map(float, v)
    r2, h2 = x * x + y * y + z * z, x * x + y * y
    h = math.sqrt(h2)
    return [[x * z / (h * r2), y * z / (h * r2), -h / r2], [-y / h2, x / h2, 0.0]]


def ddist(v):
    r = dist(v)[0]
    return [[float(x) / r for x in v]]


MODELS = {"AngleMeasurement": NS(z="z_a_", h=angle, d=dangle, n=2, wraps=(1,)), "DistanceMeasurement": NS(z="z_d_", h=dist, d=ddist, n=1, wraps=())}


def check(cx):
    cx.rule("S1", "the residual is the measurement minus what the state predicts, the azimuth difference taken to within half a turn")
    cx.rule("S2", "the Jacobian is the derivative of the prediction by the error state, to first order in the lever arm")
    cx.rule("S3", "the update gets this residual, the Jacobian of this state and the measurement's own noise, once; a relative measurement is refused")
    p = cx.unit("spherical")
    L = layout(cx, p)
    seen = set()
    for fn in [f for f in p.repo_fns() if short(f.n) == "Apply" and f.blocks]:
        cls = fn.n.rsplit("::", 1)[0]
        if short(cls) in MODELS:
            seen.add(short(cls))
            one(cx, p, L, fn, cls)
    cx.need(seen == set(MODELS), "the angle and distance measurements")
    if not cx.open:
        cx.floor("S1", 100)
        cx.floor("S2", 100)


def at(L, st, P, q, arm, z=None, zn=None):
    """the values of the state variables"""
    out = {}
    mx = lambda xs: Mx(len(xs), 1, [{(): F(x)} if x else {} for x in xs])
    for v in L:
        if v.quat:
            out[var(st, v)] = ("q", mx([F(c, q[4]) for c in q[:4]])) if v.name == "q" else ("q", mx([0, 0, 0, 1]))
        else:
            out[var(st, v)] = mx(list(P) if v.name == "p" else list(arm) if v.name == "p_ip" else [F(2 * i + 1, 3) for i in range(v.n)])
    if z is not None:
        out[fld(zn)] = mx([F(x) for x in z])
    return out


def numbers(K):
    """leaf: what a scalar comes to"""
    def leaf(t):
        if type(t) is not tuple or not t or t[0] in ("c", "str") or t[0] == "op" and t[1] in CMP:
            return None
        try:
            x = K.sc(t)
        except (Unknown, KeyError, IndexError, TypeError, AttributeError):
            return None
        return float(x.get((), 0)) if set(x) <= {()} else None
    return leaf


def run_at(cx, p, fn, L, st, vals, extra, sc, **k):
    """the run with every comparison settled for the point"""
    scal = set(sc)
    K = Num(statevars(L, [st], extra), scal)
    K.subst.update(vals)

    def run(facts):
        e, g = cx.run(p, fn, facts=k.get("facts", frozenset()) | facts, **{a: b for a, b in k.items() if a != "facts"})
        scal.update(e.scalars)
        K.scalars = scal
        K.memo.clear()
        return e, g
    e, g, fa = settle(run, numbers(K), rounds=6)
    return e, g, K


def one(cx, p, L, fn, cls):
    M = MODELS[short(cls)]
    Hn = cls + "::CalculateH"
    hf = [f for f in p.repo_fns() if f.n == Hn and f.blocks]
    cx.need(hf, "CalculateH of " + cls)
    hf = hf[0]
    st = ("root", fn.params[0]["n"])
    inst = short(cls)
    env = {fld("fixedstates_"): ("c", 0)}
    pure = {CLOSEST: (), PREV: (), REL: (), CAA: (), Hn: (("arg", 1),)}
    kw = dict(pure=pure, env=env, maxsize=400000, unroll=True)
    isup = lambda v: v.kind == "call" and v.name in (CAA, REL)
    e, g = cx.run(p, fn, facts=frozenset({(fld("isabsolute_"), False)}), **kw)
    ups = [v for v in e.events.values() if isup(v)]
    cx.expect(not ups, "S3", inst + " relative", fn.where(), "a relative measurement is applied", key="S3 %s relative" % cls)
    extra = {fld(M.z): (M.n, 1)}
    absolute = frozenset({(fld("isabsolute_"), True)})
    Hloc = ("deref", ("root", hf.params[1]["n"]))
    r, c = map(int, re.search(r"Matrix<double, (\d+), (\d+)", p.type(hf.params[1]["t"])).groups())
    cx.expect((r, c) == (M.n, L.nc), "S2", inst + " size", hf.where(), "the Jacobian has %d rows and %d columns" % (r, c), key="S2 %s size" % cls)
    extra[Hloc] = (r, c)
    k = 0
    for P in AT:
        for arm in ARMS:
            k += 1
            for q in ((QS[k % 4],) if cx.tier != "thorough" else QS):
                residual(cx, p, L, fn, cls, M, inst, st, P, q, arm, extra, absolute, isup, kw, Hn)
        for q in ((QS[k % 4], QS[(k + 1) % 4]) if cx.tier != "thorough" else QS):
            jacobian(cx, p, L, hf, cls, M, inst, st, P, q, extra, Hloc, env)


def residual(cx, p, L, fn, cls, M, inst, st, P, q, arm, extra, absolute, isup, kw, Hn):
    h = M.h(antenna(P, rot(q), arm))
    offs = [[0.0] * M.n, [0.125, -0.25][:M.n]]
    if M.wraps:     # readings all around
        offs += [[-0.0625, wrap(a - h[1])] for a in (-3.1, 3.1, -1.5, 1.5)]
    for o in offs:
        z = [a + b for a, b in zip(h, o)]
        for i in M.wraps:
            z[i] = wrap(z[i])
            if abs(abs(wrap(z[i] - h[i])) - math.pi) < 1e-6:
                z[i] = wrap(z[i] + 0.01)
        want = [a - b for a, b in zip(z, h)]
        for i in M.wraps:
            want[i] = wrap(want[i])
        nm = "%s at (%s) measured (%s)" % (inst, ", ".join("%g" % float(x) for x in antenna(P, rot(q), arm)), ", ".join("%.3f" % x for x in z))
        e, g, K = run_at(cx, p, fn, L, st, at(L, st, P, q, arm, z, M.z), extra, (), facts=absolute, **kw)
        ups = [v for v in e.events.values() if isup(v)]
        bad = g.path(g.entry, "exit", avoid=isup, include_start=True) if ups else []
        cx.nopath(bad, "S3", nm + " applied", fn.where(), "an absolute measurement is not applied", key="S3 %s none" % cls)
        for v in ups:
            cx.nopath(g.path(g.point(v), isup), "S3", nm + " once", v.where(), "a measurement is applied twice", key="S3 %s twice" % cls)
            if v.name != CAA:
                cx.bad("S3", nm + " kind", v.where(), "an absolute measurement is applied as a relative one", key="S3 %s kind" % cls)
                continue
            cx.expect(v.args[0] == st, "S3", nm + " state", v.where(), "the corrected state is %s" % show(v.args[0])[:60], key="S3 %s state" % cls)
            cx.expect(v.args[4] == fld("R_"), "S3", nm + " noise", v.where(), "the noise given to the update is %s" % show(v.args[4])[:60], key="S3 %s R" % cls)
            Ht = v.args[2]
            cx.expect(type(Ht) is tuple and Ht[:3] == ("out", Hn, st), "S3", nm + " Jacobian", v.where(), "the Jacobian given to the update is %s" % show(Ht)[:80], key="S3 %s H" % cls)
            try:
                got = [value(x) for x in K.mat(v.args[3], M.n, 1).e]
            except Unknown as x:
                cx.undecided("S1", nm, v.where(), str(x)[:100])
                continue
            cx.expect(all(abs(a - b) < 1e-9 for a, b in zip(got, want)), "S1", nm, v.where(), "the residual is %s where %s was expected" % (["%.6f" % a for a in got], ["%.6f" % a for a in want]), key="S1 %s" % cls)


def value(x):
    if any(k != () for k in x):
        raise Unknown("not a number")
    return float(x.get((), 0))


def jacobian(cx, p, L, hf, cls, M, inst, st, P, q, extra, Hloc, env):
    R = rot(q)
    D = M.d(P)
    DR = [[sum(D[i][k] * float(R[k][j]) for k in range(3)) for j in range(3)] for i in range(M.n)]
    if float(P[0]) == float(P[1]) == 0:
        return
    eps = F(1, 2 ** 20)
    for arm in ((0, 0, 0), (eps, 0, 0), (0, eps, 0), (0, 0, eps), (eps, -2 * eps, 3 * eps)):
        nm = "%s at (%s), attitude %s/%d%s" % (inst, ", ".join("%g" % float(x) for x in P), q[:4], q[4], " arm (%s)" % ", ".join("%g" % float(x) for x in arm) if any(arm) else "")
        e, g, K = run_at(cx, p, hf, L, st, at(L, st, P, q, arm), extra, (), args=[st] + [("root", x["n"]) for x in hf.params[1:]], env=env, maxsize=400000, unroll=True)
        try:
            H = K.mat(exitval(e, Hloc), M.n, L.nc)
            got = [[value(H[i, j]) for j in range(L.nc)] for i in range(M.n)]
        except Unknown as x:
            cx.undecided("S2", nm, hf.where(), str(x)[:100])
            return
        a = [float(x) for x in arm]
        S = [[0, -a[2], a[1]], [a[2], 0, -a[0]], [-a[1], a[0], 0]]
        for v in L:
            for i in range(M.n):
                for j in range(v.nc):
                    want = D[i][j] if v.name == "p" else DR[i][j] if v.name == "p_ip" else -sum(DR[i][k] * S[k][j] for k in range(3)) if v.name == "q" else 0.0
                    # to first order in the lever arm: relative to its length
                    tol = 1e-10 + 20 * max(abs(x) for x in a) * (max(abs(x) for x in a) if v.name == "q" else 1) * (max(map(abs, sum(D, []))) + 1)
                    if abs(got[i][v.offc + j] - want) > tol:
                        cx.bad("S2", nm + " " + v.name, hf.where(), "the Jacobian for %s is %.9g at (%d,%d) where the derivative is %.9g" % (v.name, got[i][v.offc + j], i, j, want), key="S2 %s %s" % (cls, v.name))
                        break
                else:
                    continue
                break
            else:
                cx.ok("S2", nm + " " + v.name)
