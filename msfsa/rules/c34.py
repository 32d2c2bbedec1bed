"""C34 - the residual is zero for a measurement that fits the state, and H is minus its derivative."""
import re
from .core import *
from .layout import *
from fractions import Fraction
from .c08 import CAA, REL
from ..comp import Comp, Mx, Unknown, statevars, padd

U = ("pose", "pose_pressure", "position", "position_pose")
CLOSEST, PREV = C + "GetClosestState", C + "GetPreviousMeasurement"


def pose(K, X, z):
    """prediction of a pose measurement from the state variables X[name]"""
    q, qwv, qic = (X[n] for n in ("q", "q_wv", "q_ic"))
    inner = lin(K, lin(K, X["p"], X["p_wv"], -1), K.mmul(K.rot(q), X["p_ic"]))
    p = K.mmul(K.rot(qwv), inner).map(lambda a: K.pmul(a, X["L"].e[0]))
    return {"z_p_": p, "z_q_": K.qmul(K.qmul(qwv, q), qic)}


def position(K, X, z):
    return {"z_p_": lin(K, X["p"], K.mmul(K.rot(X["q"]), X["p_ip"]))}


def pressure(K, X, z):
    return {"z_p_": Mx(1, 1, [padd(X["p"].e[2], X["b_p"].e[0], -1)])}


def lin(K, a, b, s=1):
    return Mx(a.r, a.c, [padd(x, y, s) for x, y in zip(a.e, b.e)])


MODELS = {"PoseMeasurement": (pose, {"z_p_": (3, 1), "z_q_": "q"}), "PositionMeasurement": (position, {"z_p_": (3, 1)}),
          "PressureMeasurement": (pressure, {"z_p_": (1, 1)})}


def check(cx):
    cx.rule("J1", "the residual is zero when the measurement is what the state predicts")
    cx.rule("J2", "each entry of the Jacobian is minus the derivative of the residual by the error state, at that point")
    cx.rule("J3", "the update gets this residual, this Jacobian and the measurement's own noise")
    cx.rule("J4", "the same holds for a relative measurement and both states (drift and calibration attitudes taken as equal; older attitude where nothing turned in between)")
    n = 0
    for u in fetch(cx, U):
        p = cx.unit(u)
        L = layout(cx, p)
        for fn in [f for f in p.repo_fns() if short(f.n) == "Apply" and f.blocks]:
            cls = fn.n.rsplit("::", 1)[0]
            if short(cls) in MODELS:
                n += 1
                one(cx, p, L, u, fn, cls)
                relative(cx, p, L, u, fn, cls)
    cx.need(n >= 3, "the pose, position and pressure measurements")
    cx.floor("J2", 3)


def one(cx, p, L, u, fn, cls):
    model, zs = MODELS[short(cls)]
    Hn = cls + "::CalculateH"
    st = ("root", fn.params[0]["n"])
    facts = frozenset({(fld("isabsolute_"), True)})
    pure = {CLOSEST: (), PREV: (), REL: (), CAA: (), Hn: (("arg", 1),)}
    env = {fld("fixedstates_"): ("c", 0)}
    e, g = cx.run(p, fn, pure=pure, facts=facts, env=env, maxsize=200000)
    ups = [v for v in e.events.values() if v.kind == "call" and v.name == CAA]
    inst = "%s %s" % (u, short(cls))
    if not cx.expect(bool(ups), "J3", inst + " applied", fn.where(), "an absolute measurement is never applied", key="J3 %s none" % cls):
        return
    caaf = [f for f in p.repo_fns() if f.n == CAA and f.blocks]
    for v in ups:
        res = v.args[3]
        cx.expect(v.args[4] == fld("R_"), "J3", inst + " noise", v.where(), "the noise given to the update is %s" % show(v.args[4])[:60], key="J3 %s R" % cls)
        cx.expect(v.args[0] == st, "J3", inst + " state", v.where(), "the corrected state is %s" % show(v.args[0])[:60], key="J3 %s state" % cls)
        Ht = v.args[2]
        extra = {fld(z): s for z, s in zs.items()}
        if type(Ht) is tuple and Ht[:2] == ("out", Hn):
            hf = [f for f in p.repo_fns() if f.n == Hn and f.blocks][0]
            cx.expect(Ht[2] == st, "J3", inst + " Jacobian of this state", v.where(), "the Jacobian belongs to %s" % show(Ht[2])[:60], key="J3 %s H" % cls)
            e2, _ = cx.run(p, hf, args=[st] + [("root", q["n"]) for q in hf.params[1:]], env=env, maxsize=200000)
            Hloc = ("deref", ("root", hf.params[1]["n"]))
            Ht = exitval(e2, Hloc)
            r, c = map(int, re.search(r"Matrix<double, (\d+), (\d+)", p.type(hf.params[1]["t"])).groups())
            extra[Hloc] = (r, c)
            sc = set(e.scalars) | set(e2.scalars)
            where = hf.where()
        else:
            sc, where = e.scalars, v.where()
        K = Comp(statevars(L, [st], extra), sc)
        try:
            jac(cx, K, L, st, inst, cls, model, zs, res, Ht, v.where(), where)
        except Unknown as x:
            try:    # too large as a polynomial: at least at one exact point
                jac(cx, Comp(statevars(L, [st], extra), sc), L, st, inst, cls, model, zs, res, Ht, v.where(), where, point(L, [st]))
            except Unknown:
                pass
            cx.undecided("J2", inst, where, str(x))


def point(L, states, start=0):
    """exact values of the variables of the states: vectors of small integers, rational unit quaternions"""
    qs = [(1, 2, 4, 10, 11), (2, 4, 5, 6, 9), (4, 10, 1, 2, 11), (12, 1, 8, 4, 15), (6, 2, 5, 4, 9), (8, 12, 4, 1, 15), (5, 6, 2, 4, 9)]
    out, k = {}, start
    for s in states:
        for v in L:
            k += 1
            if v.quat:
                *a, d = qs[k % len(qs)]
                out[var(s, v)] = ("q", Mx(4, 1, [{(): Fraction(x, d)} for x in a]))
            else:
                out[var(s, v)] = Mx(v.n, 1, [{(): Fraction(3 * k + 5 * i + 1, 2 + i)} for i in range(v.n)])
    return out


def jac(cx, K, L, st, inst, cls, model, zs, res, Ht, wr, wh, at=()):
    X, eps = {}, {}
    K.subst.update(at)
    for v in L:
        x = K.ev(var(st, v))
        X[v.name] = x[1] if type(x) is tuple else x
    pred = model(K, X, None)
    val = lambda n: ("q", pred[n]) if zs[n] == "q" else pred[n]
    K.memo.clear()
    K.subst.update({fld(n): val(n) for n in zs})
    H = K.mat(Ht)
    # the state moved by an error: vectors by adding it, quaternions by the small rotation from the right
    K.memo.clear()
    for v in L:
        ee = [K.infinitesimal((v.name, j)) for j in range(v.nc)]
        for j, x in enumerate(ee):
            eps[v.offc + j] = next(iter(x))[0]
        if v.quat:
            dq = Mx(4, 1, [{k: c / 2 for k, c in x.items()} for x in ee] + [K.const(1)])
            K.subst[var(st, v)] = ("q", K.qmul(X[v.name], dq))
        else:
            K.subst[var(st, v)] = Mx(v.n, 1, [padd(a, b) for a, b in zip(X[v.name].e, ee)])
    R = K.mat(res)
    if not cx.expect(R.r * R.c == H.r and H.c == L.nc, "J2", inst + " sizes", wh, "residual of %d rows, Jacobian of %dx%d for %d errors" % (R.r, H.r, H.c, L.nc), key="J2 %s size" % cls):
        return
    sp = [K.split(x) for x in R.e]
    bad = [i for i in range(H.r) if sp[i][0]]
    cx.expect(not bad, "J1", inst, wr, "residual row %s is not zero although the measurement is what the state predicts" % bad, key="J1 %s %s" % (cls, bad))
    for v in L:
        wrong = [(i, c) for c in range(v.offc, v.offc + v.nc) for i in range(H.r) if i not in bad and K.red(padd(sp[i][1].get(eps[c], {}), H[i, c]))]
        cx.expect(not wrong, "J2", inst + " " + v.name, wh, "the Jacobian for %s differs from the derivative of the residual at %s" % (v.name, wrong[:4]), key="J2 %s %s" % (cls, v.name))


def relative(cx, p, L, u, fn, cls):
    """the relative update: residual and both Jacobians"""
    model, zs = MODELS[short(cls)]
    Hn = cls + "::CalculateH"
    hf = [f for f in p.repo_fns() if f.n == Hn and f.blocks]
    st = ("root", fn.params[0]["n"])
    env = {fld("fixedstates_"): ("c", 0)}
    e, g = cx.run(p, fn, pure={CLOSEST: (), PREV: (), REL: (), CAA: (), Hn: (("arg", 1),)}, facts=frozenset({(fld("isabsolute_"), False)}), env=env, maxsize=200000)
    for v in [v for v in e.events.values() if v.kind == "call" and v.name == REL]:
        inst = "%s relative %s" % (u, short(cls))
        old, new = v.args[0], v.args[1]
        prev = {t[1] for t in subterms(v.args[5]) if t and t[0] == "fld" and t[2] in zs and t[1] != THIS}
        if not cx.expect(len(prev) == 1 and hf, "J4", inst + " previous", v.where(), "the residual does not use the previous measurement", key="J4 %s prev" % cls):
            continue
        prev = prev.pop()
        cx.expect(v.args[6] == fld("R_"), "J4", inst + " noise", v.where(), "the noise given to the update is %s" % show(v.args[6])[:60], key="J4 %s R" % cls)
        Hloc = ("deref", ("root", hf[0].params[1]["n"]))
        r, c = map(int, re.search(r"Matrix<double, (\d+), (\d+)", p.type(hf[0].params[1]["t"])).groups())
        hs = {}
        sc = set(e.scalars)
        for s in (old, new):
            e2, _ = cx.run(p, hf[0], args=[s] + [("root", q["n"]) for q in hf[0].params[1:]], env=env, maxsize=200000)
            hs[s] = exitval(e2, Hloc)
            sc |= set(e2.scalars)
        extra = {("fld", o, z): x for o in (THIS, prev) for z, x in zs.items()}
        extra[Hloc] = (r, c)
        for s in (old, new):
            extra[("out", Hn, s)] = (r, c)
        try:
            rel(cx, L, st, inst, cls, model, zs, v, old, new, prev, hs, Hn, extra, sc)
        except Unknown as x:
            try:
                rel(cx, L, st, inst, cls, model, zs, v, old, new, prev, hs, Hn, extra, sc, point(L, [old, new]))
            except Unknown:
                pass
            cx.undecided("J4", inst, v.where(), str(x))


def rel(cx, L, st, inst, cls, model, zs, v, old, new, prev, hs, Hn, extra, sc, at=()):
    for who, s, Ht in (("newer", new, v.args[4]), ("older", old, v.args[3])):
        K = Comp(statevars(L, [old, new], extra), sc)
        K.subst.update(at)
        X = {}
        for q in L:
            for t in (new, old):
                # the older attitude is looked at where nothing has turned between the two states
                if t == old and q.quat and (who == "older" or q.name != "q"):
                    K.subst[var(old, q)] = ("q", X[new, q.name])
                x = K.ev(var(t, q))
                X[t, q.name] = x[1] if type(x) is tuple else x
        pr = {t: model(K, {q.name: X[t, q.name] for q in L}, None) for t in (old, new)}
        val = lambda t, n: ("q", pr[t][n]) if zs[n] == "q" else pr[t][n]
        K.memo.clear()
        K.subst.update({("fld", o, n): val(t, n) for n in zs for o, t in ((THIS, new), (prev, old))})
        for t in (old, new):
            K.subst[("out", Hn, t)] = K.mat(hs[t])
        H = K.mat(Ht)
        K.memo.clear()
        eps = {}
        for q in L:
            ee = [K.infinitesimal((q.name, j)) for j in range(q.nc)]
            for j, x in enumerate(ee):
                eps[q.offc + j] = next(iter(x))[0]
            if q.quat:
                K.subst[var(s, q)] = ("q", K.qmul(X[s, q.name], Mx(4, 1, [{k: c / 2 for k, c in x.items()} for x in ee] + [K.const(1)])))
            else:
                K.subst[var(s, q)] = Mx(q.n, 1, [padd(a, b) for a, b in zip(X[s, q.name].e, ee)])
        R = K.mat(v.args[5])
        sp = [K.split(x) for x in R.e]
        bad = [i for i in range(H.r) if sp[i][0]]
        cx.expect(not bad, "J4", inst + " zero", v.where(), "residual row %s of a relative measurement is not zero although it is what both states predict" % bad, key="J4 %s zero %s" % (cls, bad))
        for q in L:
            wrong = [(i, c) for c in range(q.offc, q.offc + q.nc) for i in range(H.r) if i not in bad and K.red(padd(sp[i][1].get(eps[c], {}), H[i, c]))]
            cx.expect(not wrong, "J4", "%s %s %s" % (inst, who, q.name), v.where(), "the %s state's Jacobian for %s differs from the derivative of the residual at %s" % (who, q.name, wrong[:4]), key="J4 %s %s %s" % (cls, who, q.name))
